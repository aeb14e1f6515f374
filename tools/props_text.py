prop('C01', 'Encoding plaintext into ring elements and decoding it back is faithful',
 '''Encoding an array of any supported plaintext type (booleans, signed and unsigned integers of every width, half, float, double) into any ring width and number of fraction bits and decoding it again returns integers and booleans exactly and reals within one quantum of 2^-fxp.
 Reals outside the representable range saturate at the largest or smallest representable value, NaN encodes as zero, and the encoded ring element is the documented two's complement scaled integer.
 The result does not depend on the memory layout of the plaintext buffer or of the array view.''',
 ['inputs', 'configurations'], 'every plaintext type x ring width x fraction bits x buffer stride/shape, all values including infinities, NaN, denormals and the extremes of each type',
 'encoding_test samples a handful of values per type with compact buffers and one fxp setting.',
 ['core/encoding.cc', 'core/encoding.h', 'core/pt_buffer_view.cc', 'core/pt_buffer_view.h', 'core/type_util.h'],
 [('saturating fixed-point encode', 'core/encoding.cc encodeToRing'), ('decode with exponent shift', 'core/encoding.cc decodeFromRing')])
prop('C02', 'Array views address exactly the elements their shape and strides denote',
 '''Any composition of slicing, transposing, reversing, reshaping, broadcasting, expanding, padding, concatenating, updating and gathering/scattering of an array yields exactly the elements plain index arithmetic prescribes.
 Views share storage with their origin and copies do not; writing through a view changes exactly the elements that view denotes and nothing else.
 Compactness, element count and byte offsets reported by a view always agree with that mapping.''',
 ['inputs', 'programs'], 'all shapes (including scalars and empty dimensions), strides and sequences of view operations',
 'ndarray_ref_test checks a few fixed shapes; compositions of views and write-through are not sampled.',
 ['core/ndarray_ref.cc', 'core/ndarray_ref.h', 'core/shape.cc', 'core/shape.h'],
 [('view transformations', 'core/ndarray_ref.cc'), ('index and stride arithmetic', 'core/shape.h')])
prop('C03', 'Values, types and configurations survive serialisation unchanged',
 '''Serialising a secret or public value to its wire form, at any chunk size and with the chunks of each (real or imaginary) part in any order, and reading it back yields a value with the same shape, data type, storage type and elements.
 Printing a type and parsing it gives the same type, and converting a runtime configuration to and from its protobuf form preserves every field.
 Truncated, duplicated, missing or inconsistent wire content is rejected with an error and never accepted as a different value.''',
 ['inputs', 'configurations', 'fault_sequences'], 'all storage types, shapes, memory layouts, chunk sizes, chunk orders and corruptions of the chunk list; all configuration field values',
 'value_test and type_test round-trip a few values at one chunk size and one order; no corruption is tried.',
 ['core/value.cc', 'core/value.h', 'core/type.cc', 'core/type.h', 'core/config.cc', 'spu.h', 'core/type_util.cc'],
 [('chunked value serialisation', 'core/value.cc Value::toProto / fromProto'), ('type names', 'core/type.cc'), ('configuration conversion', 'core/config.cc')])
prop('C04', 'Bit, shape and vector helpers compute their mathematical definition',
 '''Bit utilities (leading zeros, bit reversal, interleaving and de-interleaving at every stride, bit-width and logarithm helpers) return exactly what their definition gives, for every operand of every supported width, and interleaving is the inverse of de-interleaving.
 Shape helpers (index to offset and back, broadcasting strides, stride calculation) are mutually inverse and agree with row-major enumeration, and blockwise vector maps and reductions agree with the plain elementwise ones.''',
 ['inputs'], 'all operands of width 8 to 128, all strides, all shapes and all vector lengths',
 'bit_utils_test, shape_test and vectorize_test check a few constants.',
 ['core/bit_utils.h', 'core/bit_utils.cc', 'core/shape.h', 'core/vectorize.h'],
 [('bit interleaving', 'core/bit_utils.h'), ('shape arithmetic', 'core/shape.h')])
prop('C05', 'Half-precision arithmetic rounds correctly for every operand',
 '''Every half-precision value converts to single precision exactly and back to itself, and converting any single-precision, double-precision or integer number to half gives the correctly rounded (to nearest, ties to even) value.
 Addition, subtraction, multiplication, division, square root, fused multiply-add, remainder, rounding functions and comparisons equal the exactly computed result rounded once, with IEEE treatment of infinities, NaN, signed zero and subnormals; elementary functions stay within their documented accuracy.''',
 ['inputs'], 'all 65536 half values for unary operations and pairs/triples of them for the others; all 2^32 floats for conversion',
 'no repository test exercises the half type beyond being an encodable type.',
 ['core/half.h'], [('software half-precision arithmetic and rounding', 'core/half.h')])
prop('C06', 'Cost expressions print to text that denotes the same value they evaluate to',
 '''For every cost expression built from constants, variables and the supported operators, evaluating it under any assignment gives the value of the formula it was built from.
 The text it prints, read with the usual operator precedence, denotes that same value under every assignment.''',
 ['inputs', 'programs'], 'all expression trees, variable assignments',
 'cexpr_test evaluates and prints a few fixed expressions.',
 ['core/cexpr.h', 'core/cexpr.cc'], [('expression tree evaluation and printing', 'core/cexpr.cc')])
prop('C07', 'Strided matrix multiplication is exact and writes only its result',
 '''Multiplying two matrices given by pointers with arbitrary leading-dimension and inner-dimension strides yields, for every element type, exactly the matrix product (modulo 2^k for the integer rings).
 The inputs and every memory element outside the strided result are left untouched, whatever the sizes, including empty dimensions and single rows or columns.''',
 ['inputs'], 'all sizes M, N, K (including 0 and 1), all strides (dense, padded, transposed, broadcast), all element types and values',
 'linalg_test multiplies two fixed small matrices.',
 ['mpc/utils/linalg.h'], [('strided Eigen maps', 'mpc/utils/linalg.h matmul')])
prop('C08', 'Ring tensor operations agree with modular arithmetic for every layout',
 '''Every elementwise, shift, bit, comparison, matrix and bit-packing operation on ring tensors equals integer arithmetic modulo 2^32, 2^64 or 2^128 applied element by element.
 This holds for operands of any stride and layout, the in-place variants give the same result as the copying ones, and operands other than the declared target are unchanged.''',
 ['inputs', 'configurations'], 'all ring widths, shapes, strides, shift amounts, bit ranges and element values',
 'ring_ops tests cover a few operations on compact arrays with fixed sizes.',
 ['mpc/utils/ring_ops.cc', 'mpc/utils/ring_ops.h', 'mpc/utils/linalg.h'],
 [('ring kernels', 'mpc/utils/ring_ops.cc')])
prop('C09', 'Mersenne-prime field arithmetic satisfies the field definition',
 '''Addition, subtraction, negation, multiplication, inversion, exponentiation and reduction over the fields with Mersenne primes 2^31-1, 2^61-1 and 2^127-1 agree with exact integer arithmetic modulo the prime, and results are canonical.
 Tensor operations over the field equal the elementwise operations for every layout, and every non-zero element times its inverse is one.''',
 ['inputs'], 'all field elements and all three primes, including 0, 1, p-1 and unreduced inputs',
 'gfmp tests check a few constants.',
 ['mpc/utils/gfmp.h', 'mpc/utils/gfmp_ops.cc', 'mpc/utils/gfmp_ops.h'],
 [('Mersenne reduction', 'mpc/utils/gfmp.h'), ('field tensors', 'mpc/utils/gfmp_ops.cc')])
prop('C10', 'Permutation helpers form the permutation group and networks realise it',
 '''Applying, inverting and composing permutations obey the group laws, generated random permutations are bijections, and permutation networks configured for a permutation output exactly the permuted input for every size.''',
 ['inputs'], 'all permutations and sizes (including sizes that are not powers of two)',
 'permute and Waksman tests run a few sizes with one seed.',
 ['mpc/utils/permute.cc', 'mpc/utils/permute.h', 'mpc/utils/waksman_net.cc', 'mpc/utils/waksman_net.h'],
 [('permutation utilities', 'mpc/utils/permute.cc'), ('Waksman network routing', 'mpc/utils/waksman_net.cc')])
prop('C11', 'Boolean circuits and the LowMC cipher compute their reference functions',
 '''The carry adders and every other boolean circuit built over an abstract bit engine compute exactly the arithmetic they stand for on all operands of every width.
 The LowMC cipher equals the published round function for its parameters, decryption of the circuit under a wrong key differs, and the matrices and constants are a fixed function of the seed and invertible whenever decryption is requested.''',
 ['inputs', 'configurations'], 'all operands and bit widths; all LowMC block, key and data-complexity parameters',
 'circuits_test and lowmc_test use one random operand array each.',
 ['mpc/utils/circuits.h', 'mpc/utils/lowmc.cc', 'mpc/utils/lowmc.h', 'mpc/utils/lowmc_utils.cc'],
 [('prefix adders', 'mpc/utils/circuits.h'), ('LowMC', 'mpc/utils/lowmc.cc')])
prop('C12', 'Pseudo-random state stays in step between the parties that share it',
 '''After any sequence of draws, forks and replays, parties that share a pseudo-random stream (all parties for public randomness, neighbours for pairwise randomness, the dealer for tracked randomness) draw identical values, shares of zero sum (or xor) to zero across parties, and different draws never reuse the same part of the stream.
 Replaying recorded random tensors with the same seed and description yields the same elements.''',
 ['histories', 'configurations'], 'all interleavings of public, pairwise and private draws, forks, shapes and field sizes; 2 to 8 parties',
 'prg_state tests draw a few fixed-size arrays once.',
 ['mpc/common/prg_state.cc', 'mpc/common/prg_state.h', 'mpc/common/prg_tensor.h'],
 [('counter-based shared streams', 'mpc/common/prg_state.cc'), ('recorded tensors', 'mpc/common/prg_tensor.h')])
prop('C13', 'Collective communication delivers the reduction every party expects',
 '''All-reduce, reduce, rotate, gather, scatter, broadcast and the other collectives give every party exactly the mathematically defined result, for every number of parties, operation, ring, shape and memory layout.
 Messages of different sub-channels and of overlapping calls are never confused, and the traffic counters equal what was really sent.''',
 ['inputs', 'histories', 'schedules', 'configurations'], 'all operations, party counts, shapes, layouts, message orders and thread schedules',
 'communicator_test runs each collective once with one array.',
 ['mpc/common/communicator.cc', 'mpc/common/communicator.h'],
 [('collectives over the link', 'mpc/common/communicator.cc')])
prop('C14', 'Sharing, resharing and revealing a value returns exactly that value',
 '''Under every protocol, turning a public or private value into secret shares, converting it along any chain of representations (arithmetic, boolean of any bit width, public, private to a party) and revealing it to everyone or to one party returns exactly the original ring element.
 Representation-changing casts keep the value, layout and shape of the array, and only the intended party learns a privately revealed value.''',
 ['inputs', 'programs', 'configurations'], 'all protocols, rings, party counts, owners, element values, shapes, strides and conversion chains',
 'protocol tests convert one random array per pair of representations.',
 ['mpc/api.cc', 'mpc/ab_api.cc', 'mpc/aby3/conversion.cc', 'mpc/semi2k/conversion.cc', 'mpc/cheetah/conversion.cc', 'mpc/securenn/conversion.cc', 'mpc/spdz2k/conversion.cc', 'mpc/experimental/swift/conversion.cc', 'mpc/common/pv2k.cc'],
 [('representation dispatch', 'mpc/api.cc'), ('protocol conversions', 'mpc/ab_api.cc')])
prop('C15', 'Secret arithmetic equals plaintext ring arithmetic for every program',
 '''For every protocol, any program of additions, subtractions, negations, multiplications, squares, matrix products, tensor products and convolutions over any mix of secret, private and public operands reveals exactly the result of the same program over the plaintext ring.
 This holds for every ring width, shape, broadcast or strided operand, operand aliasing, number of parties and randomness.''',
 ['programs', 'inputs', 'configurations'], 'all straight-line arithmetic programs over public, private and secret operands, all protocols and rings',
 'api tests run each single operation on one random array per protocol.',
 ['mpc/api.cc', 'mpc/ab_api.cc', 'mpc/semi2k/arithmetic.cc', 'mpc/aby3/arithmetic.cc', 'mpc/cheetah/arithmetic.cc', 'mpc/securenn/arithmetic.cc', 'mpc/spdz2k/arithmetic.cc', 'mpc/experimental/swift/arithmetic.cc', 'mpc/ref2k/ref2k.cc'],
 [('arithmetic kernels per protocol', 'mpc/semi2k/arithmetic.cc')])
prop('C16', 'Secret boolean, comparison and shift operations equal plaintext ones',
 '''For every protocol, programs of AND, XOR, NOT, logical and arithmetic shifts, bit reversal, bit interleaving, equality, most-significant-bit extraction and arithmetic/boolean conversion over secret, private and public operands reveal exactly the plaintext bit-level result.
 The declared number of valid bits of a boolean share never drops information that a later operation needs.''',
 ['programs', 'inputs', 'configurations'], 'all operand values and bit widths, shift amounts, boolean programs, protocols, rings and party counts',
 'api and ab_api tests check single operations on one random array.',
 ['mpc/api.cc', 'mpc/ab_api.cc', 'mpc/semi2k/boolean.cc', 'mpc/aby3/boolean.cc', 'mpc/cheetah/boolean.cc', 'mpc/securenn/boolean.cc', 'mpc/spdz2k/boolean.cc', 'mpc/spdz2k/value.cc', 'mpc/experimental/swift/boolean.cc', 'mpc/ref2k/ref2k.cc'],
 [('boolean kernels', 'mpc/semi2k/boolean.cc'), ('comparison dispatch', 'mpc/ab_api.cc')])
prop('C17', 'Truncation errs by at most its stated bound',
 '''Truncating a secret fixed-point number by any number of bits reveals the arithmetic right shift of the plaintext up to the error bound of the protocol's truncation (one unit in the last place, or exact where documented), for every value within the admissible magnitude and both signs.
 Truncations that claim to avoid large errors never produce one.''',
 ['inputs', 'configurations', 'schedules'], 'all admissible values, shift amounts, protocols, rings and randomness',
 'tests truncate small random arrays and accept the error only on average.',
 ['mpc/semi2k/arithmetic.cc', 'mpc/aby3/arithmetic.cc', 'mpc/cheetah/arithmetic.cc', 'mpc/securenn/arithmetic.cc', 'mpc/spdz2k/arithmetic.cc', 'mpc/experimental/swift/arithmetic.cc'],
 [('probabilistic and exact truncation', 'mpc/semi2k/arithmetic.cc')])
prop('C18', 'Secret permutation moves every element exactly where the permutation says',
 '''Applying a random, private, public or secret-shared permutation (or its inverse) to secret vectors reveals exactly the permuted vector, the same permutation applied to several payloads keeps rows together, and applying a permutation and then its inverse is the identity.
 The secret random permutation is a bijection and is not fixed by public information.''',
 ['inputs', 'configurations', 'programs'], 'all permutations, lengths, protocols and rings',
 'tests permute one array of one length.',
 ['mpc/semi2k/permute.cc', 'mpc/aby3/permute.cc', 'mpc/cheetah/permute.cc', 'mpc/securenn/arithmetic.cc', 'mpc/api.cc'],
 [('oblivious permutation kernels', 'mpc/semi2k/permute.cc')])
prop('C19', 'Correlated randomness always satisfies the relation it is drawn for',
 '''Every multiplication, AND, matrix, square, truncation, permutation, equality or random-bit tuple handed out by the trusted first party, by the trusted third party server or by the maliciously secure dealer reconstructs to exactly the relation it is named for.
 This holds for every ring, size, party count and history of requests, including tuples served from a cache, cut out of a replayed stream, or split over several network messages.''',
 ['histories', 'inputs', 'configurations', 'schedules'], 'all request sequences, sizes, rings, party counts, cache hits and chunkings',
 'beaver_test draws each tuple once with small sizes.',
 ['mpc/semi2k/beaver/beaver_impl/beaver_tfp.cc', 'mpc/semi2k/beaver/beaver_impl/beaver_ttp.cc', 'mpc/semi2k/beaver/beaver_impl/trusted_party/trusted_party.cc', 'mpc/semi2k/beaver/beaver_impl/ttp_server/beaver_server.cc', 'mpc/semi2k/beaver/beaver_cache.cc', 'mpc/spdz2k/beaver/beaver_tfp.cc', 'mpc/spdz2k/beaver/trusted_party.cc'],
 [('tuple adjustment by the trusted party', 'mpc/semi2k/beaver/beaver_impl/trusted_party/trusted_party.cc')])
prop('C20', 'What a party sees does not depend on the other parties\' secrets',
 '''For every operation and protocol, the number, order, size and peers of the messages are a function of public shapes and types only, never of secret values.
 The content of the messages and shares any allowed coalition of parties receives is distributed identically for any two secret inputs (uniformly where shares or masked openings are sent), up to the values deliberately revealed.''',
 ['inputs', 'schedules', 'programs'], 'all secret inputs, randomness, operations, protocols and corrupted coalitions',
 'no test looks at transcripts at all; functional tests pass even if masks are constant.',
 ['mpc/semi2k/arithmetic.cc', 'mpc/semi2k/boolean.cc', 'mpc/semi2k/conversion.cc', 'mpc/semi2k/permute.cc', 'mpc/aby3/arithmetic.cc', 'mpc/aby3/boolean.cc', 'mpc/aby3/conversion.cc', 'mpc/securenn/arithmetic.cc', 'mpc/cheetah/ot/basic_ot_prot.cc'],
 [('masking before every opening', 'mpc/semi2k/arithmetic.cc'), ('resharing with zero shares', 'mpc/aby3/arithmetic.cc')])
prop('C21', 'Actively secure protocols never accept a corrupted message as a wrong result',
 '''When a party of a maliciously secure protocol alters, drops or replaces any message or any share it holds, the honest parties either obtain the correct result or stop with an error.
 They never output a wrong value, except with the protocol's stated negligible probability.''',
 ['fault_sequences', 'inputs', 'programs'], 'all single- and multi-message corruptions of every operation, at every point of the exchange',
 'no test injects a corrupted message.',
 ['mpc/spdz2k/arithmetic.cc', 'mpc/spdz2k/boolean.cc', 'mpc/spdz2k/state.h', 'mpc/spdz2k/commitment.cc', 'mpc/experimental/swift/arithmetic.cc', 'mpc/experimental/swift/conversion.cc'],
 [('MAC check of openings', 'mpc/spdz2k/arithmetic.cc'), ('joint message passing', 'mpc/experimental/swift/arithmetic.cc')])
prop('C23', 'Results do not depend on scheduling, tiling, chunking or concurrency settings',
 '''With the same inputs, every computation reveals the same result (exactly for integer and boolean results, within its error bound for truncated ones) whatever the number of worker threads, the partition of parallel loops, the vector tile size, the send buffering, the interleaving of the parties and concurrent execution on forked contexts.
 All parties always agree on the revealed result.''',
 ['schedules', 'configurations', 'programs'], 'all loop partitions, tile sizes, thread schedules and experimental concurrency options',
 'tests run with one default configuration and whatever schedule happens.',
 ['mpc/utils/tiling_util.h', 'core/parallel_utils.h', 'core/context.cc', 'kernel/hal/fxp_approx.cc', 'mpc/api.cc'],
 [('tiled dispatch on forked contexts', 'mpc/utils/tiling_util.h')])
prop('C24', 'Integer and boolean kernel operations equal two\'s complement arithmetic',
 '''For every mix of visibility (public, private, secret) and integer or boolean data type, the user-level add, subtract, multiply, negate, comparison, logic, select, clamp, min, max, sign, absolute value, shift, integer division and remainder operations produce exactly the two's complement result of the promoted type.
 Results carry the documented data type and shape; order comparisons are exact whenever the difference of the operands fits the signed ring, and integer division for operands and quotients within the precision of the fixed-point reciprocal it is built on.''',
 ['inputs', 'programs', 'configurations'], 'all operand values, data types, visibilities, shapes and protocols',
 'kernel tests use small fixed operands under one protocol.',
 ['kernel/hal/integer.cc', 'kernel/hal/polymorphic.cc', 'kernel/hal/type_cast.cc', 'kernel/hal/prot_wrapper.cc', 'kernel/hal/ring.cc', 'kernel/hlo/basic_binary.cc', 'kernel/hlo/basic_unary.cc', 'kernel/hlo/basic_ternary.cc'],
 [('type dispatch', 'kernel/hal/polymorphic.cc')])
prop('C25', 'Fixed-point multiplication and division stay within their error bounds',
 '''Fixed-point addition, subtraction and scaling are exact; multiplication, squaring, dot products and matrix products err by no more than a few units of 2^-fxp per truncation; division and reciprocal err by no more than their documented relative and absolute bound.
 This holds for every visibility mix, sign combination and magnitude whose result and intermediate products are representable (for division, also |divisor| < 2^fxp), including mixed integer/real operands.''',
 ['inputs', 'configurations'], 'all representable operands, fraction bits, rings, protocols, visibilities and shapes',
 'fxp tests use small fixed operand lists and loose tolerances.',
 ['kernel/hal/fxp_base.cc', 'kernel/hal/fxp_approx.cc', 'kernel/hal/fxp_cleartext.cc', 'kernel/hal/polymorphic.cc', 'kernel/hlo/basic_binary.cc'],
 [('truncate after multiply', 'kernel/hal/fxp_base.cc f_mul'), ('Goldschmidt division', 'kernel/hal/fxp_base.cc f_div')])
prop('C26', 'Nonlinear functions approximate the real function within a fixed error',
 '''Exponential, logarithms, power, square root, inverse square root, logistic, tanh, sine, cosine, two-argument arc tangent, arc sine and cosine, error function, rounding, floor, ceiling and the other elementwise real functions stay within a fixed error, determined by the approximation and the fraction bits, of the true function over the domain on which their intermediate values fit the ring; rounding functions are exact.
 Every approximation mode and parameter selectable in the configuration obeys this, whatever the representation (secret arithmetic or boolean, private, public) of the operands, and public inputs give the result at the precision of their type.''',
 ['inputs', 'configurations'], 'all representable inputs in the documented domains, all approximation modes, fraction bits, rings and protocols',
 'fxp_approx tests check a few points with the default mode.',
 ['kernel/hal/fxp_approx.cc', 'kernel/hal/fxp_base.cc', 'kernel/hal/fxp_cleartext.cc', 'kernel/hlo/basic_unary.cc'],
 [('range reduction and polynomial approximation', 'kernel/hal/fxp_approx.cc')])
prop('C27', 'Tensor shape and indexing operators select exactly the specified elements',
 '''Slice, dynamic slice and update, gather by public or secret index, pad (including negative and interior padding), concatenate, broadcast, transpose, reshape, reverse, iota and filter operators produce exactly the elements the XLA-style specification prescribes.
 Out-of-range dynamic start indices clamp as specified, results never alias in a way that lets one result change another, and secret indices give the same elements as public ones.''',
 ['inputs', 'programs'], 'all shapes, ranks, index operands (public and secret), padding and stride configurations',
 'hlo tests use a few fixed examples per operator.',
 ['kernel/hlo/indexing.cc', 'kernel/hlo/geometrical.cc', 'kernel/hal/shape_ops.cc', 'kernel/hlo/const.cc'],
 [('indexing operators', 'kernel/hlo/indexing.cc')])
prop('C28', 'Reductions, windows, pooling and convolutions equal their nested-loop definition',
 '''Reduce, windowed reduce, argmax/max pooling, select-and-scatter and convolution with any window, stride, padding and dilation equal the direct nested-loop definition over the plaintext, including empty windows padded with the initial value.
 Reduction results do not depend on the reduction tree; where a window has equal maxima, any one of them may be selected.''',
 ['inputs', 'configurations'], 'all ranks, reduced dimension sets, window sizes, strides, dilations, paddings and values',
 'reduce and convolution tests use a few fixed examples.',
 ['kernel/hlo/reduce.cc', 'kernel/hlo/select_and_scatter.cc', 'kernel/hlo/convolution.cc'],
 [('tree reduction', 'kernel/hlo/reduce.cc')])
prop('C29', 'Secret sorting returns the stably ordered permutation of its input',
 '''Sorting secret or public vectors, by one or several keys, ascending or descending, with any sorting method, returns a permutation of the input rows in the requested order, with all payload columns permuted alike and stability where promised.
 Top-k returns the k largest or smallest values with matching indices, and simple sort, quicksort, radix sort, bitonic and merge networks agree.''',
 ['inputs', 'configurations'], 'all lengths (including 0, 1 and non powers of two), duplicate keys, key and payload types, methods, protocols',
 'sort tests use a few fixed vectors.',
 ['kernel/hlo/sort.cc', 'kernel/hal/permute.cc'],
 [('sorting networks and radix sort', 'kernel/hal/permute.cc')])
prop('C30', 'Shuffle, row permutation, tagging and group-by keep table semantics',
 '''Shuffling secret columns outputs the same multiset of rows in a uniformly random order, and applying a permutation or its inverse by the user-level operators outputs exactly the permuted table.
 Shared oblivious pseudo-random tags are equal exactly when the joined key columns are equal, for every key value; group-by aggregation returns for every group of equal keys the sum or average of its payload rows.''',
 ['inputs', 'configurations'], 'all tables (lengths, duplicate rows, multi-column keys), protocols and randomness',
 'tests shuffle one vector.',
 ['kernel/hlo/shuffle.cc', 'kernel/hlo/permute.cc', 'kernel/hlo/soprf.cc', 'kernel/hal/permute.cc', 'kernel/hlo/group_by_agg.cc', 'mpc/semi2k/lowmc.cc'],
 [('shuffle and permutation operators', 'kernel/hlo/shuffle.cc')])
prop('C31', 'Control flow on public and secret conditions selects the right branch',
 '''If, case and while operators run exactly the branch or the number of iterations a public condition demands; for a condition that is secret or owned by one party all branches are evaluated and the selected results equal those of the taken branch, elementwise, and a loop on a secret condition is refused.
 Out-of-range case indices take the last branch, and values carried through loops are unchanged by untaken branches.''',
 ['programs', 'inputs'], 'all condition values and visibilities, branch counts, carried types and shapes',
 'control_flow tests use fixed two-branch examples.',
 ['kernel/hlo/control_flow.cc'],
 [('oblivious branch multiplexing', 'kernel/hlo/control_flow.cc')])
prop('C32', 'Type conversions and bit casts keep the value or wrap as specified',
 '''Converting a public or secret value between any two data types gives the value exactly when representable, truncates reals toward zero, wraps integers modulo the target width when read back at that type and maps numbers to booleans as specified.
 Bit casts reinterpret without changing bits, and type promotion of mixed operations follows the documented lattice.''',
 ['inputs', 'configurations'], 'all source and target types, visibilities and values at the boundaries of each type',
 'type_cast tests convert a few values.',
 ['kernel/hal/type_cast.cc', 'kernel/hlo/casting.cc', 'kernel/hal/polymorphic.cc', 'core/type_util.cc'],
 [('dtype cast', 'kernel/hal/type_cast.cc')])
prop('C33', 'Random operators are in range, uniform and agreed by all parties',
 '''Uniform random tensors lie in the requested half-open interval for every type, are distributed uniformly, and all parties see the same public values.
 Two draws differ, no single party's randomness determines a public or secret random value, and secret random values are uniform over the ring or over bits.''',
 ['inputs', 'histories', 'configurations'], 'all ranges, types, shapes, seeds and draw sequences',
 'rand tests check a single draw for range.',
 ['kernel/hlo/rand.cc', 'kernel/hal/random.cc', 'mpc/api.cc'],
 [('public randomness scaling', 'kernel/hal/random.cc')])
prop('C34', 'Data-owner input and output through shares returns the data owner\'s data',
 '''Splitting a plaintext array into shares at the client, uploading the shares to the parties and combining the parties\' output shares at the client returns the original array for every protocol, party count, element type, visibility and shape.
 Inputs supplied by a co-located data owner are equivalent to uploaded ones, the symbol table returns exactly what was last stored under a name, and a missing name is an error.''',
 ['inputs', 'histories', 'configurations'], 'all arrays, types, visibilities, owners, protocols, party counts and sequences of symbol-table operations',
 'io_test round-trips a few small arrays.',
 ['device/io.cc', 'device/symbol_table.cc', 'mpc/io_interface.h', 'mpc/semi2k/io.cc', 'mpc/aby3/io.cc', 'mpc/cheetah/io.cc', 'mpc/securenn/io.cc', 'mpc/spdz2k/io.cc', 'mpc/experimental/swift/io.cc', 'mpc/ref2k/ref2k.cc'],
 [('client shares', 'device/io.cc')])
prop('C35', 'Debug dump file names never mix up ranks, variables or chunks',
 '''The path a debug dump uses for a configuration, program, variable description or variable chunk is a pure function of the dump folder, rank, variable name and chunk number, and two different such files never share a path.
 Every rank-specific file lies in the folder of exactly that rank below the dump folder, and the variable name can be recovered from the name of its description file.''',
 ['inputs', 'configurations'], 'all dump folders, ranks, variable names (including names with digits, dots and underscores) and chunk numbers',
 'no test covers the dump naming.',
 ['device/utils/debug_dump_constant.cc', 'device/utils/debug_dump_constant.h'],
 [('dump file naming', 'device/utils/debug_dump_constant.cc')])
prop('C36', 'Completing a configuration only fills unset fields with valid defaults',
 '''Filling in defaults of a runtime configuration changes only fields the user left unset, is idempotent, and yields a configuration in which every dependent parameter is consistent with the ring and protocol.
 A configuration without a valid protocol or ring, or one whose protocol does not fit the number of parties of its share format, is rejected with an error when a runtime or its input/output is created.''',
 ['configurations'], 'all combinations of set and unset configuration fields',
 'config tests do not exist beyond creating default contexts.',
 ['core/config.cc', 'core/config.h', 'spu.h', 'core/context.cc'],
 [('default population', 'core/config.cc')])
prop('C38', 'Oblivious transfer and two-party comparison blocks satisfy their specification',
 '''Oblivious transfers of every flavour (correlated, random, chosen-message, 1-of-N) give the receiver exactly the chosen message and nothing depends on the sender\'s other messages; two-party compare, equality, most-significant-bit and truncation blocks built on them reconstruct to exactly the plaintext function.
 This holds for every message bit width, number of items, choice vector, and whether or not randomness was precomputed or cached.''',
 ['inputs', 'histories', 'configurations'], 'all bit widths, sizes (including not multiples of 8 and larger than internal batches), choices, radix settings and call sequences',
 'ot and nonlinear tests fix a handful of sizes and bit widths.',
 ['mpc/cheetah/ot/basic_ot_prot.cc', 'mpc/cheetah/ot/ot_util.cc', 'mpc/cheetah/ot/yacl/ferret.cc', 'mpc/cheetah/nonlinear/compare_prot.cc', 'mpc/cheetah/nonlinear/equal_prot.cc', 'mpc/cheetah/nonlinear/truncate_prot.cc'],
 [('COT-based transfers', 'mpc/cheetah/ot/basic_ot_prot.cc'), ('millionaires protocol', 'mpc/cheetah/nonlinear/compare_prot.cc')])
prop('C39', 'The execution trace accounts for every action exactly once',
 '''For any nesting of traced actions on any number of threads, including actions left by an exception, every finished action is recorded exactly once with its own name and identifiers, nesting depth returns to its starting value, and the communication volume attributed to an action equals the bytes sent between its start and end.
 Disabling a trace flag removes only the records of that flag and never changes computed results.''',
 ['histories', 'programs', 'schedules'], 'all nestings of actions, flags, exceptions and concurrent tracers',
 'trace_test prints traces without checking them.',
 ['core/trace.cc', 'core/trace.h', 'core/context.cc'],
 [('scoped trace actions', 'core/trace.h')])
