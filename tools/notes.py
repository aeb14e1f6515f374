"""Per property: (technique, level_note) used in MANIFEST.json."""
COMMON = ('Generated-input search, not proof: everything drawn from VERIF_SEED is checked against an independent oracle; '
          'values outside the drawn cases are not covered. ')
SHIM = ('Trusts the stand-in third-party headers of /verif/shim (link, PRG, OT, parallel_for). ')
N = {
 'C01': ('property-based round-trip and reference-model testing of the plaintext codec', COMMON + 'The reference rounds in exact integer/long double arithmetic.'),
 'C02': ('stateful model-based testing of array views against an index-map model', COMMON),
 'C03': ('property-based round-trip testing plus fault injection on the wire form', COMMON + 'Uses the system protobuf; chunk corruptions are single edits.'),
 'C36': ('property-based testing of configuration completion against a reference model generated over the protobuf schema', COMMON),
 'C04': ('property-based testing against bit-level reference definitions', COMMON + 'Reference definitions are naive loops over bits and indices.'),
 'C05': ('exhaustive and property-based testing against an exact integer/long double reference', COMMON + 'All 65536 halves are enumerated for unary operations; pairs, triples and conversions are drawn with a bias to rounding boundaries. The compiler\'s _Float16 / exact integer rounding is the oracle.'),
 'C06': ('grammar-based generation with a differential oracle (direct evaluation and an independent parser)', COMMON),
 'C07': ('property-based testing against a naive triple loop with guard memory', COMMON + 'Floating point values are small integers so that summation order cannot matter.'),
 'C08': ('property-based testing of ring tensor operations against integer arithmetic over random memory layouts', COMMON + SHIM),
 'C09': ('property-based testing against double-and-add arithmetic modulo the prime', COMMON + SHIM),
 'C10': ('property-based testing of group laws and step-by-step evaluation of generated networks', COMMON + SHIM),
 'C11': ('property-based and small-width exhaustive testing of circuits over instrumented bit engines; LowMC against an independent bit-level cipher', COMMON + SHIM + 'The LowMC oracle reads the public matrices from the object and checks their ranks.'),
 'C12': ('stateful property-based testing of draw histories executed by all parties at once', COMMON + SHIM),
 'C13': ('stateful property-based testing of collective programs on concurrent sub-channels', COMMON + SHIM + 'Thread schedules are whatever the machine produces; channel start orders are varied.'),
 'C39': ('model-based testing of generated action trees, exceptions and concurrent tracers', COMMON),
 'C17': ('property-based testing of every registered and alternative truncation kernel against the exact arithmetic shift', COMMON + SHIM + 'Kernels with a documented large-error probability are fed magnitudes below 2^(k/4), and one such error per case is tolerated.'),
 'C35': ('property-based testing of injectivity and round-trip of names', COMMON),
 'C14': ('stateful property-based testing: random walks through every representation conversion of seven protocols against the plaintext ring element', COMMON + SHIM + 'SPDZ2K only with the shapes it supports.'),
 'C15': ('property-based differential testing: generated programs over secret/private/public tensors on seven protocols against plaintext ring arithmetic', COMMON + SHIM + 'The Cheetah homomorphic part is an ideal functionality; its OT, conversion and tiling code is real.'),
 'C16': ('property-based differential testing: generated boolean/comparison/shift programs on seven protocols against plaintext bits', COMMON + SHIM + 'Comparisons on SecureNN/SPDZ2k stay within their documented input range.'),
 'C18': ('property-based testing of secret, private and public permutations against the plaintext permutation (inverse, composition and common-permutation laws)', COMMON + SHIM + 'Protocols with permutation kernels only (SEMI2K, ABY3, CHEETAH).'),
 'C19': ('stateful property-based testing of request histories to every dealer, tuples checked against the relation they stand for and for fresh randomness', COMMON + SHIM + 'The RPC transport of the trusted third party is in process with random message splits; the OT primitives under TinyOT are ideal.'),
 'C24': ('property-based differential testing: generated programs of user-level integer and boolean operators against exact integers', COMMON + SHIM + 'Comparisons and divisions stay in the range stated in the property.'),
 'C25': ('property-based differential testing of fixed-point operators against exact rational arithmetic with derived error bounds', COMMON + SHIM + 'Division bounds follow from the initial approximation error and the number of Goldschmidt iterations.'),
 'C27': ('property-based testing of generated operator programs over views and mixed visibilities against index arithmetic', COMMON + SHIM + 'Secret indices are tested on rings of at least 64 bits; private (single owner) indices of dynamic update slices are not.'),
 'C28': ('property-based differential testing of reductions, windows, pooling and convolution against nested loops', COMMON + SHIM + 'Padded max pooling and zero-sized reductions are rejected by the code and not claimed.'),
 'C29': ('property-based differential testing of every sort method, comparator and top-k against a stable plaintext sort', COMMON + SHIM + 'Keys stay within the comparison range stated in C24; zero-sized inputs are included.'),
 'C30': ('property-based testing of shuffles, permutations, tags and group-by against plaintext tables, with a chi-square test of the shuffle order', COMMON + SHIM + 'Tags are tested on SEMI2K, the only protocol that offers them; group-by with the key visibilities it accepts.'),
 'C31': ('model-based testing of generated nested control-flow programs with logged branch executions against a plaintext interpreter', COMMON + SHIM + 'Branch results of a secret condition have the shape of the condition, as the operator requires.'),
 'C32': ('property-based testing of cast chains, bit casts, promotion and complex numbers against exact integers', COMMON + SHIM + 'A cast integer keeps its ring value, so wrapping is observed when the value is read at its type.'),
 'C26': ('property-based testing of every elementwise real function, mode and parameter against long double references with derived error bounds', COMMON + SHIM + 'Domains and bounds are those of the approximations (truncated exp2 polynomial 8.6e-5, tanh 0.005, error function 5.2e-4, householder logarithm 2%); exponential prime mode only on its two-party 128-bit setting.'),
 'C33': ('property-based testing of generated ranges, types, shapes and draw sequences with chi-square tests and per-party reseeding', COMMON + SHIM + 'Statistical limits are exceeded with probability far below 1e-10 per case.'),
 'C34': ('property-based round-trip testing of client and symbol-table I/O over generated arrays, layouts, owners, protocols and views', COMMON + SHIM + 'SPDZ2K has no client-side I/O; complex values are exercised through the client, which is the only place that accepts them.'),
 'C20': ('property-based testing of recorded transcripts: linear (GF(2)) leak search, correlation tests and traffic comparison between inputs over generated programs, coalitions and protocols', COMMON + SHIM + 'Finds leaks that are linear or pairwise visible in messages, shares, dealer answers and own random streams; cannot rule out leaks only a non-linear combination of many words shows. The homomorphic messages of Cheetah and the dealer of the trusted first party (which knows all tuples by design) are left out.'),
 'C21': ('property-based fault injection: generated programs, a lying party altering, replaying, dropping or resizing messages, adopting its own errors, or altering its shares; honest outputs against exact values', COMMON + SHIM + 'The liar of SPDZ2K is any party but the trusted first one that deals the tuples, of SWIFT any single party. The cut-and-choose of SWIFT ands is only attacked with errors in single triples, since its fixed bucket sizes are too small to catch consistent errors in tiny batches.'),
 'C38': ('stateful property-based testing of histories of oblivious transfers and of two-party comparison, equality, truncation and conversion blocks against plaintext functions, with a search of the traffic for reused pads', COMMON + SHIM + 'The base OT extension of yacl is a stand-in with a small code; the transfers built on it are real. Transfers of one of N exist for N = 2, 4, 8, 16, 256 only. The EMP variant is not compiled.'),
 'C23': ('property-based testing of generated programs of all functional checks under forced task sizes, loop partitions, threads, delays and concurrency limits, on forked contexts, and again in a ThreadSanitizer build', COMMON + SHIM + 'The thread pool is a stand-in that runs loop pieces in arbitrary order, partition and threads; schedules are drawn with random delays, not enumerated. Races inside Eigen initialisation and the link id counter are suppressed.'),
}
NA = {}
