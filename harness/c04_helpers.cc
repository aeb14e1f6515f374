#include "pbt.h"
#include "libspu/core/bit_utils.h"
#include "libspu/core/shape.h"
#include "libspu/core/vectorize.h"
using namespace pbt;
using namespace spu;
namespace {
int bw(u128 v) { int n = 0; while (v) { ++n; v >>= 1; } return n; }
int cl2(u128 v) { return v <= 1 ? 0 : bw(v - 1); }
// de-interleave blocks of 2^s bits inside every chunk of L bits
u128 ref_deintl(u128 in, int s, int L, int width) {
  int B = 1 << s;
  if (2 * B > L) return in;
  u128 out = 0;
  for (int p = 0; p < width; ++p) {
    int c = p / L * L, q = p % L, blk = q / B, off = q % B;
    int np = (blk % 2 == 0) ? (blk / 2) * B + off : L / 2 + (blk / 2) * B + off;
    if ((in >> p) & 1) out |= static_cast<u128>(1) << (c + np);
  }
  return out;
}
template <class T>
void bits_case(Gen& g, const char* tn) {
  int W = sizeof(T) * 8;
  T x = static_cast<T>(g.bits(W));
  int s = static_cast<int>(g.u(static_cast<uint64_t>(cl2(static_cast<u128>(W)))));
  g.tag(tn);
  g.say("{} x={} stride={}", tn, str(x), s);
  g.nontrivial(x != 0 && (1 << (s + 1)) < W);
  T d = BitDeintl<T>(x, s), i = BitIntl<T>(x, s);
  REQUIRE(d == static_cast<T>(ref_deintl(x, s, W, W)), "BitDeintl gave {}", str(d));
  REQUIRE(BitIntl<T>(d, s) == x && BitDeintl<T>(i, s) == x, "interleave and de-interleave are not inverse");
  REQUIRE(static_cast<T>(ref_deintl(i, s, W, W)) == x, "BitIntl gave {}", str(i));
  // explicit bit counts: the operand has no bits above the count
  int nb = static_cast<int>(g.in(1, W)), L = 1 << cl2(static_cast<u128>(nb));
  T y = nb >= W ? x : static_cast<T>(x & ((static_cast<T>(1) << nb) - 1));
  T d2 = BitDeintl<T>(y, s, nb), i2 = BitIntl<T>(y, s, nb);
  REQUIRE(d2 == static_cast<T>(ref_deintl(y, s, L, L)), "BitDeintl over {} bits gave {}", nb, str(d2));
  REQUIRE(static_cast<T>(ref_deintl(i2, s, L, L)) == y, "BitIntl over {} bits gave {}", nb, str(i2));
  REQUIRE(BitWidth(x) == static_cast<size_t>(bw(x)), "BitWidth({}) = {}", str(x), BitWidth(x));
  if constexpr (sizeof(T) == 8) {
    REQUIRE(detail::BitDeintlWithPdepext(x, s) == BitDeintl<uint64_t>(x, s), "pext variant differs");
    REQUIRE(detail::BitIntlWithPdepext(x, s) == BitIntl<uint64_t>(x, s), "pdep variant differs");
    REQUIRE(Log2Floor(x) == (x <= 1 ? 0 : bw(x) - 1), "Log2Floor({}) = {}", x, Log2Floor(x));
    REQUIRE(Log2Ceil(x) == cl2(x), "Log2Ceil({}) = {}", x, Log2Ceil(x));
  }
}
Shape gshape(Gen& g, int64_t maxd, int64_t lo) {
  Shape s;
  auto n = g.in(0, 5);
  for (int64_t i = 0; i < n; ++i) s.push_back(g.p(0.25) ? 1 : g.in(lo, maxd));
  return s;
}
}  // namespace
PBT(C04, bits, 600000, 10000000, "operand not zero and stride smaller than half the width") {
  switch (g.u(4)) {
    case 0: return bits_case<uint8_t>(g, "u8");
    case 1: return bits_case<uint16_t>(g, "u16");
    case 2: return bits_case<uint32_t>(g, "u32");
    case 3: return bits_case<uint64_t>(g, "u64");
    default: return bits_case<unsigned __int128>(g, "u128");
  }
}
PBT(C04, shapes, 30000, 400000, "more than one element") {
  auto s = gshape(g, 6, 1);
  g.say("shape {}", fmt::join(s, "x"));
  int64_t n = 1;
  for (auto d : s) n *= d;
  REQUIRE(s.numel() == n && s.ndim() == static_cast<int64_t>(s.size()), "numel {} ndim {}", s.numel(), s.ndim());
  REQUIRE(s.isScalar() == (s.size() == 0) && s.isTensor() == (s.size() != 0) && !s.isEmpty(), "scalar/tensor/empty flags");
  if (n > 3000) throw Discard{};
  g.nontrivial(n > 1);
  auto st = makeCompactStrides(s);
  Index idx(s.size(), 0);
  Index walk(s.size(), 0);
  for (int64_t k = 0; k < n; ++k) {
    auto u = unflattenIndex(k, s);
    // row-major enumeration
    REQUIRE(u == walk, "unflattenIndex({}) = {}", k, u);
    REQUIRE(flattenIndex(u, s) == k, "flattenIndex of {} is {}", u, flattenIndex(u, s));
    REQUIRE(static_cast<int64_t>(calcFlattenOffset(u, s, st)) == k, "compact strides give offset {} for {}", calcFlattenOffset(u, s, st), u);
    REQUIRE(static_cast<int64_t>(calcFlattenOffset(u, s, Strides{})) == k, "default strides give offset {} for {}", calcFlattenOffset(u, s, Strides{}), u);
    REQUIRE(u.inBounds(s), "in bounds");
    // independent odometer
    for (int64_t d = s.ndim() - 1; d >= 0; --d) {
      if (++walk[d] < s[d]) break;
      walk[d] = 0;
    }
    bool more = bumpIndices(absl::MakeConstSpan(s), absl::MakeSpan(idx));
    REQUIRE(more == (k + 1 < n), "bumpIndices says {} at {}", more, k);
    if (more) REQUIRE(idx == walk, "bumpIndices went to {}", idx);
  }
  Strides rs;
  Index ri;
  int64_t off = 0;
  for (auto d : s) { rs.push_back(g.in(-7, 20)); ri.push_back(g.in(0, d - 1)); off += rs.back() * ri.back(); }
  {
    if (s.size()) REQUIRE(static_cast<int64_t>(calcFlattenOffset(ri, s, rs)) == off, "offset {} with strides {}", calcFlattenOffset(ri, s, rs), rs);
  }
  Index bad = ri;
  if (!bad.empty()) {
    auto d = g.u(bad.size() - 1);
    bad[d] = g.p() ? s[d] + g.in(0, 3) : -1 - g.in(0, 3);
    REQUIRE(!bad.inBounds(s), "{} is not inside", bad);
    bad = ri; bad.push_back(0);
    REQUIRE(!bad.inBounds(s), "rank mismatch is not inside");
  }
  Shape e = s;
  if (!e.size()) e.push_back(0);
  e[g.u(e.size() - 1)] = 0;
  REQUIRE(e.isEmpty() && e.numel() == 0, "empty shape");
}
PBT(C04, vmap_vreduce, 60000, 600000, "at least two vectors") {
  using V = std::vector<uint64_t>;
  std::vector<V> a, b;
  auto n = g.in(1, 12);
  bool equal = g.p();
  auto len0 = g.in(0, 6);
  for (int64_t i = 0; i < n; ++i) {
    V x(equal ? len0 : g.in(0, 6)), y;
    for (auto& v : x) v = g.u(1000);
    y = x;
    for (auto& v : y) v = g.u(1000);
    a.push_back(x);
    b.push_back(y);
  }
  g.say("{} vectors, first of length {}", n, a[0].size());
  g.nontrivial(n >= 2);
  int calls = 0;
  auto f1 = [&](const V& x) { ++calls; V r = x; for (auto& v : r) v = v * 3 + 1; return r; };
  auto f2 = [&](const V& x, const V& y) {
    ++calls;
    REQUIRE(x.size() == y.size(), "operands of a binary map have different lengths");
    V r = x;
    for (size_t i = 0; i < r.size(); ++i) r[i] = x[i] * 1000003 + y[i];
    return r;
  };
  std::vector<V> o;
  vmap(a.begin(), a.end(), std::back_inserter(o), f1);
  REQUIRE(o.size() == a.size() && calls == 1, "unary map: {} results in {} calls", o.size(), calls);
  for (size_t i = 0; i < a.size(); ++i) { auto r = f1(a[i]); REQUIRE(o[i] == r, "unary map element {}", i); }
  calls = 0;
  o.clear();
  vmap(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(o), f2);
  REQUIRE(o.size() == a.size() && calls == 1, "binary map: {} results in {} calls", o.size(), calls);
  for (size_t i = 0; i < a.size(); ++i) { auto r = f2(a[i], b[i]); REQUIRE(o[i] == r, "binary map element {}", i); }
  if (a.size() == 2) {
    auto r = vmap<V>({a[0], a[1]}, f1);
    REQUIRE(r.size() == 2 && r[0] == f1(a[0]) && r[1] == f1(a[1]), "initializer-list map");
    auto r2 = vmap<V>({a[0], a[1]}, {b[0], b[1]}, f2);
    REQUIRE(r2.size() == 2 && r2[0] == f2(a[0], b[0]) && r2[1] == f2(a[1], b[1]), "initializer-list binary map");
  }
  if (equal) {
    // associative and commutative: the tree must not matter, every element is used once
    calls = 0;
    auto r = vreduce(a.begin(), a.end(), [&](const V& x, const V& y) { ++calls; V z = x; for (size_t i = 0; i < z.size(); ++i) z[i] += y[i]; return z; });
    V e(len0);
    for (auto& x : a) for (size_t i = 0; i < e.size(); ++i) e[i] += x[i];
    REQUIRE(r == e, "reduce gives a wrong sum");
    REQUIRE(calls == cl2(static_cast<u128>(n)) || calls <= 2 * cl2(static_cast<u128>(n)), "reduce of {} takes {} rounds", n, calls);
  }
}
