// Mersenne-prime field helpers and tensors against double-and-add arithmetic.
#include "layout.h"
#include "sim.h"
#include "libspu/core/type_util.h"
#include "libspu/mpc/utils/gfmp.h"
#include "libspu/mpc/utils/gfmp_ops.h"
using namespace pbt;
using namespace lay;
using namespace spu;
using namespace spu::mpc;
namespace {
int kexp(int w) { return w == 4 ? 31 : w == 8 ? 61 : 127; }
u128 prime(int w) { return (static_cast<u128>(1) << kexp(w)) - 1; }
u128 addp(u128 a, u128 b, u128 p) { return a >= p - b ? a - (p - b) : a + b; }  // a, b < p
u128 mulp(u128 a, u128 b, u128 p) {
  u128 r = 0;
  for (int i = 127; i >= 0; --i) {
    r = addp(r, r, p);
    if ((b >> i) & 1) r = addp(r, a, p);
  }
  return r;
}
u128 expp(u128 a, u128 e, u128 p) {
  u128 r = 1;
  for (int i = 127; i >= 0; --i) {
    r = mulp(r, r, p);
    if ((e >> i) & 1) r = mulp(r, a, p);
  }
  return r;
}
// canonical field element, biased to the ends and to long runs of ones
u128 elem(Gen& g, int w) {
  u128 p = prime(w);
  u128 v = g.bits(kexp(w));
  if (g.p(0.15)) v = p - 1 - g.u(3);
  return v >= p ? v - p : v;
}
template <class T>
void scalar(Gen& g) {
  int w = sizeof(T);
  u128 p = prime(w);
  T a = static_cast<T>(elem(g, w)), b = static_cast<T>(elem(g, w));
  g.say("p=2^{}-1 a={} b={}", kexp(w), str(a), str(b));
  g.nontrivial(a > 1 && b > 1);
  REQUIRE(add_mod(a, b) == static_cast<T>(addp(a, b, p)), "a+b = {}", str(add_mod(a, b)));
  T n = add_inv(a);
  REQUIRE(static_cast<u128>(n) % p == (a == 0 ? 0 : p - a) && n <= p, "-a = {}", str(n));
  REQUIRE(add_mod(a, n) == 0, "a + -a = {}", str(add_mod(a, n)));
  T m = mul_mod(a, b);
  REQUIRE(m == static_cast<T>(mulp(a, b, p)), "a*b = {}", str(m));
  REQUIRE(mul_mod(b, a) == m, "b*a = {}", str(mul_mod(b, a)));
  if (a != 0) {
    T i = mul_inv(a);
    REQUIRE(i < p && mulp(a, i, p) == 1, "1/a = {}", str(i));
  }
  // unreduced words
  T x = static_cast<T>(g.bits(8 * w)), y = static_cast<T>(g.bits(8 * w));
  g.say("x={} y={}", str(x), str(y));
  REQUIRE(mod_p(x) == static_cast<T>(x % p), "x mod p = {}", str(mod_p(x)));
  T e = static_cast<T>(g.p(0.5) ? g.u(70) : x);
  g.say("e={}", str(e));
  REQUIRE(exp_mod(a, e) == static_cast<T>(expp(a, e, p)), "a^e = {}", str(exp_mod(a, e)));
  // full-width product
  T hi = 0, lo = mul(x, y, &hi);
  u128 xl = static_cast<uint64_t>(x), xh = sizeof(T) == 16 ? static_cast<u128>(x) >> 64 : 0;
  u128 yl = static_cast<uint64_t>(y), yh = sizeof(T) == 16 ? static_cast<u128>(y) >> 64 : 0;
  u128 ll = xl * yl, lh = xl * yh, hl = xh * yl, hh = xh * yh;
  u128 mid = (ll >> 64) + static_cast<uint64_t>(lh) + static_cast<uint64_t>(hl);
  u128 full_lo = (mid << 64) | static_cast<uint64_t>(ll);
  u128 full_hi = hh + (lh >> 64) + (hl >> 64) + (mid >> 64);
  if (w < 16) { full_hi = full_lo >> (8 * w); full_lo &= mask(w); }
  REQUIRE(lo == static_cast<T>(full_lo) && hi == static_cast<T>(full_hi), "x*y = ({}, {})", str(hi), str(lo));
  REQUIRE(mul(x, y, static_cast<T*>(nullptr)) == lo, "product without a high word");
}
}  // namespace
PBT(C09, scalar, 60000, 1000000, "both field elements greater than one") {
  switch (g.u(2)) {
    case 0: return scalar<uint32_t>(g);
    case 1: return scalar<uint64_t>(g);
    default: return scalar<uint128_t>(g);
  }
}
PBT(C09, byte_product, 2000, 20000, "both factors greater than one") {
  auto a = static_cast<uint8_t>(g.u(255)), b = static_cast<uint8_t>(g.u(255));
  uint8_t h = 0;
  g.say("{} {}", a, b);
  g.nontrivial(a > 1 && b > 1);
  auto l = mul(a, b, &h);
  REQUIRE(l + 256 * h == a * b, "product {} {}", h, l);
}
PBT(C09, tensors, 60000, 1000000, "at least two elements and an operand is not compact") {
  struct Chaos {
    explicit Chaos(Gen& g) { sim::parallel_chaos = g.p(0.4) ? (g.seed() | 1) : 0; }
    ~Chaos() { sim::parallel_chaos = 0; }
  } ch(g);
  auto f = g.of({FM32, FM64, FM128});
  auto ty = makeType<GfmpTy>(f);
  int w = static_cast<int>(SizeOf(f));
  u128 p = prime(w);
  auto sh = gshape(g, 3, 4, 24);
  int op = static_cast<int>(g.u(6));
  static const char* names[] = {"mod", "add", "sub", "mul", "div", "exp", "rand"};
  auto val = [&] { return elem(g, w); };
  auto raw = [&] { return g.bits(8 * w); };
  auto nz = [&] { u128 v = elem(g, w); return v == 0 ? p - 1 : v; };
  auto ex = [&] { return g.p(0.6) ? static_cast<u128>(g.u(20)) : g.bits(8 * w); };
  auto x = op == 0 ? arr(g, ty, sh, true, raw) : arr(g, ty, sh, true, val);
  auto y = op == 4 ? arr(g, ty, sh, false, nz) : op == 5 ? arr(g, ty, sh, false, ex) : arr(g, ty, sh, false, val);
  bool alias = g.p(0.1) && op >= 1 && op <= 3;
  const auto& yr = alias ? x.r : y.r;
  auto yv = alias ? x.v : y.v;
  g.say("{} 2^{}-1 x={}{} y={}{}", names[op], kexp(w), show(x), show(x.v, 4), alias ? "x" : show(y), alias ? "" : show(y.v, 4));
  g.tag(names[op]);
  g.nontrivial(x.v.size() >= 2 && !(x.r.isCompact() && y.r.isCompact()));
  std::vector<u128> want;
  for (size_t i = 0; i < x.v.size(); ++i) {
    u128 a = x.v[i], b = yv[i];
    switch (op) {
      case 0: want.push_back(a % p); break;
      case 1: want.push_back(addp(a, b, p)); break;
      case 2: want.push_back(addp(a, b == 0 ? 0 : p - b, p)); break;
      case 3: want.push_back(mulp(a, b, p)); break;
      case 4: want.push_back(mulp(a, expp(b, p - 2, p), p)); break;  // Fermat
      default: want.push_back(expp(a, b, p));
    }
  }
  if (op == 6) {
    auto z = gfmp_zeros(f, sh);
    for (auto v : vals(z)) REQUIRE(v == 0, "zeros");
    REQUIRE(z.shape() == sh && z.eltype() == ty, "zeros: shape or type");
    if (sh.numel() == 0) return;
    u128 seed = g.bits(128);
    uint64_t c1 = g.u(1000), c2 = c1, c0 = c1;
    auto a = gfmp_rand(f, sh, seed, &c1), b = gfmp_rand(f, sh, seed, &c2);
    REQUIRE(vals(a) == vals(b) && c1 == c2 && c1 > c0, "the seeded stream is not a function of seed and counter");
    for (auto v : vals(a)) REQUIRE(v < p, "random element {} is not canonical", str(v));
    REQUIRE(a.shape() == sh && a.eltype() == ty, "rand: shape or type");
    sim::SeedThread(g.seed(), 1);
    for (auto v : vals(gfmp_rand(f, sh))) REQUIRE(v < p, "random element {} is not canonical", str(v));
    return;
  }
  NdArrayRef r;
  switch (op) {
    case 0: r = gfmp_mod(x.r); break;
    case 1: r = gfmp_add_mod(x.r, yr); break;
    case 2: r = gfmp_sub_mod(x.r, yr); break;
    case 3: r = gfmp_mul_mod(x.r, yr); break;
    case 4: r = gfmp_div_mod(x.r, yr); break;
    default: r = gfmp_exp_mod(x.r, yr);
  }
  auto d = diff(vals(r), want);
  REQUIRE(d.empty(), "copying: {}", d);
  REQUIRE(r.shape() == sh && r.eltype() == ty && x.untouched() && y.untouched(), "shape, type or an operand changed");
  switch (op) {
    case 0: gfmp_mod_(x.r); break;
    case 1: gfmp_add_mod_(x.r, yr); break;
    case 2: gfmp_sub_mod_(x.r, yr); break;
    case 3: gfmp_mul_mod_(x.r, yr); break;
    case 4: gfmp_div_mod_(x.r, yr); break;
    default: gfmp_exp_mod_(x.r, yr);
  }
  d = diff(vals(x.r), want);
  REQUIRE(d.empty(), "in place: {}", d);
  REQUIRE(x.only_elements() && y.untouched(), "in place: other storage changed");
}
