#include <bit>
#include <cfloat>
#include <sstream>
#include <unordered_map>
#include "pbt.h"
#include "libspu/core/half.h"
using namespace pbt;
using half_float::half;
namespace {
using LD = long double;
uint16_t raw(half h) { uint16_t r; static_assert(sizeof(half) == 2); memcpy(&r, &h, 2); return r; }
half mk(uint32_t r) { uint16_t x = static_cast<uint16_t>(r); half h; memcpy(&h, &x, 2); return h; }
bool nan16(uint32_t r) { return (r & 0x7fff) > 0x7c00; }
bool inf16(uint32_t r) { return (r & 0x7fff) == 0x7c00; }
// exact value of a half
LD val(uint32_t r) {
  uint32_t e = (r >> 10) & 31, m = r & 1023;
  LD v;
  if (e == 31) v = m ? NAN : INFINITY;
  else if (e == 0) v = std::ldexp(static_cast<LD>(m), -24);
  else v = std::ldexp(static_cast<LD>(m + 1024), static_cast<int>(e) - 25);
  return (r & 0x8000) ? -v : v;
}
// correctly rounded (nearest, ties to even) half of a long double
uint16_t rnd(LD x) {
  if (std::isnan(x)) return 0x7e00;
  uint16_t s = std::signbit(x) ? 0x8000 : 0;
  x = std::fabs(x);
  if (std::isinf(x)) return s | 0x7c00;
  if (x >= 65520.0L) return s | 0x7c00;
  if (x < std::ldexp(1.0L, -26)) return s;
  int e;
  std::frexp(x, &e);             // x = m * 2^e, m in [0.5,1)
  int q = std::max(e - 11, -24);  // quantum exponent
  LD t = std::ldexp(x, -q);
  LD f = std::floor(t), d = t - f;
  auto n = static_cast<int64_t>(f);
  if (d > 0.5L || (d == 0.5L && (n & 1))) ++n;
  // n * 2^q
  if (n == 0) return s;
  if (n >= 2048) { n /= 2; ++q; }
  if (n < 1024) return static_cast<uint16_t>(s | n);  // subnormal, q == -24
  int be = q + 25;
  if (be >= 31) return s | 0x7c00;
  return static_cast<uint16_t>(s | (be << 10) | (n - 1024));
}
bool same(uint16_t a, uint16_t b) { return a == b || (nan16(a) && nan16(b)); }
int64_t ord(uint16_t r) { return (r & 0x8000) ? -static_cast<int64_t>(r & 0x7fff) : (r & 0x7fff); }
bool ulp1(uint16_t a, uint16_t b) { return same(a, b) || (!nan16(a) && !nan16(b) && std::llabs(ord(a) - ord(b)) <= 1); }

uint32_t gh(Gen& g) {
  switch (g.u(5)) {
    case 0: return static_cast<uint32_t>((g.u(1) << 15) | (g.u(31) << 10) | g.of({0, 1, 2, 511, 512, 513, 1022, 1023}));
    case 1: return static_cast<uint32_t>(g.of({0x0000, 0x8000, 0x0001, 0x8001, 0x03ff, 0x0400, 0x7bff, 0xfbff, 0x7c00, 0xfc00, 0x7e00, 0x7c01, 0x3c00, 0xbc00, 0x3bff, 0x3c01, 0x3800, 0x3555, 0x4200}));
    default: return static_cast<uint32_t>(g.u(0xffff));
  }
}
struct Un { const char* n; std::function<half(half)> f; std::function<LD(LD)> r; int mode; };  // mode 0 exact rounding, 1 one ulp
#define UN(name, ref, mode) {#name, [](half x) { return half_float::name(x); }, [](LD x) -> LD { return ref; }, mode}
const std::vector<Un>& uns() {
  static const std::vector<Un> v = {
      UN(exp, std::exp(x), 0), UN(exp2, std::exp2(x), 0), UN(expm1, std::expm1(x), 1), UN(log, std::log(x), 0),
      UN(log2, std::log2(x), 0), UN(log10, std::log10(x), 0), UN(log1p, std::log1p(x), 1), UN(sqrt, std::sqrt(x), 0),
      UN(rsqrt, 1 / std::sqrt(x), 0), UN(cbrt, std::cbrt(x), 0), UN(sin, std::sin(x), 0), UN(cos, std::cos(x), 0),
      UN(tan, std::tan(x), 0), UN(asin, std::asin(x), 0), UN(acos, std::acos(x), 0), UN(atan, std::atan(x), 0),
      UN(sinh, std::sinh(x), 0), UN(cosh, std::cosh(x), 0), UN(tanh, std::tanh(x), 0), UN(asinh, std::asinh(x), 0),
      UN(acosh, std::acosh(x), 0), UN(atanh, std::atanh(x), 0), UN(erf, std::erf(x), 1), UN(erfc, std::erfc(x), 1),
      UN(lgamma, std::lgamma(x), 1), UN(tgamma, std::tgamma(x), 1), UN(ceil, std::ceil(x), 0), UN(floor, std::floor(x), 0),
      UN(trunc, std::trunc(x), 0), UN(round, std::round(x), 0), UN(rint, std::rint(x), 0), UN(nearbyint, std::rint(x), 0),
      UN(fabs, std::fabs(x), 0), UN(abs, std::fabs(x), 0), UN(logb, std::logb(x), 0),
      {"neg", [](half x) { return -x; }, [](LD x) -> LD { return -x; }, 0},
      {"plus", [](half x) { return +x; }, [](LD x) -> LD { return x; }, 0},
      {"sincos.s", [](half x) { half s, c; half_float::sincos(x, &s, &c); return s; }, [](LD x) -> LD { return std::sin(x); }, 0},
      {"sincos.c", [](half x) { half s, c; half_float::sincos(x, &s, &c); return c; }, [](LD x) -> LD { return std::cos(x); }, 0},
      {"inc", [](half x) { return ++x; }, [](LD x) -> LD { return x + 1; }, 0},
      {"dec", [](half x) { return --x; }, [](LD x) -> LD { return x - 1; }, 0},
      {"float", [](half x) { return half(static_cast<float>(x)); }, [](LD x) -> LD { return x; }, 0},
      {"double", [](half x) { return half_float::half_cast<half>(half_float::half_cast<double>(x)); }, [](LD x) -> LD { return x; }, 0},
  };
  return v;
}
}  // namespace

PBT(C05, unary, 30000, 400000, "block of 512 consecutive operands of one function, most of them finite") {
  auto& f = uns()[g.u(uns().size() - 1)];
  uint32_t b = static_cast<uint32_t>(g.u(127)) * 512;
  g.say("{} on raw halves {:#06x}..{:#06x}", f.n, b, b + 511);
  g.tag(f.n);
  g.nontrivial((b & 0x7fff) < 0x7c00);
  for (uint32_t i = b; i < b + 512; ++i) {
    LD x = val(i);
    uint16_t e = rnd(f.r(x)), got = raw(f.f(mk(i)));
    bool ok = f.mode ? ulp1(got, e) : same(got, e);
    REQUIRE(ok, "{}({:#06x} = {}) gave {:#06x} = {}, expected {:#06x} = {}", f.n, i, (double)x, got, (double)val(got), e, (double)val(e));
  }
}
PBT(C05, exact_views, 2000, 4000, "block of 512 consecutive operands") {
  uint32_t b = static_cast<uint32_t>(g.u(127)) * 512;
  g.say("raw halves {:#06x}..{:#06x}", b, b + 511);
  g.nontrivial();
  for (uint32_t i = b; i < b + 512; ++i) {
    half h = mk(i);
    LD x = val(i);
    auto f = static_cast<float>(h);
    auto d = half_float::half_cast<double>(h);
    if (nan16(i)) {
      REQUIRE(std::isnan(f) && std::isnan(d) && std::isnan(half_float::half_cast<LD>(h)) && isnan(h) && !isinf(h) && !isfinite(h) && !isnormal(h) && fpclassify(h) == FP_NAN, "NaN {:#x}", i);
      continue;
    }
    REQUIRE(f == x && d == x && half_float::half_cast<LD>(h) == x && std::signbit(f) == ((i >> 15) != 0), "value of {:#06x} is {} not {}", i, f, (double)x);
    REQUIRE(raw(half(f)) == i && raw(half_float::half_cast<half>(d)) == i, "round trip of {:#06x}", i);
    REQUIRE(signbit(h) == (i >= 0x8000) && isinf(h) == inf16(i) && isfinite(h) == !inf16(i) && !isnan(h), "classification of {:#06x}", i);
    bool normal = std::fabs(x) >= std::ldexp(1.0L, -14) && !inf16(i);
    REQUIRE(isnormal(h) == normal && fpclassify(h) == (inf16(i) ? FP_INFINITE : x == 0 ? FP_ZERO : normal ? FP_NORMAL : FP_SUBNORMAL), "class of {:#06x}", i);
    if (!inf16(i)) {
      if (x != 0) {
        int e1, e2;
        half m = frexp(h, &e1);
        LD m2 = std::frexp(x, &e2);
        REQUIRE(e1 == e2 && val(raw(m)) == m2, "frexp {:#06x}: {} {}", i, (double)val(raw(m)), e1);
        REQUIRE(ilogb(h) == std::ilogb(x), "ilogb {:#06x}", i);
      }
      half ip;
      half fr = modf(h, &ip);
      LD ip2;
      LD fr2 = std::modf(x, &ip2);
      REQUIRE(val(raw(ip)) == ip2 && val(raw(fr)) == fr2 && std::signbit(val(raw(fr))) == std::signbit(fr2), "modf {:#06x}", i);
      REQUIRE(lround(h) == std::lround(x) && llround(h) == std::llround(x) && lrint(h) == std::lrint(x) && llrint(h) == std::llrint(x), "integer rounding {:#06x}", i);
      REQUIRE(half_float::half_cast<int>(h) == std::lrint(x), "cast to int {:#06x}", i);
      std::stringstream ss;
      ss << h;
      std::stringstream s2;
      s2 << static_cast<float>(x);
      REQUIRE(ss.str() == s2.str(), "printing {:#06x}", i);
      std::stringstream s3;
      s3.precision(20);
      s3 << static_cast<double>(x);
      half back;
      s3 >> back;
      REQUIRE(raw(back) == i, "parsing {:#06x}", i);
    }
    REQUIRE(std::hash<half>{}(h) == std::hash<half>{}(mk(i)), "hash");
    if (x == 0) REQUIRE(std::hash<half>{}(mk(0)) == std::hash<half>{}(mk(0x8000)), "equal values hash alike");
  }
}
PBT(C05, from_float, 60000, 600000, "finite operand block not exactly representable") {
  // a run of consecutive floats around a random one, plus neighbours of half ties
  uint32_t base;
  switch (g.u(3)) {
    case 0: base = static_cast<uint32_t>(g.u(UINT32_MAX)); break;
    case 1: {  // around a half or a midpoint between two halves
      float f = static_cast<float>(val(static_cast<uint32_t>(g.u(0x7bff)) | (g.p() ? 0x8000 : 0)));
      memcpy(&base, &f, 4);
      base += static_cast<uint32_t>(g.of({0u, 1u << 12, 0u - (1u << 12), 3u << 11}));
      base -= 128;
      break;
    }
    case 2: base = (static_cast<uint32_t>(g.u(1)) << 31) | (static_cast<uint32_t>(g.in(95, 150)) << 23) | static_cast<uint32_t>(g.u((1 << 23) - 1)); break;
    default: base = (static_cast<uint32_t>(g.u(1)) << 31) | (static_cast<uint32_t>(g.in(100, 114)) << 23) | static_cast<uint32_t>(g.of({0u, 1u << 22, 1u << 21, 3u << 21, (1u << 23) - 128}));
  }
  g.say("256 floats from bits {:#010x}", base);
  g.nontrivial(((base >> 23) & 255) < 255);
  for (uint32_t k = 0; k < 256; ++k) {
    uint32_t b = base + k;
    float f;
    memcpy(&f, &b, 4);
    uint16_t e = rnd(f);
    REQUIRE(same(raw(half(f)), e), "half(float bits {:#010x} = {}) gave {:#06x}, expected {:#06x}", b, f, raw(half(f)), e);
    half h;
    h = f;
    REQUIRE(same(raw(h), e), "assignment from float bits {:#010x}", b);
    REQUIRE(same(raw(half_float::half_cast<half>(f)), e), "half_cast from float bits {:#010x}", b);
  }
}
PBT(C05, from_double, 60000, 1000000, "finite operand") {
  uint64_t b;
  switch (g.u(3)) {
    case 0: b = g.seed(); break;
    case 1: {
      double d = static_cast<double>(val(static_cast<uint32_t>(g.u(0x7bff)) | (g.p() ? 0x8000 : 0)));
      memcpy(&b, &d, 8);
      b += g.of({0ull, 1ull << 41, 0ull - (1ull << 41)});
      b += static_cast<uint64_t>(g.in(-3, 3));
      break;
    }
    default: b = (g.u(1) << 63) | (static_cast<uint64_t>(g.in(1023 - 30, 1023 + 18)) << 52) | g.u((1ull << 52) - 1);
  }
  double d;
  memcpy(&d, &b, 8);
  g.say("double bits {:#018x} = {}", b, d);
  g.nontrivial(std::isfinite(d));
  uint16_t e = rnd(d);
  REQUIRE(same(raw(half_float::half_cast<half>(d)), e), "half_cast<half>({}) gave {:#06x}, expected {:#06x}", d, raw(half_float::half_cast<half>(d)), e);
  LD l = static_cast<LD>(d);
  if (g.p(0.3) && std::isfinite(d) && d != 0) l = std::nextafter(l, g.p() ? INFINITY : -INFINITY);
  REQUIRE(same(raw(half_float::half_cast<half>(l)), rnd(l)), "half_cast<half>(long double near {}) gave {:#06x}, expected {:#06x}", d, raw(half_float::half_cast<half>(l)), rnd(l));
}
PBT(C05, from_integer, 100000, 1000000, "operand above 2048 or negative") {
  auto chk = [&](auto v, const char* t) {
    uint16_t e = rnd(static_cast<LD>(v));
    g.say("{} {}", t, v);
    g.tag(t);
    g.nontrivial(v > 100 || v < 0);
    REQUIRE(same(raw(half_float::half_cast<half>(v)), e), "half_cast<half>({} {}) gave {:#06x}, expected {:#06x}", t, v, raw(half_float::half_cast<half>(v)), e);
  };
  int w = static_cast<int>(g.u(7));
  auto mag = [&](int bits) -> uint64_t {
    int n = static_cast<int>(g.in(1, bits));
    if (g.p(0.6)) n = std::min(n, 18);
    uint64_t v = static_cast<uint64_t>(g.bits(n));
    return v;
  };
  switch (w) {
    case 0: return chk(static_cast<int8_t>(g.u(255)), "i8");
    case 1: return chk(static_cast<uint8_t>(g.u(255)), "u8");
    case 2: return chk(static_cast<int16_t>(g.u(65535)), "i16");
    case 3: return chk(static_cast<uint16_t>(g.u(65535)), "u16");
    case 4: { auto v = static_cast<int32_t>(mag(31)); return chk(g.p() ? v : -v, "i32"); }
    case 5: return chk(static_cast<uint32_t>(mag(32)), "u32");
    case 6: { auto v = static_cast<int64_t>(mag(63)); return chk(g.p() ? v : -v, "i64"); }
    default: return chk(static_cast<uint64_t>(mag(64)), "u64");
  }
}
PBT(C05, binary_ops, 100000, 2000000, "both operands finite and non-zero") {
  // 16 left operands x 16 right operands
  std::vector<uint32_t> xs, ys;
  bool rel = g.p(0.3);
  uint32_t bx = gh(g), by = gh(g);
  for (int i = 0; i < 6; ++i) xs.push_back(i == 0 ? bx : rel ? (bx + static_cast<uint32_t>(i)) & 0xffff : gh(g));
  for (int i = 0; i < 6; ++i) ys.push_back(i == 0 ? by : rel ? (by + static_cast<uint32_t>(i)) & 0xffff : gh(g));
  g.say("halves x from {:#06x}, y from {:#06x}", xs[0], ys[0]);
  g.nontrivial((bx & 0x7fff) && (by & 0x7fff) && (bx & 0x7fff) < 0x7c00 && (by & 0x7fff) < 0x7c00);
  auto ck = [&](const char* n, uint32_t a, uint32_t b, half got, LD e, bool loose = false) {
    uint16_t er = rnd(e);
    bool ok = loose ? ulp1(raw(got), er) : same(raw(got), er);
    REQUIRE(ok, "{}({:#06x}={}, {:#06x}={}) gave {:#06x}={}, expected {:#06x}={}", n, a, (double)val(a), b, (double)val(b), raw(got), (double)val(raw(got)), er, (double)val(er));
  };
  for (auto a : xs)
    for (auto b : ys) {
      half x = mk(a), y = mk(b);
      LD u = val(a), v = val(b);
      ck("+", a, b, x + y, u + v);
      ck("-", a, b, x - y, u - v);
      ck("*", a, b, x * y, u * v);
      ck("/", a, b, x / y, u / v);
      half t = x;
      t += y;
      ck("+=", a, b, t, u + v);
      t = x; t -= y; ck("-=", a, b, t, u - v);
      t = x; t *= y; ck("*=", a, b, t, u * v);
      t = x; t /= y; ck("/=", a, b, t, u / v);
      t = x; t *= static_cast<float>(v); ck("*=float", a, b, t, static_cast<LD>(static_cast<float>(u) * static_cast<float>(v)));
      ck("fmod", a, b, fmod(x, y), std::fmod(u, v));
      ck("remainder", a, b, remainder(x, y), std::remainder(u, v));
      ck("hypot", a, b, hypot(x, y), std::hypot(u, v));
      ck("pow", a, b, pow(x, y), std::pow(u, v), true);
      ck("atan2", a, b, atan2(x, y), std::atan2(u, v), true);
      if (!nan16(a) && !nan16(b)) {
        int q1 = 0, q2 = 0;
        half r = remquo(x, y, &q1);
        LD r2 = std::remquo(u, v, &q2);
        ck("remquo", a, b, r, r2);
        if (!inf16(a) && v != 0) REQUIRE((std::abs(q1) & 7) == (std::abs(q2) & 7) && (((q1 & 7) == 0) || (q1 < 0) == (std::signbit(u) != std::signbit(v))), "remquo quotient {:#06x} {:#06x}: {} vs {}", a, b, q1, q2);
        REQUIRE((x < y) == (u < v) && (x > y) == (u > v) && (x <= y) == (u <= v) && (x >= y) == (u >= v) && (x == y) == (u == v) && (x != y) == (u != v), "comparison of {:#06x} and {:#06x}", a, b);
        REQUIRE(isless(x, y) == (u < v) && isgreater(x, y) == (u > v) && islessequal(x, y) == (u <= v) && isgreaterequal(x, y) == (u >= v) && islessgreater(x, y) == (u != v) && !isunordered(x, y), "quiet comparison of {:#06x} and {:#06x}", a, b);
        LD mx = val(raw(fmax(x, y))), mn = val(raw(fmin(x, y)));
        REQUIRE(mx == std::fmax(u, v) && mn == std::fmin(u, v), "fmax/fmin of {:#06x} and {:#06x}", a, b);
        ck("fdim", a, b, fdim(x, y), std::fdim(u, v));
        // next value towards
        uint16_t nx = raw(nextafter(x, y));
        if (u == v) REQUIRE(val(nx) == v, "nextafter equal");
        else {
          int64_t o = ord(static_cast<uint16_t>(a)) + (v > u ? 1 : -1);
          REQUIRE(ord(nx) == o, "nextafter({:#06x},{:#06x}) = {:#06x}", a, b, nx);
        }
        uint16_t nt = raw(nexttoward(x, v));
        REQUIRE(val(nt) == val(nx), "nexttoward({:#06x},{:#06x}) = {:#06x}", a, b, nt);
      } else {
        REQUIRE(!(x < y) && !(x > y) && !(x <= y) && !(x >= y) && !(x == y) && (x != y) && isunordered(x, y) && !isless(x, y) && !isgreater(x, y) && !islessgreater(x, y), "NaN comparison {:#06x} {:#06x}", a, b);
        if (nan16(a) != nan16(b) && !(a & 0x200 ? false : nan16(a)) ) {
          uint16_t o = nan16(a) ? static_cast<uint16_t>(b) : static_cast<uint16_t>(a);
          if ((nan16(a) ? a : b) & 0x200) REQUIRE(raw(fmax(x, y)) == o && raw(fmin(x, y)) == o, "fmax/fmin with a quiet NaN");
        }
      }
      uint16_t cs = raw(copysign(x, y));
      REQUIRE(cs == ((a & 0x7fff) | (b & 0x8000)), "copysign");
      long e = static_cast<long>(g.u(1)) ? static_cast<long>(ord(static_cast<uint16_t>(b)) % 60) : static_cast<long>(b % 7) - 3;
      ck("scalbln", a, static_cast<uint32_t>(e & 0xffff), scalbln(x, e), std::scalbln(u, e));
      ck("ldexp", a, static_cast<uint32_t>(e & 0xffff), ldexp(x, static_cast<int>(e)), std::ldexp(u, static_cast<int>(e)));
    }
}
PBT(C05, fma, 200000, 4000000, "all operands finite") {
  uint32_t a = gh(g), b = gh(g), c = gh(g);
  if (g.p(0.4) && (a & 0x7fff) < 0x7c00 && (b & 0x7fff) < 0x7c00) {  // near cancellation
    c = rnd(-val(a) * val(b));
    c = (c + static_cast<uint32_t>(g.in(-2, 2))) & 0xffff;
  }
  g.say("fma({:#06x},{:#06x},{:#06x})", a, b, c);
  bool fin = (a & 0x7fff) < 0x7c00 && (b & 0x7fff) < 0x7c00 && (c & 0x7fff) < 0x7c00;
  g.nontrivial(fin);
  // exact: products of 11-bit numbers fit in 22 bits; sums span at most 2^31..2^-48
  __float128 ex = static_cast<__float128>(val(a)) * static_cast<__float128>(val(b)) + static_cast<__float128>(val(c));
  uint16_t e;
  if (!fin) e = rnd(std::fma(val(a), val(b), val(c)));
  else {
    auto hi = static_cast<LD>(ex);
    auto rest = ex - static_cast<__float128>(hi);
    // sticky: nudge the 64-bit value in the direction of the part that was cut off
    if (rest > 0 && hi == std::floor(std::ldexp(hi, 40)) / std::ldexp(1.0L, 40)) hi = std::nextafter(hi, INFINITY);
    else if (rest < 0) hi = std::nextafter(hi, -INFINITY);
    e = rnd(hi);
    if (ex == 0) e = rnd(std::fma(val(a), val(b), val(c)));
  }
  uint16_t got = raw(half_float::fma(mk(a), mk(b), mk(c)));
  REQUIRE(same(got, e), "fma({:#06x}={},{:#06x}={},{:#06x}={}) gave {:#06x}, expected {:#06x}", a, (double)val(a), b, (double)val(b), c, (double)val(c), got, e);
  LD h3 = std::sqrt(val(a) * val(a) + val(b) * val(b) + val(c) * val(c));
  if (inf16(a) || inf16(b) || inf16(c)) h3 = INFINITY;
  if (fin || !(nan16(a) || nan16(b) || nan16(c))) {
    uint16_t hg = raw(half_float::hypot(mk(a), mk(b), mk(c)));
    REQUIRE(same(hg, rnd(h3)), "hypot({:#06x},{:#06x},{:#06x}) gave {:#06x}, expected {:#06x}", a, b, c, hg, rnd(h3));
  }
}
PBT(C05, limits, 20, 20, "constants") {
  using L = std::numeric_limits<half>;
  g.nontrivial();
  g.say("numeric_limits");
  REQUIRE(raw(L::max()) == 0x7bff && raw(L::lowest()) == 0xfbff && raw(L::min()) == 0x0400 && raw(L::denorm_min()) == 1 && raw(L::epsilon()) == 0x1400 && raw(L::infinity()) == 0x7c00 && nan16(raw(L::quiet_NaN())) && nan16(raw(L::signaling_NaN())) && raw(L::round_error()) == 0x3800, "numeric_limits values");
  REQUIRE(L::is_specialized && L::is_signed && !L::is_integer && !L::is_exact && L::digits == 11 && L::digits10 == 3 && L::max_digits10 == 5 && L::radix == 2 && L::min_exponent == -13 && L::max_exponent == 16 && L::min_exponent10 == -4 && L::max_exponent10 == 4 && L::has_infinity && L::has_quiet_NaN && L::round_style == std::round_to_nearest, "numeric_limits traits");
  REQUIRE(raw(half()) == 0, "default value");
}
