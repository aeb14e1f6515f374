// Elementwise real functions: error against the true function, in every mode.
#include "kern.h"
#include "libspu/kernel/hal/fxp_base.h"
#include "libspu/kernel/hal/fxp_approx.h"
#include <cstdio>
#include <cstdlib>
#include <set>
using namespace kn;
namespace {
using LD = long double;
LD ld(i128 x) { return static_cast<LD>(x); }
constexpr LD kLog2e = 1.44269504088896340736L, kLn2 = 0.693147180559945309417L, kPi = 3.14159265358979323846L;
enum Fn { kExpTaylor, kExpPade, kExpPrime, kLogMinmax, kLogPade, kLogNewton, kLog2, kExp2, kSigMm1, kSigSeg3, kSigReal, kTanh, kSin, kCos, kAcos, kAsin, kErf, kSqrt, kRsqrt, kFns };
const char* kName[] = {"exp/taylor", "exp/pade", "exp/prime", "log/minmax", "log/pade", "log/newton", "log2", "exp2", "sigmoid/mm1", "sigmoid/seg3", "sigmoid/real", "tanh", "sine", "cosine", "acos", "asin", "erf", "sqrt", "rsqrt"};
struct Par {
  int fn, f, k, iters = 8, div_iters = 2, orders = 8, log_iters = 3, offset = 13;
  bool low = false, plus1 = false, nolow = false, upper = false;  // low accuracy rsqrt; expm1 and log1p
};
LD unit(const Par& p) { return 1.0L / ld(one(p.f)); }
// |b| is the divisor: relative error of the iteration, rounding, and the magnified last units
LD div_err(const Par& p, LD q, LD b) {
  int it = p.f >= 30 ? std::max(3, p.div_iters) : p.div_iters;
  LD u = unit(p), init = std::pow(0.0859L, std::pow(2.0L, it)) * 1.05L;
  return fabsl(q) * (init + 24 * u) + u * (2 + 4 / fabsl(b));
}
LD exp_taylor_err(const Par& p, LD x) {
  LD u = unit(p), n = ld(one(p.iters)), r = 1 + x / n, e = 2.5L * u;
  for (int i = 0; i < p.iters; ++i) { e = 2 * fabsl(r) * e + e * e + 2.5L * u; r = r * r; }
  return fabsl(r - expl(x)) * 1.001L + e;
}
LD exp2_err(const Par& p, LD x, LD y, LD delta) { LD u = unit(p); return y * (8 * u + 8.7e-5L + delta * kLn2) + 2.5L * u; }
LD erf_rational(LD x) { LD z = 1 + x * (0.278393L + x * (0.230389L + x * (0.000972L + x * 0.078108L))); return z; }
// the interval of representable numbers the approximation is meant for
std::pair<LD, LD> domain(const Par& p) {
  LD u = unit(p);
  int f = p.f, k = p.k;
  switch (p.fn) {
    case kExpTaylor: return {-ld(one(p.iters)), ((k - 5) / 2.0L - f) / kLog2e};
    case kExpPade: return {-ld(one(std::min(20, k - 4 - 2 * f))), ld(one(std::min(20, k - 4 - 2 * f)))};
    case kExpPrime: {
      LD a = (48.0L - p.offset - 2 * f) / kLog2e, b = (123.0L - 2 * f - p.offset) / kLog2e;
      return {p.nolow ? a : a - 60, p.upper ? b + 60 : b};
    }
    case kLogMinmax: return {u, ld(one(f + 1)) - u};
    case kLogPade: case kLog2: return {u, ld(one(f)) - u};
    case kLogNewton: return {1e-2L, 200};
    case kExp2: return {-32, 32 - u};
    case kSigMm1: return {-ld(one(k - 6 - 2 * f)), ld(one(k - 6 - 2 * f))};
    case kSigSeg3: return {-ld(one(k - 6 - 2 * f)), ld(one(k - 6 - 2 * f))};
    case kSigReal: return {-((k - 5) / 2.0L - f) / kLog2e, ld(one(p.iters))};
    case kTanh: return {-ld(one(k - 6 - 2 * f)), ld(one(k - 6 - 2 * f))};
    case kSin: case kCos: { LD m = std::min(ld(one(k - 6 - 2 * f)), ld(one(f - 5))); return {-m, m}; }
    case kAcos: case kAsin: return {-1, 1};
    case kErf: { LD m = ld(one(std::min(k - 6 - 2 * f, f - 2))); return {-m, m}; }
    case kSqrt: return {0, ld(one(std::min(f % 2 ? f - 3 : f - 1, k - 4 - 2 * f))) - u};
    default: return {u, ld(one(f % 2 ? f - 3 : f - 1)) - u};
  }
}
LD truth(const Par& p, LD x) {
  switch (p.fn) {
    case kExpTaylor: case kExpPade: case kExpPrime: return expl(x);
    case kLogMinmax: case kLogPade: case kLogNewton: return logl(x);
    case kLog2: return log2l(x);
    case kExp2: return exp2l(x);
    case kSigMm1: return 0.5L + 0.125L * x;
    case kSigSeg3: return x < -4 ? 0 : x > 4 ? 1 : 0.5L + 0.125L * x;
    case kSigReal: return 1 / (1 + expl(-x));
    case kTanh: return tanhl(x);
    case kSin: return sinl(x);
    case kCos: return cosl(x);
    case kAcos: return acosl(x);
    case kAsin: return asinl(x);
    case kErf: return erfl(x);
    case kSqrt: return sqrtl(x);
    default: return 1 / sqrtl(x);
  }
}
LD rsqrt_rel(const Par& p) {
  LD u = unit(p);
  // polynomial, truncated compensation factor, rounding of the polynomial
  return (p.low ? 0.0075L : 0.0008L) + powl(2, -(p.f / 2) - 0.5L) + 90 * u;
}
LD sqrt_err(const Par& p, LD x) {
  LD u = unit(p), s = sqrtl(x), r = rsqrt_rel(p) + 3 * u * s;
  return s * 1.6L * r * r + 4 * u * x + 8 * u;
}
// bound of the error of the secret computation
LD bound(const Par& p, LD x, LD y) {
  LD u = unit(p);
  int f = p.f;
  switch (p.fn) {
    case kExpTaylor: return exp_taylor_err(p, x);
    case kExpPade: {
      LD lim = 32 / kLog2e, c = x > lim ? lim : x < -lim ? -lim : x;
      return fabsl(expl(c) - y) * 1.001L + exp2_err(p, c, expl(c), fabsl(c) * (u + 1e-7L) + 4 * u);
    }
    case kExpPrime: {
      LD c = std::max(x, (48.0L - p.offset - 2 * f) / kLog2e);
      if (p.upper) c = std::min(c, (124.0L - 2 * f - p.offset) / kLog2e);
      return fabsl(expl(c) - y) + expl(c) * (fabsl(c) * 4e-8L + 3 * u + 3e-7L) + 3 * u;
    }
    case kLogMinmax: return 2e-7L + (16 + f) * u;
    case kLog2: return 2e-6L + div_err(p, 1, 1) + 60 * u;
    case kLogPade: return 2e-6L + div_err(p, 1, 1) + (60 + f) * u;
    case kLogNewton: return 0.02L * fabsl(y) + 0.002L + 300 * u;
    case kExp2: return exp2_err(p, x, y, 0);
    case kSigMm1: return 2.5L * u;
    case kSigSeg3: return 2.5L * u;
    case kSigReal: { LD b = 1 + expl(-x), e = exp_taylor_err(p, -x) + u; return div_err(p, y, b) + e / (b * std::max(b - e, 1.0L)); }
    case kTanh: return 0.005L + 60 * u;
    case kSin: case kCos: { LD n = fabsl(x) / 6 + 1; return 2e-4L + 40 * u + 4 * u * n; }
    case kAcos: case kAsin: return (f <= 20 ? 5.2e-5L : 5e-7L) + 12 * u + 1.6L * sqrt_err(p, 1 - fabsl(x));
    case kErf: { LD z = powl(erf_rational(std::min(fabsl(x), 3.0L)), 4); return 5.2e-4L + 50 * u + (fabsl(x) < 3 + u ? div_err(p, 1 / z, z) : 0); }
    case kSqrt: return sqrt_err(p, x);
    default: return y * rsqrt_rel(p) + 3 * u;
  }
}
LD num(Gen& g, const Par& p, LD lo, LD hi) {
  (void)p;
  LD t = ld(static_cast<i128>(g.u(1 << 30))) / ld(one(30)), x;
  switch (g.u(7)) {
    case 0: x = lo + (hi - lo) * t; break;
    case 1: x = lo < 0 ? lo * powl(2, -40 * t) : lo * powl(2, 4 * t); break;
    case 2: x = hi * powl(2, -4 * t); break;
    case 3: x = hi * powl(2, -40 * t); break;
    case 4: x = ld(static_cast<i128>(g.u(40))) - 20; break;
    case 5: x = 8 * t - 4; break;
    case 6: x = g.p() ? lo : hi; break;
    default: x = powl(2, ld(static_cast<i128>(g.u(30))) - 20) + (g.p() ? 0 : g.p() ? unit(p) : -unit(p));
  }
  return x;
}
i128 sample(Gen& g, const Par& p, LD lo, LD hi) {
  LD x = num(g, p, lo, hi), s = ld(one(p.f));
  i128 a = static_cast<i128>(ceill(lo * s)), b = static_cast<i128>(floorl(hi * s)), r = static_cast<i128>(roundl(x * s));
  return r < a ? a : r > b ? b : r;
}
// half precision rounding is far coarser than the fixed point unit
LD pub_bound(const Par& p, DataType dt, LD x, LD y) {
  LD rel = dt == DT_F16 ? 1e-3L : dt == DT_F32 ? 1.3e-7L : 1.3e-7L, u = unit(p);
  LD d = 0;
  for (LD s : {1 + rel, 1 - rel}) { LD xs = x * s; auto [lo, hi] = domain(p); if ((p.fn == kAcos || p.fn == kAsin) && fabsl(xs) > 1) xs = x > 0 ? 1 : -1; (void)lo; (void)hi; d = std::max(d, fabsl(truth(p, xs) - y)); }
  if (p.fn == kSin || p.fn == kCos) d = fabsl(x) * rel;
  return d * 1.01L + fabsl(y) * rel * 3 + u * 1.01L + (dt == DT_F16 ? 1e-7L : 0);
}
void calibrate(const Par& p, LD x, LD y, LD got, LD b, char vis) {
  static const char* file = getenv("C26_CAL");
  if (!file) return;
  static FILE* out = fopen(file, "a");
  LD err = fabsl(got - y);
  if (b == 0 || err > 0.3L * b) { fprintf(out, "%-14s %8.4Lf err %.3Le bound %.3Le u %.2Le f %d k %d x %.9Lg y %.9Lg got %.9Lg it %d low %d vis %c erru %.2Lf rel %.3Le\n", kName[p.fn], b == 0 ? 99 : err / b, err, b, unit(p), p.f, p.k, x, y, got, p.iters, p.low, vis, err / unit(p), y == 0 ? 0 : err / fabsl(y)); fflush(out); }
}
// one function over a generated tensor
void run(Gen& g, std::vector<int> protos, std::vector<int> fns) {
  int fn = g.of(fns);
  auto e = fn == kExpPrime ? genv(g, {kSemi2k}, true, {128}) : genv(g, protos, true, {64, 64, 128});
  if (fn == kExpPrime) e.n = 2;
  Par p{};
  p.fn = fn;
  p.k = e.k;
  if (e.proto == kSemi2k) e.cfg.trunc_allow_msb_error = false;
  p.f = g.p(0.5) ? (e.k == 64 ? 18 : 26) : e.k == 64 ? 14 + static_cast<int>(g.u(6)) : 16 + static_cast<int>(g.u(14));
  e.cfg.fxp_fraction_bits = p.f;
  auto& c = e.cfg;
  
  switch (fn) {
    case kExpTaylor: case kSigReal: c.fxp_exp_mode = g.p() ? RuntimeConfig::EXP_DEFAULT : RuntimeConfig::EXP_TAYLOR; break;
    case kExpPade: c.fxp_exp_mode = RuntimeConfig::EXP_PADE; break;
    case kExpPrime: c.fxp_exp_mode = RuntimeConfig::EXP_PRIME; c.experimental_enable_exp_prime = true; break;
    case kLogMinmax: c.fxp_log_mode = g.p() ? RuntimeConfig::LOG_DEFAULT : RuntimeConfig::LOG_MINMAX; break;
    case kLogPade: c.fxp_log_mode = RuntimeConfig::LOG_PADE; break;
    case kLogNewton: c.fxp_log_mode = RuntimeConfig::LOG_NEWTON; break;
    case kSigMm1: c.sigmoid_mode = RuntimeConfig::SIGMOID_MM1; break;
    case kSigSeg3: c.sigmoid_mode = RuntimeConfig::SIGMOID_SEG3; break;
    default: break;
  }
  if (fn == kSigReal) c.sigmoid_mode = g.p() ? RuntimeConfig::SIGMOID_DEFAULT : RuntimeConfig::SIGMOID_REAL;
  if (fn != kLogNewton && g.p(0.3)) { p.iters = 4 + static_cast<int>(g.u(8)); c.fxp_exp_iters = p.iters; }
  if (g.p(0.3)) { p.div_iters = 1 + static_cast<int>(g.u(3)); c.fxp_div_goldschmidt_iters = p.div_iters; }
  if (fn == kRsqrt || fn == kSqrt || fn == kAcos || fn == kAsin) {
    p.low = g.p(0.25);
    c.enable_lower_accuracy_rsqrt = p.low;
    c.experimental_enable_intra_op_par = e.proto != kCheetah && g.p(0.15);
  }
  if (fn == kExpPrime) {
    if (g.p(0.4)) { p.offset = 1 + static_cast<int>(g.u(16)); c.experimental_exp_prime_offset = p.offset; }
    p.nolow = g.p(0.3); p.upper = g.p(0.4);
    c.experimental_exp_prime_disable_lower_bound = p.nolow;
    c.experimental_exp_prime_enable_upper_bound = p.upper;
  }
  p.plus1 = (fn == kExpTaylor || fn == kExpPade || fn == kLogMinmax || fn == kLogPade) && g.p(0.25);
  auto [lo, hi] = domain(p);
  DataType dt = g.of<DataType>({DT_F32, DT_F32, DT_F64, DT_F16});
  auto sh = gshape(g, 3, 5, 40);
  if (g.p(0.95)) for (auto& d : sh) d = std::max<int64_t>(d, 1);
  char vis = gvis(g, 80);
  auto X = tensor(g, e, dt, sh, vis, [&]() -> i128 { auto x = sample(g, p, lo, hi); return p.plus1 && fn >= kLogMinmax ? x - one(p.f) : x; });
  g.say("{}{} f={} iters={}/{} low={} prime={}{}{} {}", kName[fn], p.plus1 ? "/1" : "", p.f, p.iters, p.div_iters, p.low, p.offset, p.nolow ? "-" : "", p.upper ? "+" : "", X.show());
  g.tag(kName[fn]);
  auto res = exec(e, {X}, [&](SPUContext* ctx, std::vector<Value>& v) -> std::vector<Value> {
    auto& x = v[0];
    switch (fn) {
      case kExpTaylor: case kExpPade: case kExpPrime: return {p.plus1 ? hlo::Expm1(ctx, x) : hlo::Exp(ctx, x)};
      case kLogMinmax: case kLogPade: case kLogNewton: return {p.plus1 ? hlo::Log1p(ctx, x) : hlo::Log(ctx, x)};
      case kLog2: return {hal::log2(ctx, x)};
      case kExp2: return {hal::exp2(ctx, x)};
      case kSigMm1: case kSigSeg3: case kSigReal: return {hlo::Logistic(ctx, x)};
      case kTanh: return {hlo::Tanh(ctx, x)};
      case kSin: return {hlo::Sine(ctx, x)};
      case kCos: return {hlo::Cosine(ctx, x)};
      case kAcos: return {hlo::Acos(ctx, x)};
      case kAsin: return {hlo::Asin(ctx, x)};
      case kErf: return {hal::f_erf(ctx, x)};
      case kSqrt: return {hlo::Sqrt(ctx, x)};
      default: return {hlo::Rsqrt(ctx, x)};
    }
  });
  auto& r = res[0];
  REQUIRE(r.dt == dt, "{} {}: type {}", e.show(), kName[fn], static_cast<int>(r.dt));
  REQUIRE(r.sh == sh, "{} {}: shape {}", e.show(), kName[fn], r.sh);
  bool clear = vis == 'P' && (fn <= kLogNewton || fn == kSin || fn == kCos || fn == kAcos || fn == kAsin || fn == kErf);
  LD u = unit(p);
  std::set<i128> seen;
  for (size_t i = 0; i < X.v.size(); ++i) {
    LD x = ld(X.v[i]) * u, got = ld(e.sgn(r.raw[i])) * u;
    if (p.plus1 && fn >= kLogMinmax) x += 1;
    LD y = truth(p, x), b = clear ? pub_bound(p, dt, x, y) : bound(p, x, y);
    if (fn == kSigReal && vis == 'P') b += fabsl(y) * (dt == DT_F16 ? 1.5e-3L : 3e-7L) + (dt == DT_F16 && fabsl(x) > 10 ? 1e-3L * fabsl(y) : 0);
    if (p.plus1 && fn < kLogMinmax) { got += 1; if (clear) b += fabsl(y) * 1e-3L * (dt == DT_F16); }
    if (clear && dt == DT_F16 && (fabsl(x) > 6e4L || fabsl(y) > 6e4L || fabsl(x) < 1e-4L)) continue;
    if (clear && fabsl(y) > ld(one(e.k - 2 - p.f))) continue;
    b += fabsl(y) * 4e-19L;  // long double
    seen.insert(X.v[i]);
    calibrate(p, x, y, got, b, vis);
    if (getenv("C26_CAL")) continue;
    REQUIRE(fabsl(got - y) <= b, "{}: {}({}) gave {} instead of {} (error {}, bound {})", e.show(), kName[fn], static_cast<double>(x), static_cast<double>(got), static_cast<double>(y), static_cast<double>(fabsl(got - y)), static_cast<double>(b));
  }
  g.nontrivial(vis != 'P' && seen.size() >= 2);
}
}  // namespace
PBT(C26, unary, 6000, 100000, "a secret or private tensor with at least two different values") {
  if (const char* f = getenv("C26_FN")) return run(g, {kRef2k, kSemi2k, kAby3}, {atoi(f)});  // developer aid
  run(g, {kRef2k, kRef2k, kSemi2k, kSemi2k, kAby3, kAby3, kSecurenn}, {kExpTaylor, kExpPade, kExpPrime, kLogMinmax, kLogPade, kLogNewton, kLog2, kExp2, kSigMm1, kSigSeg3, kSigReal, kTanh, kSin, kCos, kAcos, kAsin, kErf, kSqrt, kRsqrt});
}
PBT(C26, unary_he, 60, 1500, "a secret or private tensor with at least two different values") {
  run(g, {kCheetah}, {kExpTaylor, kExpPade, kLogMinmax, kLogPade, kLogNewton, kLog2, kExp2, kSigMm1, kSigSeg3, kSigReal, kTanh, kSin, kCos, kAcos, kAsin, kErf, kSqrt, kRsqrt});
}
PBT(C26, rounding, 2000, 40000, "a secret or private tensor with a number that is not whole") {
  auto e = genv(g, {kRef2k, kSemi2k, kSemi2k, kAby3, kAby3, kSecurenn, kSwift, kCheetah});
  int f = static_cast<int>(fxp(e));
  if (g.p(0.6)) { f = 2 + static_cast<int>(g.u((e.k - 8) / 2 - 2 > 40 ? 40 : (e.k - 8) / 2 - 2)); e.cfg.fxp_fraction_bits = f; }
  int op = static_cast<int>(g.u(3));
  auto dt = g.of<DataType>({DT_F32, DT_F64, DT_F16});
  auto sh = gshape(g, 3, 5, 40);
  if (g.p(0.95)) for (auto& d : sh) d = std::max<int64_t>(d, 1);
  int bits = e.k - 3 - (e.proto == kSecurenn ? 1 : 0);
  auto X = tensor(g, e, dt, sh, gvis(g, 70), [&]() -> i128 {
    i128 whole = static_cast<i128>(g.u(8)) - 4;
    switch (g.u(4)) {
      case 0: whole = static_cast<i128>(g.wide() & ((static_cast<u128>(1) << (bits - f)) - 1)); if (g.p()) whole = -whole; break;
      case 1: whole = one(static_cast<int>(g.u(bits - f - 1))); if (g.p()) whole = -whole; break;
      default: break;
    }
    i128 h = one(f - 1), frac;
    switch (g.u(6)) {
      case 0: frac = 0; break;
      case 1: frac = h; break;
      case 2: frac = h - 1; break;
      case 3: frac = h + 1; break;
      case 4: frac = 1; break;
      case 5: frac = 2 * h - 1; break;
      default: frac = static_cast<i128>(g.u(static_cast<uint64_t>(2 * h - 1)));
    }
    i128 x = whole * one(f) + frac, lim = one(bits) - one(f + 1);
    return x > lim ? lim : x < -lim ? -lim : x;
  });
  static const char* nm[] = {"floor", "ceil", "round half away", "round half even"};
  g.say("{} f={} {}", nm[op], f, X.show());
  g.tag(nm[op]);
  auto res = exec(e, {X}, [&](SPUContext* ctx, std::vector<Value>& v) -> std::vector<Value> {
    switch (op) {
      case 0: return {hlo::Floor(ctx, v[0])};
      case 1: return {hlo::Ceil(ctx, v[0])};
      case 2: return {hlo::Round_AFZ(ctx, v[0])};
      default: return {hlo::Round_RNTE(ctx, v[0])};
    }
  });
  auto& r = res[0];
  REQUIRE(r.dt == dt && r.sh == sh, "{} {}: type {} shape {}", e.show(), nm[op], static_cast<int>(r.dt), r.sh);
  bool frac = false;
  for (size_t i = 0; i < X.v.size(); ++i) {
    i128 x = X.v[i], fl = x >> f, rem = x - (fl << f), h = one(f - 1), w;
    frac = frac || rem != 0;
    switch (op) {
      case 0: w = fl; break;
      case 1: w = rem ? fl + 1 : fl; break;
      case 2: w = rem > h || (rem == h && x > 0) ? fl + 1 : fl; break;
      default: w = rem > h || (rem == h && (fl & 1)) ? fl + 1 : fl;
    }
    w *= one(f);
    REQUIRE(e.sgn(r.raw[i]) == w, "{}: {}({}) gave {} instead of {}", e.show(), nm[op], strs(x), strs(e.sgn(r.raw[i])), strs(w));
  }
  g.nontrivial(frac && X.vis != 'P');
}
namespace {
Env env2(Gen& g, Par& p, const std::vector<int>& protos) {
  auto e = genv(g, protos, true, {64, 64, 128});
  if (e.proto == kSemi2k) e.cfg.trunc_allow_msb_error = false;
  p.k = e.k;
  p.f = g.p(0.5) ? (e.k == 64 ? 18 : 26) : e.k == 64 ? 14 + static_cast<int>(g.u(6)) : 16 + static_cast<int>(g.u(14));
  e.cfg.fxp_fraction_bits = p.f;
  if (g.p(0.3)) { p.div_iters = 1 + static_cast<int>(g.u(3)); e.cfg.fxp_div_goldschmidt_iters = p.div_iters; }
  return e;
}
Shape shape2(Gen& g) { auto sh = gshape(g, 3, 5, 40); if (g.p(0.95)) for (auto& d : sh) d = std::max<int64_t>(d, 1); return sh; }
bool dbg() { static bool b = getenv("C26_CAL"); return b; }
}  // namespace
PBT(C26, angle, 1500, 30000, "a secret or private operand and points in two quadrants") {
  Par p{};
  auto e = env2(g, p, {kRef2k, kSemi2k, kSemi2k, kAby3, kAby3, kSecurenn});
  int f = p.f;
  LD u = unit(p);
  auto dt = g.of<DataType>({DT_F32, DT_F32, DT_F64, DT_F16});
  auto sh = shape2(g);
  LD m = ld(one(std::min(f - 1, p.k - 6 - 2 * f)));
  auto gen = [&] { return sample(g, p, -m, m); };
  char vy = gvis(g), vx = gvis(g);
  if (e.proto == kRef2k && vy == 'V' && vx == 'V') vx = 'S';  // REF2K has no common type of two owners
  auto Y = tensor(g, e, dt, sh, vy, gen), X = tensor(g, e, dt, sh, vx, gen);
  g.say("f={} iters={} {} {}", f, p.div_iters, Y.show(), X.show());
  auto r = exec(e, {Y, X}, [&](SPUContext* ctx, std::vector<Value>& v) -> std::vector<Value> { return {hlo::Atan2(ctx, v[0], v[1])}; })[0];
  REQUIRE(r.dt == dt && r.sh == sh, "{}: type {} shape {}", e.show(), static_cast<int>(r.dt), r.sh);
  std::set<int> quad;
  for (size_t i = 0; i < X.v.size(); ++i) {
    LD x = ld(X.v[i]) * u, y = ld(Y.v[i]) * u, got = ld(e.sgn(r.raw[i])) * u, t = atan2l(y, x), b;
    LD big = std::max(fabsl(x), fabsl(y)), small = std::min(fabsl(x), fabsl(y));
    if (vx == 'P' && vy == 'P') {
      LD rel = dt == DT_F16 ? 1.5e-3L : 3e-7L;
      if (dt == DT_F16 && (big > 6e4L || (small < 1e-4L && small > 0))) continue;
      b = 4 * rel + 1.01L * u;
    } else {
      if (big == 0) { b = 1e-5L + 10 * u; }
      else b = (f <= 20 ? 8e-6L : 1e-6L) + 10 * u + div_err(p, small / big, big);
    }
    quad.insert((x < 0) * 2 + (y < 0));
    if (b > 0.7L) continue;  // both numbers are only a few units
    p.fn = kAcos;
    calibrate(p, y, t, got, b, 'A');
    if (dbg()) continue;
    REQUIRE(fabsl(got - t) <= b, "{}: atan2({}, {}) gave {} instead of {} (bound {})", e.show(), static_cast<double>(y), static_cast<double>(x), static_cast<double>(got), static_cast<double>(t), static_cast<double>(b));
  }
  g.nontrivial(!(vx == 'P' && vy == 'P') && quad.size() >= 2);
}
PBT(C26, power, 1200, 25000, "a secret or private operand and a result that is neither 0 nor 1") {
  Par p{};
  auto e = env2(g, p, {kRef2k, kSemi2k, kSemi2k, kAby3, kAby3, kSecurenn});
  int f = p.f;
  LD u = unit(p);
  auto dt = g.of<DataType>({DT_F32, DT_F32, DT_F64, DT_F16});
  auto sh = shape2(g);
  char vx = gvis(g), vy = gvis(g);
  LD mx = ld(one(f)), my = ld(one(std::min(16, p.k - 9 - 2 * f)));
  bool whole = g.p(0.6), unitbase = g.p(0.3);
  auto X = tensor(g, e, dt, sh, vx, [&]() -> i128 {
    if (unitbase) return one(f) + static_cast<i128>(g.u(static_cast<uint64_t>(one(f) / 5))) - one(f) / 10;
    auto x = sample(g, p, u, mx);
    return whole && g.p(0.3) ? -x : g.u(30) == 0 ? 0 : x;
  });
  auto Y = tensor(g, e, dt, sh, vy, [&]() -> i128 {
    if (whole) {
      i128 y = g.p(0.7) ? static_cast<i128>(g.u(20)) - 10 : static_cast<i128>(g.u(static_cast<uint64_t>(my))) ;
      return y * one(f);
    }
    return sample(g, p, -my, my);
  });
  g.say("f={} {} {}", f, X.show(), Y.show());
  auto r = exec(e, {X, Y}, [&](SPUContext* ctx, std::vector<Value>& v) -> std::vector<Value> { return {hlo::Power(ctx, v[0], v[1])}; })[0];
  REQUIRE(r.dt == dt && r.sh == sh, "{}: type {} shape {}", e.show(), static_cast<int>(r.dt), r.sh);
  bool any = false, clear = vx == 'P' && vy == 'P';
  for (size_t i = 0; i < X.v.size(); ++i) {
    LD x = ld(X.v[i]) * u, y = ld(Y.v[i]) * u, got = ld(e.sgn(r.raw[i])) * u;
    bool odd = (Y.v[i] >> f) & 1, isint = (Y.v[i] & (one(f) - 1)) == 0;
    if (x < 0 && !isint) continue;
    LD L = x == 0 ? 0 : y * logl(fabsl(x)), t, b;
    if (x == 0 && y < 0) continue;
    t = x == 0 ? (y == 0) : expl(L) * (x < 0 && odd ? -1 : 1);
    LD lim = 32 / kLog2e;
    if (clear) {
      LD rel = dt == DT_F16 ? 1.5e-3L : 2e-7L;
      if (dt == DT_F16 && (fabsl(x) > 6e4L || fabsl(y) > 6e4L || fabsl(t) > 6e4L || (x != 0 && fabsl(x) < 1e-4L) || (y != 0 && fabsl(y) < 1e-4L))) continue;
      if (fabsl(L) > 60 || fabsl(t) > ld(one(p.k - 3 - f))) continue;
      b = fabsl(t) * (expm1l((fabsl(y) + fabsl(L)) * rel) + rel) + 1.01L * u + (dt == DT_F16 ? 1e-7L : 0);
    } else if (x == 0) {
      b = y == 0 ? exp2_err(p, 0, 1, 0) : expl(-y * ((f + 1) * kLn2 + 2.3L)) * 1.05L + 1e-4L;
    } else {
      LD el = fabsl(y) * (2e-7L + (16 + f) * u) + 3 * u, c = L > lim ? lim : L < -lim ? -lim : L;
      if (L < lim + 1e-3L && L + el > lim) c = lim - el;
      LD ec = expl(c);
      b = exp2_err(p, c, ec, 0) + ec * expm1l(el + fabsl(c) * (u + 1e-7L) + 4 * u) + fabsl(ec - expl(L)) * 1.01L;
    }
    any = any || (fabsl(t) > 4 * u && t != 1);
    p.fn = kExp2;
    calibrate(p, x, t, got, b, 'W');
    if (dbg()) continue;
    REQUIRE(fabsl(got - t) <= b, "{}: power({}, {}) gave {} instead of {} (bound {})", e.show(), static_cast<double>(x), static_cast<double>(y), static_cast<double>(got), static_cast<double>(t), static_cast<double>(b));
  }
  g.nontrivial(!clear && any);
}
