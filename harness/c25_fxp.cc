// Fixed point arithmetic: exact linear operations, bounded multiplication and division.
#include "kern.h"
using namespace kn;
namespace {
const std::vector<int> kSafe{kRef2k, kSemi2k, kSemi2k, kAby3, kAby3, kSecurenn, kCheetah, kSwift};
// the protocols whose truncation may fail with a probability growing with the magnitude
bool risky(const Env& e) { return (e.proto == kSemi2k && e.cfg.trunc_allow_msb_error) || e.proto == kSwift; }
void gfxp(Gen& g, Env& e) {
  if (e.proto == kSemi2k && e.cfg.trunc_allow_msb_error && e.k == 32) e.cfg.trunc_allow_msb_error = false;
  if (g.p(0.5)) e.cfg.fxp_fraction_bits = static_cast<int64_t>(4 + g.u((e.k - 12) / 2 - 4 > 26 ? 26 : (e.k - 12) / 2 - 4));
  g.say("f={}", fxp(e));
}
// largest magnitude (bits) a truncation input may have
int tbits(const Env& e) { return risky(e) ? e.k / 2 - 1 : e.k - 3; }
i128 gmag(Gen& g, int bits) {
  if (bits <= 0) return 0;
  i128 lim = one(bits), x;
  switch (g.u(5)) {
    case 0: x = static_cast<i128>(g.u(3)); break;
    case 1: x = lim - 1 - static_cast<i128>(g.u(2)); break;
    case 2: x = one(static_cast<int>(g.u(bits - 1))) + static_cast<i128>(g.u(2)) - 1; break;
    case 3: x = static_cast<i128>(g.wide() & (static_cast<u128>(lim) - 1)); break;
    default: { int l = static_cast<int>(g.u(bits)); x = l == 0 ? 0 : static_cast<i128>(g.wide() & (static_cast<u128>(one(l)) - 1)); }
  }
  if (x < 0) x = 0;
  if (x >= lim) x = lim - 1;
  return g.p() ? -x : x;
}
long double ld(i128 x) { return static_cast<long double>(x); }
long double rd(const Env& e, u128 raw) { return ld(e.sgn(raw)); }
Shape shape(Gen& g) { auto sh = gshape(g, 3, 4, 16); if (g.p(0.95)) for (auto& d : sh) d = std::max<int64_t>(d, 1); return sh; }
DataType greal(Gen& g) { return g.of<DataType>({DT_F32, DT_F32, DT_F64, DT_F16}); }
}  // namespace

PBT(C25, linear, 5000, 100000, "a secret operand, a negative number and a non-empty tensor") {
  auto e = genv(g, kSafe);
  gfxp(g, e);
  int f = static_cast<int>(fxp(e));
  int op = static_cast<int>(g.u(15));
  static const char* nm[] = {"add", "sub", "neg", "abs", "less", "le", "gt", "ge", "eq", "ne", "max", "min", "clamp", "select", "mixed_mul", "sign"};
  auto sh = shape(g);
  DataType dt = greal(g), du = dt, other = dt;
  bool mix = (op <= 1 || (op >= 4 && op <= 9)) && g.p(0.5);
  if (op == 14) mix = true;
  if (mix) {
    std::vector<DataType> ts{DT_I1, DT_I8, DT_U8, DT_I16};
    if (e.k >= 64) for (auto t : {DT_U16, DT_I32, DT_U32, DT_I64}) ts.push_back(t);
    if (op != 14) { ts.push_back(greal(g)); ts.push_back(greal(g)); }
    du = g.of(ts);
    if (real(du) && std::max(dt, du) == DT_F16) du = dt;
  }
  int bits = e.k - 3 - (e.proto == kSecurenn ? 1 : 0);
  auto fx = [&] { return gmag(g, op == 14 ? bits / 2 : bits); };
  auto in = [&](DataType d) {
    if (real(d)) return fx();
    int b = std::min(op == 14 ? bits / 2 : bits - f, width(d) - (uns(d) ? 0 : 1));
    auto x = gmag(g, b);
    return uns(d) && x < 0 ? -x : x;
  };
  std::vector<Tn> ins;
  bool flip = g.p();
  if (flip) std::swap(dt, du);
  ins.push_back(tensor(g, e, dt, sh, gvis(g), [&] { return in(dt); }));
  ins.push_back(tensor(g, e, du, sh, gvis(g), [&] { return in(du); }));
  if (op == 13) ins.push_back(tensor(g, e, DT_I1, sh, gvis(g), [&] { return static_cast<i128>(g.u(1)); }));
  else ins.push_back(tensor(g, e, dt, sh, gvis(g), [&] { return in(dt); }));
  g.say("{} {} {} {}", nm[op], ins[0].show(), ins[1].show(), op >= 12 ? ins[2].show() : "");
  g.tag(nm[op]);
  int ignore0 = static_cast<int>(g.u(1));
  auto res = exec(e, ins, [&](SPUContext* ctx, std::vector<Value>& v) -> std::vector<Value> {
    auto &a = v[0], &b = v[1], &c = v[2];
    switch (op) {
      case 0: return {hlo::Add(ctx, a, b)};
      case 1: return {hlo::Sub(ctx, a, b)};
      case 2: return {hlo::Neg(ctx, a)};
      case 3: return {hlo::Abs(ctx, a)};
      case 4: return {hlo::Less(ctx, a, b)};
      case 5: return {hlo::LessEqual(ctx, a, b)};
      case 6: return {hlo::Greater(ctx, a, b)};
      case 7: return {hlo::GreaterEqual(ctx, a, b)};
      case 8: return {hlo::Equal(ctx, a, b)};
      case 9: return {hlo::NotEqual(ctx, a, b)};
      case 10: return {hlo::Max(ctx, a, b)};
      case 11: return {hlo::Min(ctx, a, b)};
      case 12: return {hlo::Clamp(ctx, a, b, c)};
      case 13: return {hlo::Select(ctx, c, a, b)};
      case 14: return {hlo::Mul(ctx, a, b)};
      default: return {hlo::Sign(ctx, a, ignore0 != 0)};
    }
  }, Opt{.may_reveal = true});
  auto& r = res[0];
  DataType out = op >= 4 && op <= 9 ? DT_I1 : op == 2 || op == 3 || op == 15 ? dt : std::max(dt, du);
  if (mix && !(real(dt) && real(du)) && out != DT_I1) out = real(dt) ? dt : real(du) ? du : out;
  REQUIRE(r.dt == out, "{} {}: type {} instead of {}", e.show(), nm[op], static_cast<int>(r.dt), static_cast<int>(out));
  REQUIRE(r.sh == sh, "{} {}: shape {}", e.show(), nm[op], r.sh);
  bool s = false, v = false;
  size_t used = op == 2 || op == 3 || op == 15 ? 1 : op == 12 || op == 13 ? 3 : 2;
  for (size_t i = 0; i < used; ++i) { s = s || ins[i].vis == 'S'; v = v || ins[i].vis == 'V'; }
  REQUIRE(s ? r.vis == 'S' : v ? r.vis != 'P' : r.vis == 'P', "{} {}: visibility {}", e.show(), nm[op], r.vis);
  bool neg = false;
  for (size_t i = 0; i < ins[0].v.size(); ++i) {
    bool cross = real(dt) != real(du) && op != 14;
    i128 x = ins[0].v[i], y = ins[1].v[i], z = ins[2].v[i], w = 0;
    if (cross) { if (!real(dt)) x <<= f; if (!real(du)) y <<= f; }
    neg = neg || x < 0;
    switch (op) {
      case 0: w = x + y; break;
      case 1: w = x - y; break;
      case 2: w = -x; break;
      case 3: w = x < 0 ? -x : x; break;
      case 4: w = x < y; break;
      case 5: w = x <= y; break;
      case 6: w = x > y; break;
      case 7: w = x >= y; break;
      case 8: w = x == y; break;
      case 9: w = x != y; break;
      case 10: w = std::max(x, y); break;
      case 11: w = std::min(x, y); break;
      case 12: w = y <= z ? std::min(std::max(x, y), z) : e.sgn(r.raw[i]); break;
      case 13: w = z ? x : y; break;
      case 14: w = x * y; break;
      default: w = (x < 0 ? -1 : x == 0 && !ignore0 ? 0 : 1) * one(f);
    }
    REQUIRE(e.sgn(r.raw[i]) == w, "{} {}({},{}) gave {} instead of {}", e.show(), nm[op], strs(x), strs(y), strs(e.sgn(r.raw[i])), strs(w));
  }
  g.nontrivial(s && neg);
}

PBT(C25, multiply, 6000, 120000, "a secret operand and a product that is not a multiple of the truncated power of two") {
  auto e = genv(g, kSafe);
  gfxp(g, e);
  int f = static_cast<int>(fxp(e));
  int kind = static_cast<int>(g.u(4));  // mul, square, dot, batched, tensordot
  auto dt = greal(g), du = g.p(0.8) ? dt : greal(g);
  if (kind == 1) du = dt;
  if (std::max(dt, du) == DT_F16 && dt != du) du = dt;
  auto D = [&] { return 1 + static_cast<int64_t>(g.u(3)); };
  int64_t m = D(), k = D(), n = D(), b = D();
  Shape s1, s2;
  if (kind <= 1) { s1 = shape(g); s2 = s1; } else if (kind == 2 || kind == 4) { s1 = {m, k}; s2 = {k, n}; } else { s1 = {b, m, k}; s2 = {b, k, n}; }
  if (kind == 4) s2 = {n, k};
  int tb = tbits(e) - 2;
  int b1 = kind == 1 ? tb / 2 : static_cast<int>(g.u(tb)), b2 = tb - b1;
  auto A = tensor(g, e, dt, s1, gvis(g), [&] { return gmag(g, b1); });
  auto B = tensor(g, e, du, s2, gvis(g), [&] { return gmag(g, b2); });
  g.say("kind={} {} {}", kind, A.show(), B.show());
  auto res = exec(e, {A, B}, [&](SPUContext* ctx, std::vector<Value>& v) -> std::vector<Value> {
    switch (kind) {
      case 0: return {hlo::Mul(ctx, v[0], v[1])};
      case 1: return {hal::square(ctx, v[0])};
      case 2: return {hlo::Dot(ctx, v[0], v[1])};
      case 3: return {hlo::DotGeneral(ctx, v[0], v[1])};
      default: return {hal::tensordot(ctx, v[0], v[1], {1}, {1})};
    }
  }, Opt{.may_reveal = true});
  auto& r = res[0];
  REQUIRE(r.dt == std::max(dt, du), "{}: type {}", e.show(), static_cast<int>(r.dt));
  std::vector<i128> want;
  if (kind <= 1) for (size_t i = 0; i < A.v.size(); ++i) want.push_back(A.v[i] * (kind == 1 ? A.v[i] : B.v[i]));
  else {
    if (kind != 3) b = 1;
    for (int64_t t = 0; t < b; ++t) for (int64_t i = 0; i < m; ++i) for (int64_t j = 0; j < n; ++j) {
      i128 s = 0;
      for (int64_t q = 0; q < k; ++q) s += A.v[(t * m + i) * k + q] * B.v[kind == 4 ? j * k + q : (t * k + q) * n + j];
      want.push_back(s);
    }
  }
  REQUIRE(r.raw.size() == want.size(), "{}: {} elements instead of {}", e.show(), r.raw.size(), want.size());
  bool frac = false;
  for (size_t i = 0; i < want.size(); ++i) {
    i128 w = want[i] >> f, got = e.sgn(r.raw[i]);
    frac = frac || (want[i] & (one(f) - 1)) != 0;
    REQUIRE(got - w >= -1 && got - w <= 2, "{}: element {} is {} instead of {} (product {})", e.show(), i, strs(got), strs(w), strs(want[i]));
  }
  g.nontrivial(frac && (A.vis == 'S' || (B.vis == 'S' && kind != 1)));
}

// Relative error of the iteration, rounding errors of a few units, and the units the last scaling magnifies.
PBT(C25, divide, 4000, 80000, "a secret operand, divisors below and above one and a non-zero quotient") {
  auto e = genv(g, {kRef2k, kSemi2k, kSemi2k, kAby3, kAby3, kSecurenn, kCheetah});
  if (e.proto == kSemi2k) e.cfg.trunc_allow_msb_error = false;
  gfxp(g, e);
  int f = static_cast<int>(fxp(e));
  if (3 * f > e.k - 6) { f = (e.k - 6) / 3; e.cfg.fxp_fraction_bits = f; g.say("f={}", f); }
  int iters = 2;
  if (g.p(0.5)) { iters = 1 + static_cast<int>(g.u(3)); e.cfg.fxp_div_goldschmidt_iters = iters; }
  if (f >= 30) iters = std::max(iters, 3);
  bool recip = g.p(0.3);
  auto dt = greal(g), du = g.p(0.8) ? dt : greal(g);
  if (recip) du = dt;
  if (std::max(dt, du) == DT_F16 && dt != du) du = dt;
  auto sh = shape(g);
  for (auto& d : sh) d = std::max<int64_t>(d, 1);
  char va = gvis(g), vb = gvis(g);
  bool pp = (recip || va == 'P') && vb == 'P';
  // |b| < 2^f, |a| 2^(f+1) < 2^(k-3), |a/b| 2^(2f+1) < 2^(k-3)
  auto B = tensor(g, e, du, sh, vb, [&] { auto x = gmag(g, 2 * f); return x == 0 ? one(f) : x; });
  int qb = e.k - 4 - 2 * f;  // bits of |a/b| as a number
  size_t at = 0;
  auto A = tensor(g, e, dt, sh, va, [&] { return gmag(g, std::max(1, e.k - 4 - f)); });
  // bring the dividends into the admissible quotient range
  {
    auto& t = A;
    std::vector<i128> v = t.v;
    bool ok = true;
    for (at = 0; at < v.size(); ++at) {
      i128 bb = B.v[at] < 0 ? -B.v[at] : B.v[at];
      if (recip) { if (ld(one(f)) / ld(bb) >= ld(one(std::max(0, qb)))) ok = false; continue; }
      i128 aa = v[at] < 0 ? -v[at] : v[at];
      if (ld(aa) / ld(bb) >= ld(one(qb))) ok = false;
    }
    if (!ok) {
      // scale every dividend down by the same shift: keep the layout, rebuild
      int s = 1;
      for (; s < e.k && !recip; ++s) {
        bool fine = true;
        for (size_t i = 0; i < v.size(); ++i) { i128 bb = B.v[i] < 0 ? -B.v[i] : B.v[i], aa = (v[i] < 0 ? -v[i] : v[i]) >> s; if (ld(aa) / ld(bb) >= ld(one(qb))) fine = false; }
        if (fine) break;
      }
      if (recip) throw Discard{};
      A = tensor(g, e, dt, sh, va, [&] { return gmag(g, std::max(1, e.k - 4 - f - s)); });
      for (size_t i = 0; i < A.v.size(); ++i) { i128 bb = B.v[i] < 0 ? -B.v[i] : B.v[i], aa = A.v[i] < 0 ? -A.v[i] : A.v[i]; if (ld(aa) / ld(bb) >= ld(one(qb))) throw Discard{}; }
    }
  }
  g.say("{} iters={} {} / {}", recip ? "reciprocal" : "div", iters, recip ? "1" : A.show(), B.show());
  auto res = exec(e, {A, B}, [&](SPUContext* ctx, std::vector<Value>& v) -> std::vector<Value> {
    if (recip) return {hlo::Reciprocal(ctx, v[1])};
    return {hlo::Div(ctx, v[0], v[1])};
  }, Opt{.may_reveal = true});
  auto& r = res[0];
  REQUIRE(r.dt == std::max(dt, du), "{}: type {}", e.show(), static_cast<int>(r.dt));
  REQUIRE(r.sh == sh, "shape {}", r.sh);
  long double u = 1.0L / ld(one(f));
  long double it = std::pow(0.0859L, std::pow(2.0L, iters)) * 1.05L;
  bool lo = false, hi = false, nz = false;
  for (size_t i = 0; i < B.v.size(); ++i) {
    long double b = ld(B.v[i]) * u, a = recip ? 1.0L : ld(A.v[i]) * u, q = a / b, got = rd(e, r.raw[i]) * u;
    lo = lo || fabsl(b) < 1; hi = hi || fabsl(b) > 1; nz = nz || fabsl(q) > u;
    long double bound = pp ? fabsl(q) * 3e-7L + u * (1 + 0.01L)
                           : fabsl(q) * (it + 24 * u) + u * (2 + (2 + (recip ? 8 : 2)) / fabsl(b));
    if (pp && std::max(dt, du) == DT_F16) {
      // public values of this type are computed in half precision
      if (fabsl(a) > 6e4L || fabsl(b) > 6e4L || fabsl(q) > 6e4L || fabsl(b) < 1e-4L || fabsl(a) < 1e-4L || fabsl(q) < 1e-4L) continue;
      bound = fabsl(q) / 400 + u * 1.01L;
    }
    REQUIRE(fabsl(got - q) <= bound, "{}: {} / {} gave {} instead of {} (bound {})", e.show(), static_cast<double>(a), static_cast<double>(b), static_cast<double>(got), static_cast<double>(q), static_cast<double>(bound));
  }
  g.nontrivial(nz && (lo || hi) && !pp && (va == 'S' || vb == 'S'));
}
