// Truncation of secrets against the exact arithmetic shift.
#include <set>
#include "prog.h"
#include "libspu/core/context.h"
#include "libspu/mpc/aby3/arithmetic.h"
#include "libspu/mpc/semi2k/arithmetic.h"
using namespace prog;
namespace {
enum Var { kReg, kSemiA, kSemiPr, kSemiPr2, kAbyA, kAbyPr, kAbyPr2, kVars };
const char* kVarNames[] = {"registered", "semi2k.TruncA", "semi2k.TruncAPr", "semi2k.TruncAPr2", "aby3.TruncA", "aby3.TruncAPr", "aby3.TruncAPr2"};
struct Probe { bool msb = false; spu::mpc::TruncLsbRounding rnd = spu::mpc::TruncLsbRounding::Random; };
const char* reg_name(int v) { return v == kReg ? "trunc_a" : "hz_trunc"; }
void install(SPUContext* ctx, int v) {
  auto* o = ctx->prot();
  switch (v) {
    case kSemiA: o->regKernel<mpc::semi2k::TruncA>("hz_trunc"); break;
    case kSemiPr: o->regKernel<mpc::semi2k::TruncAPr>("hz_trunc"); break;
    case kSemiPr2: o->regKernel<mpc::semi2k::TruncAPr2>("hz_trunc"); break;
    case kAbyA: o->regKernel<mpc::aby3::TruncA>("hz_trunc"); break;
    case kAbyPr: o->regKernel<mpc::aby3::TruncAPr>("hz_trunc"); break;
    case kAbyPr2: o->regKernel<mpc::aby3::TruncAPr2>("hz_trunc"); break;
    default: break;
  }
}
struct Seen { std::vector<u128> out, in; std::string bad; bool msb = false; int rnd = 0; };
int pick_var(Gen& g, const Env& e) {
  if (e.proto == kSemi2k) {
    std::vector<int> v{kReg, kReg, kSemiA};
    if (e.n == 2) v.push_back(kSemiPr2);
    v.push_back(kSemiPr);
    return g.of(v);
  }
  if (e.proto == kAby3) return g.of<int>({kReg, kReg, kAbyA, kAbyPr, kAbyPr2});
  return kReg;
}
// Large errors are possible by design for some kernels; only small magnitudes are admissible there.
bool msb_error(const Env& e, int var) {
  switch (var) {
    case kSemiA: case kAbyA: return true;
    case kSemiPr: case kSemiPr2: case kAbyPr: case kAbyPr2: return false;
    default: break;
  }
  return (e.proto == kSemi2k && e.cfg.trunc_allow_msb_error) || e.proto == kSwift || e.proto == kSpdz2k;
}
}  // namespace

PBT(C17, secrets, 12000, 300000, "a non-empty secret with a negative and a large element") {
  auto e = genv(g, {kSemi2k, kAby3, kSecurenn, kSwift, kSpdz2k, kCheetah, kSemi2k, kAby3});
  int var = pick_var(g, e);
  bool risky = msb_error(e, var);
  const int k = e.k;
  int bits = 1 + static_cast<int>(g.u(g.p(0.7) ? std::min(k - 4, 40) : k - 4));
  if (g.p(0.05)) bits = g.of({1, k - 3});
  // magnitude below 2^m
  int m = risky ? k / 4 : k - 2;
  int sign = static_cast<int>(g.u(3));  // 0,3: unknown, 1: positive, 2: negative

  if (sign == 3) sign = 0;
  auto one = [&]() -> u128 {
    i128 lim = static_cast<i128>(1) << m;
    i128 v;
    switch (g.u(5)) {
      case 0: v = static_cast<i128>(g.bits(m)); break;
      case 1: v = lim - 1 - static_cast<i128>(g.u(3)); break;
      case 2: v = static_cast<i128>(g.u(3)); break;
      case 3: v = (static_cast<i128>(g.bits(m)) >> std::min(bits, m)) << std::min(bits, m); break;
      case 4: v = ((static_cast<i128>(g.bits(m)) >> std::min(bits, m)) << std::min(bits, m)) + static_cast<i128>(g.u(2)) - 1; break;
      default: v = static_cast<i128>(g.wide() & ((static_cast<u128>(1) << m) - 1));
    }
    if (v < 0) v = 0;
    if (v >= lim) v = lim - 1;
    if (sign == 0 ? g.p() : sign == 2) v = sign == 2 ? (v == 0 ? -1 : -v) : (g.p(0.5) ? -v : -v - 1);
    return static_cast<u128>(v) & e.mask;
  };
  Shape sh = gshape(g, 3, 6, 60);
  if (e.proto == kSpdz2k) { for (auto& d : sh) d = std::max<int64_t>(d, 1); if (sh.size() == 0) sh.push_back(2); }
  auto in = arr(g, makeType<mpc::Pub2kTy>(e.field), sh, false, one);

  int src = static_cast<int>(g.u(3));  // how the secret arises
  size_t own = g.u(e.n - 1);
  int view = 1 + static_cast<int>(g.u(2));
  g.say("{} bits={} sign={} src={} {} {}", kVarNames[var], bits, sign, src, lay::show(in), lay::show(in.v));
  g.tag(kVarNames[var]);
  auto st = sign == 1 ? SignType::Positive : sign == 2 ? SignType::Negative : SignType::Unknown;
  auto out = pr::run<Seen>(e, [&](size_t me, SPUContext* ctx) {
    install(ctx, var);
    Value s;
    auto P = pub(e, in.r, DT_INVALID);
    if (src == 0) s = hal::_p2s(ctx, P);
    else if (src == 1) s = hal::_v2s(ctx, priv(e, in.r, DT_INVALID, own, me));
    else if (src == 2) s = odd(hal::_p2s(ctx, P), view);
    else s = hal::_add(ctx, hal::_p2s(ctx, P), hal::_sub(ctx, hal::_p2s(ctx, P), hal::_p2s(ctx, P)));
    Seen o;
    s = hal::_prefer_a(ctx, s);
    auto* kern = dynamic_cast<mpc::TruncAKernel*>(ctx->prot()->getKernel(reg_name(var)));
    if (kern != nullptr) { o.msb = kern->hasMsbError(); o.rnd = static_cast<int>(kern->lsbRounding()); }
    Value t = var == kReg ? hal::_trunc(ctx, s, bits, st) : dynDispatch(ctx, "hz_trunc", s, static_cast<size_t>(bits), st);
    if (t.shape() != sh) o.bad = fmt::format("shape {} instead of {}", t.shape(), sh);
    if (!t.isSecret()) o.bad = "result is not secret";
    o.out = vals(hal::_s2p(ctx, t).data());
    o.in = vals(hal::_s2p(ctx, s).data());
    return o;
  });
  int wraps = 0;
  bool big = false, neg = false;
  for (size_t p = 0; p < out.size(); ++p) {
    auto& o = out[p];
    REQUIRE(o.bad.empty(), "{}: {}", e.show(), o.bad);
    REQUIRE(diff(o.in, in.v).empty(), "{}: truncation changed its operand: {}", e.show(), diff(o.in, in.v));
    REQUIRE(o.msb == risky, "{}: the kernel declares msb errors: {}", e.show(), o.msb);
    REQUIRE(diff(o.out, out[0].out).empty() , "parties disagree");
    REQUIRE(o.out.size() == in.v.size(), "{} elements", o.out.size());
  }
  for (size_t i = 0; i < in.v.size(); ++i) {
    i128 x = e.sgn(in.v[i]), want = x >> bits, got = e.sgn(out[0].out[i]);
    big = big || x > (static_cast<i128>(1) << (m - 2));
    neg = neg || x < 0;
    i128 d = got - want;
    if (d >= -1 && d <= 1) continue;
    if (risky) {
      i128 step = static_cast<i128>(1) << (k - bits);
      if (k - bits < 126)
        for (i128 w : {-1, 1}) if (d - w * step >= -2 && d - w * step <= 2) { d = 0; }
      if (d == 0 && ++wraps <= 1) continue;
    }
    throw Violation(fmt::format("{} {}: {} >> {} gave {} instead of {}", e.show(), kVarNames[var], strs(x), bits, strs(got), strs(want)));
  }
  g.nontrivial(neg && (big || sign == 2) );
}

// Public and private values round to the nearest, halves up.
PBT(C17, exact, 4000, 100000, "a negative element") {
  auto e = genv(g);
  int bits = static_cast<int>(g.u(e.k - 1));
  Shape sh = gshape(g, 3, 6, 60);
  auto in = arr(g, makeType<mpc::Pub2kTy>(e.field), sh, false, [&] { return g.bits(e.k); });
  bool vis = g.p();
  size_t own = g.u(e.n - 1);
  g.say("{} bits={} {} {}", vis ? "private" : "public", bits, lay::show(in), lay::show(in.v));
  auto sg = [&] { return static_cast<SignType>(g.u(2)); }();
  auto out = pr::run<std::vector<u128>>(e, [&](size_t me, SPUContext* ctx) {
    if (!vis) return vals(hal::_trunc(ctx, pub(e, in.r, DT_INVALID), bits, sg).data());
    auto t = hal::_trunc(ctx, priv(e, in.r, DT_INVALID, own, me), bits, sg);
    if (me != own) for (auto q : vals(t.data(), e.w)) if (q != 0) throw Violation("another party holds data of a private value");
    return vals(hal::_v2p(ctx, t).data());
  });
  std::vector<u128> want;
  // bits == 0 means the default number of fraction bits in the user level wrapper
  RuntimeConfig rc = e.cfg;
  populateRuntimeConfig(rc);
  int b = bits == 0 ? static_cast<int>(rc.fxp_fraction_bits) : bits;
  for (auto x : in.v) { want.push_back(static_cast<u128>((e.sgn(x) >> b) + ((e.sgn(x) >> (b - 1)) & 1)) & e.mask); g.nontrivial(e.sgn(x) < 0); }
  for (auto& o : out) REQUIRE(diff(o, want).empty(), "{}: {}", e.show(), diff(o, want));
}
