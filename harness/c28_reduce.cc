// Reductions, windows, max pooling, select-and-scatter and convolution against nested loops.
#include "kern.h"
#include "libspu/kernel/hal/shape_ops.h"
#include "libspu/kernel/hlo/convolution.h"
#include "libspu/kernel/hlo/reduce.h"
#include "libspu/kernel/hlo/select_and_scatter.h"
using namespace kn;
namespace {
using IV = std::vector<int64_t>;
int64_t flatten(const IV& ix, const IV& sh) { int64_t r = 0; for (size_t i = 0; i < sh.size(); ++i) r = r * sh[i] + ix[i]; return r; }
IV unflatten(int64_t x, const IV& sh) { IV r(sh.size()); for (size_t i = sh.size(); i-- > 0;) { r[i] = x % sh[i]; x /= sh[i]; } return r; }
int64_t prod(const IV& sh) { int64_t n = 1; for (auto d : sh) n *= d; return n; }
Shape S(const IV& v) { return Shape(v.begin(), v.end()); }
IV iv(const Shape& s) { return IV(s.begin(), s.end()); }
std::string js(const IV& v) { return fmt::format("[{}]", fmt::join(v, ",")); }
const std::vector<int> kCmp{kRef2k, kSemi2k, kSemi2k, kAby3, kAby3, kSecurenn, kCheetah, kSwift};
enum Red { kAdd, kMul, kMax, kMin, kAnd, kOr, kXor, kReds };
const char* kRedName[] = {"add", "mul", "max", "min", "and", "or", "xor"};
Value apply(SPUContext* c, int op, const Value& a, const Value& b) {
  switch (op) {
    case kAdd: return hlo::Add(c, a, b);
    case kMul: return hlo::Mul(c, a, b);
    case kMax: return hlo::Max(c, a, b);
    case kMin: return hlo::Min(c, a, b);
    case kAnd: return hlo::And(c, a, b);
    case kOr: return hlo::Or(c, a, b);
    default: return hlo::Xor(c, a, b);
  }
}
// numbers are kept modulo 2^128
i128 apply(int op, i128 a, i128 b) {
  auto x = static_cast<u128>(a), y = static_cast<u128>(b);
  switch (op) {
    case kAdd: return static_cast<i128>(x + y);
    case kMul: return static_cast<i128>(x * y);
    case kMax: return std::max(a, b);
    case kMin: return std::min(a, b);
    case kAnd: return static_cast<i128>(x & y);
    case kOr: return static_cast<i128>(x | y);
    default: return static_cast<i128>(x ^ y);
  }
}
// the bits of a result that its type gives a meaning
u128 sig(const Env& e, DataType dt, u128 x) {
  int w = real(dt) ? e.k : std::min(width(dt), e.k);
  return w >= 128 ? x : x & ((static_cast<u128>(1) << w) - 1);
}
DataType gtype(Gen& g, int op) {
  if ((op == kAdd || op == kMax || op == kMin) && g.p(0.4)) return g.of(kReals);
  if (op >= kAnd && g.p(0.3)) return DT_I1;
  return g.of<DataType>({DT_I8, DT_U8, DT_I16, DT_U16, DT_I32, DT_U32, DT_I64});
}
i128 gval(Gen& g, const Env& e, DataType d) {
  if (d == DT_I1) return static_cast<i128>(g.u(1));
  int b = std::min(e.k - (e.proto == kSecurenn || e.proto == kSpdz2k ? 4 : 3), real(d) ? e.k : width(d));
  i128 x = static_cast<i128>(g.bits(b));
  return uns(d) ? x & hi_of(d, e.k) & (one(b) - 1) : x - one(b - 1);
}
i128 ident(const Env& e, int op, DataType d) {
  int b = std::min(e.k - 3, real(d) ? e.k : width(d));
  switch (op) {
    case kMul: return 1;
    case kMax: return uns(d) ? 0 : -one(b - 1) ;
    case kMin: return uns(d) ? one(std::min(b, e.k - 3)) - 1 : one(b - 1) - 1;
    case kAnd: return uns(d) ? (d == DT_I1 ? 1 : one(width(d)) - 1) : -1;
    default: return 0;
  }
}
void shapeok(const Res& r, DataType dt, const IV& sh, const std::string& what) {
  REQUIRE(r.dt == dt, "{}: type {} instead of {}", what, static_cast<int>(r.dt), static_cast<int>(dt));
  REQUIRE(r.sh == S(sh), "{}: shape {} instead of {}", what, r.sh, js(sh));
}
}  // namespace

PBT(C28, reduce, 5000, 100000, "a secret input, at least three elements reduced into one and more than one distinct value") {
  auto e = genv(g);
  bool spdz = e.proto == kSpdz2k;
  int op = static_cast<int>(g.u(kReds - 1));
  if (spdz) op = static_cast<int>(g.u(1));
  auto dt = gtype(g, op);
  auto s0 = gshape(g, 4, 5, 36);
  IV sh = iv(s0);
  for (auto& d : sh) d = std::max<int64_t>(d, 1);
  if (g.p(0.2)) sh = {static_cast<int64_t>(1 + g.u(70))};
  if (spdz && sh.empty()) sh.push_back(3);
  auto axes = g.perm(sh.size());
  axes.resize(sh.empty() ? 0 : 1 + g.u(sh.size() - 1));
  bool ignore = g.p(0.4);
  bool two = op == kMax && g.p(0.4);  // an index travels with the value
  auto v = [&] { char c = gvis(g); return spdz && c == 'V' ? 'S' : c; };
  std::vector<Tn> ins;
  ins.push_back(tensor(g, e, dt, S(sh), v(), [&] { return gval(g, e, dt); }));
  auto fit = [&](i128 x) { return x; };
  IV isc = spdz ? IV{1} : IV{};
  ins.push_back(tensor(g, e, dt, S(isc), ignore ? 'P' : v(), [&] { return fit(g.p(0.5) ? ident(e, op, dt) : gval(g, e, dt)); }));
  DataType it = e.k == 32 ? DT_I32 : DT_I64;
  if (two) {
    int64_t q = 0;
    ins.push_back(tensor(g, e, it, S(sh), 'P', [&] { return static_cast<i128>(q++); }));
    ins.push_back(tensor(g, e, it, S(isc), 'P', [&] { return static_cast<i128>(9999); }));
  }
  g.say("{} axes {} ignore={} two={} {} init {}", kRedName[op], js(axes), ignore, two, ins[0].show(), ins[1].show());
  g.tag(kRedName[op]);
  auto res = exec(e, ins, [&](SPUContext* ctx, std::vector<Value>& a) {
    std::vector<Value> x{a[0]}, init{spdz ? a[1] : a[1]};
    if (two) { x.push_back(a[2]); init.push_back(a[3]); }
    return hlo::Reduce(ctx, x, init, Axes(axes.begin(), axes.end()), [&](absl::Span<const Value> l, absl::Span<const Value> r) -> std::vector<Value> {
      if (!two) return {apply(ctx, op, l[0], r[0])};
      auto p = hlo::GreaterEqual(ctx, l[0], r[0]);
      return {hlo::Select(ctx, p, l[0], r[0]), hlo::Select(ctx, p, l[1], r[1])};
    }, ignore);
  }, Opt{.may_reveal = true});
  IV osh = sh;
  for (auto a : axes) osh[a] = 1;
  auto& r = res[0];
  shapeok(r, dt, osh, kRedName[op]);
  bool sec = ins[0].vis == 'S' || (!ignore && ins[1].vis == 'S');
  // every combination involves the input unless nothing is combined at all
  REQUIRE(!sec || r.vis == 'S', "{}: visibility {}", kRedName[op], r.vis);
  std::vector<i128> want(prod(osh));
  std::vector<bool> set(want.size(), false);
  for (int64_t i = 0; i < prod(sh); ++i) {
    auto x = unflatten(i, sh);
    for (auto a : axes) x[a] = 0;
    auto o = flatten(x, osh);
    want[o] = set[o] ? apply(op, want[o], ins[0].v[i]) : ins[0].v[i];
    set[o] = true;
  }
  if (!ignore) for (auto& w : want) w = apply(op, w, ins[1].v[0]);
  for (size_t i = 0; i < want.size(); ++i)
    REQUIRE(sig(e, dt, r.raw[i]) == sig(e, dt, static_cast<u128>(want[i]) & e.mask), "{} {}: element {} is {} instead of {}", e.show(), kRedName[op], i, strs(e.sgn(r.raw[i])), strs(want[i]));
  if (two) {
    for (size_t i = 0; i < want.size(); ++i) {
      auto q = e.sgn(res[1].raw[i]);
      if (q == 9999) { REQUIRE(!ignore && ins[1].v[0] == want[i], "the index of the initial value came out for {}", strs(want[i])); continue; }
      bool ok = false;
      for (int64_t j = 0; j < prod(sh); ++j) {
        auto x = unflatten(j, sh);
        for (auto a : axes) x[a] = 0;
        if (flatten(x, osh) == static_cast<int64_t>(i) && ins[2].v[j] == q) ok = ok || ins[0].v[j] == want[i];
      }
      REQUIRE(ok, "{}: index {} does not hold the largest value {}", e.show(), strs(q), strs(want[i]));
    }
  }
  std::set<i128> ds(ins[0].v.begin(), ins[0].v.end());
  g.nontrivial(ins[0].vis == 'S' && prod(sh) / prod(osh) >= 3 && ds.size() > 1);
}

namespace {
struct Win { IV shape, stride, dil, base; std::vector<std::pair<int64_t, int64_t>> pad; IV out; };
// a window configuration for a tensor shape; out is the number of windows
Win gwin(Gen& g, const IV& sh, bool pads, bool dils) {
  Win w;
  for (auto d : sh) {
    int64_t base = dils && g.p(0.3) ? 2 : 1, dil = dils && g.p(0.3) ? 2 : 1;
    std::pair<int64_t, int64_t> p{0, 0};
    if (pads && g.p(0.5)) p = {static_cast<int64_t>(g.u(2)), static_cast<int64_t>(g.u(2))};
    int64_t full = (d - 1) * base + 1 + p.first + p.second;
    int64_t win = 1 + static_cast<int64_t>(g.u(std::min<int64_t>(full - 1, 3)));
    while ((win - 1) * dil + 1 > full) { if (dil > 1) dil = 1; else --win; }
    int64_t st = 1 + static_cast<int64_t>(g.u(2));
    w.shape.push_back(win); w.stride.push_back(st); w.dil.push_back(dil); w.base.push_back(base); w.pad.push_back(p);
    w.out.push_back((full - ((win - 1) * dil + 1)) / st + 1);
  }
  return w;
}
std::string show(const Win& w) {
  std::string p;
  for (auto& x : w.pad) p += fmt::format("({},{})", x.first, x.second);
  return fmt::format("window {} stride {} dilation {} base {} pad {} -> {}", js(w.shape), js(w.stride), js(w.dil), js(w.base), p, js(w.out));
}
// flat position in the base of a window element, or -1 for padding
int64_t at(const Win& w, const IV& sh, const IV& o, const IV& wi) {
  IV x(sh.size());
  for (size_t i = 0; i < sh.size(); ++i) {
    int64_t q = o[i] * w.stride[i] + wi[i] * w.dil[i] - w.pad[i].first;
    if (q < 0 || q % w.base[i] != 0 || q / w.base[i] >= sh[i]) return -1;
    x[i] = q / w.base[i];
  }
  return flatten(x, sh);
}
hlo::ReduceWindowConfig conf(const Win& w) {
  hlo::ReduceWindowConfig c;
  c.window_shape = S(w.shape);
  c.window_strides = Strides(w.stride.begin(), w.stride.end());
  c.window_dilations = Sizes(w.dil.begin(), w.dil.end());
  c.base_dilations = Sizes(w.base.begin(), w.base.end());
  c.window_padding = w.pad;
  return c;
}
IV gsh(Gen& g, int lo, int hi, int64_t maxd, int64_t cap) {
  IV sh;
  int64_t n = 1, r = g.in(lo, hi);
  for (int64_t i = 0; i < r; ++i) { int64_t d = 1 + static_cast<int64_t>(g.u(maxd - 1)); if (n * d > cap) d = 1; n *= d; sh.push_back(d); }
  return sh;
}
}  // namespace

PBT(C28, window, 4000, 80000, "a secret input and a window of at least three elements, some of them padding or overlapping") {
  auto e = genv(g, kCmp);
  int op = static_cast<int>(g.u(kReds - 1));
  auto dt = gtype(g, op);
  auto sh = gsh(g, 1, 3, 5, 30);
  auto w = gwin(g, sh, g.p(0.6), g.p(0.5));
  if (prod(w.out) * prod(w.shape) > 200) throw Discard{};
  bool ignore = g.p(0.4);
  char vi = gvis(g);
  auto A = tensor(g, e, dt, S(sh), gvis(g), [&] { return gval(g, e, dt); });
  auto I = tensor(g, e, dt, {}, g.p(0.7) ? 'P' : vi, [&] { return ignore || g.p(0.5) ? ident(e, op, dt) : gval(g, e, dt); });
  if (e.proto == kRef2k || e.proto == kSwift) for (auto* t : {&A, &I}) if (t->vis == 'V') t->vis = 'S';
  g.say("{} ignore={} {} {} init {}", kRedName[op], ignore, show(w), A.show(), I.show());
  g.tag(kRedName[op]);
  auto res = exec(e, {A, I}, [&](SPUContext* ctx, std::vector<Value>& a) {
    auto c = conf(w);
    return hlo::ReduceWindow(ctx, {a[0]}, {a[1]}, S(w.out), c, [&](absl::Span<const Value> l, absl::Span<const Value> r) -> std::vector<Value> { return {apply(ctx, op, l[0], r[0])}; }, ignore);
  }, Opt{.may_reveal = true});
  auto& r = res[0];
  shapeok(r, dt, w.out, kRedName[op]);
  REQUIRE(A.vis != 'S' || r.vis == 'S', "visibility {}", r.vis);
  bool padded = false, overlap = false;
  std::set<int64_t> seen;
  for (int64_t o = 0; o < prod(w.out); ++o) {
    auto oi = unflatten(o, w.out);
    i128 acc = 0;
    bool first = true;
    for (int64_t q = 0; q < prod(w.shape); ++q) {
      auto p = at(w, sh, oi, unflatten(q, w.shape));
      if (p < 0) padded = true; else if (!seen.insert(p).second) overlap = true;
      i128 x = p < 0 ? I.v[0] : A.v[p];
      acc = first ? x : apply(op, acc, x);
      first = false;
    }
    if (!ignore) acc = apply(op, acc, I.v[0]);
    REQUIRE(sig(e, dt, r.raw[o]) == sig(e, dt, static_cast<u128>(acc) & e.mask), "{} {}: window {} is {} instead of {}", e.show(), kRedName[op], js(oi), strs(e.sgn(r.raw[o])), strs(acc));
  }
  g.nontrivial(A.vis == 'S' && prod(w.shape) >= 3 && (padded || overlap));
}

PBT(C28, maxpool, 3000, 60000, "a secret input and overlapping or strided windows of at least two elements with distinct values") {
  auto e = genv(g, kCmp);
  if (e.k == 32 && e.proto == kSwift) e.proto = kAby3, e.cfg.protocol = ProtocolKind::ABY3;
  DataType dt = g.p() ? g.of<DataType>({DT_F32, DT_F64}) : g.of<DataType>({DT_I16, DT_I32, DT_U8});
  bool fast = g.p(0.4);
  bool four = fast || g.p(0.3);
  IV sh = four ? IV{1 + static_cast<int64_t>(g.u(1)), 2 + static_cast<int64_t>(g.u(3)), 2 + static_cast<int64_t>(g.u(3)), 1 + static_cast<int64_t>(g.u(1))} : gsh(g, 1, 3, 5, 24);
  auto w = gwin(g, sh, false, false);
  if (fast) {
    w.shape = {1, 2, 2, 1};
    for (size_t i = 0; i < 4; ++i) { if (g.p(0.85) && (i == 0 || i == 3)) w.stride[i] = 1; w.out[i] = (sh[i] - w.shape[i]) / w.stride[i] + 1; }
  }
  // the base is covered by the windows exactly: the scatter needs it
  bool exact = g.p(0.8);
  if (exact) for (size_t i = 0; i < sh.size(); ++i) sh[i] = (w.out[i] - 1) * w.stride[i] + w.shape[i];
  auto cases = prod(sh);
  bool ties = g.p(0.2);
  auto base = [&]() -> i128 { if (ties) return static_cast<i128>(g.u(2)); auto x = gval(g, e, dt); return x; };
  auto A = tensor(g, e, dt, S(sh), g.p(0.7) ? 'S' : gvis(g), base);
  DataType st = real(dt) ? dt : DT_I32;
  auto U = tensor(g, e, st, S(w.out), g.p(0.7) ? 'S' : gvis(g), [&] { return static_cast<i128>(g.u(2000)) - 1000; });
  if (e.proto == kRef2k || e.proto == kSwift) for (auto* t : {&A, &U}) if (t->vis == 'V') t->vis = 'S';
  bool generic = exact && g.p(0.4);  // select-and-scatter instead of the two steps
  if (generic && e.k == 32) generic = false;
  g.say("{} {} {} update {}", generic ? "select_and_scatter" : "argmax+scatter", show(w), A.show(), U.show());
  g.tag(generic ? "select_and_scatter" : fast ? "argmax fast" : "argmax");
  if (!generic && g.p(0.1)) {
    // dilated windows: the dilated maximum or a refusal, never something else
    Win d = w;
    for (size_t i = 0; i < sh.size(); ++i) {
      if (g.p(0.5) && (d.shape[i] - 1) * 2 + 1 <= sh[i]) d.dil[i] = 2;
      d.out[i] = (sh[i] - ((d.shape[i] - 1) * d.dil[i] + 1)) / d.stride[i] + 1;
    }
    g.say("dilated {}", show(d));
    std::vector<Res> rs;
    try {
      rs = exec(e, {A}, [&](SPUContext* ctx, std::vector<Value>& a) -> std::vector<Value> { auto [m, i] = hlo::ArgMax(ctx, a[0], S(d.out), conf(d)); return {m}; }, Opt{.may_reveal = true});
    } catch (const Violation& v) {
      if (std::string(v.what()).find("Enforce fail") == std::string::npos) throw;
      return;
    }
    shapeok(rs[0], dt, d.out, "dilated max");
    for (int64_t o = 0; o < prod(d.out); ++o) {
      i128 m = 0;
      for (int64_t q = 0; q < prod(d.shape); ++q) { auto x = A.v[at(d, sh, unflatten(o, d.out), unflatten(q, d.shape))]; m = q == 0 ? x : std::max(m, x); }
      REQUIRE(e.sgn(rs[0].raw[o]) == m, "{}: dilated window {}: maximum {} instead of {}", e.show(), o, strs(e.sgn(rs[0].raw[o])), strs(m));
    }
    return;
  }
  auto res = exec(e, {A, U}, [&](SPUContext* ctx, std::vector<Value>& a) -> std::vector<Value> {
    auto c = conf(w);
    if (generic) {
      auto init = hal::zeros(ctx, st, {});
      return {hlo::SelectAndScatter(ctx, a[0], a[1], init, S(w.shape), c.window_strides, w.pad,
          [&](const Value& x, const Value& y) { return hlo::GreaterEqual(ctx, x, y); }, [&](const Value& x, const Value& y) { return hlo::Add(ctx, x, y); })};
    }
    auto [m, i] = hlo::ArgMax(ctx, a[0], S(w.out), c);
    if (!exact) return {m, i};
    return {m, i, hlo::MaxPoolScatter(ctx, i, a[1], S(w.shape), S(sh), c.window_strides, w.pad)};
  }, Opt{.may_reveal = true});
  int64_t W = prod(w.shape), N = prod(w.out);
  std::vector<std::vector<int64_t>> best(N);  // window positions of the largest value
  std::vector<i128> mx(N);
  bool tie = false;
  for (int64_t o = 0; o < N; ++o) {
    auto oi = unflatten(o, w.out);
    bool first = true;
    for (int64_t q = 0; q < W; ++q) { auto x = A.v[at(w, sh, oi, unflatten(q, w.shape))]; if (first || x > mx[o]) mx[o] = x; first = false; }
    for (int64_t q = 0; q < W; ++q) if (A.v[at(w, sh, oi, unflatten(q, w.shape))] == mx[o]) best[o].push_back(q);
    tie = tie || best[o].size() > 1;
  }
  std::vector<int64_t> pick(N, -1);
  if (!generic) {
    shapeok(res[0], dt, w.out, "max");
    IV ish = w.out;
    ish.push_back(W);
    // trailing ones of the fast path keep the same number of elements
    REQUIRE(res[1].sh == S(ish), "argmax: shape {} instead of {}", res[1].sh, js(ish));
    REQUIRE(A.vis != 'S' || (W == 1) || (res[0].vis == 'S' && res[1].vis == 'S'), "visibility {} {}", res[0].vis, res[1].vis);
    for (int64_t o = 0; o < N; ++o) {
      REQUIRE(e.sgn(res[0].raw[o]) == mx[o], "{}: window {}: maximum {} instead of {}", e.show(), o, strs(e.sgn(res[0].raw[o])), strs(mx[o]));
      for (int64_t q = 0; q < W; ++q) {
        auto b = res[1].raw[o * W + q];
        REQUIRE(b == 0 || (b == 1 && pick[o] < 0), "{}: window {}: position mask is not one-hot at {}", e.show(), o, q);
        if (b == 1) pick[o] = q;
      }
      REQUIRE(std::find(best[o].begin(), best[o].end(), pick[o]) != best[o].end(), "{}: window {}: position {} is not the maximum", e.show(), o, pick[o]);
    }
  }
  if (exact) {
    auto& r = res.back();
    shapeok(r, st, sh, "scatter");
    // the chosen position is known, unless equal values leave a choice to the operator
    std::vector<i128> want(prod(sh), 0);
    bool known = true;
    i128 total = 0, sum = 0;
    std::vector<bool> may(prod(sh), false);
    for (int64_t o = 0; o < N; ++o) {
      auto q = generic ? (best[o].size() == 1 ? best[o][0] : -1) : pick[o];
      if (q < 0) known = false; else want[at(w, sh, unflatten(o, w.out), unflatten(q, w.shape))] += U.v[o];
      total += U.v[o];
      for (auto b : best[o]) may[at(w, sh, unflatten(o, w.out), unflatten(b, w.shape))] = true;
    }
    for (size_t i = 0; i < want.size(); ++i) {
      auto x = e.sgn(r.raw[i]);
      sum += x;
      REQUIRE(!known || x == want[i], "{}: scattered element {} is {} instead of {}", e.show(), i, strs(x), strs(want[i]));
      REQUIRE(may[i] || x == 0, "{}: element {} is no maximum but received {}", e.show(), i, strs(x));
    }
    REQUIRE(sum == total, "{}: the scattered values sum to {} instead of {}", e.show(), strs(sum), strs(total));
  }
  std::set<i128> ds(A.v.begin(), A.v.end());
  g.nontrivial(A.vis == 'S' && W >= 2 && N >= 2 && ds.size() > 2 && cases > 2);
}

PBT(C28, conv, 2500, 50000, "a secret image or kernel, several windows, and more than one channel or output feature") {
  auto e = genv(g, kCmp);
  bool real_ = g.p(0.6);
  bool risky = (e.proto == kSemi2k && e.cfg.trunc_allow_msb_error) || e.proto == kSwift;
  if (risky && e.k == 32) { e.cfg.trunc_allow_msb_error = false; risky = e.proto == kSwift; }
  if (risky && e.k == 32) real_ = false;
  auto D = [&](int64_t m) { return 1 + static_cast<int64_t>(g.u(m - 1)); };
  int64_t N = D(2), H = D(5), W = D(5), C = D(3), h = 1 + static_cast<int64_t>(g.u(std::min<int64_t>(H, 3) - 1)), w = 1 + static_cast<int64_t>(g.u(std::min<int64_t>(W, 3) - 1)), O = D(3);
  int64_t s1 = D(3), s2 = D(3), hh = (H - h) / s1 + 1, ww = (W - w) / s2 + 1;
  DataType dt = real_ ? g.of(kReals) : g.of<DataType>({DT_I32, DT_I16, DT_I64}), du = dt;
  if (!real_ && g.p(0.3)) du = DT_I8;
  int bits = (real_ ? (risky ? e.k / 2 - 2 : e.k - 4) : e.k - 2) - 6;
  int b1 = static_cast<int>(g.u(bits)), b2 = bits - b1;
  if (!real_) { b1 = std::min(b1, width(dt) - 2); b2 = std::min(b2, width(du) - 2); }
  auto val = [&](int b) -> i128 { if (b <= 0) return 0; i128 x = static_cast<i128>(g.bits(b)); return g.p() ? -x : x; };
  auto A = tensor(g, e, dt, {N, H, W, C}, gvis(g), [&] { return val(b1); });
  auto K = tensor(g, e, du, {h, w, C, O}, gvis(g), [&] { return val(b2); });
  if (e.proto == kRef2k || e.proto == kSwift) for (auto* t : {&A, &K}) if (t->vis == 'V') t->vis = 'S';
  int f = real_ ? static_cast<int>(fxp(e)) : 0;
  g.say("conv {} strides {},{} {} {}", real_ ? "real" : "int", s1, s2, A.show(), K.show());
  auto res = exec(e, {A, K}, [&](SPUContext* ctx, std::vector<Value>& a) -> std::vector<Value> {
    hlo::ConvolutionConfig c;
    c.window_strides = {s1, s2};
    c.inputBatchDimension = 0; c.inputFeatureDimension = 3; c.inputSpatialDimensions = {1, 2};
    c.kernelInputFeatureDimension = 2; c.kernelOutputFeatureDimension = 3; c.kernelSpatialDimensions = {0, 1};
    c.outputBatchDimension = 0; c.outputFeatureDimension = 3; c.outputSpatialDimensions = {1, 2};
    return {hlo::Convolution2D(ctx, a[0], a[1], c, {N, hh, ww, O})};
  }, Opt{.may_reveal = true});
  auto& r = res[0];
  shapeok(r, std::max(dt, du), {N, hh, ww, O}, "conv");
  REQUIRE((A.vis != 'S' && K.vis != 'S') || r.vis == 'S', "visibility {}", r.vis);
  size_t at = 0;
  for (int64_t n = 0; n < N; ++n) for (int64_t y = 0; y < hh; ++y) for (int64_t x = 0; x < ww; ++x) for (int64_t o = 0; o < O; ++o, ++at) {
    i128 acc = 0;
    for (int64_t i = 0; i < h; ++i) for (int64_t j = 0; j < w; ++j) for (int64_t c = 0; c < C; ++c)
      acc += A.v[((n * H + y * s1 + i) * W + x * s2 + j) * C + c] * K.v[((i * w + j) * C + c) * O + o];
    if (real_) {
      i128 got = e.sgn(r.raw[at]), want = acc >> f;
      REQUIRE(got - want >= -1 && got - want <= 2, "{}: element {} is {} instead of {}", e.show(), at, strs(got), strs(want));
    } else {
      REQUIRE(sig(e, r.dt, r.raw[at]) == sig(e, r.dt, static_cast<u128>(acc) & e.mask), "{}: element {} is {} instead of {}", e.show(), at, strs(e.sgn(r.raw[at])), strs(acc));
    }
  }
  g.nontrivial((A.vis == 'S' || K.vis == 'S') && hh * ww > 1 && C * O > 1);
}
