// Integer and boolean kernels against two's complement arithmetic.
#include "kern.h"
#include "libspu/kernel/hlo/shift.h"
using namespace kn;
namespace {
enum K { ADD_, SUB_, MUL_, NEG_, SQ_, EQ_, NE_, LT_, LE_, GT_, GE_, AND_, OR_, XOR_, NOT_, MAX_, MIN_, ABS_, SIGN_, SEL_, CLAMP_, SHL_, SHRA_, SHRL_, POPC_, POW_, DIV_, REM_, kKs };
const char* kN[] = {"add", "sub", "mul", "neg", "square", "eq", "ne", "lt", "le", "gt", "ge", "and", "or", "xor", "not", "max", "min", "abs", "sign", "select", "clamp",
                    "shl", "shra", "shrl", "popcnt", "power", "div", "rem"};
struct N {
  DataType dt = DT_I32;
  std::vector<i128> v;  // exact results; only the low bits are kept by an overflow
  bool live = true;     // in the range of the type: usable as an operand
  char vis = 'P';
};
struct Step { K op; int a = 0, b = 0, c = 0; int flag = 0; };
// |v| must stay below this for the sign of a difference to be defined
i128 order_limit(const Env& e) { return one(e.proto == kSecurenn || e.proto == kSpdz2k ? e.k - 3 : e.k - 2); }
bool orderable(const Env& e, const N& n) {
  for (auto x : n.v) if (x >= order_limit(e) || x < -order_limit(e)) return false;
  return true;
}
bool in_range(const Env& e, DataType d, const std::vector<i128>& v) {
  for (auto x : v) {
    if (x < lo_of(d, e.k)) return false;
    if (uns(d) ? x > (width(d) >= e.k ? hi_of(d, e.k) : one(width(d)) - 1) : x > hi_of(d, e.k)) return false;
  }
  return true;
}
DataType promoted(DataType a, DataType b) { return std::max(a, b); }
i128 wrapmul(i128 a, i128 b) { return static_cast<i128>(static_cast<u128>(a) * static_cast<u128>(b)); }
bool mul_fits(i128 a, i128 b) { i128 r; return !__builtin_mul_overflow(a, b, &r); }
// the step is meaningful on these operands; computes the model's result
bool model(const Env& e, const Step& s, const std::vector<N>& ns, N& out) {
  const N &a = ns[s.a], &b = ns[s.b], &c = ns[s.c];
  size_t n = a.v.size();
  auto set = [&](auto&& f) { out.v.resize(n); for (size_t i = 0; i < n; ++i) out.v[i] = f(i); };
  auto b1 = [&](const N& x) { return x.dt == DT_I1; };
  bool exact = true;
  switch (s.op) {
    case ADD_: case SUB_: case MUL_:
      if (b1(a) && b1(b) && s.op != MUL_) return false;
      out.dt = promoted(a.dt, b.dt);
      set([&](size_t i) {
        if (s.op == ADD_) return static_cast<i128>(static_cast<u128>(a.v[i]) + static_cast<u128>(b.v[i]));
        if (s.op == SUB_) return static_cast<i128>(static_cast<u128>(a.v[i]) - static_cast<u128>(b.v[i]));
        exact = exact && mul_fits(a.v[i], b.v[i]);
        return wrapmul(a.v[i], b.v[i]);
      });
      break;
    case NEG_: if (b1(a)) return false; out.dt = a.dt; set([&](size_t i) { return -a.v[i]; }); break;
    case SQ_: out.dt = a.dt; set([&](size_t i) { exact = exact && mul_fits(a.v[i], a.v[i]); return wrapmul(a.v[i], a.v[i]); }); break;
    case EQ_: case NE_: case LT_: case LE_: case GT_: case GE_:
      if (!orderable(e, a) || !orderable(e, b)) return false;
      out.dt = DT_I1;
      set([&](size_t i) -> i128 {
        auto x = a.v[i], y = b.v[i];
        return s.op == EQ_ ? x == y : s.op == NE_ ? x != y : s.op == LT_ ? x < y : s.op == LE_ ? x <= y : s.op == GT_ ? x > y : x >= y;
      });
      break;
    case AND_: case OR_: case XOR_:
      if (a.dt != b.dt) return false;
      out.dt = a.dt;
      set([&](size_t i) { return s.op == AND_ ? a.v[i] & b.v[i] : s.op == OR_ ? a.v[i] | b.v[i] : a.v[i] ^ b.v[i]; });
      break;
    case NOT_: out.dt = a.dt; set([&](size_t i) { return b1(a) ? 1 - a.v[i] : ~a.v[i]; }); break;
    case MAX_: case MIN_:
      if (a.dt != b.dt || !orderable(e, a) || !orderable(e, b)) return false;
      out.dt = a.dt;
      set([&](size_t i) { return s.op == MAX_ ? std::max(a.v[i], b.v[i]) : std::min(a.v[i], b.v[i]); });
      break;
    case ABS_: if (!orderable(e, a)) return false; out.dt = a.dt; set([&](size_t i) { return a.v[i] < 0 ? -a.v[i] : a.v[i]; }); break;
    case SIGN_:
      if (!orderable(e, a)) return false;
      out.dt = a.dt;
      set([&](size_t i) -> i128 { return a.v[i] < 0 ? -1 : a.v[i] == 0 && !s.flag ? 0 : 1; });
      break;
    case SEL_:
      if (c.dt != DT_I1 || a.dt != b.dt) return false;
      out.dt = a.dt;
      set([&](size_t i) { return c.v[i] ? a.v[i] : b.v[i]; });
      break;
    case CLAMP_:
      if (a.dt != b.dt || a.dt != c.dt || !orderable(e, a) || !orderable(e, b) || !orderable(e, c)) return false;
      out.dt = a.dt;
      set([&](size_t i) { return std::min(std::max(a.v[i], b.v[i]), c.v[i]); });
      for (size_t i = 0; i < n; ++i) if (b.v[i] > c.v[i]) return false;
      break;
    case SHL_: case SHRA_: case SHRL_: {
      if (b1(a) || b1(b)) return false;
      int w = width(a.dt);
      out.dt = a.dt;
      for (auto x : b.v) if (x < 0 || x >= e.k || x >= 127 || (s.op == SHRA_ && x >= w)) return false;
      if (s.op == SHRA_ && uns(a.dt)) for (auto x : a.v) if (x < 0 || x >= one(w - 1)) return false;
      set([&](size_t i) -> i128 {
        int q = static_cast<int>(b.v[i]);
        if (s.op == SHL_) { exact = exact && q < w && mul_fits(a.v[i], one(q)); return static_cast<i128>(static_cast<u128>(a.v[i]) << q); }
        if (s.op == SHRA_) return a.v[i] >> q;
        u128 low = static_cast<u128>(a.v[i]) & ((static_cast<u128>(1) << w) - 1);
        if (q >= w) { exact = exact && b.vis == 'P'; return 0; }
        return as_int(low >> q, a.dt);
      });
      break;
    }
    case POPC_:
      out.dt = a.dt;
      set([&](size_t i) -> i128 {
        u128 low = static_cast<u128>(a.v[i]) & ((static_cast<u128>(1) << width(a.dt)) - 1);
        return __builtin_popcountll(static_cast<uint64_t>(low));
      });
      break;
    case POW_: {
      if (b1(a) || !orderable(e, a)) return false;
      int yb = 0;
      while ((1 << yb) < e.k - 1) ++yb;
      out.dt = a.dt;
      bool ok = true;
      set([&](size_t i) -> i128 {
        i128 x = a.v[i], y = b.v[i];
        if (x == 1) return 1;
        if (x == -1) return y & 1 ? -1 : 1;
        if (y < 0) return 0;
        if (x == 0) { if (y >= (1 << yb)) ok = ok && (y % (1 << yb)) != 0; return y == 0 ? 1 : 0; }
        if (y >= (1 << yb)) { ok = false; return 0; }
        i128 r = 1;
        for (i128 q = 0; q < y; ++q) { exact = exact && mul_fits(r, x); r = wrapmul(r, x); }
        return r;
      });
      if (!ok) return false;
      break;
    }
    case DIV_: case REM_: {
      if (b1(a) || b1(b) || !orderable(e, a) || !orderable(e, b)) return false;
      if (s.op == REM_ && a.dt != b.dt) return false;
      int f = static_cast<int>(fxp(e));
      out.dt = s.op == DIV_ ? a.dt : a.dt;
      // the quotient is computed through fixed point numbers
      i128 qmax = one(std::min(10, f - 2));
      for (size_t i = 0; i < n; ++i) {
        i128 x = a.v[i] < 0 ? -a.v[i] : a.v[i], y = b.v[i] < 0 ? -b.v[i] : b.v[i];
        if (y == 0 || x >= one(e.k - 3 - 2 * f) || y >= one(f) || x / y >= qmax) return false;
      }
      set([&](size_t i) { return s.op == DIV_ ? a.v[i] / b.v[i] : a.v[i] % b.v[i]; });
      break;
    }
    default: return false;
  }
  // an overflow of an operand stays in the high bits, which only a logical
  // right shift drops
  bool dropped = s.op == SHRL_ && width(a.dt) < e.k && b.live;
  if (!a.live && !dropped) exact = false;
  if (!b.live && s.op != NEG_ && s.op != NOT_ && s.op != SQ_ && s.op != SIGN_ && s.op != ABS_ && s.op != POPC_) exact = false;
  if ((!a.live && a.dt != out.dt) || (!b.live && b.dt != out.dt && (s.op == ADD_ || s.op == SUB_ || s.op == MUL_))) return false;  // nor does a conversion
  out.live = exact && in_range(e, out.dt, out.v);
  return true;
}
Value call(SPUContext* ctx, const Step& s, const std::vector<Value>& v) {
  const Value &a = v[s.a], &b = v[s.b], &c = v[s.c];
  switch (s.op) {
    case ADD_: return hlo::Add(ctx, a, b);
    case SUB_: return hlo::Sub(ctx, a, b);
    case MUL_: return hlo::Mul(ctx, a, b);
    case NEG_: return hlo::Neg(ctx, a);
    case SQ_: return hal::square(ctx, a);
    case EQ_: return hlo::Equal(ctx, a, b);
    case NE_: return hlo::NotEqual(ctx, a, b);
    case LT_: return hlo::Less(ctx, a, b);
    case LE_: return hlo::LessEqual(ctx, a, b);
    case GT_: return hlo::Greater(ctx, a, b);
    case GE_: return hlo::GreaterEqual(ctx, a, b);
    case AND_: return hlo::And(ctx, a, b);
    case OR_: return hlo::Or(ctx, a, b);
    case XOR_: return hlo::Xor(ctx, a, b);
    case NOT_: return hlo::Not(ctx, a);
    case MAX_: return hlo::Max(ctx, a, b);
    case MIN_: return hlo::Min(ctx, a, b);
    case ABS_: return hlo::Abs(ctx, a);
    case SIGN_: return hlo::Sign(ctx, a, s.flag != 0);
    case SEL_: return hlo::Select(ctx, c, a, b);
    case CLAMP_: return hlo::Clamp(ctx, a, b, c);
    case SHL_: return hlo::Lshift(ctx, a, b);
    case SHRA_: return hlo::ARshift(ctx, a, b);
    case SHRL_: return hlo::Rshift(ctx, a, b);
    case POPC_: return hlo::Popcnt(ctx, a);
    case POW_: return hlo::Power(ctx, a, b);
    case DIV_: return hlo::Div(ctx, a, b);
    default: return hlo::Remainder(ctx, a, b);
  }
}
bool cheap(K op) { return op != POW_ && op != DIV_ && op != REM_ && op != POPC_; }
int weight(K op) { return op == DIV_ || op == REM_ || op == POW_ || op == POPC_ ? 1 : 4; }
K gop(Gen& g) {
  int tot = 0;
  for (int i = 0; i < kKs; ++i) tot += weight(static_cast<K>(i));
  auto r = static_cast<int>(g.u(tot - 1));
  for (int i = 0; i < kKs; ++i) { r -= weight(static_cast<K>(i)); if (r < 0) return static_cast<K>(i); }
  return ADD_;
}
i128 gint(Gen& g, const Env& e, DataType d, int style) {
  i128 lo = lo_of(d, e.k), hi = hi_of(d, e.k);
  i128 x;
  switch (style) {
    case 1: x = static_cast<i128>(g.u(40)) - 20; break;                       // small: products, powers, quotients
    case 2: x = static_cast<i128>(g.u(std::min(width(d), e.k) - 1)); break;   // shift amounts
    case 3: { i128 l = order_limit(e); x = g.p(0.2) ? (g.p() ? l - 1 - static_cast<i128>(g.u(2)) : -l + static_cast<i128>(g.u(2))) : as_int(g.bits(width(d)), d); break; }
    case 4: x = static_cast<i128>(g.bits(std::max(2, e.k / 3))) ; if (g.p()) x = -x; break;
    default: x = g.p(0.15) ? (g.p() ? lo + static_cast<i128>(g.u(1)) : hi - static_cast<i128>(g.u(1))) : as_int(g.bits(width(d)), d);
  }
  return std::min(std::max(x, lo), hi);
}
}  // namespace

static void program(Gen& g, const std::vector<int>& protos, int maxops, bool heavy) {
  auto e = genv(g, protos);
  Shape sh = gshape(g, 3, 4, 16);
  if (g.p(0.9)) for (auto& d : sh) d = std::max<int64_t>(d, 1);
  if (e.proto == kSpdz2k) { for (auto& d : sh) d = std::max<int64_t>(d, 1); if (sh.size() == 0) sh.push_back(3); }
  std::vector<DataType> types;
  for (auto d : kInts) if (width(d) <= e.k) types.push_back(d);
  auto main_dt = g.of(types);
  std::vector<Tn> ins;
  std::vector<N> ns;
  int nin = 2 + static_cast<int>(g.u(2));
  for (int i = 0; i < nin; ++i) {
    auto dt = i > 0 && g.p(0.75) ? main_dt : g.of(types);
    if (i == 0) dt = main_dt;
    if (i == 3 || (i == 2 && g.p(0.3))) dt = DT_I1;
    int style = i == 1 && g.p(0.5) ? 2 : static_cast<int>(g.u(4));
    ins.push_back(tensor(g, e, dt, sh, gvis(g), [&] { return gint(g, e, dt, style); }));
    N n;
    n.dt = dt; n.v = ins.back().v; n.vis = ins.back().vis;
    n.live = in_range(e, dt, n.v);
    ns.push_back(n);
    g.say("{}:{}", i, ins.back().show());
  }
  std::vector<Step> steps;
  int nops = 1 + static_cast<int>(g.u(maxops - 1));
  bool sec = false;
  for (int t = 0; t < nops * 8 && static_cast<int>(steps.size()) < nops; ++t) {
    Step s;
    s.op = gop(g);
    if (!heavy && !cheap(s.op)) s.op = static_cast<K>(g.u(SHRL_));
    auto pick = [&] { return static_cast<int>(g.p(0.4) ? ns.size() - 1 : g.u(ns.size() - 1)); };
    s.a = pick(); s.b = pick(); s.c = pick();
    if (s.op == SEL_) { std::vector<int> bs; for (size_t i = 0; i < ns.size(); ++i) if (ns[i].dt == DT_I1) bs.push_back(static_cast<int>(i)); if (!bs.empty()) s.c = g.of(bs); }
    if ((s.op == SHL_ || s.op == SHRA_ || s.op == SHRL_ || s.op == POW_) && g.p(0.7)) s.b = 1;
    s.flag = static_cast<int>(g.u(1));
    bool modular = s.op <= SQ_ || s.op == AND_ || s.op == OR_ || s.op == XOR_ || s.op == NOT_ || s.op == POPC_;
    bool shift = s.op == SHL_ || s.op == SHRL_;
    if (!ns[s.a].live && !modular && !shift) continue;
    if (!ns[s.b].live && !modular) continue;
    if (!ns[s.c].live) continue;
    N out;
    if (!model(e, s, ns, out)) continue;
    ns.push_back(out);
    steps.push_back(s);
    g.say("{}={}({},{},{})", ns.size() - 1, kN[s.op], s.a, s.b, s.c);
    g.tag(kN[s.op]);
  }
  if (steps.empty()) throw Discard{};
  for (auto& s : steps) for (int o : {s.a, s.b}) sec = sec || (o < nin && ins[o].vis == 'S');
  auto res = exec(e, ins, [&](SPUContext* ctx, std::vector<Value> vs) {
    std::vector<Value> out;
    for (auto& s : steps) { vs.push_back(call(ctx, s, vs)); out.push_back(vs.back()); }
    return out;
  }, Opt{.may_reveal = true});
  // what depends on a secret is secret
  std::vector<char> vis;
  for (auto& t : ins) vis.push_back(t.vis);
  for (size_t i = 0; i < steps.size(); ++i) {
    auto& s = steps[i];
    auto& want = ns[nin + i];
    auto& r = res[i];
    const char* nm = kN[s.op];
    int args = s.op == SEL_ || s.op == CLAMP_ ? 3 : s.op == NEG_ || s.op == SQ_ || s.op == NOT_ || s.op == ABS_ || s.op == SIGN_ || s.op == POPC_ ? 1 : 2;
    bool hs = false, hv = false;
    for (int j = 0; j < args; ++j) { char c = vis[j == 0 ? s.a : j == 1 ? s.b : s.c]; hs = hs || c == 'S'; hv = hv || c == 'V'; }
    REQUIRE(!hs || r.vis == 'S', "{} {}: a secret operand gave a result of visibility {}", e.show(), nm, r.vis);
    REQUIRE(!hv || r.vis != 'P', "{} {}: a private operand gave a public result", e.show(), nm);
    REQUIRE(hs || hv || r.vis == 'P', "{} {}: public operands gave {}", e.show(), nm, r.vis);
    vis.push_back(r.vis);
    REQUIRE(r.dt == want.dt, "{} {}: type {} instead of {}", e.show(), nm, static_cast<int>(r.dt), static_cast<int>(want.dt));
    REQUIRE(r.sh == sh, "{} {}: shape {} instead of {}", e.show(), nm, r.sh, sh);
    for (size_t j = 0; j < want.v.size(); ++j) {
      u128 got = r.raw[j];
      auto w = as_int(static_cast<u128>(want.v[j]), want.dt);
      auto opv = [&](int o) { return o < nin + static_cast<int>(i) ? strs(ns[o].v[j]) : std::string("?"); };
      if (as_int(got, want.dt) != w)
        throw Violation(fmt::format("{} {}({},{},{}) type {} gave {} instead of {}", e.show(), nm, opv(s.a), opv(s.b), opv(s.c), static_cast<int>(want.dt), strs(as_int(got, want.dt)), strs(w)));
      // no overflow: the ring holds the number itself, as the next operation needs
      if (want.live && e.sgn(got) != want.v[j])
        throw Violation(fmt::format("{} {}({},{},{}) type {} left {} in the ring instead of {}", e.show(), nm, opv(s.a), opv(s.b), opv(s.c), static_cast<int>(want.dt), strs(e.sgn(got)), strs(want.v[j])));
    }
  }
  int neg = 0;
  for (auto& n : ns) for (auto x : n.v) neg += x < 0;
  g.nontrivial(sec && numel(sh) > 0 && (uns(main_dt) || neg > 0));
}
PBT(C24, programs, 12000, 200000, "a secret operand, a non-empty tensor and a negative number (or an unsigned type)") {
  program(g, {kRef2k, kSemi2k, kSemi2k, kAby3, kAby3, kSecurenn, kSwift}, 5, g.p(0.5));
}
PBT(C24, two_party, 3000, 60000, "a secret operand, a non-empty tensor and a negative number (or an unsigned type)") {
  program(g, {kCheetah}, 3, g.p(0.2));
}
// Dot products of vectors and matrices, batched products, tensor contraction.
PBT(C24, products, 3000, 60000, "a secret operand and a contraction over at least two elements") {
  auto e = genv(g, {kRef2k, kSemi2k, kAby3, kSecurenn, kSwift, kCheetah});
  std::vector<DataType> types;
  for (auto d : kInts) if (width(d) <= e.k) types.push_back(d);
  auto dt = g.of(types), du = g.p(0.7) ? dt : g.of(types);
  auto D = [&] { return 1 + static_cast<int64_t>(g.u(3)); };
  int64_t m = D(), k = D(), n = D(), b = D();
  int kind = static_cast<int>(g.u(3));
  Shape s1, s2;
  int r1 = 2, r2 = 2;
  Index ix, iy;
  if (kind == 0) {  // vectors and matrices
    r1 = 1 + static_cast<int>(g.u(1)); r2 = 1 + static_cast<int>(g.u(1));
    s1 = r1 == 1 ? Shape{k} : Shape{m, k};
    s2 = r2 == 1 ? Shape{k} : Shape{k, n};
  } else if (kind == 1) { s1 = {m, k}; s2 = {k, n}; }
  else if (kind == 2) { s1 = {b, m, k}; s2 = {b, k, n}; }
  else {
    // contract nc dimensions of random tensors
    size_t nc = 1 + g.u(1), f1 = g.u(2), f2 = g.u(2);
    std::vector<int64_t> cd, d1, d2;
    for (size_t i = 0; i < nc; ++i) cd.push_back(D());
    auto p1 = g.perm(nc + f1), p2 = g.perm(nc + f2);
    s1 = Shape(nc + f1, 0); s2 = Shape(nc + f2, 0);
    for (size_t i = 0; i < nc + f1; ++i) s1[p1[i]] = i < nc ? cd[i] : 1 + static_cast<int64_t>(g.u(2));
    for (size_t i = 0; i < nc + f2; ++i) s2[p2[i]] = i < nc ? cd[i] : 1 + static_cast<int64_t>(g.u(2));
    for (size_t i = 0; i < nc; ++i) { ix.push_back(p1[i]); iy.push_back(p2[i]); }
  }
  auto A = tensor(g, e, dt, s1, gvis(g, 50), [&] { return gint(g, e, dt, static_cast<int>(g.u(4))); });
  auto B = tensor(g, e, du, s2, gvis(g, 50), [&] { return gint(g, e, du, static_cast<int>(g.u(4))); });
  g.say("kind={} {} {} contract {} {}", kind, A.show(), B.show(), ix, iy);
  auto res = exec(e, {A, B}, [&](SPUContext* ctx, std::vector<Value>& v) -> std::vector<Value> {
    if (kind <= 1) return {hlo::Dot(ctx, v[0], v[1])};
    if (kind == 2) return {hlo::DotGeneral(ctx, v[0], v[1])};
    return {hal::tensordot(ctx, v[0], v[1], ix, iy)};
  });
  auto out = promoted(dt, du);
  // reference: the contraction as a sum over the joint index
  std::vector<u128> want;
  Shape ws;
  auto at = [](const Tn& t, const Index& i) { return static_cast<u128>(t.v[flat(i, t.sh)]); };
  int64_t inner = k;
  if (kind <= 1) {
    int64_t mm = r1 == 1 ? 1 : m, nn = r2 == 1 ? 1 : n;
    ws = {mm, nn};
    for (int64_t i = 0; i < mm; ++i) for (int64_t j = 0; j < nn; ++j) {
      u128 s = 0;
      for (int64_t q = 0; q < k; ++q) s += at(A, r1 == 1 ? Index{q} : Index{i, q}) * at(B, r2 == 1 ? Index{q} : Index{q, j});
      want.push_back(s);
    }
  } else if (kind == 2) {
    ws = {b, m, n};
    for (int64_t t = 0; t < b; ++t) for (int64_t i = 0; i < m; ++i) for (int64_t j = 0; j < n; ++j) {
      u128 s = 0;
      for (int64_t q = 0; q < k; ++q) s += at(A, {t, i, q}) * at(B, {t, q, j});
      want.push_back(s);
    }
  } else {
    std::vector<int64_t> f1, f2;
    for (int64_t i = 0; i < static_cast<int64_t>(s1.size()); ++i) if (std::find(ix.begin(), ix.end(), i) == ix.end()) { f1.push_back(i); ws.push_back(s1[i]); }
    for (int64_t i = 0; i < static_cast<int64_t>(s2.size()); ++i) if (std::find(iy.begin(), iy.end(), i) == iy.end()) { f2.push_back(i); ws.push_back(s2[i]); }
    Shape cs;
    for (auto i : ix) cs.push_back(s1[i]);
    inner = numel(cs);
    for (int64_t o = 0; o < numel(ws); ++o) {
      auto oi = unflat(o, ws);
      u128 s = 0;
      for (int64_t q = 0; q < inner; ++q) {
        auto ci = unflat(q, cs);
        Index a(s1.size()), bb(s2.size());
        for (size_t i = 0; i < ix.size(); ++i) { a[ix[i]] = ci[i]; bb[iy[i]] = ci[i]; }
        for (size_t i = 0; i < f1.size(); ++i) a[f1[i]] = oi[i];
        for (size_t i = 0; i < f2.size(); ++i) bb[f2[i]] = oi[f1.size() + i];
        s += at(A, a) * at(B, bb);
      }
      want.push_back(s);
    }
  }
  auto& r = res[0];
  REQUIRE(r.dt == out, "{}: type {} instead of {}", e.show(), static_cast<int>(r.dt), static_cast<int>(out));
  REQUIRE(r.sh == ws || (kind == 0 && (r1 == 1 || r2 == 1) && numel(r.sh) == numel(ws)), "{}: shape {} instead of {}", e.show(), r.sh, ws);
  for (size_t i = 0; i < want.size(); ++i) {
    auto got = as_int(r.raw[i], out), w = as_int(want[i], out);
    REQUIRE(got == w, "{}: element {} is {} instead of {}", e.show(), i, strs(got), strs(w));
  }
  g.nontrivial((A.vis == 'S' || B.vis == 'S') && inner > 1);
}
