// Control flow: generated nests of if, case and while against direct
// interpretation, including which branches are executed how often.
#include <algorithm>
#include <memory>
#include "kern.h"
#include "libspu/kernel/hal/shape_ops.h"
#include "libspu/kernel/hlo/control_flow.h"
using namespace kn;
namespace {
enum Op { ADD_, SUB_, NEG_, MULC_, AND_, OR_, XOR_, NOT_, LT_, CONST_, SEL_ };
enum Kind { OP, IF, CASE, WHILE };
struct St { DataType dt; bool sc; char vis; };  // static: vis P, S, or A when it depends on the path
struct Block;
struct Stmt {
  Kind kind = OP;
  Op op = ADD_;
  int a = 0, b = 0, c = 0;  // operands; condition, index or loop limit in a
  int64_t k = 0;            // constant or loop step
  int id = 0;
  std::vector<int> state;   // carried variables of a loop
  std::vector<std::shared_ptr<Block>> br;
};
struct Block { std::vector<Stmt> s; std::vector<int> ret; };
struct M { DataType dt; std::vector<i128> v; bool sec = false, prv = false; bool hid() const { return sec || prv; } };
const char* kO[] = {"add", "sub", "neg", "mulc", "and", "or", "xor", "not", "lt", "const", "sel"};

struct Maker {
  Gen& g;
  const Env& e;
  const Shape& sh;
  int ids = 0, budget = 14;
  bool vcond = false, ctl_sec = false, ctl = false;
  int pick(const std::vector<St>& env, const std::function<bool(const St&)>& f) {
    std::vector<int> c;
    for (size_t i = 0; i < env.size(); ++i) if (f(env[i])) c.push_back(static_cast<int>(i));
    if (c.empty()) return -1;
    // prefer late definitions
    return g.p(0.5) ? c[c.size() - 1 - g.u(std::min<size_t>(c.size() - 1, 2))] : g.of(c);
  }
  static char join(char a, char b) { return a == 'S' || b == 'S' ? 'S' : a == 'P' && b == 'P' ? 'P' : 'A'; }
  static char alt(char a, char b) { return a == b ? a : 'A'; }
  bool op(std::vector<St>& env, Block& b) {
    Stmt s;
    s.op = static_cast<Op>(g.u(10));
    auto num = [](const St& t) { return t.dt != DT_I1; };
    auto bit = [](const St& t) { return t.dt == DT_I1; };
    auto any = [](const St&) { return true; };
    bool bits = s.op == AND_ || s.op == OR_ || s.op == XOR_ || s.op == NOT_;
    s.a = pick(env, s.op == SEL_ ? std::function<bool(const St&)>(any) : bits ? std::function<bool(const St&)>(bit) : std::function<bool(const St&)>(num));
    if (s.a < 0) return false;
    auto ta = env[s.a];
    s.b = s.a;
    if (s.op == ADD_ || s.op == SUB_ || s.op == LT_ || s.op == SEL_ || (bits && s.op != NOT_))
      s.b = pick(env, [&](const St& t) { return t.dt == ta.dt && t.sc == ta.sc; });
    s.c = s.a;
    St r{ta.dt, ta.sc, join(ta.vis, env[s.b].vis)};
    if (s.op == SEL_) {
      s.c = pick(env, [&](const St& t) { return t.dt == DT_I1 && t.sc == ta.sc; });
      if (s.c < 0) return false;
      r.vis = join(r.vis, env[s.c].vis);
    }
    if (s.op == LT_) r.dt = DT_I1;
    if (s.op == CONST_) r.vis = 'P';
    s.k = g.in(-3, 3);
    b.s.push_back(s);
    env.push_back(r);
    return true;
  }
  // a block whose results have the given types
  std::shared_ptr<Block> block(std::vector<St> env, const std::vector<std::pair<DataType, bool>>& outs, int depth, std::vector<char>& vis) {
    auto b = std::make_shared<Block>();
    int n = static_cast<int>(g.u(3));
    for (int i = 0; i < n && budget > 0; ++i) { --budget; if (depth > 0 && g.p(0.35)) ctl_stmt(env, *b, depth - 1); else op(env, *b); }
    vis.clear();
    for (auto [dt, sc] : outs) {
      int r = pick(env, [&, dt = dt, sc = sc](const St& t) { return t.dt == dt && t.sc == sc; });
      b->ret.push_back(r);
      vis.push_back(env[r].vis);
    }
    return b;
  }
  void ctl_stmt(std::vector<St>& env, Block& b, int depth) {
    Stmt s;
    s.id = ++ids;
    ctl = true;
    std::vector<std::pair<DataType, bool>> outs;
    auto k = g.u(99);
    if (k < 45) {
      s.kind = IF;
      s.a = pick(env, [&](const St& t) { return t.dt == DT_I1 && (t.vis != 'A' || t.sc || sh.numel() == 1) && (t.vis != 'P' || t.sc || sh.numel() == 1); });
      if (s.a < 0) return;
      auto c = env[s.a];
      // a secret condition selects elementwise, so results have its shape
      bool any_shape = c.vis == 'P';
      for (size_t i = 0, n = 1 + g.u(2); i < n; ++i) {
        auto t = g.of(env);
        if (!any_shape && t.sc != c.sc) { --i; continue; }
        outs.push_back({t.dt, t.sc});
      }
      std::vector<char> v1, v2;
      s.br.push_back(block(env, outs, depth, v1));
      s.br.push_back(block(env, outs, depth, v2));
      for (size_t i = 0; i < outs.size(); ++i) env.push_back({outs[i].first, outs[i].second, c.vis == 'S' ? 'S' : c.vis == 'A' ? 'A' : alt(v1[i], v2[i])});
      ctl_sec = ctl_sec || c.vis == 'S';
    } else if (k < 75) {
      s.kind = CASE;
      s.a = pick(env, [&](const St& t) { return t.dt == DT_I32 && t.sc && (e.proto != kSpdz2k || t.vis == 'P'); });
      if (s.a < 0) return;
      auto c = env[s.a];
      for (size_t i = 0, n = 1 + g.u(1); i < n; ++i) { auto t = g.of(env); outs.push_back({t.dt, t.sc}); }
      std::vector<char> all;
      for (size_t j = 0, nb = 1 + g.u(3); j < nb; ++j) {
        std::vector<char> v;
        s.br.push_back(block(env, outs, depth, v));
        if (j == 0) all = v;
        for (size_t i = 0; i < v.size(); ++i) all[i] = alt(all[i], v[i]);
      }
      for (size_t i = 0; i < outs.size(); ++i) env.push_back({outs[i].first, outs[i].second, c.vis == 'P' ? all[i] : c.vis == 'S' ? 'S' : 'A'});
      ctl_sec = ctl_sec || c.vis == 'S';
    } else {
      s.kind = WHILE;
      // carried: counter, then the state
      s.a = pick(env, [&](const St& t) { return t.dt == DT_I32 && t.sc && t.vis == 'P'; });
      if (s.a < 0) return;
      s.k = g.in(1, 3);
      auto inner = env;
      inner.push_back({DT_I32, true, 'P'});
      for (size_t i = 0, n = 1 + g.u(2); i < n; ++i) {
        int v = static_cast<int>(g.u(env.size() - 1));
        s.state.push_back(v);
        outs.push_back({env[v].dt, env[v].sc});
        inner.push_back({env[v].dt, env[v].sc, env[v].vis == 'S' ? 'A' : 'A'});
      }
      std::vector<char> v;
      s.br.push_back(block(inner, outs, depth, v));
      for (auto& o : outs) env.push_back({o.first, o.second, 'A'});
    }
    b.s.push_back(std::move(s));
  }
};
struct Model {
  const Env& e;
  std::vector<int> log;
  int steps = 0;
  std::vector<M> run(const Block& b, std::vector<M> env) {
    for (auto& s : b.s) {
      if (++steps > 200) throw Discard{};
      if (s.kind == OP) { env.push_back(op(s, env)); continue; }
      if (s.kind == IF) {
        auto c = env[s.a];
        if (!c.hid()) {
          bool t = c.v[0] != 0;
          log.push_back(s.id * 10 + (t ? 0 : 1));
          for (auto& r : run(*s.br[t ? 0 : 1], env)) env.push_back(r);
        } else {
          log.push_back(s.id * 10);
          auto x = run(*s.br[0], env);
          log.push_back(s.id * 10 + 1);
          auto y = run(*s.br[1], env);
          for (size_t i = 0; i < x.size(); ++i) {
            for (size_t j = 0; j < x[i].v.size(); ++j) if (c.v[j] == 0) x[i].v[j] = y[i].v[j];
            x[i].prv = x[i].prv || y[i].prv || c.prv;
            x[i].sec = c.sec || x[i].sec || y[i].sec;
            env.push_back(x[i]);
          }
        }
      } else if (s.kind == CASE) {
        auto c = env[s.a];
        auto n = static_cast<i128>(s.br.size());
        i128 q = c.v[0];
        if (c.hid()) chk(c);
        auto w = q < 0 || q >= n ? n - 1 : q;
        std::vector<M> r;
        std::vector<char> sec, prv;
        for (i128 j = 0; j < n; ++j) {
          if (!c.hid() && j != w) continue;
          log.push_back(s.id * 10 + static_cast<int>(j));
          auto x = run(*s.br[j], env);
          sec.resize(x.size());
          prv.resize(x.size());
          for (size_t i = 0; i < x.size(); ++i) { sec[i] |= x[i].sec || c.sec; prv[i] |= x[i].prv || c.prv; }
          if (j == w) r = x;
        }
        for (size_t i = 0; i < r.size(); ++i) { r[i].sec = sec[i]; r[i].prv = prv[i]; env.push_back(r[i]); }
      } else {
        M cnt{DT_I32, {0}, false};
        std::vector<M> st;
        for (int v : s.state) st.push_back(env[v]);
        log.push_back(s.id * 10 + 9);
        while (cnt.v[0] < env[s.a].v[0]) {
          log.push_back(s.id * 10);
          auto in = env;
          in.push_back(cnt);
          for (auto& x : st) in.push_back(x);
          st = run(*s.br[0], in);
          cnt.v[0] += s.k;
          if (++steps > 200) throw Discard{};
          log.push_back(s.id * 10 + 9);
        }
        for (auto& x : st) env.push_back(x);
      }
    }
    std::vector<M> r;
    for (int i : b.ret) r.push_back(env[i]);
    return r;
  }
  void chk(const M& m) {
    auto l = one(e.proto == kSecurenn || e.proto == kSpdz2k ? e.k - 4 : e.k - 3);
    for (auto x : m.v) if (x >= l || x <= -l || (!real(m.dt) && (x > hi_of(m.dt, e.k) || x < lo_of(m.dt, e.k)))) throw Discard{};
  }
  M op(const Stmt& s, const std::vector<M>& env) {
    const M &a = env[s.a], &b = env[s.b], &c = env[s.c];
    M r{a.dt, a.v, a.sec || b.sec || (s.op == SEL_ && c.sec), a.prv || b.prv || (s.op == SEL_ && c.prv)};
    if (s.op == LT_) { r.dt = DT_I1; chk(a); chk(b); }
    if (s.op == CONST_) r.sec = r.prv = false;
    for (size_t i = 0; i < a.v.size(); ++i) {
      auto x = a.v[i], y = b.v[i];
      switch (s.op) {
        case ADD_: x = x + y; break;
        case SUB_: x = x - y; break;
        case NEG_: x = -x; break;
        case MULC_: x = x * s.k; break;
        case AND_: x = x & y; break;
        case OR_: x = x | y; break;
        case XOR_: x = x ^ y; break;
        case NOT_: x = 1 - x; break;
        case LT_: x = x < y; break;
        case CONST_: x = real(a.dt) ? static_cast<i128>(s.k) * one(static_cast<int>(fxp(e))) : s.k; break;
        case SEL_: x = c.v[i] ? x : y; break;
      }
      if (x > one(100) || x < -one(100)) throw Discard{};
      r.v[i] = x;
    }
    return r;
  }
};
struct Interp {
  SPUContext* ctx;
  std::vector<int>* log;
  std::vector<Value> run(const Block& b, std::vector<Value> env) {
    for (auto& s : b.s) {
      if (s.kind == OP) { env.push_back(op(s, env)); continue; }
      std::vector<Value> r;
      auto branch = [&](size_t j) -> std::vector<Value> { log->push_back(s.id * 10 + static_cast<int>(j)); return run(*s.br[j], env); };
      if (s.kind == IF) r = hlo::IfElse(ctx, env[s.a], [&] { return branch(0); }, [&] { return branch(1); });
      else if (s.kind == CASE) {
        std::vector<hlo::BranchFcnT> fs;
        for (size_t j = 0; j < s.br.size(); ++j) fs.push_back([&branch, j] { return branch(j); });
        r = hlo::Case(ctx, env[s.a], fs);
      } else {
        std::vector<Value> in{hal::constant(ctx, static_cast<int32_t>(0), DT_I32, env[s.a].shape())};
        for (int v : s.state) in.push_back(env[v]);
        r = hlo::While(ctx, in, [&](absl::Span<const Value> x) {
          log->push_back(s.id * 10 + 9);
          return hlo::Less(ctx, x[0], env[s.a]);
        }, [&](absl::Span<const Value> x) {
          log->push_back(s.id * 10);
          auto inner = env;
          for (auto& v : x) inner.push_back(v);
          auto y = run(*s.br[0], inner);
          y.insert(y.begin(), hlo::Add(ctx, x[0], hal::constant(ctx, static_cast<int32_t>(s.k), DT_I32, x[0].shape())));
          return y;
        });
        if (r.size() != s.state.size() + 1) throw Violation("while changed the number of carried values");
        r.erase(r.begin());
      }
      for (auto& v : r) env.push_back(v);
    }
    std::vector<Value> r;
    for (int i : b.ret) r.push_back(env[i]);
    return r;
  }
  Value op(const Stmt& s, const std::vector<Value>& env) {
    const Value &a = env[s.a], &b = env[s.b], &c = env[s.c];
    switch (s.op) {
      case ADD_: return hlo::Add(ctx, a, b);
      case SUB_: return hlo::Sub(ctx, a, b);
      case NEG_: return hlo::Neg(ctx, a);
      case MULC_: return hlo::Mul(ctx, a, hal::constant(ctx, static_cast<int8_t>(s.k), real(a.dtype()) ? DT_I8 : a.dtype(), a.shape()));
      case AND_: return hlo::And(ctx, a, b);
      case OR_: return hlo::Or(ctx, a, b);
      case XOR_: return hlo::Xor(ctx, a, b);
      case NOT_: return hlo::Not(ctx, a);
      case LT_: return hlo::Less(ctx, a, b);
      case CONST_: return real(a.dtype()) ? hal::constant(ctx, static_cast<float>(s.k), a.dtype(), a.shape()) : hal::constant(ctx, static_cast<int8_t>(s.k), a.dtype(), a.shape());
      default: return hlo::Select(ctx, c, a, b);
    }
  }
};
std::string show(const Block& b) {
  std::string r = "{";
  for (auto& s : b.s) {
    if (s.kind == OP) r += fmt::format("{}({},{},{},{});", kO[s.op], s.a, s.b, s.c, s.k);
    else {
      r += fmt::format("{}#{}({};{})", s.kind == IF ? "if" : s.kind == CASE ? "case" : "while", s.id, s.a, fmt::join(s.state, ","));
      for (auto& x : s.br) r += show(*x);
    }
  }
  return r + fmt::format("->{}}}", fmt::join(b.ret, ","));
}
void nest(Gen& g, const std::vector<int>& protos) {
  auto e = genv(g, protos);
  Shape sh = gshape(g, 3, 3, 8);
  for (auto& d : sh) d = std::max<int64_t>(d, 1);
  if (e.proto == kSpdz2k && sh.size() == 0) sh.push_back(2);
  if (g.p(0.3)) sh = e.proto == kSpdz2k ? Shape{1} : Shape{};
  Shape one_el = e.proto == kSpdz2k ? Shape{1} : Shape{};
  bool allow_v = !(e.proto == kRef2k || e.proto == kSwift || e.proto == kSpdz2k);
  std::vector<St> env;
  std::vector<Tn> in;
  std::vector<M> menv;
  auto numdt = g.p(0.3) ? g.of(kReals) : g.of<DataType>({DT_I8, DT_I16, DT_I32, DT_U32, DT_I64});
  if (numdt == DT_I64 && e.k == 32) numdt = DT_I32;
  auto add = [&](DataType dt, bool sc, char vis, const std::function<i128()>& f) {
    if (vis == 'V' && !allow_v) vis = 'S';
    auto t = tensor(g, e, dt, sc ? one_el : sh, vis, f);
    // SPDZ2K refuses to mix boolean shares of different widths
    env.push_back({dt, sc, vis == 'V' ? 'A' : vis});
    menv.push_back({dt, t.v, vis == 'S', vis == 'V'});
    g.say("v{}={}", in.size(), t.show());
    in.push_back(t);
  };
  auto small = [&](DataType dt) { return [&g, dt] { i128 x = static_cast<i128>(g.u(60)); return uns(dt) ? x : x - 30; }; };
  auto bit = [&] { return static_cast<i128>(g.u(1)); };
  add(numdt, false, g.of<char>({'S', 'S', 'P', 'V'}), small(numdt));
  add(numdt, false, g.of<char>({'S', 'P'}), small(numdt));
  add(DT_I1, false, g.of<char>({'S', 'S', 'P'}), bit);
  add(DT_I1, true, g.of<char>({'S', 'P', 'S', 'P', 'V'}), bit);
  add(DT_I32, true, 'P', [&] { return static_cast<i128>(g.u(4)); });
  auto big = [&]() -> i128 { return g.p(0.85) ? g.in(-1, 4) : g.p() ? g.in(-(1 << 26), 1 << 26) : g.p() ? 1 << 20 : -(1 << 20); };
  add(DT_I32, true, g.of<char>({'S', 'S', 'S', 'P', 'V'}), big);
  Maker mk{g, e, sh};
  Block b;
  auto env0 = env;
  int n = 1 + static_cast<int>(g.u(3));
  for (int i = 0; i < n; ++i) { if (g.p(0.7)) mk.ctl_stmt(env, b, 2); else mk.op(env, b); }
  for (size_t i = 0; i < 3 && i + env0.size() < env.size(); ++i) b.ret.push_back(static_cast<int>(env.size() - 1 - i));
  if (b.ret.empty()) throw Discard{};
  g.say("{} {}", e.show(), show(b));
  Model mo{e};
  auto want = mo.run(b, menv);
  std::sort(mo.log.begin(), mo.log.end());
  Opt opt;
  opt.may_reveal = true;
  auto r = exec(e, in, [&](SPUContext* c, std::vector<Value>& v) {
    std::vector<int> log;
    Interp it{c, &log};
    auto out = it.run(b, v);
    std::sort(log.begin(), log.end());
    if (log != mo.log) throw Violation(fmt::format("branches run: {}; expected: {}", fmt::join(log, ","), fmt::join(mo.log, ",")));
    return out;
  }, opt);
  REQUIRE(r.size() == want.size(), "{} results", r.size());
  for (size_t i = 0; i < r.size(); ++i) {
    REQUIRE(r[i].dt == want[i].dt, "result {} has type {}", i, static_cast<int>(r[i].dt));
    REQUIRE(!want[i].hid() || r[i].vis != 'P', "result {} that depends on private data is public", i);
    REQUIRE(!want[i].sec || r[i].vis == 'S', "result {} that depends on a secret is {}", i, r[i].vis);
    REQUIRE(r[i].raw.size() == want[i].v.size(), "result {} has {} elements", i, r[i].raw.size());
    for (size_t j = 0; j < r[i].raw.size(); ++j) {
      int bits = real(want[i].dt) ? e.k : std::min(width(want[i].dt), e.k);
      u128 m = bits == 128 ? ~static_cast<u128>(0) : (static_cast<u128>(1) << bits) - 1;
      REQUIRE((r[i].raw[j] & m) == (static_cast<u128>(want[i].v[j]) & m), "result {} element {} is {} instead of {}", i, j, strs(e.sgn(r[i].raw[j])), strs(want[i].v[j]));
    }
  }
  if (mk.ctl && mo.log.size() >= 2) g.nontrivial();
}
}  // namespace

PBT(C31, nest, 9000, 40000, "at least two branch executions or loop tests") { nest(g, {kRef2k, kSemi2k, kAby3, kSecurenn}); }
PBT(C31, nest_active, 600, 3000, "at least two branch executions or loop tests") { nest(g, {kSwift, kSpdz2k, kCheetah}); }

// a condition that is not public never decides which code runs
PBT(C31, hidden, 2000, 5000, "always") {
  auto e = genv(g, {kRef2k, kSemi2k, kAby3, kSecurenn, kSwift, kCheetah});
  int what = static_cast<int>(g.u(2));
  char vis = what == 0 || g.p() ? 'S' : 'V';
  i128 x = static_cast<i128>(g.u(1));
  auto c = tensor(g, e, what == 2 ? DT_I32 : DT_I1, Shape{}, vis, [&] { return x; });
  auto d = tensor(g, e, DT_I32, Shape{}, 'P', [&] { return static_cast<i128>(g.u(100)); });
  g.say("{} {} {}", e.show(), what, c.show());
  bool refused = false;
  auto r = exec(e, {c, d}, [&](SPUContext* ctx, std::vector<Value>& v) -> std::vector<Value> {
    std::vector<int> log;
    std::vector<Value> out;
    auto other = hal::constant(ctx, static_cast<int32_t>(7), DT_I32);
    try {
      if (what == 0) out = hlo::While(ctx, {v[1]}, [&](absl::Span<const Value>) { return v[0]; }, [&](absl::Span<const Value> s) {
        log.push_back(0);
        if (log.size() > 3) throw Violation("a loop ran on a hidden condition");
        return std::vector<Value>{s[0]};
      });
      else if (what == 1) out = hlo::IfElse(ctx, v[0], [&] { log.push_back(0); return std::vector<Value>{v[1]}; }, [&] { log.push_back(1); return std::vector<Value>{other}; });
      else {
        std::vector<hlo::BranchFcnT> fs{[&] { log.push_back(0); return std::vector<Value>{v[1]}; }, [&] { log.push_back(1); return std::vector<Value>{other}; }};
        out = hlo::Case(ctx, v[0], fs);
      }
    } catch (const Violation&) { throw; } catch (const std::exception&) {
      if (log.size() == 1) throw Violation("one branch ran before the refusal");
      refused = true;
      return {};
    }
    if (what == 0) throw Violation("a loop with a hidden condition was accepted");
    std::sort(log.begin(), log.end());
    if (log != std::vector<int>{0, 1}) throw Violation(fmt::format("branches run on a hidden condition: {}", fmt::join(log, ",")));
    return out;
  });
  if (!r.empty()) {
    i128 want = what == 1 ? (x ? d.v[0] : 7) : (c.v[0] == 0 ? d.v[0] : 7);
    REQUIRE(as_int(r[0].raw[0], DT_I32) == want, "result is {} instead of {}", strs(as_int(r[0].raw[0], DT_I32)), strs(want));
  } else REQUIRE(refused && what == 0, "a secret or private condition was refused");
  g.nontrivial();
}
