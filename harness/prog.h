// Generated programs over public, private and secret ring tensors, with a
// plaintext model of every intermediate value.
#pragma once
#include <numeric>
#include "proto.h"
#include "libspu/kernel/hal/prot_wrapper.h"
#include "libspu/kernel/hal/ring.h"
#include "libspu/mpc/ab_api.h"
#include "libspu/mpc/api.h"
namespace prog {
using namespace pr;
namespace hal = spu::kernel::hal;
enum Op {
  INPUT,
  // arithmetic
  ADD, SUB, MUL, NEG, SQUARE, MMUL, TDOT, LSHIFT,
  // boolean
  AND, XOR, OR, NOT, RSHIFT, ARSHIFT, BITREV, DEINTL, MSB, EQUAL, LESS, MUX, SIGN, PARITY, POPCOUNT, PREFIXOR, PREFER_A, PREFER_B, INTL_B, DEINTL_B, ADD_BB, CLAMP,
  // visibility
  TO_S, TO_V, TO_P,
  // shape
  TRANSPOSE, RESHAPE, SLICE, BROADCAST, REVERSE, PAD, UPDATE, CONCAT,
  kOps
};
inline const char* kOpNames[] = {"input", "add", "sub", "mul", "neg", "square", "mmul", "tensordot", "lshift", "and", "xor", "or", "not", "rshift", "arshift",
  "bitrev", "bitdeintl", "msb", "equal", "less", "mux", "sign", "parity", "popcount", "prefix_or", "prefer_a", "prefer_b", "bitintl_b", "bitdeintl_b", "add_bb", "clamp",
  "to_secret", "to_private", "to_public", "transpose", "reshape", "slice", "broadcast", "reverse", "pad", "update", "concat"};
struct Node {
  Op op = INPUT;
  char vis = 'P';
  size_t owner = 0;
  Shape sh;
  std::vector<u128> v;
  int a = -1, b = -1, c = -1;
  Sizes bits;
  size_t s = 0, t = 0;
  int view = 0;  // memory layout of the result
  Axes axes;
  Index lo, hi;
  Strides st;
  Sizes p0, p1, p2;
  Arr in;             // INPUT
  bool own_in = false;  // private input placed at its owner instead of p2v
  bool is_bit() const { for (auto x : v) if (x > 1) return false; return true; }
};
inline int64_t numel(const Shape& s) { int64_t n = 1; for (auto d : s) n *= d; return n; }
inline Index unflat(int64_t i, const Shape& s) {
  Index r(s.size());
  for (size_t k = s.size(); k-- > 0;) { r[k] = i % s[k]; i /= s[k]; }
  return r;
}
inline int64_t flat(const Index& ix, const Shape& s) { int64_t r = 0; for (size_t k = 0; k < s.size(); ++k) r = r * s[k] + ix[k]; return r; }

struct Options {
  std::vector<std::pair<Op, int>> weights;
  int max_ops = 8;
  double pbit = 0.2;  // inputs that are 0/1
  int64_t cap = 40;
};
class Program {
 public:
  Env e;
  std::vector<Node> n;
  Program(Gen& g, const Env& env, const Options& o) : e(env), g_(g), o_(o) {
    Shape base = gsh();
    int ni = 1 + static_cast<int>(g.u(2));
    for (int i = 0; i < ni; ++i) input(g.p(0.8) ? base : gsh());
    int tot = 0;
    for (auto& w : o.weights) tot += w.second;
    auto want = 1 + g.u(o.max_ops - 1);
    for (uint64_t i = 0; i < want; ++i) {
      int r = static_cast<int>(g.u(tot - 1));
      size_t j = 0;
      while (r >= o.weights[j].second) r -= o.weights[j++].second;
      step(o.weights[j].first);
    }
    for (auto& x : n) {
      x.view = g.p(0.15) ? static_cast<int>(1 + g.u(2)) : 0;
      g.say("{}{}", show(x), x.view ? fmt::format("~{}", x.view) : "");
      if (x.vis != 'P' && x.op != INPUT) g.tag(kOpNames[x.op]);
    }
  }
  std::string show(const Node& x) const {
    std::string s = fmt::format("{}={}{}", &x - n.data(), kOpNames[x.op], x.op == INPUT ? lay::show(x.in) : "");
    if (x.a >= 0) s += fmt::format("({}{}{}", x.a, x.b >= 0 ? fmt::format(",{}", x.b) : "", x.c >= 0 ? fmt::format(",{}", x.c) : "");
    if (!x.bits.empty()) s += fmt::format(";{}", fmt::join(x.bits, "/"));
    if (x.s || x.t) s += fmt::format(";{}:{}", x.s, x.t);
    if (x.a >= 0) s += ")";
    return s + fmt::format(":{}[{}]{}", x.vis == 'V' ? fmt::format("V{}", x.owner) : std::string(1, x.vis), fmt::join(x.sh, "x"), x.op == INPUT ? "{" + lay::show(x.v, 4) + "}" : "");
  }
  bool has_secret() const { for (auto& x : n) if (x.vis != 'P' && numel(x.sh) > 0) return true; return false; }

  // ---- execution on one party
  std::vector<Value> exec(SPUContext* ctx, size_t me, const std::function<void(size_t, Value&)>& hook = nullptr) const {
    std::vector<Value> val;
    for (const auto& x : n) {
      Value A = x.a >= 0 ? val[x.a] : Value(), B = x.b >= 0 ? val[x.b] : Value(), C = x.c >= 0 ? val[x.c] : Value();
      Value r;
      switch (x.op) {
        case INPUT: {
          DataType dt = x.s ? DT_I1 : DT_INVALID;
          if (x.vis == 'P') r = pub(e, x.in.r, dt);
          else if (x.vis == 'V') r = x.own_in ? priv(e, x.in.r, dt, x.owner, me) : hal::_p2v(ctx, pub(e, x.in.r, dt), static_cast<int>(x.owner));
          else r = x.own_in ? hal::_v2s(ctx, priv(e, x.in.r, dt, x.owner, me)) : hal::_p2s(ctx, pub(e, x.in.r, dt));
          break;
        }
        case ADD: r = hal::_add(ctx, A, B); break;
        case SUB: r = hal::_sub(ctx, A, B); break;
        case MUL: r = hal::_mul(ctx, A, B); break;
        case NEG: r = hal::_negate(ctx, A); break;
        case SQUARE: r = hal::_square(ctx, A); break;
        case MMUL: r = hal::_mmul(ctx, A, B); break;
        case TDOT: r = hal::_tensordot(ctx, A, B, x.lo, x.hi); break;
        case LSHIFT: r = hal::_lshift(ctx, A, x.bits); break;
        case AND: r = hal::_and(ctx, A, B); break;
        case XOR: r = hal::_xor(ctx, A, B); break;
        case OR: r = hal::_or(ctx, A, B); break;
        case NOT: r = hal::_not(ctx, A); break;
        case RSHIFT: r = hal::_rshift(ctx, A, x.bits); break;
        case ARSHIFT: r = hal::_arshift(ctx, A, x.bits); break;
        case BITREV: r = hal::_bitrev(ctx, A, x.s, x.t); break;
        case DEINTL: r = hal::_bitdeintl(ctx, A); break;
        case MSB: r = hal::_msb(ctx, A); break;
        case EQUAL: r = hal::_equal(ctx, A, B); break;
        case LESS: r = hal::_less(ctx, A, B); break;
        case MUX: r = hal::_mux(ctx, A, B, C); break;
        case CLAMP: r = hal::_clamp(ctx, A, B, C); break;
        case SIGN: r = hal::_sign(ctx, A); break;
        case PARITY: r = hal::_bit_parity(ctx, A, x.s); break;
        case POPCOUNT: r = hal::_popcount(ctx, A, x.s); break;
        case PREFIXOR: r = hal::_prefix_or(ctx, A); break;
        case PREFER_A: r = hal::_prefer_a(ctx, A); break;
        case PREFER_B: r = hal::_prefer_b(ctx, A); break;
        case INTL_B: r = mpc::bitintl_b(ctx, hal::_prefer_b(ctx, A), x.s); break;
        case DEINTL_B: r = mpc::bitdeintl_b(ctx, hal::_prefer_b(ctx, A), x.s); break;
        case ADD_BB: r = mpc::add_bb(ctx, mpc::a2b(ctx, hal::_prefer_a(ctx, A)), mpc::a2b(ctx, hal::_prefer_a(ctx, B))); break;
        case TO_S: r = A.isPrivate() ? hal::_v2s(ctx, A) : hal::_p2s(ctx, A); break;
        case TO_V: r = A.isSecret() ? hal::_s2v(ctx, A, static_cast<int>(x.owner)) : hal::_p2v(ctx, A, static_cast<int>(x.owner)); break;
        case TO_P: r = A.isSecret() ? hal::_s2p(ctx, A) : hal::_v2p(ctx, A); break;
        case TRANSPOSE: r = hal::_transpose(ctx, A, x.axes); break;
        case RESHAPE: r = hal::_reshape(ctx, A, x.sh); break;
        case SLICE: r = hal::_extract_slice(ctx, A, x.lo, x.hi, x.st); break;
        case BROADCAST: r = hal::_broadcast(ctx, A, x.sh, x.axes); break;
        case REVERSE: r = hal::_reverse(ctx, A, x.axes); break;
        case PAD: { auto B2 = hal::_reshape(ctx, hal::_extract_slice(ctx, hal::_reshape(ctx, A, {A.numel()}), {0}, {1}, {1}), {}); r = hal::_pad(ctx, A, B2, x.p0, x.p1, x.p2); break; }
        case UPDATE: r = hal::_update_slice(ctx, A, hal::_extract_slice(ctx, A, x.lo, x.hi, {}), x.st.empty() ? Index{} : Index(x.st.begin(), x.st.end())); break;
        case CONCAT: r = hal::_concatenate(ctx, {A, A}, static_cast<int64_t>(x.s)); break;
        default: throw Violation("internal: op");
      }
      val.push_back(odd(r, x.view));
      if (hook) hook(val.size() - 1, val.back());
    }
    return val;
  }
  // reveal: all nodes; how[i]: 0 to everybody, 1+r through party r
  struct Out {
    std::vector<std::vector<u128>> v;
    std::string bad;
  };
  Out run_party(SPUContext* ctx, size_t me, const std::vector<int>& how) const {
    auto val = exec(ctx, me);
    Out o;
    for (size_t i = 0; i < n.size(); ++i) {
      auto x = val[i];
      char vis = x.isPublic() ? 'P' : x.isPrivate() ? 'V' : 'S';
      if (vis != n[i].vis && o.bad.empty()) o.bad = fmt::format("node {} is {} instead of {}", i, vis, n[i].vis);
      if (vis == 'V' && static_cast<size_t>(x.owner()) != n[i].owner && o.bad.empty()) o.bad = fmt::format("node {} belongs to party {} instead of {}", i, x.owner(), n[i].owner);
      if (x.shape() != n[i].sh && o.bad.empty()) o.bad = fmt::format("node {} has shape {} instead of {}", i, x.shape(), n[i].sh);
      if (how[i] < 0) { o.v.push_back({}); continue; }
      Value p;
      if (vis == 'P') p = x;
      else if (vis == 'V') p = hal::_v2p(ctx, x);
      else if (how[i] == 0) p = hal::_s2p(ctx, x);
      else {
        auto pv = hal::_s2v(ctx, x, how[i] - 1);
        if ((!pv.isPrivate() || pv.owner() != how[i] - 1 || pv.shape() != x.shape()) && o.bad.empty()) o.bad = fmt::format("node {} revealed to party {} has type {}", i, how[i] - 1, pv.storage_type().toString());
        if (static_cast<int>(me) != how[i] - 1)
          for (auto q : vals(pv.data(), e.w)) if (q != 0 && o.bad.empty()) o.bad = fmt::format("party {} holds data of node {} revealed to party {}", me, i, how[i] - 1);
        p = hal::_v2p(ctx, pv);
      }
      o.v.push_back(vals(p.data()));
    }
    return o;
  }
  void check(Gen& g, double reveal_p = 1.0) const {
    std::vector<int> how;
    for (size_t i = 0; i < n.size(); ++i)
      how.push_back(i + 1 == n.size() || g.p(reveal_p) ? (g.p(0.25) && e.n > 1 ? 1 + static_cast<int>(g.u(e.n - 1)) : 0) : -1);
    auto out = run<Out>(e, [&](size_t me, SPUContext* ctx) { return run_party(ctx, me, how); });
    for (size_t p = 0; p < out.size(); ++p) {
      for (size_t i = 0; i < n.size(); ++i)
        if (how[i] >= 0) {
          auto d = diff(out[p].v[i], n[i].v);
          REQUIRE(d.empty(), "{}: node {} ({}) seen by party {}: {}", e.show(), i, show(n[i]), p, d);
        }
      REQUIRE(out[p].bad.empty(), "{}: party {}: {}", e.show(), p, out[p].bad);
    }
  }

 private:
  Gen& g_;
  Options o_;
  int pick() { return static_cast<int>(g_.u(n.size() - 1)); }
  int pick_recent() { return g_.p(0.6) ? static_cast<int>(n.size()) - 1 - static_cast<int>(g_.u(std::min<size_t>(2, n.size() - 1))) : pick(); }
  int pick_shape(const Shape& s, int self) {
    std::vector<int> c;
    for (size_t i = 0; i < n.size(); ++i) if (n[i].sh == s) c.push_back(static_cast<int>(i));
    if (!c.empty() && !(c.size() == 1 && c[0] == self && g_.p(0.7))) return g_.of(c);
    return input(s);
  }
  int input(const Shape& s) {
    Node x;
    x.sh = s;
    x.vis = g_.of<char>({'P', 'V', 'S', 'S', 'S'});
    x.owner = g_.u(e.n - 1);
    x.own_in = g_.p();
    bool bit = g_.p(o_.pbit), small = g_.p(0.15), narrow = e.proto == kSecurenn && g_.p(0.7);
    auto val = [&]() -> u128 {
      if (bit) return static_cast<u128>(g_.u(1));
      if (small) return static_cast<u128>(static_cast<i128>(g_.in(-3, 3))) & e.mask;
      if (narrow) return static_cast<u128>(e.sgn(elem(g_, e)) >> 3) & e.mask;
      return elem(g_, e);
    };
    // one-bit boolean shares only through the type the API attaches to them
    x.s = bit && g_.p() && !x.own_in;
    if (x.vis == 'V') x.s = 0;
    x.in = arr(g_, makeType<mpc::Pub2kTy>(e.field), s, false, val);
    x.v = x.in.v;
    n.push_back(std::move(x));
    return static_cast<int>(n.size()) - 1;
  }
  void mix_vis(Node& x, std::initializer_list<int> ops) {
    // public < private < secret; different owners give secret
    char v = 'P';
    size_t ow = 0;
    for (int i : ops) {
      if (i < 0) continue;
      auto& q = n[i];
      if (q.vis == 'P') continue;
      if (q.vis == 'S' || v == 'S' || (v == 'V' && ow != q.owner)) v = 'S';
      else { v = 'V'; ow = q.owner; }
    }
    x.vis = v;
    x.owner = v == 'V' ? ow : 0;
  }
  // Some protocols document a smaller domain for comparisons.
  bool cmp_ok(const std::vector<u128>& v) const {
    if (e.proto != kSecurenn && e.proto != kSpdz2k) return true;
    i128 lim = static_cast<i128>(1) << (e.k - 2);
    for (auto x : v) if (e.sgn(x) < -lim || e.sgn(x) >= lim) return false;
    return true;
  }
  std::vector<u128> zip(int a, int b, const std::function<u128(u128, u128)>& f) const {
    std::vector<u128> r;
    for (size_t i = 0; i < n[a].v.size(); ++i) r.push_back(f(n[a].v[i], n[b].v[i]) & e.mask);
    return r;
  }
  std::vector<u128> map(int a, const std::function<u128(u128)>& f) const {
    std::vector<u128> r;
    for (auto x : n[a].v) r.push_back(f(x) & e.mask);
    return r;
  }
  void step(Op op) {
    Node x;
    x.op = op;
    const int k = e.k;
    auto unary = [&](int a, const std::function<u128(u128)>& f) { x.a = a; x.sh = n[a].sh; x.v = map(a, f); mix_vis(x, {a}); };
    auto binary = [&](const std::function<u128(u128, u128)>& f) {
      x.a = pick_recent();
      x.b = pick_shape(n[x.a].sh, x.a);
      if (g_.p(0.3)) std::swap(x.a, x.b);
      x.sh = n[x.a].sh;
      x.v = zip(x.a, x.b, f);
      mix_vis(x, {x.a, x.b});
    };
    auto gather = [&](const Shape& sh, const std::function<int64_t(const Index&)>& src) {
      x.sh = sh;
      for (int64_t i = 0; i < numel(sh); ++i) x.v.push_back(n[x.a].v[src(unflat(i, sh))]);
      mix_vis(x, {x.a});
    };
    switch (op) {
      case ADD: binary([](u128 p, u128 q) { return p + q; }); break;
      case SUB: binary([](u128 p, u128 q) { return p - q; }); break;
      case MUL: binary([](u128 p, u128 q) { return p * q; }); break;
      case AND: binary([](u128 p, u128 q) { return p & q; }); break;
      case XOR: binary([](u128 p, u128 q) { return p ^ q; }); break;
      case OR: binary([](u128 p, u128 q) { return p | q; }); break;
      case ADD_BB:
        binary([](u128 p, u128 q) { return p + q; });
        if (n[x.a].vis != 'S' || n[x.b].vis != 'S' || e.proto == kRef2k) return;
        break;
      case EQUAL: case LESS: {
        binary([&](u128 p, u128 q) { return op == EQUAL ? p == q : static_cast<u128>(((p - q) >> (k - 1)) & 1); });
        auto d = zip(x.a, x.b, [](u128 p, u128 q) { return p - q; });
        if (!cmp_ok(d)) return;
        break;
      }
      case NEG: unary(pick_recent(), [](u128 p) { return -p; }); break;
      case NOT: unary(pick_recent(), [](u128 p) { return ~p; }); break;
      case SQUARE: unary(pick_recent(), [](u128 p) { return p * p; }); break;
      case PREFER_A: case PREFER_B: unary(pick_recent(), [](u128 p) { return p; }); if (x.vis != 'S') return; break;
      case MSB: case SIGN: {
        int a = pick_recent();
        if (!cmp_ok(n[a].v)) return;
        unary(a, [&](u128 p) -> u128 { auto b = (p >> (k - 1)) & 1; return op == MSB ? b : 1 - 2 * b; });
        break;
      }
      case PREFIXOR: unary(pick_recent(), [&](u128 p) { for (int s = 1; s < k; s *= 2) p |= p >> s; return p; }); break;
      case PARITY: {
        x.s = static_cast<size_t>(1) << g_.u(k == 32 ? 5 : k == 64 ? 6 : 7);
        unary(pick_recent(), [&](u128 p) { u128 r = 0; for (size_t i = 0; i < x.s; ++i) r ^= (p >> i) & 1; return r; });
        break;
      }
      case POPCOUNT: {
        x.s = 1 + g_.u(g_.p(0.2) ? k - 1 : 7);
        unary(pick_recent(), [&](u128 p) { u128 r = 0; for (size_t i = 0; i < x.s; ++i) r += (p >> i) & 1; return r; });
        if (numel(x.sh) == 0) return;
        break;
      }
      case DEINTL:
        unary(pick_recent(), [&](u128 p) {
          u128 r = 0;
          for (int i = 0; i < k; ++i) if ((p >> i) & 1) r |= static_cast<u128>(1) << (i % 2 == 0 ? i / 2 : k / 2 + i / 2);
          return r;
        });
        break;
      case LSHIFT: case RSHIFT: case ARSHIFT: {
        int a = pick_recent();
        if (g_.p(0.75) || n[a].v.empty()) x.bits = {static_cast<int64_t>(g_.p(0.3) ? g_.of<int>({0, 1, k - 1, k / 2}) : g_.u(k - 1))};
        else for (size_t i = 0; i < n[a].v.size(); ++i) x.bits.push_back(static_cast<int64_t>(g_.u(k - 1)));
        x.a = a; x.sh = n[a].sh; mix_vis(x, {a});
        for (size_t i = 0; i < n[a].v.size(); ++i) {
          int64_t s = x.bits.size() == 1 ? x.bits[0] : x.bits[i];
          u128 p = n[a].v[i];
          x.v.push_back((op == LSHIFT ? p << s : op == RSHIFT ? p >> s : static_cast<u128>(e.sgn(p) >> s)) & e.mask);
        }
        break;
      }
      case BITREV: {
        x.s = g_.p(0.2) ? 0 : g_.u(k); x.t = g_.p(0.3) ? k : x.s + g_.u(k - x.s);
        unary(pick_recent(), [&](u128 p) {
          for (size_t i = x.s, j = x.t; i + 1 < j; ++i, --j) {
            u128 bi = (p >> i) & 1, bj = (p >> (j - 1)) & 1;
            p &= ~((static_cast<u128>(1) << i) | (static_cast<u128>(1) << (j - 1)));
            p |= (bi << (j - 1)) | (bj << i);
          }
          return p;
        });
        break;
      }
      case MUX: {
        std::vector<int> c;
        for (size_t i = 0; i < n.size(); ++i) if (n[i].is_bit()) c.push_back(static_cast<int>(i));
        if (c.empty()) return;
        x.a = g_.of(c); x.sh = n[x.a].sh;
        x.b = pick_shape(x.sh, -1); x.c = pick_shape(x.sh, -1);
        for (size_t i = 0; i < n[x.a].v.size(); ++i) x.v.push_back(n[x.a].v[i] ? n[x.b].v[i] : n[x.c].v[i]);
        mix_vis(x, {x.a, x.b, x.c});
        break;
      }
      case CLAMP: {
        x.a = pick_recent(); x.sh = n[x.a].sh;
        x.b = pick_shape(x.sh, -1); x.c = pick_shape(x.sh, -1);
        i128 lim = static_cast<i128>(1) << (k - 3);
        for (int i : {x.a, x.b, x.c}) for (auto q : n[i].v) if (e.sgn(q) < -lim || e.sgn(q) >= lim) return;
        for (size_t i = 0; i < n[x.a].v.size(); ++i) {
          u128 q = n[x.a].v[i];
          if (e.sgn(q) < e.sgn(n[x.b].v[i])) q = n[x.b].v[i];
          if (!(e.sgn(q) < e.sgn(n[x.c].v[i]))) q = n[x.c].v[i];
          x.v.push_back(q);
        }
        mix_vis(x, {x.a, x.b, x.c});
        break;
      }
      case MMUL: {
        x.a = pick_recent();
        if (n[x.a].sh.size() != 2) { x.a = reshape2(x.a); }
        int64_t m = n[x.a].sh[0], kk = n[x.a].sh[1];
        std::vector<int> c;
        for (size_t i = 0; i < n.size(); ++i) if (n[i].sh.size() == 2 && n[i].sh[0] == kk) c.push_back(static_cast<int>(i));
        if (!c.empty() && g_.p(0.5)) x.b = g_.of(c);
        else {
          std::vector<int> t;
          for (size_t i = 0; i < n.size(); ++i) if (n[i].sh.size() == 2 && n[i].sh[1] == kk) t.push_back(static_cast<int>(i));
          if (g_.p(0.5)) x.b = input({kk, static_cast<int64_t>(1 + g_.u(3))});
          else {  // the transpose of something with as many columns
            Node y; y.op = TRANSPOSE; y.a = g_.of(t); y.axes = {1, 0}; y.sh = {n[y.a].sh[1], n[y.a].sh[0]};
            for (int64_t i = 0; i < y.sh[0]; ++i) for (int64_t j = 0; j < y.sh[1]; ++j) y.v.push_back(n[y.a].v[j * y.sh[0] + i]);
            mix_vis(y, {y.a});
            n.push_back(y);
            x.b = static_cast<int>(n.size()) - 1;
          }
        }
        int64_t nn = n[x.b].sh[1];
        if (m * kk * nn > 4000) return;
        x.sh = {m, nn};
        x.v.assign(m * nn, 0);
        for (int64_t i = 0; i < m; ++i) for (int64_t j = 0; j < nn; ++j) for (int64_t l = 0; l < kk; ++l) x.v[i * nn + j] += n[x.a].v[i * kk + l] * n[x.b].v[l * nn + j];
        for (auto& q : x.v) q &= e.mask;
        mix_vis(x, {x.a, x.b});
        break;
      }
      case TDOT: {
        x.a = pick_recent();
        auto sa = n[x.a].sh;
        if (sa.size() == 0) return;
        auto pa = g_.perm(sa.size());
        size_t nc = 1 + g_.u(sa.size() - 1);
        Shape sb;
        size_t extra = g_.u(1);
        for (size_t i = 0; i < nc; ++i) sb.push_back(sa[pa[i]]);
        for (size_t i = 0; i < extra; ++i) sb.push_back(1 + static_cast<int64_t>(g_.u(2)));
        auto pb = g_.perm(sb.size());  // position of axis i of sb
        Shape sh2(sb.size());
        for (size_t i = 0; i < sb.size(); ++i) sh2[pb[i]] = sb[i];
        x.b = pick_shape(sh2, -1);
        for (size_t i = 0; i < nc; ++i) { x.lo.push_back(pa[i]); x.hi.push_back(pb[i]); }
        for (size_t d = 0; d < sa.size(); ++d) if (std::find(x.lo.begin(), x.lo.end(), d) == x.lo.end()) x.sh.push_back(sa[d]);
        size_t ra = x.sh.size();
        for (size_t d = 0; d < sh2.size(); ++d) if (std::find(x.hi.begin(), x.hi.end(), d) == x.hi.end()) x.sh.push_back(sh2[d]);
        Shape cs; for (size_t i = 0; i < nc; ++i) cs.push_back(sb[i]);
        for (int64_t i = 0; i < numel(x.sh); ++i) {
          auto o = unflat(i, x.sh);
          u128 s = 0;
          for (int64_t j = 0; j < numel(cs); ++j) {
            auto cj = unflat(j, cs);
            Index ia(sa.size()), ib(sh2.size());
            size_t q = 0;
            for (size_t d = 0; d < sa.size(); ++d) { auto it = std::find(x.lo.begin(), x.lo.end(), d); if (it == x.lo.end()) ia[d] = o[q++]; else ia[d] = cj[it - x.lo.begin()]; }
            q = ra;
            for (size_t d = 0; d < sh2.size(); ++d) { auto it = std::find(x.hi.begin(), x.hi.end(), d); if (it == x.hi.end()) ib[d] = o[q++]; else ib[d] = cj[it - x.hi.begin()]; }
            s += n[x.a].v[flat(ia, sa)] * n[x.b].v[flat(ib, sh2)];
          }
          x.v.push_back(s & e.mask);
        }
        mix_vis(x, {x.a, x.b});
        break;
      }
      case TO_S: x.a = pick_recent(); if (n[x.a].vis == 'S') return; x.sh = n[x.a].sh; x.v = n[x.a].v; x.vis = 'S'; break;
      case TO_V: x.a = pick_recent(); if (n[x.a].vis == 'V') return; x.sh = n[x.a].sh; x.v = n[x.a].v; x.vis = 'V'; x.owner = g_.u(e.n - 1); break;
      case TO_P: x.a = pick_recent(); if (n[x.a].vis == 'P') return; x.sh = n[x.a].sh; x.v = n[x.a].v; x.vis = 'P'; break;
      case TRANSPOSE: {
        x.a = pick_recent();
        auto s = n[x.a].sh;
        auto pm = g_.perm(s.size());
        x.axes = Axes(pm.begin(), pm.end());
        Shape o; for (auto d : pm) o.push_back(s[d]);
        gather(o, [&](const Index& ix) { Index q(s.size()); for (size_t i = 0; i < pm.size(); ++i) q[pm[i]] = ix[i]; return flat(q, s); });
        break;
      }
      case RESHAPE: {
        x.a = pick_recent();
        auto s = n[x.a].sh;
        int64_t m = numel(s);
        Shape o;
        if (m == 0) o = s;
        else {
          int64_t rest = m;
          while (rest > 1 && o.size() < 3) { std::vector<int64_t> d; for (int64_t q = 1; q <= rest; ++q) if (rest % q == 0) d.push_back(q); auto q = g_.of(d); o.push_back(q); rest /= q; }
          if (rest > 1 || o.size() == 0) o.push_back(rest);
        }
        gather(o, [&](const Index& ix) { return flat(ix, o); });
        break;
      }
      case SLICE: {
        x.a = pick_recent();
        auto s = n[x.a].sh;
        Shape o;
        for (auto d : s) {
          int64_t l = static_cast<int64_t>(g_.u(d == 0 ? 0 : d - 1)), h = l + static_cast<int64_t>(g_.u(d - l)), st = 1 + static_cast<int64_t>(g_.u(2));
          if (h == l && h < d) ++h;
          x.lo.push_back(l); x.hi.push_back(h); x.st.push_back(st);
          o.push_back((h - l + st - 1) / st);
        }
        gather(o, [&](const Index& ix) { Index q; for (size_t i = 0; i < s.size(); ++i) q.push_back(x.lo[i] + ix[i] * x.st[i]); return flat(q, s); });
        break;
      }
      case BROADCAST: {
        x.a = pick_recent();
        auto s = n[x.a].sh;
        if (s.size() >= 3 || numel(s) == 0) return;
        Shape o = s;
        size_t at = g_.u(s.size());
        o.insert(o.begin() + at, 1 + static_cast<int64_t>(g_.u(2)));
        if (numel(o) > o_.cap * 2) return;
        for (size_t i = 0; i < s.size(); ++i) x.axes.push_back(i < at ? i : i + 1);
        gather(o, [&](const Index& ix) { Index q; for (size_t i = 0; i < s.size(); ++i) q.push_back(ix[x.axes[i]]); return flat(q, s); });
        break;
      }
      case REVERSE: {
        x.a = pick_recent();
        auto s = n[x.a].sh;
        for (size_t i = 0; i < s.size(); ++i) if (g_.p()) x.axes.push_back(i);
        gather(s, [&](const Index& ix) { Index q = ix; for (auto d : x.axes) q[d] = s[d] - 1 - q[d]; return flat(q, s); });
        break;
      }
      case PAD: {
        x.a = pick_recent();
        auto s = n[x.a].sh;
        if (numel(s) == 0) return;
        Shape o;
        for (auto d : s) {
          int64_t l = static_cast<int64_t>(g_.u(2)), h = static_cast<int64_t>(g_.u(1)), in = static_cast<int64_t>(g_.u(1));
          x.p0.push_back(l); x.p1.push_back(h); x.p2.push_back(in);
          o.push_back(l + d + (d - 1) * in + h);
        }
        if (numel(o) > o_.cap * 4) return;
        gather(o, [&](const Index& ix) -> int64_t {
          Index q;
          for (size_t i = 0; i < s.size(); ++i) { auto t = ix[i] - x.p0[i]; if (t < 0 || t % (x.p2[i] + 1) || t / (x.p2[i] + 1) >= s[i]) return 0; q.push_back(t / (x.p2[i] + 1)); }
          return flat(q, s);
        });
        break;
      }
      case UPDATE: {
        x.a = pick_recent();
        auto s = n[x.a].sh;
        if (numel(s) == 0 || s.size() == 0) return;
        Shape u;
        for (auto d : s) { int64_t len = 1 + static_cast<int64_t>(g_.u(d - 1)), l = static_cast<int64_t>(g_.u(d - len)), t = static_cast<int64_t>(g_.u(d - len)); x.lo.push_back(l); x.hi.push_back(l + len); x.st.push_back(t); u.push_back(len); }
        gather(s, [&](const Index& ix) {
          Index q;
          for (size_t i = 0; i < s.size(); ++i) { auto t = ix[i] - x.st[i]; if (t < 0 || t >= u[i]) return flat(ix, s); q.push_back(x.lo[i] + t); }
          return flat(q, s);
        });
        break;
      }
      case CONCAT: {
        x.a = pick_recent();
        auto s = n[x.a].sh;
        if (s.size() == 0 || numel(s) > o_.cap) return;
        x.s = g_.u(s.size() - 1);
        Shape o = s; o[x.s] *= 2;
        gather(o, [&](const Index& ix) { Index q = ix; q[x.s] %= std::max<int64_t>(1, s[x.s]); return flat(q, s); });
        break;
      }
      default: return;
    }
    if (limited()) {
      if (x.sh.size() == 0 || numel(x.sh) == 0 || x.bits.size() > 1) return;
      if (op == BITREV && (n[x.a].op > MMUL || n[x.a].s)) return;
    }
    n.push_back(std::move(x));
  }
  // SPDZ2K keeps the bits of a boolean share along the last axis: it has no
  // scalars, no empty arrays, no per-element shifts and only reverses bits it has.
  bool limited() const { return e.proto == kSpdz2k; }
  Shape gsh() {
    Shape s = gshape(g_, 3, 4, o_.cap);
    if (limited()) {
      for (auto& d : s) d = std::max<int64_t>(d, 1);
      if (s.size() == 0) s.push_back(1 + static_cast<int64_t>(g_.u(3)));
    }
    return s;
  }
  int reshape2(int a) {
    Node y;
    y.op = RESHAPE; y.a = a; y.v = n[a].v;
    int64_t m = numel(n[a].sh), d = 1;
    if (m > 0) { std::vector<int64_t> ds; for (int64_t q = 1; q <= m; ++q) if (m % q == 0) ds.push_back(q); d = g_.of(ds); y.sh = {d, m / d}; }
    else y.sh = {1, 0};
    mix_vis(y, {a});
    n.push_back(y);
    return static_cast<int>(n.size()) - 1;
  }
};
}  // namespace prog
