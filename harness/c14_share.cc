// Chains of representation changes: public, private, arithmetic and boolean
// shares, casts between boolean widths and views in between.
#include "prog.h"
using namespace prog;
namespace {
enum Kind { IN, P2A, P2B, P2V, P2S, V2A, V2S, V2P, A2P, A2V, A2B, B2P, B2A, B2V, S2P, S2V, CASTB, CASTS, NARROW, FLIP, VIEW };
const char* kNames[] = {"in", "p2a", "p2b", "p2v", "p2s", "v2a", "v2s", "v2p", "a2p", "a2v", "a2b", "b2p", "b2a", "b2v", "s2p", "s2v", "cast_b", "cast_s", "and_bp", "xor_bp", "view"};
struct St {
  Kind op = IN;
  char rep = 'P';  // P V A B S(either share)
  size_t owner = 0;
  int a = -1, b = -1;
  Shape sh;
  std::vector<u128> v;
  Arr in;
  bool own_in = false;
  Axes axes, rev;
  Index lo, hi;
  Strides st;
  Arr mask;  // NARROW
};
struct Seen { std::vector<std::vector<u128>> v; std::string bad; };
Axes axes_of(const std::vector<int64_t>& v) { return Axes(v.begin(), v.end()); }
struct Chain {
  Env e;
  std::vector<St> n;
  Gen& g;
  bool spdz() const { return e.proto == kSpdz2k; }
  explicit Chain(Gen& gg) : g(gg) {
    e = genv(g);
    int ni = 1 + static_cast<int>(g.u(1));
    for (int i = 0; i < ni; ++i) input();
    auto len = 2 + g.u(8);
    for (uint64_t i = 0; i < len; ++i) step();
    for (auto& x : n) {
      g.say("{}{}{}:{}[{}]{}", kNames[x.op], x.a >= 0 ? fmt::format("({})", x.a) : "", x.b >= 0 ? fmt::format(",{}", x.b) : "", x.rep, fmt::join(x.sh, "x"), x.op == IN ? "{" + lay::show(x.v, 4) + "}" : "");
      g.tag(kNames[x.op]);
    }
  }
  Shape gsh() {
    Shape s = gshape(g, 3, 5, 40);
    if (spdz()) {
      for (auto& d : s) d = std::max<int64_t>(d, 1);
      if (s.size() == 0) s.push_back(1 + static_cast<int64_t>(g.u(3)));
    }
    return s;
  }
  void input() {
    St x;
    x.sh = gsh();
    x.rep = g.p(0.6) ? 'P' : 'V';
    x.owner = g.u(e.n - 1);
    x.own_in = g.p();
    int w = g.p(0.4) ? 1 + static_cast<int>(g.u(e.k - 1)) : e.k;
    x.in = arr(g, makeType<mpc::Pub2kTy>(e.field), x.sh, false, [&] { return g.bits(w); });
    x.v = x.in.v;
    n.push_back(x);
  }
  void step() {
    St x;
    x.a = static_cast<int>(g.p(0.6) ? n.size() - 1 : g.u(n.size() - 1));
    const auto s = n[x.a];
    x.sh = s.sh;
    x.v = s.v;
    x.owner = s.owner;
    x.rep = s.rep;
    bool ab = e.proto != kRef2k;
    auto to = [&](Kind k, char r) { x.op = k; x.rep = r; };
    if (g.p(0.2)) {
      view(x, s);
    } else if (s.rep == 'P') {
      switch (g.u(3)) {
        case 0: if (!ab) return; to(P2A, 'A'); break;
        case 1: if (!ab) return; to(P2B, 'B'); break;
        case 2: to(P2V, 'V'); x.owner = g.u(e.n - 1); break;
        default: to(P2S, 'S'); break;
      }
    } else if (s.rep == 'V') {
      switch (g.u(2)) {
        case 0: if (!ab) return; to(V2A, 'A'); break;
        case 1: to(V2S, 'S'); break;
        default: to(V2P, 'P'); break;
      }
    } else {
      bool A = s.rep == 'A', B = s.rep == 'B';
      switch (g.u(7)) {
        case 0: if (A) to(A2P, 'P'); else if (B) to(B2P, 'P'); else to(S2P, 'P'); break;
        case 1: if (A) to(A2V, 'V'); else if (B) to(B2V, 'V'); else to(S2V, 'V'); x.owner = g.u(e.n - 1); break;
        case 2: to(S2V, 'V'); x.owner = g.u(e.n - 1); break;
        case 3: if (A) to(A2B, 'B'); else if (B) to(B2A, 'A'); else return; break;
        case 4: if (A) to(A2B, 'B'); else if (B) to(B2A, 'A'); else return; break;
        case 5: case 6: {  // the type of another share
          std::vector<int> c;
          for (size_t i = 0; i < n.size(); ++i) if (n[i].rep == 'B' || n[i].rep == 'A' || n[i].rep == 'S') c.push_back(static_cast<int>(i));
          if (c.empty() || spdz()) return;
          x.b = g.of(c);
          if (B && n[x.b].rep == 'B' && g.p(0.5)) to(CASTB, 'B');
          else to(CASTS, B && n[x.b].rep == 'B' ? 'B' : A || n[x.b].rep == 'A' ? 'A' : 'S');
          if (x.op == CASTS && !ab) return;
          break;
        }
        default:
          if (!B) return;
          to(g.p() ? NARROW : FLIP, 'B');
          {
            int w = 1 + static_cast<int>(g.u(e.k - 1));
            bool splat = g.p();
            u128 one = g.bits(w);
            x.mask = arr(g, makeType<mpc::Pub2kTy>(e.field), x.sh, false, [&] { return splat ? one : g.bits(w); });
            for (size_t i = 0; i < x.v.size(); ++i) x.v[i] = x.op == NARROW ? x.v[i] & x.mask.v[i] : x.v[i] ^ x.mask.v[i];
          }
      }
    }
    n.push_back(std::move(x));
  }
  void view(St& x, const St& s) {
    x.op = VIEW;
    auto pm = g.perm(s.sh.size());
    x.axes = axes_of(pm);
    Shape t;
    for (auto d : pm) t.push_back(s.sh[d]);
    Shape o;
    for (auto d : t) {
      int64_t l = d < 2 || g.p() ? 0 : static_cast<int64_t>(g.u(d - 1)), h = d == 0 ? 0 : l + 1 + static_cast<int64_t>(g.u(d - l - 1)), st = 1 + static_cast<int64_t>(g.u(1));
      x.lo.push_back(l); x.hi.push_back(h); x.st.push_back(st);
      o.push_back((h - l + st - 1) / st);
    }
    for (size_t i = 0; i < t.size(); ++i) if (g.p(0.3)) x.rev.push_back(i);
    x.sh = o;
    x.v.clear();
    for (int64_t i = 0; i < numel(o); ++i) {
      auto ix = unflat(i, o);
      for (auto d : x.rev) ix[d] = o[d] - 1 - ix[d];
      Index q(s.sh.size());
      for (size_t d = 0; d < t.size(); ++d) q[pm[d]] = x.lo[d] + ix[d] * x.st[d];
      x.v.push_back(s.v[flat(q, s.sh)]);
    }
  }
  Seen exec(SPUContext* ctx, size_t me) const {
    std::vector<Value> val;
    Seen out;
    for (size_t i = 0; i < n.size(); ++i) {
      const auto& x = n[i];
      Value A = x.a >= 0 ? val[x.a] : Value(), B = x.b >= 0 ? val[x.b] : Value(), r;
      switch (x.op) {
        case IN:
          if (x.rep == 'P') r = pub(e, x.in.r, DT_INVALID);
          else r = x.own_in ? priv(e, x.in.r, DT_INVALID, x.owner, me) : mpc::p2v(ctx, pub(e, x.in.r, DT_INVALID), x.owner);
          break;
        case P2A: r = mpc::p2a(ctx, A); break;
        case P2B: r = mpc::p2b(ctx, A); break;
        case P2V: r = mpc::p2v(ctx, A, x.owner); break;
        case P2S: r = mpc::p2s(ctx, A); break;
        case V2A: r = mpc::v2a(ctx, A); break;
        case V2S: r = mpc::v2s(ctx, A); break;
        case V2P: r = mpc::v2p(ctx, A); break;
        case A2P: r = mpc::a2p(ctx, A); break;
        case A2V: r = mpc::a2v(ctx, A, x.owner); break;
        case A2B: r = mpc::a2b(ctx, A); break;
        case B2P: r = mpc::b2p(ctx, A); break;
        case B2A: r = mpc::b2a(ctx, A); break;
        case B2V: r = ctx->hasKernel("b2v") ? mpc::b2v(ctx, A, x.owner) : mpc::s2v(ctx, A, x.owner); break;
        case S2P: r = mpc::s2p(ctx, A); break;
        case S2V: r = mpc::s2v(ctx, A, x.owner); break;
        case CASTB: r = mpc::cast_type_b(ctx, A, mpc::common_type_b(ctx, A.storage_type(), B.storage_type())); break;
        case CASTS: r = mpc::cast_type_s(ctx, A, mpc::common_type_s(ctx, A.storage_type(), B.storage_type())); break;
        case NARROW: r = mpc::and_bp(ctx, A, pub(e, x.mask.r, DT_INVALID)); break;
        case FLIP: r = mpc::xor_bp(ctx, A, pub(e, x.mask.r, DT_INVALID)); break;
        case VIEW: r = mpc::reverse(ctx, mpc::extract_slice(ctx, mpc::transpose(ctx, A, x.axes), x.lo, x.hi, x.st), x.rev); break;
      }
      val.push_back(r);
      auto ty = r.storage_type();
      auto bad = [&](const std::string& m) { if (out.bad.empty()) out.bad = fmt::format("node {} ({}) {}", i, kNames[x.op], m); };
      if (r.shape() != x.sh) bad(fmt::format("has shape {} instead of {}", r.shape(), x.sh));
      if (r.data().eltype() != ty) bad("has two types");
      bool ok = x.rep == 'P' ? r.isPublic() : x.rep == 'V' ? r.isPrivate() && static_cast<size_t>(r.owner()) == x.owner
              : r.isSecret() && (x.rep == 'S' || e.proto == kRef2k || (x.rep == 'A' ? ty.isa<AShare>() : ty.isa<BShare>()));
      if (!ok) bad(fmt::format("has type {}", ty.toString()));
      if (ty.isa<BShare>()) {
        auto nb = ty.as<BShare>()->nbits();
        if (static_cast<int>(nb) > e.k) bad(fmt::format("declares {} bits", nb));
        for (auto q : x.v) if (nb < 128 && (q >> nb) != 0) bad(fmt::format("declares {} bits but holds {}", nb, str(q)));
      }
      if (x.rep == 'V' && me != x.owner && x.op != VIEW)
        for (auto q : vals(r.data(), e.w)) if (q != 0) bad(fmt::format("gives party {} data that belongs to party {}", me, x.owner));
    }
    for (size_t i = 0; i < n.size(); ++i) {
      Value p = val[i];
      if (p.isPrivate()) p = mpc::v2p(ctx, p);
      else if (p.isSecret()) p = mpc::s2p(ctx, p);
      out.v.push_back(vals(p.data()));
    }
    return out;
  }
};
}  // namespace
PBT(C14, chains, 8000, 200000, "a chain with at least two representation changes of a non-empty secret") {
  Chain c(g);
  int ch = 0;
  for (auto& x : c.n) ch += !x.v.empty() && x.op != IN && x.op != VIEW && (x.rep != 'P' && x.rep != 'V');
  g.nontrivial(ch >= 2 && c.e.proto != kRef2k);
  auto out = run<Seen>(c.e, [&](size_t me, SPUContext* ctx) { return c.exec(ctx, me); });
  for (size_t p = 0; p < out.size(); ++p) {
    for (size_t i = 0; i < c.n.size(); ++i) {
      auto d = diff(out[p].v[i], c.n[i].v);
      REQUIRE(d.empty(), "{}: node {} ({}) seen by party {}: {}", c.e.show(), i, kNames[c.n[i].op], p, d);
    }
    REQUIRE(out[p].bad.empty(), "{}: party {}: {}", c.e.show(), p, out[p].bad);
  }
  for (auto& x : c.n) if (x.op == IN) REQUIRE(x.in.untouched(), "{}: an input array was written", c.e.show());
}
