// Secret, private and public permutations of vectors.
#include "prog.h"
#include "libspu/kernel/hal/permute.h"
using namespace prog;
namespace {
using Vec = std::vector<u128>;
Vec permuted(const Vec& x, const std::vector<int64_t>& p) { Vec r(x.size()); for (size_t i = 0; i < x.size(); ++i) r[i] = x[p[i]]; return r; }
Vec unpermuted(const Vec& x, const std::vector<int64_t>& p) { Vec r(x.size()); for (size_t i = 0; i < x.size(); ++i) r[p[i]] = x[i]; return r; }
struct Col { Arr in; char vis; size_t owner; DataType dt; };
Col col(Gen& g, const Env& e, int64_t n, const std::string& viss) {
  Col c;
  c.vis = viss[g.u(viss.size() - 1)];
  c.owner = g.u(e.n - 1);
  c.dt = e.k == 32 ? DT_I32 : DT_I64;
  c.in = arr(g, makeType<mpc::Pub2kTy>(e.field), {n}, false, [&] { return elem(g, e); });
  return c;
}
Value make(const Env& e, const Col& c, SPUContext* ctx, size_t me) {
  if (c.vis == 'P') return pub(e, c.in.r, c.dt);
  if (c.vis == 'V') return priv(e, c.in.r, c.dt, c.owner, me);
  return hal::_p2s(ctx, pub(e, c.in.r, c.dt)).setDtype(c.dt);
}
Vec show_all(SPUContext* ctx, const Value& v) {
  if (v.isPublic()) return vals(v.data());
  if (v.isPrivate()) return vals(hal::_v2p(ctx, v).data());
  return vals(hal::_s2p(ctx, v).data());
}
Col perm_col(Gen& g, const Env& e, const std::vector<int64_t>& p, const std::string& viss) {
  Col c = col(g, e, static_cast<int64_t>(p.size()), viss);
  size_t i = 0;
  // a dense or a strided array holding the permutation
  c.in = arr(g, makeType<mpc::Pub2kTy>(e.field), {static_cast<int64_t>(p.size())}, true, [&] { return static_cast<u128>(0); });
  auto* base = static_cast<char*>(c.in.r.buf()->data()) + c.in.r.offset();
  for (i = 0; i < p.size(); ++i) { u128 x = p[i]; memcpy(base + static_cast<int64_t>(i) * c.in.r.strides()[0] * e.w, &x, e.w); }
  c.in.v = vals(c.in.r);
  return c;
}
int64_t gsize(Gen& g) { return g.p(0.1) ? 1 : g.p(0.1) ? 2 : 1 + static_cast<int64_t>(g.u(g.p(0.1) ? 200 : 40)); }
struct Seen {
  std::vector<Vec> cols, back, fwd2, inv2;
  Vec pi, ipi, pi2, self, next;
  bool av = false;
};
}  // namespace

PBT(C18, random, 3000, 60000, "at least two rows under a secret random permutation") {
  auto e = genv(g, {kSemi2k, kAby3, kCheetah});
  auto n = gsize(g);
  std::vector<Col> xs;
  auto nc = 1 + g.u(2);
  for (uint64_t i = 0; i < nc; ++i) xs.push_back(col(g, e, n, "SSSSPV"));
  g.say("rows={} cols={}", n, nc);
  for (auto& x : xs) g.say("{}{}", x.vis, lay::show(x.in));
  // chained with a second random permutation
  bool chain = g.p(0.3);
  auto go = [&](uint64_t seed) {
    Env e2 = e;
    e2.seed = seed;
    return pr::run<Seen>(e2, [&](size_t me, SPUContext* ctx) {
      Seen o;
      auto pi = hal::_rand_perm_s(ctx, {n}), pj = hal::_rand_perm_s(ctx, {n});
      std::vector<u128> io;
      for (int64_t i = 0; i < n; ++i) io.push_back(i);
      NdArrayRef ir(makeType<mpc::Pub2kTy>(e.field), {n});
      for (int64_t i = 0; i < n; ++i) memcpy(static_cast<char*>(ir.buf()->data()) + i * e.w, &io[i], e.w);
      auto iota = hal::_p2s(ctx, pub(e, ir, DT_INVALID));
      for (auto& c : xs) {
        auto s = make(e, c, ctx, me);
        if (s.isPublic()) s = hal::_p2s(ctx, s);
        if (s.isPrivate()) s = hal::_v2s(ctx, s);
        auto y = hal::_perm_ss(ctx, s, pi);
        if (chain) { y = hal::_perm_ss(ctx, y, pj); }
        auto z = chain ? hal::_inv_perm_ss(ctx, y, pj) : y;
        z = hal::_inv_perm_ss(ctx, z, pi);
        if (y.shape() != Shape{n} || !y.isSecret()) throw Violation(fmt::format("permuted vector has shape {}", y.shape()));
        o.cols.push_back(show_all(ctx, y));
        o.back.push_back(show_all(ctx, z));
        // the inverse first
        o.inv2.push_back(show_all(ctx, hal::_inv_perm_ss(ctx, s, pi)));
        o.fwd2.push_back(show_all(ctx, hal::_perm_ss(ctx, hal::_inv_perm_ss(ctx, s, pi), pi)));
      }
      o.pi = show_all(ctx, hal::_perm_ss(ctx, iota, pi));
      o.ipi = show_all(ctx, hal::_inv_perm_ss(ctx, iota, pi));
      o.pi2 = show_all(ctx, hal::_perm_ss(ctx, iota, pj));
      // what one party holds
      auto held = vals(pi.data(), static_cast<int>(SizeOf(pi.storage_type().as<Ring2k>()->field())));
      o.self = held;
      if (e.proto == kAby3) o.next = vals(pi.data(), static_cast<int>(SizeOf(pi.storage_type().as<Ring2k>()->field())), 1);
      return o;
    });
  };
  auto out = go(e.seed);
  auto bij = [&](const Vec& v, const std::string& what) {
    REQUIRE(v.size() == static_cast<size_t>(n), "{} has {} entries", what, v.size());
    std::vector<int64_t> p;
    std::vector<bool> seen(n, false);
    for (auto x : v) {
      REQUIRE(x < static_cast<u128>(n) && !seen[static_cast<size_t>(x)], "{}: {} is no permutation: {}", e.show(), what, lay::show(v, 40));
      seen[static_cast<size_t>(x)] = true;
      p.push_back(static_cast<int64_t>(x));
    }
    return p;
  };
  auto pi = bij(out[0].pi, "the random permutation"), pj = bij(out[0].pi2, "the second permutation");
  for (size_t q = 0; q < out.size(); ++q) {
    auto& o = out[q];
    REQUIRE(diff(o.pi, out[0].pi).empty(), "parties disagree");
    std::vector<u128> iv(n);
    for (int64_t i = 0; i < n; ++i) iv[pi[i]] = i;
    REQUIRE(diff(o.ipi, iv).empty(), "{}: inverse of the permutation: {}", e.show(), diff(o.ipi, iv));
    for (size_t c = 0; c < xs.size(); ++c) {
      auto want = permuted(xs[c].in.v, pi);
      if (chain) want = permuted(want, pj);
      REQUIRE(diff(o.cols[c], want).empty(), "{}: permuted column {}: {}", e.show(), c, diff(o.cols[c], want));
      REQUIRE(diff(o.back[c], xs[c].in.v).empty(), "{}: column {} permuted there and back: {}", e.show(), c, diff(o.back[c], xs[c].in.v));
      auto w2 = unpermuted(xs[c].in.v, pi);
      REQUIRE(diff(o.inv2[c], w2).empty(), "{}: inverse permuted column {}: {}", e.show(), c, diff(o.inv2[c], w2));
      REQUIRE(diff(o.fwd2[c], xs[c].in.v).empty(), "{}: column {} permuted back and there: {}", e.show(), c, diff(o.fwd2[c], xs[c].in.v));
    }
    bij(o.self, fmt::format("the part of party {}", q));
    if (e.proto == kAby3) REQUIRE(diff(o.next, out[(q + 1) % 3].self).empty(), "{}: neighbours hold different parts of the permutation", e.show());
  }
  if (n >= 20) {  // 1/20! chance
    REQUIRE(pi != pj, "{}: two random permutations are equal", e.show());
    REQUIRE(diff(out[0].self, out[1].self) != "", "{}: two parties hold the same part", e.show());
    auto again = go(mix(e.seed));
    REQUIRE(diff(again[0].pi, out[0].pi) != "", "{}: the secret permutation is determined by public information", e.show());
    // no single party's part is the whole permutation
    for (auto& o : out)
      REQUIRE(diff(o.self, out[0].pi) != "" && diff(o.self, out[0].ipi) != "", "{}: one party knows the secret permutation", e.show());
    g.tag("large");
  }
  g.nontrivial(n >= 2);
}

PBT(C18, given, 4000, 80000, "a non-identity permutation and a payload that is not public with a public permutation") {
  auto e = genv(g, {kSemi2k, kAby3, kCheetah});
  auto n = gsize(g);
  auto p = g.perm(n);
  std::vector<Col> xs;
  auto nc = 1 + g.u(2);
  for (uint64_t i = 0; i < nc; ++i) {
    auto c = col(g, e, n, "SSPV");
    if (i > 0) { c.vis = xs[0].vis; c.owner = xs[0].owner; }
    xs.push_back(c);
  }
  auto pc = perm_col(g, e, p, "SSPV");
  bool inv = g.p();
  int lvl = static_cast<int>(g.u(1));  // the kernel wrapper (where it exists) or the vector operator
  g.say("rows={} {}{} perm {}{} {} lvl={}", n, nc, xs[0].vis, pc.vis, pc.vis == 'V' ? std::to_string(pc.owner) : "", inv ? "inverse" : "forward", lvl);
  for (auto& x : xs) g.say("{}{}{}", x.vis, x.vis == 'V' ? std::to_string(x.owner) : "", lay::show(x.in));
  struct O { std::vector<Vec> r; std::string bad; };
  auto out = pr::run<O>(e, [&](size_t me, SPUContext* ctx) {
    O o;
    std::vector<Value> in;
    for (auto& c : xs) in.push_back(make(e, c, ctx, me));
    auto perm = make(e, pc, ctx, me);
    std::vector<Value> r;
    bool direct = lvl == 0;
    auto each = [&](Value (*f)(SPUContext*, const Value&, const Value&)) { for (auto& x : in) r.push_back(f(ctx, x, perm)); };
    std::string key{xs[0].vis, pc.vis};
    if (direct && key == "PP") each(inv ? hal::_inv_perm_pp : hal::_perm_pp);
    else if (direct && key == "VV" && xs[0].owner == pc.owner) each(inv ? hal::_inv_perm_vv : hal::_perm_vv);
    else if (direct && key == "SP") each(inv ? hal::_inv_perm_sp : hal::_perm_sp);
    else if (direct && key == "SV" && inv && ctx->hasKernel("inv_perm_av")) each(hal::_inv_perm_sv);
    else r = inv ? hal::apply_inv_permute_1d(ctx, in, perm) : hal::apply_permute_1d(ctx, in, perm);
    if (r.size() != xs.size()) throw Violation("number of results");
    char want = pc.vis == 'S' || xs[0].vis == 'S' ? 'S' : 'V';
    if (xs[0].vis == 'P' && pc.vis == 'P') want = 'P';
    if (xs[0].vis == 'V' && pc.vis == 'V' && xs[0].owner != pc.owner) want = 'S';
    for (auto& x : r) {
      char got = x.isPublic() ? 'P' : x.isPrivate() ? 'V' : 'S';
      if (got != want) o.bad = fmt::format("result is {} instead of {}", got, want);
      if (x.shape() != Shape{n}) o.bad = fmt::format("result has shape {}", x.shape());
      o.r.push_back(show_all(ctx, x));
    }
    return o;
  });
  bool id = true;
  for (int64_t i = 0; i < n; ++i) id = id && p[i] == i;
  for (auto& o : out) {
    REQUIRE(o.bad.empty(), "{}: {}", e.show(), o.bad);
    for (size_t c = 0; c < xs.size(); ++c) {
      auto want = inv ? unpermuted(xs[c].in.v, p) : permuted(xs[c].in.v, p);
      REQUIRE(diff(o.r[c], want).empty(), "{}: column {}: {}", e.show(), c, diff(o.r[c], want));
    }
  }
  g.nontrivial(!id && !(pc.vis == 'P' && xs[0].vis == 'P'));
}

// Local helpers around permutations: sorting permutations, merged keys, group marks.
PBT(C18, local, 4000, 80000, "at least two equal and two different keys") {
  auto e = genv(g);
  auto n = gsize(g);
  int what = static_cast<int>(g.u(2));
  bool flag = g.p();
  size_t nk = what == 0 ? 1 : 1 + g.u(2);
  bool v = g.p();
  size_t owner = g.u(e.n - 1);
  std::vector<Col> ks;
  uint64_t span = 1 + g.u(3);
  bool small = g.p(0.7);
  for (size_t i = 0; i < nk; ++i) {
    Col c = col(g, e, n, v ? "V" : "P");
    c.owner = owner;
    c.in = arr(g, makeType<mpc::Pub2kTy>(e.field), {n}, false, [&] { return small ? (static_cast<u128>(g.u(span)) - 1) & e.mask : elem(g, e); });
    ks.push_back(c);
  }
  g.say("rows={} {} {} {} {}", n, what == 0 ? "gen_inv_perm" : what == 1 ? "merge_keys" : "group_mark", flag, v ? "private" : "public", lay::show(ks[0].in.v));
  auto out = pr::run<Vec>(e, [&](size_t me, SPUContext* ctx) {
    std::vector<Value> k;
    for (auto& c : ks) k.push_back(make(e, c, ctx, me));
    Value r;
    if (what == 0) r = v ? hal::_gen_inv_perm_v(ctx, k[0], flag) : hal::_gen_inv_perm_p(ctx, k[0], flag);
    if (what == 1) r = v ? hal::_merge_keys_v(ctx, k, flag) : hal::_merge_keys_p(ctx, k, flag);
    if (what == 2) r = v ? hal::_group_mark_v(ctx, k, flag) : hal::_group_mark_p(ctx, k, flag);
    if (v && me != owner) for (auto q : vals(r.data(), e.w)) if (q != 0) throw Violation("another party holds data of a private result");
    return show_all(ctx, r);
  });
  Vec want(n);
  auto same = [&](int64_t i, int64_t j) { for (auto& c : ks) if (c.in.v[i] != c.in.v[j]) return false; return true; };
  if (what == 0) {
    // rank of every element in the stable order
    for (int64_t i = 0; i < n; ++i) {
      u128 r = 0;
      for (int64_t j = 0; j < n; ++j) {
        auto a = e.sgn(ks[0].in.v[j]), b = e.sgn(ks[0].in.v[i]);
        bool before = a == b ? j < i : flag ? a < b : a > b;
        r += before;
      }
      want[i] = r;
    }
  } else if (what == 1) {
    u128 cur = 0;
    for (int64_t i = 0; i < n; ++i) {
      if (i > 0 && !same(i, i - 1)) cur += flag ? 1 : -1;
      want[i] = cur & e.mask;
    }
  } else {
    for (int64_t i = 0; i < n; ++i) want[i] = flag ? (i + 1 == n || !same(i, i + 1)) : (i > 0 && same(i, i - 1));
  }
  int eq = 0, ne = 0;
  for (int64_t i = 1; i < n; ++i) (same(i, i - 1) ? eq : ne)++;
  g.nontrivial(eq > 0 && ne > 0);
  for (auto& o : out) REQUIRE(diff(o, want).empty(), "{}: {}", e.show(), diff(o, want));
}
