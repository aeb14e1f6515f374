// Permutation vectors and Waksman networks against index-by-index definitions.
#include "layout.h"
#include "sim.h"
#include "libspu/core/type_util.h"
#include "libspu/mpc/utils/permute.h"
#include "libspu/mpc/utils/waksman_net.h"
using namespace pbt;
using namespace lay;
using namespace spu;
using namespace spu::mpc;
namespace {
struct Chaos {
  explicit Chaos(Gen& g) { sim::parallel_chaos = g.p(0.4) ? (g.seed() | 1) : 0; }
  ~Chaos() { sim::parallel_chaos = 0; }
};
size_t glen(Gen& g, size_t maxn) {
  switch (g.u(3)) {
    case 0: return g.u(8);
    case 1: return std::min<size_t>(maxn, (1ULL << g.u(6)) + g.u(2));
    default: return g.u(maxn);
  }
}
std::vector<u128> as128(const std::vector<int64_t>& p) { return {p.begin(), p.end()}; }
Arr tensor(Gen& g, FieldType f, const std::vector<u128>& v) {
  auto a = arr(g, makeType<RingTy>(f), {static_cast<int64_t>(v.size())}, true, [&] { return g.bits(128); });
  auto st = a.r.strides()[0];
  auto* p = static_cast<char*>(a.r.buf()->data());
  for (size_t i = 0; i < v.size(); ++i) memcpy(p + a.r.offset() + static_cast<int64_t>(i) * st * a.w, &v[i], a.w);
  a.snap.assign(p, a.snap.size());
  a.v = vals(a.r);
  return a;
}
}  // namespace
PBT(C10, vectors, 60000, 800000, "at least three elements and the permutation is not the identity") {
  Chaos ch(g);
  auto f = g.of({FM32, FM64, FM128}), pf = g.of({FM32, FM64, FM128});
  auto n = glen(g, 60);
  auto p = g.perm(n);
  int w = static_cast<int>(SizeOf(f));
  std::vector<u128> xv;
  bool few = g.p(0.4);
  for (size_t i = 0; i < n; ++i) xv.push_back(few ? (g.u(3) - 1) & mask(w) : g.bits(8 * w));
  auto x = tensor(g, f, xv), pv = tensor(g, pf, as128(p));
  bool id = true;
  for (size_t i = 0; i < n; ++i) id = id && p[i] == static_cast<int64_t>(i);
  g.say("W={} pv W={} x={} p=[{}]", 8 * w, 8 * pv.w, show(x), fmt::join(p, ","));
  g.nontrivial(n >= 3 && !id);
  std::vector<u128> fwd(n), inv(n), ip(n);
  for (size_t i = 0; i < n; ++i) { fwd[i] = x.v[p[i]]; inv[p[i]] = x.v[i]; ip[p[i]] = i; }
  auto want = [&](const NdArrayRef& r, const std::vector<u128>& v, const Type& ty, const char* what) {
    auto d = diff(vals(r), v);
    REQUIRE(d.empty(), "{}: {}", what, d);
    REQUIRE(r.shape() == x.r.shape() && r.eltype() == ty, "{}: shape or type", what);
  };
  Index idx(p.begin(), p.end());
  auto ty = x.r.eltype();
  want(applyPerm(x.r, idx), fwd, ty, "applyPerm(index)");
  want(applyPerm(x.r, pv.r), fwd, ty, "applyPerm(tensor)");
  want(applyInvPerm(x.r, idx), inv, ty, "applyInvPerm(index)");
  want(applyInvPerm(x.r, pv.r), inv, ty, "applyInvPerm(tensor)");
  want(applyInvPerm(applyPerm(x.r, pv.r), pv.r), x.v, ty, "apply then undo");
  auto ipv = genInversePerm(pv.r);
  want(ipv, ip, pv.r.eltype(), "genInversePerm");
  want(applyPerm(x.r, ipv), inv, ty, "applying the inverse");
  auto q = g.perm(n);
  auto qv = tensor(g, pf, as128(q));
  // x[p][q] = x[p[q]]
  want(applyPerm(applyPerm(x.r, pv.r), qv.r), vals(applyPerm(x.r, applyPerm(pv.r, qv.r))), ty, "composition");
  Index back = ring2pv(pv.r);
  REQUIRE(std::equal(back.begin(), back.end(), p.begin(), p.end()), "ring2pv = {}", fmt::join(back, ","));
  // stable ascending order by signed value
  auto s = genPermBySort(x.r);
  std::vector<int64_t> ref(n);
  for (size_t i = 0; i < n; ++i) ref[i] = static_cast<int64_t>(i);
  u128 top = static_cast<u128>(1) << (8 * w - 1);
  for (size_t i = 1; i < n; ++i)  // insertion sort
    for (size_t j = i; j > 0 && (x.v[ref[j]] ^ top) < (x.v[ref[j - 1]] ^ top); --j) std::swap(ref[j], ref[j - 1]);
  REQUIRE(std::equal(s.begin(), s.end(), ref.begin(), ref.end()), "genPermBySort = {} instead of {}", fmt::join(s, ","), fmt::join(ref, ","));
  REQUIRE(x.untouched() && pv.untouched() && qv.untouched(), "an operand changed");
}
PBT(C10, random, 30000, 300000, "at least three elements") {
  auto n = glen(g, 300);
  u128 seed = g.bits(128);
  uint64_t c1 = g.u(1000), c2 = c1, c0 = c1;
  g.say("n={}", n);
  g.nontrivial(n >= 3);
  auto a = genRandomPerm(n, seed, &c1), b = genRandomPerm(n, seed, &c2);
  REQUIRE(a == b && c1 == c2, "not a function of seed and counter");
  std::vector<bool> seen(n, false);
  REQUIRE(a.size() == n, "{} elements", a.size());
  for (auto v : a) {
    REQUIRE(v >= 0 && v < static_cast<int64_t>(n) && !seen[v], "not a bijection at {}", v);
    seen[v] = true;
  }
  if (n >= 30) {
    REQUIRE(c1 > c0, "no randomness was consumed");
    auto c = genRandomPerm(n, seed, &c2);
    REQUIRE(!(c == a), "two draws from one stream are equal");
  }
}
PBT(C10, waksman, 30000, 400000, "at least three packets") {
  size_t n = std::max<size_t>(2, glen(g, g.p(0.1) ? 700 : 80));
  auto p = g.perm(n);
  if (g.p(0.1)) { // structured permutations
    auto k = g.u(n - 1);
    for (size_t i = 0; i < n; ++i) p[i] = static_cast<int64_t>(g.p(0) ? i : (i + k) % n);
  }
  g.say("n={} p=[{}]", n, fmt::join(p, ","));
  g.nontrivial(n >= 3);
  auto topo = generate_as_waksman_topology(n);
  Index idx(p.begin(), p.end());
  auto routing = g.p(0.5) ? get_as_waksman_routing(idx) : get_as_waksman_routing(IntegerPermutation(idx));
  // the stated number of columns and switches of an arbitrary-size network
  size_t cols = 2 * static_cast<size_t>(std::ceil(std::log2(static_cast<double>(n)))) - 1;
  REQUIRE(topo.size() == cols && routing.size() == cols, "{} and {} columns instead of {}", topo.size(), routing.size(), cols);
  size_t sw = 0, want_sw = 0;
  for (size_t i = 1; i <= n; ++i) want_sw += static_cast<size_t>(std::ceil(std::log2(static_cast<double>(i))));
  // a switch joins two adjacent lines and leads both to the same two lines
  std::vector<int64_t> at(n);
  for (size_t i = 0; i < n; ++i) at[i] = static_cast<int64_t>(i);
  for (size_t c = 0; c < cols; ++c) {
    REQUIRE(topo[c].size() == n, "column {} has {} lines", c, topo[c].size());
    std::vector<int64_t> nxt(n, -1);
    sw += routing[c].size();
    std::vector<bool> used(n, false);
    for (size_t i = 0; i < n;) {
      auto [st, cr] = topo[c][i];
      if (st == cr) {
        REQUIRE(routing[c].count(static_cast<int64_t>(i)) == 0, "column {} line {}: a wire has a setting", c, i);
        REQUIRE(st >= 0 && st < static_cast<int64_t>(n) && nxt[st] == -1, "column {} line {}: bad wire", c, i);
        nxt[st] = at[i];
        ++i;
        continue;
      }
      REQUIRE(i + 1 < n && topo[c][i + 1].first == cr && topo[c][i + 1].second == st, "column {} line {}: not a switch", c, i);
      auto it = routing[c].find(static_cast<int64_t>(i));
      REQUIRE(it != routing[c].end() && routing[c].count(static_cast<int64_t>(i) + 1) == 0, "column {} line {}: settings of a switch", c, i);
      auto a = it->second ? cr : st, b = it->second ? st : cr;
      REQUIRE(a >= 0 && b >= 0 && a < static_cast<int64_t>(n) && b < static_cast<int64_t>(n) && nxt[a] == -1 && nxt[b] == -1, "column {} line {}: bad switch", c, i);
      nxt[a] = at[i];
      nxt[b] = at[i + 1];
      i += 2;
    }
    at = nxt;
  }
  for (size_t i = 0; i < n; ++i) REQUIRE(at[p[i]] == static_cast<int64_t>(i), "packet {} arrives elsewhere than {}", i, p[i]);
  REQUIRE(sw == want_sw, "{} switches instead of {}", sw, want_sw);
}
PBT(C10, integer_permutation, 20000, 200000, "at least three elements") {
  auto n = 1 + g.u(20);
  auto p = g.perm(n);
  g.say("[{}]", fmt::join(p, ","));
  g.nontrivial(n >= 3);
  IntegerPermutation ip{Index(p.begin(), p.end())};
  auto inv = ip.inverse();
  REQUIRE(ip.size() == n && inv.size() == n && ip.is_valid() && inv.is_valid(), "size or validity");
  for (size_t i = 0; i < n; ++i) REQUIRE(inv[ip[i]] == static_cast<int64_t>(i) && ip[i] == p[i], "inverse at {}", i);
  REQUIRE(inv.inverse() == ip, "double inverse");
  // a block that a permutation maps to itself
  auto lo = g.u(n - 1), hi = lo + g.u(n - 1 - lo);
  IntegerPermutation b(static_cast<int64_t>(lo), static_cast<int64_t>(hi));
  auto q = g.perm(hi - lo + 1);
  for (size_t i = lo; i <= hi; ++i) b[i] = q[i - lo] + static_cast<int64_t>(lo);
  auto bi = b.inverse();
  REQUIRE(b.is_valid(), "offset block");
  for (size_t i = lo; i <= hi; ++i) REQUIRE(bi[b[i]] == static_cast<int64_t>(i), "inverse of an offset block at {}", i);
  auto s = ip.slice(static_cast<int64_t>(lo), static_cast<int64_t>(hi));
  REQUIRE(s.size() == hi - lo + 1, "slice size");
  bool onto = true;
  for (size_t i = lo; i <= hi; ++i) {
    REQUIRE(s[i] == p[i], "slice element {}", i);
    onto = onto && p[i] >= static_cast<int64_t>(lo) && p[i] <= static_cast<int64_t>(hi);
  }
  REQUIRE(s.is_valid() == onto, "validity of a slice");
  bool bad = false;
  try { ip.slice(static_cast<int64_t>(lo), static_cast<int64_t>(n)); } catch (const std::exception&) { bad = true; }
  REQUIRE(bad, "a slice past the end is accepted");
}
