// Table operators: shuffle, permutation by a vector of positions, group-by, and
// oblivious pseudo-random tags.
#include <algorithm>
#include <cmath>
#include <map>
#include <numeric>
#include "kern.h"
#include "libspu/kernel/hal/permute.h"
#include "libspu/kernel/hal/shape_ops.h"
#include "libspu/kernel/hlo/group_by_agg.h"
#include "libspu/kernel/hlo/permute.h"
#include "libspu/kernel/hlo/shuffle.h"
#include "libspu/kernel/hlo/soprf.h"
using namespace kn;
namespace {
using IV = std::vector<int64_t>;
using Row = std::vector<u128>;
using ld = long double;
const std::vector<int> kPerm{kSemi2k, kSemi2k, kAby3, kAby3, kCheetah};
i128 val(Gen& g, const Env& e, DataType d, int spread) {
  if (d == DT_I1) return static_cast<i128>(g.u(1));
  int b = std::min(e.k, real(d) ? e.k : width(d));
  if (spread == 0) { i128 x = static_cast<i128>(g.u(3)); return uns(d) ? x : x - 1; }
  i128 x = static_cast<i128>(g.bits(b));
  return uns(d) ? x & hi_of(d, e.k) : x - one(b - 1);
}
std::vector<IV> slices(const Shape& sh, int64_t dim) {
  int64_t inner = 1, outer = 1, w = sh[dim];
  for (int64_t i = 0; i < dim; ++i) outer *= sh[i];
  for (size_t i = dim + 1; i < sh.size(); ++i) inner *= sh[i];
  std::vector<IV> r;
  for (int64_t o = 0; o < outer; ++o)
    for (int64_t i = 0; i < inner; ++i) {
      IV s;
      for (int64_t x = 0; x < w; ++x) s.push_back((o * w + x) * inner + i);
      r.push_back(s);
    }
  return r;
}
Shape table_shape(Gen& g, const Env& e, int64_t n, int64_t& dim) {
  Shape sh{n};
  dim = 0;
  if (g.p(0.35)) {
    if (g.p()) { sh.insert(sh.begin(), static_cast<int64_t>(1 + g.u(2))); dim = 1; }
    if (g.p()) sh.push_back(static_cast<int64_t>(1 + g.u(2)));
  }
  (void)e;
  return sh;
}
}  // namespace

PBT(C30, shuffle, 3000, 50000, "at least three rows of two or more columns, one of them secret") {
  auto e = genv(g);
  int64_t dim = 0, n = g.p(0.1) ? static_cast<int64_t>(g.u(1)) : 2 + static_cast<int64_t>(g.u(8));
  if (e.proto == kSpdz2k) n = std::max<int64_t>(n, 1);
  auto sh = table_shape(g, e, n, dim);
  size_t nc = 1 + g.u(2);
  std::vector<Tn> in;
  bool sec = false;
  for (size_t i = 0; i < nc; ++i) {
    auto d = g.p(0.3) ? g.of(kReals) : g.of(kInts);
    int spread = static_cast<int>(g.u(1));
    char vis = gvis(g);
    if (vis == 'V' && (e.proto == kRef2k || e.proto == kSwift || e.proto == kSpdz2k)) vis = 'S';
    sec = sec || vis == 'S';
    in.push_back(tensor(g, e, d, sh, vis, [&] { return val(g, e, d, spread); }));
    g.say("c{}={}", i, in.back().show());
  }
  g.say("{} axis={}", e.show(), dim);
  Opt opt;
  opt.may_reveal = true;
  auto r = exec(e, in, [&](SPUContext* c, std::vector<Value>& v) { return hlo::Shuffle(c, v, dim); }, opt);
  REQUIRE(r.size() == nc, "{} columns", r.size());
  for (size_t i = 0; i < nc; ++i) {
    REQUIRE(r[i].dt == in[i].dt && r[i].sh == sh, "column {} has type {} and shape {}", i, static_cast<int>(r[i].dt), r[i].sh);
    if (sh.numel() > 1) REQUIRE(r[i].vis == 'S' || n <= 1, "shuffled column {} is {}", i, r[i].vis);
  }
  for (auto& s : slices(sh, dim)) {
    std::vector<Row> want, got;
    for (auto i : s) {
      Row a, b;
      for (size_t c = 0; c < nc; ++c) { a.push_back(in[c].raw.v[i]); b.push_back(r[c].raw[i]); }
      want.push_back(a);
      got.push_back(b);
    }
    std::sort(want.begin(), want.end());
    std::sort(got.begin(), got.end());
    REQUIRE(want == got, "the shuffled rows are not the rows of the input");
  }
  if (n >= 3 && nc > 1 && sec) g.nontrivial();
}

// every order of three rows comes up about equally often
PBT(C30, shuffle_order, 14, 60, "a batch of shuffles of three secret rows") {
  auto e = genv(g);
  const int64_t kRuns = e.proto == kCheetah || e.proto == kSpdz2k || e.proto == kSwift ? 90 : 240;
  g.say("{}", e.show());
  Tn t;
  t.dt = DT_I32; t.sh = Shape{kRuns, 3}; t.vis = 'S';
  int64_t at = 0;
  t.raw = arr(g, makeType<mpc::Pub2kTy>(e.field), t.sh, true, [&]() -> u128 { return static_cast<u128>(at++ % 3); }, 1.0);
  for (auto x : t.raw.v) t.v.push_back(static_cast<i128>(x));
  auto r = exec(e, {t}, [&](SPUContext* c, std::vector<Value>& v) { return hlo::Shuffle(c, v, 1); });
  std::map<Row, int> seen;
  for (int64_t i = 0; i < kRuns; ++i) {
    Row p;
    for (int64_t j = 0; j < 3; ++j) {
      u128 x = r[0].raw[i * 3 + j];
      for (int64_t q = 0; q < 3; ++q) if (t.raw.v[i * 3 + q] == x) p.push_back(static_cast<u128>(q));
    }
    ++seen[p];
  }
  double want = static_cast<double>(kRuns) / 6, chi = 0;
  REQUIRE(seen.size() == 6, "only {} orders of three rows come up in {} shuffles", seen.size(), kRuns);
  for (auto& [p, c] : seen) chi += (c - want) * (c - want) / want;
  REQUIRE(chi < 65, "chi square of the orders of three rows is {}", chi);
  g.nontrivial();
}

PBT(C30, permute, 4000, 60000, "three or more rows, permutation or columns secret or private") {
  auto e = genv(g, kPerm);
  int64_t dim = 0, n = 1 + static_cast<int64_t>(g.u(9));
  auto sh = table_shape(g, e, n, dim);
  size_t nc = 1 + g.u(2);
  char vis = g.p(0.5) ? 'S' : g.p() ? 'P' : 'V';
  size_t owner = g.u(e.n - 1);
  std::vector<Tn> in;
  for (size_t i = 0; i < nc; ++i) {
    auto d = g.p(0.3) ? g.of(kReals) : g.of(kInts);
    in.push_back(tensor(g, e, d, sh, vis, [&] { return val(g, e, d, 1); }));
    in.back().owner = owner;
    g.say("c{}={}", i, in.back().show());
  }
  auto p = g.perm(static_cast<size_t>(n));
  char pv = g.p(0.5) ? 'S' : g.p() ? 'P' : 'V';
  size_t pi = 0;
  auto pdt = e.k == 32 || g.p(0.3) ? DT_I32 : DT_I64;
  auto pt = tensor(g, e, pdt, Shape{n}, pv, [&] { return static_cast<i128>(p[pi++ % p.size()]); });
  std::vector<int64_t> perm;
  std::set<int64_t> dom;
  for (auto x : pt.v) { perm.push_back(static_cast<int64_t>(x)); dom.insert(static_cast<int64_t>(x)); }
  if (static_cast<int64_t>(dom.size()) != n) throw Discard{};
  bool inv = g.p();
  g.say("{} {} perm={}{}{} dim={}", e.show(), inv ? "inverse" : "forward", fmt::join(perm, ","), pv, pv == 'V' ? std::to_string(pt.owner) : "", dim);
  auto all = in;
  all.push_back(pt);
  Opt opt;
  opt.may_reveal = true;
  auto r = exec(e, all, [&](SPUContext* c, std::vector<Value>& v) {
    auto x = std::vector<Value>(v.begin(), v.end() - 1);
    return inv ? hlo::InvPermute(c, x, v.back(), dim) : hlo::Permute(c, x, v.back(), dim);
  }, opt);
  REQUIRE(r.size() == nc, "{} columns", r.size());
  bool sec = vis == 'S' || pv == 'S', prv = vis == 'V' || pv == 'V';
  for (size_t i = 0; i < nc; ++i) {
    REQUIRE(r[i].dt == in[i].dt && r[i].sh == sh, "column {} has type {} and shape {}", i, static_cast<int>(r[i].dt), r[i].sh);
    REQUIRE(!sec || r[i].vis == 'S', "column {} is {}", i, r[i].vis);
    REQUIRE(!prv || r[i].vis != 'P', "column {} is public", i);
    for (auto& s : slices(sh, dim))
      for (int64_t j = 0; j < n; ++j) {
        auto to = inv ? perm[j] : j, from = inv ? j : perm[j];
        REQUIRE(r[i].raw[s[to]] == in[i].raw.v[s[from]], "column {}: row {} is {} instead of {}", i, to, strs(r[i].raw[s[to]]), strs(in[i].raw.v[s[from]]));
      }
  }
  if (n >= 3 && (sec || prv)) g.nontrivial();
}

PBT(C30, tags, 300, 6000, "at least three rows with equal and different keys") {
  auto e = genv(g, {kSemi2k});
  int64_t n = 1 + static_cast<int64_t>(g.u(12));
  Shape sh{n};
  if (g.p(0.3)) sh.insert(sh.begin() + static_cast<int64_t>(g.u(1)), static_cast<int64_t>(1 + g.u(2)));
  size_t nc = 1 + g.u(4);
  auto d = g.p(0.3) ? g.of(kReals) : g.of(kInts);
  std::vector<Tn> in;
  // each column takes few values, some of which differ in one bit only
  for (size_t c = 0; c < nc; ++c) {
    std::vector<i128> pool{val(g, e, d, 1)};
    auto wd = std::min(e.k, real(d) ? e.k : width(d));
    for (int j = 0; j < 2; ++j) {
      u128 x = static_cast<u128>(g.of(pool)) ^ (static_cast<u128>(1) << g.u(static_cast<uint64_t>(wd - 1)));
      x &= e.mask;
      i128 y = real(d) ? e.sgn(x) : as_int(x, d);
      if (uns(d) && y > hi_of(d, e.k)) continue;
      pool.push_back(y);
    }
    if (g.p(0.4)) for (auto& x : pool) x = x < 0 ? -(x + 1) & 0x3f : x & 0x3f;
    if (d == DT_I1) for (auto& x : pool) x &= 1;
    in.push_back(tensor(g, e, d, sh, gvis(g), [&] { return g.of(pool); }));
    g.say("k{}={}", c, in.back().show());
  }
  int after = static_cast<int>(g.u(2));
  g.say("{} after={}", e.show(), after);
  Opt opt;
  opt.may_reveal = true;
  auto r = exec(e, in, [&](SPUContext* c, std::vector<Value>& v) -> std::vector<Value> {
    auto t = nc == 1 && after ? hlo::SoPrf(c, v[0]) : hlo::SoPrf(c, v);
    if (!t.isSecret()) throw Violation("tags are not secret");
    if (nc == 1 && after == 2) return {hal::_prefer_a(c, t)};
    return {t};
  }, opt);
  REQUIRE(r[0].sh == sh, "tags have shape {}", r[0].sh);
  size_t eq = 0, ne = 0;
  auto& t = r[0].raw;
  for (int64_t i = 0; i < sh.numel(); ++i)
    for (int64_t j = 0; j < i; ++j) {
      bool same = true;
      for (auto& c : in) same = same && c.raw.v[i] == c.raw.v[j];
      REQUIRE(!same || t[i] == t[j], "rows {} and {} are equal, their tags are not: {} and {}", j, i, strs(t[j]), strs(t[i]));
      REQUIRE(same || t[i] != t[j], "rows {} and {} differ, their tags are equal: {}", j, i, strs(t[i]));
      ++(same ? eq : ne);
    }
  if (eq && ne && sh.numel() >= 3) g.nontrivial();
}

PBT(C30, groupby, 2000, 40000, "several groups of more than one row and a secret or private column") {
  auto e = genv(g, kPerm);
  int64_t n = 1 + static_cast<int64_t>(g.u(g.p(0.2) ? 30 : 9));
  bool avg = g.p();
  int f = static_cast<int>(fxp(e));
  if (3 * f > e.k - 8) { f = (e.k - 8) / 3; e.cfg.fxp_fraction_bits = f; }
  size_t nk = 1 + g.u(2), np = 1 + g.u(1);
  char kv = g.p() ? 'P' : 'V', pv = gvis(g);
  size_t owner = g.u(e.n - 1), powner = g.p() ? owner : g.u(e.n - 1);
  std::vector<Tn> in;
  for (size_t i = 0; i < nk + np; ++i) {
    bool key = i < nk;
    auto d = g.p(0.4) ? g.of(kReals) : g.of(kInts);
    if (!key && d == DT_I1) d = DT_I8;
    int bits = real(d) ? std::max(1, std::min(2 * f, e.k - 2 * f - 12)) : std::max(1, std::min(width(d) - 6, e.k - 3 * f - 10));
    int spread = static_cast<int>(g.p(0.85) ? 0 : 1);
    in.push_back(tensor(g, e, d, Shape{n}, key ? kv : pv, [&] {
      if (key) return val(g, e, d, spread);
      i128 x = static_cast<i128>(g.bits(bits));
      return uns(d) || g.p() ? x : -x;
    }));
    in.back().owner = key ? owner : powner;
    g.say("{}{}={}", key ? "key" : "pay", i, in.back().show());
  }
  bool drop = avg && g.p(0.3);
  g.say("{} {}{}", e.show(), avg ? "avg" : "sum", drop ? " drop" : "");
  Opt opt;
  opt.may_reveal = true;
  auto r = exec(e, in, [&](SPUContext* c, std::vector<Value>& v) {
    hlo::GroupByAggOptions o;
    o.unsafe_output_order_drop_rest = drop;
    std::vector<int64_t> vb;
    return hlo::GroupByAgg(c, absl::MakeSpan(v).subspan(0, nk), absl::MakeSpan(v).subspan(nk), avg ? hlo::AggFunc::Avg : hlo::AggFunc::Sum, absl::MakeSpan(vb), o);
  }, opt);
  REQUIRE(r.size() == nk + np, "{} columns", r.size());
  std::map<Row, std::pair<int64_t, std::vector<u128>>> groups;
  for (int64_t i = 0; i < n; ++i) {
    Row k;
    for (size_t c = 0; c < nk; ++c) k.push_back(in[c].raw.v[i]);
    auto& G = groups[k];
    if (G.second.empty()) G.second.resize(np, 0);
    ++G.first;
    for (size_t c = 0; c < np; ++c) G.second[c] += in[nk + c].raw.v[i];
  }
  int64_t m = static_cast<int64_t>(groups.size());
  auto done = groups;
  size_t big = 0;
  for (size_t c = 0; c < nk + np; ++c) {
    REQUIRE(r[c].sh == Shape{drop ? m : n}, "column {} has shape {}", c, r[c].sh);
    REQUIRE(c >= nk || r[c].vis != 'P' || kv == 'P', "private key column {} became public", c);
    REQUIRE(c < nk || r[c].vis != 'P' || (kv == 'P' && pv == 'P'), "column {} became public", c);
    REQUIRE(c < nk || pv != 'S' || r[c].vis == 'S', "secret column {} became {}", c, r[c].vis);
    if (c < nk || !avg) REQUIRE(r[c].dt == in[c].dt, "column {} has type {}", c, static_cast<int>(r[c].dt));
    else REQUIRE(real(r[c].dt), "average {} has type {}", c, static_cast<int>(r[c].dt));
  }
  for (int64_t i = 0; i < m; ++i) {
    Row k;
    for (size_t c = 0; c < nk; ++c) k.push_back(r[c].raw[i]);
    auto it = done.find(k);
    REQUIRE(it != done.end(), "row {} of the result is not a group, or one that came before", i);
    if (it->second.first > 1) ++big;
    for (size_t c = 0; c < np; ++c) {
      u128 got = r[nk + c].raw[i], sum = it->second.second[c] & e.mask;
      if (!avg) {
        REQUIRE(got == sum, "sum {} of group {} is {} instead of {}", c, i, strs(got), strs(sum));
        continue;
      }
      ld u = 1.0L / static_cast<ld>(one(f)), cnt = static_cast<ld>(it->second.first);
      ld s = static_cast<ld>(e.sgn(sum)) * (real(in[nk + c].dt) ? u : 1.0L);
      ld want = s / cnt, have = static_cast<ld>(e.sgn(got)) * u;
      ld bound = fabsl(want) * (6e-5L + 40 * u) + fabsl(s) * 10 * u + 6 * u;
      REQUIRE(fabsl(want - have) <= bound, "average {} of group {} of {} is {} instead of {} (bound {})", c, i, it->second.first, static_cast<double>(have), static_cast<double>(want), static_cast<double>(bound));
    }
    done.erase(it);
  }
  if (m >= 2 && big && (kv == 'V' || pv != 'P')) g.nontrivial();
}
