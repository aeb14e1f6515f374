// Sorting and top-k operators against plaintext sorting of the rows.
#include <algorithm>
#include <numeric>
#include "kern.h"
#include "libspu/kernel/hal/permute.h"
#include "libspu/kernel/hal/shape_ops.h"
#include "libspu/kernel/hlo/rank.h"
#include "libspu/kernel/hlo/sort.h"
using namespace kn;
namespace {
using IV = std::vector<int64_t>;
using Row = std::vector<u128>;
int cap(const Env& e) { return e.k - (e.proto == kSecurenn || e.proto == kSpdz2k ? 4 : 3); }
// values that comparisons can order
i128 val(Gen& g, const Env& e, DataType d, int spread) {
  if (d == DT_I1) return static_cast<i128>(g.u(1));
  int b = std::min(cap(e), real(d) ? e.k : width(d));
  i128 lim = one(b - 1) - 1;
  if (spread == 0) return static_cast<i128>(g.u(2));
  if (spread == 1) { i128 x = static_cast<i128>(g.u(12)); return uns(d) ? x : x - 6; }
  i128 x = static_cast<i128>(g.bits(b - 1));
  if (spread == 3) { x = lim - static_cast<i128>(g.u(3)); }
  return uns(d) ? x : g.p() ? x : -x;
}
bool has_perm(const Env& e) { return e.proto == kSemi2k || e.proto == kAby3 || e.proto == kCheetah; }
char key_vis(Gen& g, const Env& e) {
  char v = g.u(99) < 60 ? 'S' : g.p() ? 'P' : 'V';
  return v == 'V' && !has_perm(e) ? 'S' : v;
}
// 1-d slices of a tensor along dim: element numbers of each slice
std::vector<IV> slices(const Shape& sh, int64_t dim) {
  int64_t inner = 1, outer = 1, w = sh[dim];
  for (int64_t i = 0; i < dim; ++i) outer *= sh[i];
  for (size_t i = dim + 1; i < sh.size(); ++i) inner *= sh[i];
  std::vector<IV> r;
  for (int64_t o = 0; o < outer; ++o)
    for (int64_t i = 0; i < inner; ++i) {
      IV s;
      for (int64_t x = 0; x < w; ++x) s.push_back((o * w + x) * inner + i);
      r.push_back(s);
    }
  return r;
}
bool enforce_fail(const std::exception& x) { return std::string(x.what()).find("Enforce fail") != std::string::npos; }
}  // namespace

PBT(C29, sort, 1800, 40000, "at least five rows with a secret or private key") {
  auto e = genv(g);
  e.cfg.sort_method = g.of(std::vector<RuntimeConfig::SortMethod>{RuntimeConfig::SORT_DEFAULT, RuntimeConfig::SORT_RADIX, RuntimeConfig::SORT_QUICK, RuntimeConfig::SORT_NETWORK});
  if (g.p()) e.cfg.quick_sort_threshold = static_cast<int>(1 + g.u(8));
  Shape sh;
  int64_t n = g.p(0.1) ? static_cast<int64_t>(g.u(2)) : 2 + static_cast<int64_t>(g.u(g.p(0.2) ? 28 : 9));
  if (e.proto == kSpdz2k) n = std::max<int64_t>(n, 1);
  sh.push_back(n);
  int64_t dim = 0;
  if (g.p(0.2)) {
    if (g.p()) { sh.insert(sh.begin(), static_cast<int64_t>(1 + g.u(2))); dim = 1; }
    if (g.p()) sh.push_back(static_cast<int64_t>(1 + g.u(2)));
  }
  size_t nk = g.p(0.5) ? 1 : 1 + g.u(4), np = g.u(2);
  // one of several mixes of key visibility
  char same = g.p(0.5) ? key_vis(g, e) : 0;
  std::vector<Tn> in;
  bool sec = false, prv = false, pubkeys = true;
  int vb = -1;
  std::vector<std::pair<i128, i128>> range;
  for (size_t i = 0; i < nk + np; ++i) {
    auto d = g.p(0.3) ? g.of(kReals) : g.of(kInts);
    int spread = static_cast<int>(g.u(3));
    if (i + 1 < nk && g.p(0.6)) spread = static_cast<int>(g.u(1));
    bool nonneg = g.p(0.2);
    char vis = same && i < nk ? same : key_vis(g, e);
    in.push_back(tensor(g, e, d, sh, vis, [&] { auto x = val(g, e, d, spread); return nonneg && x < 0 ? -x : x; }));
    if (i < nk) { sec = sec || vis == 'S'; prv = prv || vis == 'V'; pubkeys = pubkeys && vis == 'P'; }
    g.say("{}{}={}", i < nk ? "key" : "pay", i, in.back().show());
  }
  if (g.p(0.3)) {  // a promise that all keys fit: a two's complement number of that many bits, or an unsigned one
    int need = 1;
    for (size_t i = 0; i < nk; ++i)
      for (auto x : in[i].v) {
        int b = uns(in[i].dt) && in[i].dt != DT_I1 ? 0 : 1;
        u128 m = static_cast<u128>(x < 0 ? -x - 1 : x);
        while (m) { ++b; m >>= 1; }
        need = std::max(need, b);
      }
    vb = std::min(e.k, need + static_cast<int>(g.p() ? 0 : g.u(4)));
  }
  bool desc = g.p(), stable = g.p(0.3);
  auto dir = desc ? hal::SortDirection::Descending : hal::SortDirection::Ascending;
  g.say("{} dim={} keys={} {} vb={} method={} thr={}{}", e.show(), dim, nk, desc ? "desc" : "asc", vb, static_cast<int>(e.cfg.sort_method), e.cfg.quick_sort_threshold, stable ? " stable" : "");
  bool can_stable = pubkeys || has_perm(e);
  std::vector<Res> r;
  Opt opt;
  opt.may_reveal = true;
  try {
    r = exec(e, in, [&](SPUContext* c, std::vector<Value>& v) { return hlo::SimpleSort(c, v, dim, dir, static_cast<int64_t>(nk), vb, stable); }, opt);
  } catch (const std::exception& x) {
    if (stable && !can_stable && enforce_fail(x)) return;
    throw;
  }
  REQUIRE(!stable || can_stable || n == 0, "a stable sort was accepted without a stable method");
  REQUIRE(r.size() == in.size(), "{} columns of {}", r.size(), in.size());
  auto val_of = [&](size_t c, u128 raw) { return uns(in[c].dt) && width(in[c].dt) <= e.k ? as_int(raw, in[c].dt) : e.sgn(raw); };
  for (size_t i = 0; i < in.size(); ++i) {
    REQUIRE(r[i].dt == in[i].dt, "column {} has type {} instead of {}", i, static_cast<int>(r[i].dt), static_cast<int>(in[i].dt));
    REQUIRE(r[i].sh == in[i].sh, "column {} has shape {}", i, r[i].sh);
    if (n == 0) continue;
    if (n > 1) {
      REQUIRE(!sec || r[i].vis == 'S', "column {} of a sort by a secret key is {}", i, r[i].vis);
      REQUIRE(!prv || r[i].vis != 'P', "column {} of a sort by a private key is public", i);
    }
    REQUIRE(in[i].vis != 'S' || r[i].vis == 'S', "secret column {} became {}", i, r[i].vis);
    REQUIRE(in[i].vis == 'P' || r[i].vis != 'P', "private column {} became public", i);
  }
  if (n == 0) return;
  auto before = [&](const Row& a, const Row& b) {
    for (size_t c = 0; c < nk; ++c) {
      auto x = val_of(c, a[c]), y = val_of(c, b[c]);
      if (x != y) return desc ? x > y : x < y;
    }
    return false;
  };
  for (auto& s : slices(sh, dim)) {
    std::vector<Row> want, got;
    for (auto i : s) {
      Row a, b;
      for (size_t c = 0; c < in.size(); ++c) { a.push_back(in[c].raw.v[i]); b.push_back(r[c].raw[i]); }
      want.push_back(a);
      got.push_back(b);
    }
    auto ms = want, mg = got;
    std::stable_sort(want.begin(), want.end(), before);
    for (size_t i = 0; i < want.size(); ++i)
      for (size_t c = 0; c < (stable ? in.size() : nk); ++c)
        REQUIRE(want[i][c] == got[i][c], "sorted row {} column {} is {} instead of {}", i, c, strs(val_of(c, got[i][c])), strs(val_of(c, want[i][c])));
    std::sort(ms.begin(), ms.end());
    std::sort(mg.begin(), mg.end());
    REQUIRE(ms == mg, "the rows of the sorted table are not the rows of the input");
  }
  if (n >= 5 && !pubkeys) g.nontrivial();
}

PBT(C29, comparator, 1500, 40000, "at least five rows sorted with a secret comparison") {
  auto e = genv(g);
  if (e.proto == kSpdz2k) e.proto = kSemi2k, e.n = 2 + g.u(1), e.cfg.protocol = SEMI2K;
  Shape sh{g.p(0.1) ? static_cast<int64_t>(g.u(2)) : 2 + static_cast<int64_t>(g.u(12))};
  int64_t dim = 0;
  if (g.p(0.2)) { sh.insert(sh.begin(), 2); dim = 1; }
  int64_t n = sh[dim];
  size_t nc = 1 + g.u(2);
  bool pubcmp = g.p(0.3);
  bool stable = pubcmp && g.p();
  // order: a chain of (column, direction)
  std::vector<std::pair<size_t, bool>> ord{{g.u(nc - 1), g.p()}};
  if (g.p(0.4)) ord.push_back({g.u(nc - 1), g.p()});
  std::vector<Tn> in;
  for (size_t i = 0; i < nc; ++i) {
    auto d = g.p(0.3) ? g.of(kReals) : g.of(kInts);
    int spread = static_cast<int>(g.u(2));
    bool used = false;
    for (auto& o : ord) used = used || o.first == i;
    char vis = pubcmp && used ? 'P' : g.p(0.7) ? 'S' : 'P';
    in.push_back(tensor(g, e, d, sh, vis, [&] { return val(g, e, d, spread); }));
    g.say("c{}={}", i, in.back().show());
  }
  // a comparison that returns a secret needs a secret operand
  if (!pubcmp) in[ord[0].first].vis = 'S';
  g.say("{} {}{} by {}{} {}{}", e.show(), pubcmp ? "public" : "secret", stable ? " stable" : "", ord[0].first, ord[0].second ? "v" : "^", ord.back().first, ord.back().second ? "v" : "^");
  Opt opt;
  opt.may_reveal = true;
  auto r = exec(e, in, [&](SPUContext* c, std::vector<Value>& v) {
    auto cmp = [&, c](absl::Span<const Value> x) {
      auto lt = [&](std::pair<size_t, bool> o) { auto &a = x[2 * o.first], &b = x[2 * o.first + 1]; return o.second ? hlo::Greater(c, a, b) : hlo::Less(c, a, b); };
      auto p = lt(ord[0]);
      if (ord.size() > 1) p = hlo::Or(c, p, hlo::And(c, hlo::Equal(c, x[2 * ord[0].first], x[2 * ord[0].first + 1]), lt(ord[1])));
      return p;
    };
    return hlo::Sort(c, v, dim, stable, cmp, pubcmp ? VIS_PUBLIC : VIS_SECRET);
  }, opt);
  auto num = [&](size_t c, u128 raw) { return uns(in[c].dt) && width(in[c].dt) <= e.k ? as_int(raw, in[c].dt) : e.sgn(raw); };
  auto before = [&](const Row& a, const Row& b) {
    for (auto& o : ord) {
      auto x = num(o.first, a[o.first]), y = num(o.first, b[o.first]);
      if (x != y) return o.second ? x > y : x < y;
    }
    return false;
  };
  REQUIRE(r.size() == in.size(), "{} columns", r.size());
  for (size_t i = 0; i < nc; ++i) {
    REQUIRE(r[i].dt == in[i].dt && r[i].sh == in[i].sh, "column {} has type {} shape {}", i, static_cast<int>(r[i].dt), r[i].sh);
    if (n > 1) REQUIRE(r[i].vis == (pubcmp ? in[i].vis : 'S'), "column {} is {}", i, r[i].vis);
  }
  if (n > 0) for (auto& s : slices(sh, dim)) {
    std::vector<Row> want, got;
    for (auto i : s) {
      Row a, b;
      for (size_t c = 0; c < nc; ++c) { a.push_back(in[c].raw.v[i]); b.push_back(r[c].raw[i]); }
      want.push_back(a);
      got.push_back(b);
    }
    for (size_t i = 0; i + 1 < got.size(); ++i) REQUIRE(!before(got[i + 1], got[i]), "row {} comes before row {} but belongs after it", i, i + 1);
    auto ms = want;
    std::stable_sort(want.begin(), want.end(), before);
    REQUIRE(!stable || want == got, "equal rows changed their order in a stable sort");
    std::sort(ms.begin(), ms.end());
    std::sort(got.begin(), got.end());
    REQUIRE(ms == got, "the rows of the sorted table are not the rows of the input");
  }
  if (n >= 5 && !pubcmp) g.nontrivial();
}

PBT(C29, topk, 2000, 50000, "a secret vector of at least five elements, k below its length") {
  auto e = genv(g);
  Shape sh;
  for (size_t i = g.p(0.7) ? 0 : 1 + g.u(1); i > 0; --i) sh.push_back(static_cast<int64_t>(1 + g.u(2)));
  int64_t n = 1 + static_cast<int64_t>(g.u(g.p(0.2) ? 24 : 9));
  sh.push_back(n);
  auto d = g.p(0.3) ? g.of(kReals) : g.of(kInts);
  int spread = static_cast<int>(g.u(3));
  char vis = g.p(0.7) ? 'S' : g.p() ? 'P' : 'V';
  if (vis == 'V' && !has_perm(e)) vis = 'S';
  auto t = tensor(g, e, d, sh, vis, [&] { return val(g, e, d, spread); });
  int64_t klo = 1 + static_cast<int64_t>(g.u(n - 1)), khi = g.p(0.3) ? klo : klo + static_cast<int64_t>(g.u(n - klo));
  bool impl = khi == klo && g.p(), largest = g.p(), only = g.p(0.3), conf = sh.size() == 1 && vis == 'S' && g.p(0.3);
  g.say("{} {} k={}..{} {} {}{}", e.show(), t.show(), klo, khi, largest ? "largest" : "smallest", only ? "values " : "", conf ? "confusion" : "");
  Opt opt;
  if (vis == 'V') opt.may_reveal = false;
  auto r = exec(e, {t}, [&](SPUContext* c, std::vector<Value>& v) {
    if (!conf) return hlo::TopK(c, v[0], klo, impl ? -1 : khi, largest, only);
    auto cmp = [&](SPUContext* x, const Value& a, const Value& b) { return largest ? hal::greater(x, a, b) : hal::less(x, a, b); };
    return hal::topk_1d(c, v[0], cmp, hal::TopKConfig{only, true, klo, khi});
  }, opt);
  auto num = [&](u128 raw) { return uns(d) && width(d) <= e.k ? as_int(raw, d) : e.sgn(raw); };
  REQUIRE(r.size() == (only ? 1U : 2U), "{} results", r.size());
  Shape want_sh = sh;
  want_sh.back() = khi;
  REQUIRE(r[0].dt == d && r[0].sh == want_sh, "values have type {} and shape {}", static_cast<int>(r[0].dt), r[0].sh);
  if (!only) REQUIRE(r[1].dt == (e.k == 32 ? DT_I32 : DT_I64) && r[1].sh == want_sh, "indices have type {} and shape {}", static_cast<int>(r[1].dt), r[1].sh);
  for (int64_t row = 0; row < sh.numel() / n; ++row) {
    std::vector<i128> all, got;
    for (int64_t i = 0; i < n; ++i) all.push_back(num(t.raw.v[row * n + i]));
    for (int64_t i = 0; i < khi; ++i) got.push_back(num(r[0].raw[row * khi + i]));
    if (!only) {
      std::set<int64_t> seen;
      for (int64_t i = 0; i < khi; ++i) {
        auto ix = e.sgn(r[1].raw[row * khi + i]);
        REQUIRE(ix >= 0 && ix < n, "index {} is out of range", strs(ix));
        REQUIRE(seen.insert(static_cast<int64_t>(ix)).second, "index {} is returned twice", strs(ix));
        REQUIRE(all[static_cast<int64_t>(ix)] == got[i], "index {} does not hold the value {}", strs(ix), strs(got[i]));
      }
    }
    auto cmp = [&](i128 a, i128 b) { return largest ? a > b : a < b; };
    std::sort(all.begin(), all.end(), cmp);
    REQUIRE(got[klo - 1] == all[klo - 1], "element {} is {} instead of {}", klo - 1, strs(got[klo - 1]), strs(all[klo - 1]));
    auto lo = std::vector<i128>(got.begin(), got.begin() + klo);
    std::sort(lo.begin(), lo.end(), cmp);
    for (int64_t i = 0; i < klo; ++i) REQUIRE(lo[i] == all[i], "the first k_lo elements are not the top k_lo: {} for {}", strs(lo[i]), strs(all[i]));
    std::sort(got.begin(), got.end(), cmp);
    for (int64_t i = 0; i < khi; ++i) REQUIRE(got[i] == all[i], "the k_hi elements are not the top k_hi: {} for {}", strs(got[i]), strs(all[i]));
  }
  if (vis == 'S' && n >= 5 && khi < n) g.nontrivial();
}
