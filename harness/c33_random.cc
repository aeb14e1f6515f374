// Random operators: range, shape, agreement, uniformity, independence of draws and of single parties.
#include <set>
#include "kern.h"
#include "libspu/kernel/hal/random.h"
#include "libspu/kernel/hlo/rand.h"
using namespace kn;
namespace {
const std::vector<int> kAll{kRef2k, kSemi2k, kSemi2k, kAby3, kAby3, kSecurenn, kSwift, kSpdz2k, kCheetah};
// statistic of equally likely bins
double chi2(const std::vector<size_t>& c) {
  double n = 0, s = 0;
  for (auto x : c) n += static_cast<double>(x);
  double m = n / static_cast<double>(c.size());
  for (auto x : c) s += (static_cast<double>(x) - m) * (static_cast<double>(x) - m) / m;
  return s;
}
// exceeded with probability far below 1e-10
double limit(size_t bins) { double d = static_cast<double>(bins - 1); double z = 7.5; double t = 1 - 2 / (9 * d) + z * std::sqrt(2 / (9 * d)); return d * t * t * t; }
int digits(DataType d) { return d == DT_F16 ? 10 : d == DT_F32 ? 23 : 50; }
// a number of the type: few significant bits for reals
i128 bound_num(Gen& g, const Env& e, DataType d, int f) {
  if (!real(d)) {
    i128 lo = lo_of(d, e.k), hi = hi_of(d, e.k);
    switch (g.u(3)) {
      case 0: return lo + static_cast<i128>(g.u(3));
      case 1: return hi - static_cast<i128>(g.u(3));
      default: { i128 x = static_cast<i128>(g.u(200)) - 100; return x < lo ? lo : x > hi ? hi : x; }
    }
  }
  int bits = d == DT_F16 ? std::min(15 + f, e.k - 4) : e.k - 4;
  int sig = static_cast<int>(1 + g.u(std::min(digits(d), bits) - 1)), sh = static_cast<int>(g.u(bits - sig));
  if (d == DT_F16 && sh < f - 14) sh = std::max(sh, std::min(f - 14, bits - sig));
  i128 x = static_cast<i128>(g.wide() & ((static_cast<u128>(1) << sig) - 1)) << sh;
  if (g.p(0.2)) x = 0; else if (g.p(0.2)) x = one(f);
  return g.p(0.4) ? -x : x;
}
}  // namespace
PBT(C33, uniform, 30000, 400000, "a range of several values and more than one draw") {
  auto e = genv(g, kAll);
  int f = static_cast<int>(fxp(e));
  if (g.p(0.4)) { f = 2 + static_cast<int>(g.u(std::min(38, (e.k - 8) / 2 - 2))); e.cfg.fxp_fraction_bits = f; }
  auto d = g.of<DataType>({DT_F32, DT_F32, DT_F64, DT_F16, DT_I8, DT_U8, DT_I16, DT_U16, DT_I32, DT_U32, DT_I64});
  while (!real(d) && width(d) > e.k) d = DT_I16;
  if (d == DT_U32 && e.k == 32) d = DT_I32;
  auto a = bound_num(g, e, d, f), b = bound_num(g, e, d, f);
  if (a > b) std::swap(a, b);
  if (real(d) && g.p(0.4)) { // a narrow range
    int sig = 0; i128 y = a < 0 ? -a : a; while (y) { y >>= 1; ++sig; }
    int lsb = std::max({0, sig - digits(d) - 1, d == DT_F16 ? f - 24 : 0});
    b = a + one(lsb) * static_cast<i128>(1 + g.u(9));
  }
  if (a == b) b = a + (real(d) ? one(std::max(0, f - 3)) : 1);
  if (!real(d) && b > hi_of(d, e.k)) { b = hi_of(d, e.k); a = b - 1; }
  if (real(d)) {  // representable in the type
    auto rep = [&](i128 x) { i128 y = x < 0 ? -x : x; int s = 0; while (y && !(y & 1)) { y >>= 1; ++s; } return y < one(digits(d) + 1); };
    if (!rep(a) || !rep(b)) throw Discard{};
  }
  auto bs = g.p(0.8) ? Shape{} : Shape{1};
  auto L = tensor(g, e, d, bs, 'P', [&] { return a; }), H = tensor(g, e, d, bs, 'P', [&] { return b; });
  int draws = 1 + static_cast<int>(g.u(2));
  std::vector<Shape> shs;
  for (int i = 0; i < draws; ++i) shs.push_back(g.p(0.3) ? Shape{2 + static_cast<int64_t>(g.u(40))} : gshape(g, 4, 5, 100));
  g.say("f={} type {} [{}, {})", f, static_cast<int>(d), strs(a), strs(b));
  for (auto& s : shs) g.say("{}", s);
  auto r = exec(e, {L, H}, [&](SPUContext* ctx, std::vector<Value>& v) {
    std::vector<Value> o;
    for (auto& s : shs) o.push_back(hlo::Uniform_rand(ctx, v[0], v[1], s));
    return o;
  });
  size_t many = 0;
  std::set<std::vector<u128>> big;
  size_t bigs = 0;
  for (int i = 0; i < draws; ++i) {
    auto& x = r[i];
    REQUIRE(x.vis == 'P', "{}: draw {} is not public", e.show(), i);
    REQUIRE(x.dt == d, "{}: draw {} has type {} instead of {}", e.show(), i, static_cast<int>(x.dt), static_cast<int>(d));
    REQUIRE(x.sh == shs[i], "{}: draw {} has shape {} instead of {}", e.show(), i, x.sh, shs[i]);
    many += x.raw.size();
    for (auto q : x.raw) {
      i128 n = real(d) ? e.sgn(q) : as_int(q, d);
      REQUIRE(n >= a && (n < b || (real(d) && b <= 0 && n == b)), "{}: {} is not in [{}, {})", e.show(), strs(n), strs(a), strs(b));
      if (!real(d)) REQUIRE(e.sgn(q) == n, "{}: ring value {} of number {}", e.show(), strs(q), strs(n));
    }
    if (b - a >= 64 && x.raw.size() >= 12) { ++bigs; big.insert(x.raw); }
  }
  REQUIRE(big.size() == bigs, "{}: two draws are the same", e.show());
  g.nontrivial(b - a > 1 && many > 1);
}
PBT(C33, uniform_dist, 600, 15000, "always") {
  auto e = genv(g, {kRef2k, kSemi2k, kAby3, kCheetah});
  int f = static_cast<int>(fxp(e));
  auto d = g.of<DataType>({DT_F32, DT_F64, DT_F16, DT_I32, DT_I16, DT_U8});
  size_t bins = 16;
  i128 wdt = real(d) ? one(f) * static_cast<i128>(1 + g.u(20)) : static_cast<i128>(16 * (1 + g.u(6)));
  i128 a = real(d) ? one(f) * (static_cast<i128>(g.u(20)) - 10) : uns(d) ? static_cast<i128>(g.u(40)) : static_cast<i128>(g.u(200)) - 100;
  auto L = tensor(g, e, d, {}, 'P', [&] { return a; }), H = tensor(g, e, d, {}, 'P', [&] { return a + wdt; });
  g.say("f={} type {} [{}, {})", f, static_cast<int>(d), strs(a), strs(a + wdt));
  size_t rounds = 20;
  auto r = exec(e, {L, H}, [&](SPUContext* ctx, std::vector<Value>& v) {
    std::vector<Value> o;
    for (size_t i = 0; i < rounds; ++i) o.push_back(hlo::Uniform_rand(ctx, v[0], v[1], {8, 20}));
    return o;
  }, Opt{.keep_inputs = false});
  std::vector<size_t> one_d(bins), serial(bins * bins), first(bins);
  for (auto& x : r) {
    size_t prev = bins;
    for (auto q : x.raw) {
      auto n = real(d) ? e.sgn(q) : as_int(q, d);
      if (real(d) && n == a + wdt && n <= 0) --n;  // encoding truncates towards zero
      auto k = static_cast<size_t>((n - a) * static_cast<i128>(bins) / wdt);
      REQUIRE(k < bins, "{}: {} out of range", e.show(), strs(n));
      one_d[k]++;
      if (prev < bins) serial[prev * bins + k]++;
      prev = k;
    }
  }
  REQUIRE(chi2(one_d) < limit(bins), "{}: not uniform, chi2 {} over {} bins", e.show(), chi2(one_d), bins);
  REQUIRE(chi2(serial) < limit(bins * bins), "{}: consecutive numbers are dependent, chi2 {} over {} bins", e.show(), chi2(serial), bins * bins);
  g.nontrivial();
}
namespace {
// full runs with chosen randomness of every party; revealed draws of party 0
std::vector<std::vector<u128>> draw(const Env& e, const std::vector<uint64_t>& seeds, Visibility vis, const std::vector<std::pair<DataType, Shape>>& req, std::string* meta = nullptr) {
  using R = std::vector<Res>;
  auto w = std::make_shared<sim::World>(e.n);
  auto out = hz::parties<R>(w, seeds[0], [&](size_t rank, const hz::Lctx& l) {
    sim::SeedThread(seeds[rank], rank + 1);
    auto ctx = pr::make(e, l);
    R r;
    for (auto& [d, s] : req) r.push_back(get(ctx.get(), hal::random(ctx.get(), vis, d, s)));
    return r;
  });
  std::vector<std::vector<u128>> o;
  for (size_t i = 0; i < req.size(); ++i) {
    for (auto& p : out) REQUIRE(p[i].raw == out[0][i].raw, "{}: parties disagree on draw {}", e.show(), i);
    auto& x = out[0][i];
    REQUIRE(x.sh == req[i].second && x.dt == req[i].first, "{}: draw {} has shape {} type {}", e.show(), i, x.sh, static_cast<int>(x.dt));
    REQUIRE(x.vis == (vis == VIS_PUBLIC ? 'P' : 'S'), "{}: draw {} has visibility {}", e.show(), i, x.vis);
    o.push_back(x.raw);
  }
  (void)meta;
  return o;
}
}  // namespace
PBT(C33, draws, 5000, 100000, "two draws of at least 64 bits of randomness each") {
  auto e = genv(g, kAll);
  auto vis = g.p(0.3) ? VIS_PUBLIC : VIS_SECRET;
  int n = 2 + static_cast<int>(g.u(2));
  std::vector<std::pair<DataType, Shape>> req;
  for (int i = 0; i < n; ++i) {
    auto d = g.of<DataType>({DT_I1, DT_I1, DT_I32, DT_U8, DT_F32, DT_I16});
    if (d == DT_I1 && vis == VIS_SECRET && (e.proto == kSpdz2k || e.proto == kSwift || e.proto == kSecurenn)) d = DT_I32;  // no rand_b kernel
    auto s = gshape(g, 3, 6, 60);
    if (g.p(0.7)) s = {static_cast<int64_t>(4 + g.u(30))};
    if (e.proto == kSpdz2k) { if (s.size() == 0) s = {1}; for (auto& q : s) q = std::max<int64_t>(q, 1); }
    req.push_back({d, s});
  }
  std::vector<uint64_t> seeds(e.n, e.seed);
  g.say("{}", vis == VIS_PUBLIC ? "public" : "secret");
  for (auto& [d, s] : req) g.say("{} {}", static_cast<int>(d), s);
  auto a = draw(e, seeds, vis, req);
  auto same = [&](const std::vector<u128>& x, const std::vector<u128>& y, DataType d) {
    size_t k = std::min(x.size(), y.size()), bits = 0;
    for (size_t i = 0; i < k; ++i) { bits += d == DT_I1 ? 1 : 8; if ((x[i] & (d == DT_I1 ? 1 : 255)) != (y[i] & (d == DT_I1 ? 1 : 255))) return false; }
    return bits >= 64;
  };
  bool nt = false;
  for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) {
    auto d = req[i].first == DT_I1 || req[j].first == DT_I1 ? DT_I1 : DT_I32;
    REQUIRE(!same(a[i], a[j], d), "{}: draws {} and {} are the same", e.show(), i, j);
    nt = nt || std::min(a[i].size(), a[j].size()) * (d == DT_I1 ? 1 : 8) >= 64;
  }
  // one party's randomness alone does not determine a draw; REF2K is a reference without private randomness
  if (e.proto != kRef2k) {
    size_t keep = g.u(e.n - 1);
    if (e.n > 1) {
      auto s2 = seeds;
      for (size_t p = 0; p < e.n; ++p) if (p != keep) s2[p] = e.seed + 1 + p;
      auto b = draw(e, s2, vis, req);
      for (int i = 0; i < n; ++i) REQUIRE(!same(a[i], b[i], req[i].first), "{}: draw {} depends on the randomness of party {} only", e.show(), i, keep);
    }
  }
  g.nontrivial(nt);
}
PBT(C33, bits, 500, 15000, "always") {
  auto e = genv(g, kAll);
  auto vis = g.p(0.3) ? VIS_PUBLIC : VIS_SECRET;
  auto d = g.of<DataType>({DT_I1, DT_I32, DT_F32});
  if (d == DT_I1 && vis == VIS_SECRET && (e.proto == kSpdz2k || e.proto == kSwift || e.proto == kSecurenn)) d = DT_I32;  // no rand_b kernel
  int bits = d == DT_I1 ? 1 : 6;
  std::vector<uint64_t> seeds;
  for (size_t i = 0; i < e.n; ++i) seeds.push_back(e.seed + i * 77);
  g.say("{} {}", vis == VIS_PUBLIC ? "public" : "secret", static_cast<int>(d));
  auto a = draw(e, seeds, vis, std::vector<std::pair<DataType, Shape>>(8, {d, Shape{250}}));
  std::vector<size_t> c(one(bits)), mid(64), serial(4);
  for (auto& x : a) {
    int prev = -1;
    for (auto q : x) {
      c[static_cast<size_t>(q & (one(bits) - 1))]++;
      mid[static_cast<size_t>((q >> (e.k - 12)) & 63)]++;
      int b = static_cast<int>(q & 1);
      if (prev >= 0) serial[2 * prev + b]++;
      prev = b;
    }
  }
  REQUIRE(chi2(c) < limit(c.size()), "{}: low bits are not uniform, chi2 {} over {} bins", e.show(), chi2(c), c.size());
  REQUIRE(chi2(serial) < limit(4), "{}: consecutive bits are dependent, chi2 {}", e.show(), chi2(serial));
  if (d != DT_I1) REQUIRE(chi2(mid) < limit(64), "{}: high bits are not uniform, chi2 {}", e.show(), chi2(mid));
  g.nontrivial();
}
