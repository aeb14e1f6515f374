// Ring tensor operations against integer arithmetic modulo 2^k.
#include "layout.h"
#include "sim.h"
#include "libspu/core/type_util.h"
#include "libspu/mpc/utils/ring_ops.h"
using namespace pbt;
using namespace lay;
using namespace spu;
using namespace spu::mpc;
namespace {
struct Chaos {
  explicit Chaos(Gen& g) { sim::parallel_chaos = g.p(0.4) ? (g.seed() | 1) : 0; }
  ~Chaos() { sim::parallel_chaos = 0; }
};
i128 sgn(u128 v, int w) {
  int s = 128 - 8 * w;
  return static_cast<i128>(v << s) >> s;
}
using F2 = std::function<u128(u128, u128)>;
void expect(const NdArrayRef& r, const std::vector<u128>& want, const Shape& sh, const Type& ty, const char* what) {
  REQUIRE(r.shape() == sh, "{}: shape {}", what, fmt::join(r.shape(), "x"));
  REQUIRE(r.eltype() == ty, "{}: type {}", what, r.eltype().toString());
  auto d = diff(vals(r), want);
  REQUIRE(d.empty(), "{}: {}", what, d);
}
}  // namespace
PBT(C08, elementwise, 120000, 2000000, "at least two elements and a non-compact operand") {
  Chaos ch(g);
  auto f = g.of({FM32, FM64, FM128});
  auto ty = makeType<RingTy>(f);
  int w = static_cast<int>(SizeOf(f)), W = 8 * w;
  u128 M = mask(w);
  auto sh = gshape(g);
  auto val = [&] { return g.bits(W); };
  auto x = arr(g, ty, sh, true, val), y = arr(g, ty, sh, false, val);
  bool alias = g.p(0.15);
  int op = static_cast<int>(g.u(15));
  static const char* names[] = {"not", "neg", "add", "sub", "mul", "and", "xor", "equal", "mul_scalar", "arshift", "rshift", "lshift", "bitrev", "bitmask", "assign", "select"};
  g.say("{} W={} x={}{} y={}{} {}", names[op], W, show(x), show(x.v, 3), alias ? "=x" : show(y), alias ? "" : show(y.v, 3), sim::parallel_chaos ? "split" : "");
  g.nontrivial(x.v.size() >= 2 && (!x.r.isCompact() || !y.r.isCompact()));
  g.tag(names[op]);
  const auto n = x.v.size();
  const NdArrayRef& yr = alias ? x.r : y.r;
  const auto& yv = alias ? x.v : y.v;
  std::vector<u128> want(n);
  auto two = [&](auto&& plain, auto&& inpl, auto&& fn) {
    for (size_t i = 0; i < n; ++i) want[i] = fn(x.v[i], yv[i]) & M;
    auto r = plain(x.r, yr);
    expect(r, want, sh, ty, "copying");
    REQUIRE(x.untouched() && y.untouched(), "an operand changed");
    REQUIRE(r.buf() != x.r.buf() && r.buf() != y.r.buf(), "the result shares storage");
    inpl(x.r, yr);
    expect(x.r, want, sh, ty, "in place");
    REQUIRE(x.only_elements() && y.untouched(), "in place: other storage changed");
  };
  auto one = [&](auto&& plain, auto&& inpl, auto&& fn) {
    for (size_t i = 0; i < n; ++i) want[i] = fn(x.v[i], i) & M;
    // the copying variant on any layout
    {
      std::vector<u128> w2(n);
      for (size_t i = 0; i < n; ++i) w2[i] = fn(y.v[i], i) & M;
      expect(plain(y.r), w2, sh, ty, "copying");
    }
    auto r = plain(x.r);
    expect(r, want, sh, ty, "copying");
    REQUIRE(x.untouched() && y.untouched(), "an operand changed");
    inpl(x.r);
    expect(x.r, want, sh, ty, "in place");
    REQUIRE(x.only_elements(), "in place: other storage changed");
  };
  switch (op) {
    case 0: return one([](const auto& a) { return ring_not(a); }, [](auto& a) { ring_not_(a); }, [](u128 a, size_t) { return ~a; });
    case 1: return one([](const auto& a) { return ring_neg(a); }, [](auto& a) { ring_neg_(a); }, [](u128 a, size_t) { return -a; });
    case 2: return two([](const auto& a, const auto& b) { return ring_add(a, b); }, [](auto& a, const auto& b) { ring_add_(a, b); }, [](u128 a, u128 b) { return a + b; });
    case 3: return two([](const auto& a, const auto& b) { return ring_sub(a, b); }, [](auto& a, const auto& b) { ring_sub_(a, b); }, [](u128 a, u128 b) { return a - b; });
    case 4: return two([](const auto& a, const auto& b) { return ring_mul(a, b); }, [](auto& a, const auto& b) { ring_mul_(a, b); }, [](u128 a, u128 b) { return a * b; });
    case 5: return two([](const auto& a, const auto& b) { return ring_and(a, b); }, [](auto& a, const auto& b) { ring_and_(a, b); }, [](u128 a, u128 b) { return a & b; });
    case 6: return two([](const auto& a, const auto& b) { return ring_xor(a, b); }, [](auto& a, const auto& b) { ring_xor_(a, b); }, [](u128 a, u128 b) { return a ^ b; });
    case 7: {
      // make some elements equal
      if (!alias) for (size_t i = 0; i < n; ++i) if (g.p(0.3)) {
        int64_t q = static_cast<int64_t>(i), o = 0;
        for (size_t k = sh.size(); k-- > 0;) { o += (q % sh[k]) * y.r.strides()[k]; q /= sh[k]; }
        memcpy(static_cast<char*>(y.r.buf()->data()) + y.r.offset() + o * w, &x.v[i], w);
      }
      y.snap.assign(static_cast<const char*>(y.r.buf()->data()), y.snap.size());
      y.v = vals(y.r);
      return two([](const auto& a, const auto& b) { return ring_equal(a, b); }, [](auto& a, const auto& b) { ring_equal_(a, b); }, [](u128 a, u128 b) { return static_cast<u128>(a == b); });
    }
    case 8: {
      u128 k = g.p(0.5) ? g.bits(W) : g.bits(128);
      g.say("k={}", str(k));
      one([&](const auto& a) { return ring_mul(a, k); }, [&](auto& a) { ring_mul_(a, k); }, [&](u128 a, size_t) { return a * k; });
      auto moved = arr(g, ty, sh, true, val);
      for (size_t i = 0; i < n; ++i) want[i] = (moved.v[i] * k) & M;
      auto tmp = moved.r;
      expect(ring_mul(std::move(tmp), k), want, sh, ty, "moved operand");
      REQUIRE(moved.only_elements(), "moved operand: other storage changed");
      return;
    }
    case 9: case 10: case 11: {
      Sizes bits;
      bool splat = g.p(0.5);
      auto amt = [&] { return g.p(0.2) ? g.of<int64_t>({0, W - 1, 1}) : static_cast<int64_t>(g.u(W - 1)); };
      if (splat) bits.push_back(amt());
      else for (size_t i = 0; i < n; ++i) bits.push_back(amt());
      g.say("bits {}", fmt::join(bits, ","));
      auto at = [&](size_t i) { return bits.size() == 1 ? bits[0] : bits[i]; };
      if (op == 9) return one([&](const auto& a) { return ring_arshift(a, bits); }, [&](auto& a) { ring_arshift_(a, bits); }, [&](u128 a, size_t i) { return static_cast<u128>(sgn(a, w) >> at(i)); });
      if (op == 10) return one([&](const auto& a) { return ring_rshift(a, bits); }, [&](auto& a) { ring_rshift_(a, bits); }, [&](u128 a, size_t i) { return a >> at(i); });
      return one([&](const auto& a) { return ring_lshift(a, bits); }, [&](auto& a) { ring_lshift_(a, bits); }, [&](u128 a, size_t i) { return a << at(i); });
    }
    case 12: {
      size_t lo = g.p(0.3) ? 0 : g.u(W), hi = g.p(0.3) ? W : g.u(W);
      if (lo > hi) std::swap(lo, hi);
      g.say("bits [{}, {})", lo, hi);
      return one([&](const auto& a) { return ring_bitrev(a, lo, hi); }, [&](auto& a) { ring_bitrev_(a, lo, hi); }, [&](u128 a, size_t) {
        u128 r = a;
        for (size_t b = lo; b < hi; ++b) {
          r &= ~(static_cast<u128>(1) << b);
          r |= ((a >> (hi - 1 - (b - lo))) & 1) << b;
        }
        return r;
      });
    }
    case 13: {
      size_t lo = g.p(0.3) ? 0 : g.u(W - 1), hi = lo + 1 + (g.p(0.3) ? W - lo - 1 : g.u(W - lo - 1));
      g.say("bits [{}, {})", lo, hi);
      return one([&](const auto& a) { return ring_bitmask(a, lo, hi); }, [&](auto& a) { ring_bitmask_(a, lo, hi); }, [&](u128 a, size_t) {
        u128 r = 0;
        for (size_t b = lo; b < hi; ++b) r |= a & (static_cast<u128>(1) << b);
        return r;
      });
    }
    case 14: {
      ring_assign(x.r, yr);
      expect(x.r, yv, sh, ty, "assign");
      REQUIRE(x.only_elements() && (alias || y.untouched()), "other storage changed");
      return;
    }
    default: {
      std::vector<uint8_t> c(n);
      for (size_t i = 0; i < n; ++i) { c[i] = static_cast<uint8_t>(g.u(1)); want[i] = c[i] ? yv[i] : x.v[i]; }
      expect(ring_select(c, x.r, yr), want, sh, ty, "select");
      REQUIRE(x.untouched() && y.untouched(), "an operand changed");
      auto b = ring_cast_boolean(y.r);
      REQUIRE(b.size() == n, "cast_boolean size");
      for (size_t i = 0; i < n; ++i) REQUIRE(b[i] == static_cast<uint8_t>(y.v[i] & 1), "cast_boolean({}) = {}", str(y.v[i]), b[i]);
    }
  }
}
PBT(C08, matmul, 30000, 400000, "every dimension at least two and an operand is not compact") {
  Chaos ch(g);
  auto f = g.of({FM32, FM64, FM128});
  auto ty = makeType<RingTy>(f);
  int w = static_cast<int>(SizeOf(f)), W = 8 * w;
  auto dim = [&] { return g.p(0.06) ? 0 : 1 + static_cast<int64_t>(g.u(g.p(0.1) ? 20 : 5)); };
  int64_t m = dim(), k = dim(), n = dim();
  auto val = [&] { return g.bits(W); };
  auto a = arr(g, ty, {m, k}, false, val), b = arr(g, ty, {k, n}, false, val);
  auto c = arr(g, ty, {m, n}, true, val);
  g.say("W={} {} * {} -> {}", W, show(a), show(b), show(c));
  g.nontrivial(m > 1 && k > 1 && n > 1 && !(a.r.isCompact() && b.r.isCompact()));
  std::vector<u128> want;
  for (int64_t i = 0; i < m; ++i) for (int64_t j = 0; j < n; ++j) {
    u128 s = 0;
    for (int64_t l = 0; l < k; ++l) s += a.v[i * k + l] * b.v[l * n + j];
    want.push_back(s & mask(w));
  }
  expect(ring_mmul(a.r, b.r), want, {m, n}, ty, "mmul");
  ring_mmul_(c.r, a.r, b.r);
  expect(c.r, want, {m, n}, ty, "mmul into");
  REQUIRE(a.untouched() && b.untouched() && c.only_elements(), "other storage changed");
}
PBT(C08, collect, 40000, 500000, "at least two elements") {
  Chaos ch(g);
  auto f = g.of({FM32, FM64, FM128});
  auto ty = makeType<RingTy>(f);
  int w = static_cast<int>(SizeOf(f)), W = 8 * w;
  u128 M = mask(w);
  auto sh = gshape(g);
  auto val = [&] { return g.bits(W); };
  switch (g.u(5)) {
    case 0: {  // sums
      auto cnt = 1 + g.u(4);
      std::vector<Arr> as;
      std::vector<NdArrayRef> rs;
      for (uint64_t i = 0; i < cnt; ++i) {
        bool again = i > 0 && g.p(0.2);
        as.push_back(again ? as[g.u(i - 1)] : arr(g, ty, sh, false, val));
        rs.push_back(as.back().r);
      }
      std::vector<u128> want(as[0].v.size(), 0);
      for (auto& a : as) for (size_t i = 0; i < want.size(); ++i) want[i] = (want[i] + a.v[i]) & M;
      g.say("sum of {} {}", cnt, show(as[0]));
      g.nontrivial(want.size() >= 2);
      expect(ring_sum(absl::MakeConstSpan(rs)), want, sh, ty, "sum");
      for (auto& a : as) REQUIRE(a.untouched(), "an operand changed");
      return;
    }
    case 1: {  // comparison with tolerance
      auto x = arr(g, ty, sh, false, val), y = arr(g, ty, sh, false, val);
      bool ok = true;
      uint64_t err = g.p(0.5) ? 0 : g.u(20);
      // y := x + d for a small, large or extreme d, written into a compact copy
      NdArrayRef c(ty, sh);
      for (size_t i = 0; i < x.v.size(); ++i) {
        u128 d = g.p(0.8) ? g.u(err) : g.bits(W);
        if (g.p(0.5)) d = -d;
        u128 v = (x.v[i] + d) & M;
        memcpy(static_cast<char*>(c.buf()->data()) + i * w, &v, w);
        u128 e = d & M, e2 = (-d) & M;
        ok = ok && std::min(e, e2) <= err;
      }
      g.say("all_equal within {} of {} [{}] and [{}]", err, show(x), show(x.v), show(vals(c)));
      g.nontrivial(x.v.size() >= 2);
      fflush(stdout);
      REQUIRE(ring_all_equal(x.r, c, err) == ok, "all_equal is {}", !ok);
      REQUIRE(ring_all_equal(c, x.r, err) == ok, "all_equal of swapped operands is {}", !ok);
      return;
    }
    case 2: {  // random splits
      auto x = arr(g, ty, sh, false, val);
      sim::SeedThread(g.seed(), 1);
      auto k = 2 + g.u(4);
      g.say("{} splits of {}", k, show(x));
      g.nontrivial(x.v.size() >= 2);
      auto s = ring_rand_additive_splits(x.r, k), b = ring_rand_boolean_splits(x.r, k);
      REQUIRE(s.size() == k && b.size() == k, "number of splits");
      std::vector<u128> sum(x.v.size(), 0), xr(x.v.size(), 0);
      for (auto& p : s) { REQUIRE(p.shape() == sh && p.eltype() == ty, "split shape or type"); auto v = vals(p); for (size_t i = 0; i < v.size(); ++i) sum[i] = (sum[i] + v[i]) & M; }
      for (auto& p : b) { REQUIRE(p.shape() == sh && p.eltype() == ty, "split shape or type"); auto v = vals(p); for (size_t i = 0; i < v.size(); ++i) xr[i] ^= v[i]; }
      REQUIRE(sum == x.v, "additive splits do not sum to the value");
      REQUIRE(xr == x.v, "boolean splits do not xor to the value");
      REQUIRE(x.untouched(), "the operand changed");
      return;
    }
    case 3: {  // random ranges
      sim::SeedThread(g.seed(), 2);
      u128 lo = g.bits(W), len = g.p(0.5) ? g.u(7) : g.bits(W);
      if (len == M) len = M - 1;
      u128 hi = (lo + len) & M;
      g.say("range {} + {}", str(lo), str(len));
      g.nontrivial(sh.numel() >= 2);
      auto r = ring_rand_range(f, sh, lo, lo + len);
      (void)hi;
      REQUIRE(r.shape() == sh && r.eltype() == ty, "shape or type");
      for (auto v : vals(r)) REQUIRE(((v - lo) & M) <= len, "{} is outside", str(v));
      for (auto v : vals(ring_randbit(f, sh))) REQUIRE(v <= 1, "random bit {}", str(v));
      return;
    }
    case 4: {  // constants
      g.say("constants {}", fmt::join(sh, "x"));
      g.nontrivial(sh.numel() >= 2);
      auto n = static_cast<size_t>(sh.numel());
      expect(ring_zeros(f, sh), std::vector<u128>(n, 0), sh, ty, "zeros");
      expect(ring_ones(f, sh), std::vector<u128>(n, 1), sh, ty, "ones");
      auto x = arr(g, ty, sh, true, val);
      u128 k = g.bits(W);
      if (w == 4) ring_set_value(x.r, static_cast<uint32_t>(k));
      else if (w == 8) ring_set_value(x.r, static_cast<uint64_t>(k));
      else ring_set_value(x.r, static_cast<uint128_t>(k));
      expect(x.r, std::vector<u128>(n, k), sh, ty, "set_value");
      REQUIRE(x.only_elements(), "other storage changed");
      return;
    }
    default: {  // a seeded stream
      u128 seed = g.bits(128);
      uint64_t c1 = g.u(1000), c2 = c1, c0 = c1;
      g.say("stream {}", fmt::join(sh, "x"));
      g.nontrivial(sh.numel() >= 2);
      auto a = ring_rand(f, sh, seed, &c1), b = ring_rand(f, sh, seed, &c2);
      REQUIRE(vals(a) == vals(b) && c1 == c2, "the same seed and counter give other values");
      REQUIRE(sh.numel() == 0 || c1 > c0, "the counter did not advance");
      REQUIRE(a.shape() == sh && a.eltype() == ty, "shape or type");
      auto c = ring_rand(f, sh, seed, &c2);
      if (sh.numel() * W >= 128) REQUIRE(vals(c) != vals(a), "two draws are equal");
    }
  }
}
PBT(C08, reject, 20000, 200000, "always") {
  // operands of different ring or shape are refused, not read out of bounds
  auto f = g.of({FM32, FM64, FM128}), f2 = g.of({FM32, FM64, FM128});
  auto sh = gshape(g), sh2 = g.p(0.5) ? sh : gshape(g);
  if (f == f2 && sh == sh2) throw Discard{};
  g.nontrivial();
  auto val = [&] { return g.bits(128); };
  auto x = arr(g, makeType<RingTy>(f), sh, true, val), y = arr(g, makeType<RingTy>(f2), sh2, false, val);
  g.say("{} of {} and {} of {}", show(x), 8 * x.w, show(y), 8 * y.w);
  auto bad = [&](auto&& fn) { try { fn(); } catch (const std::exception&) { return true; } return false; };
  REQUIRE(bad([&] { ring_add(x.r, y.r); }) && bad([&] { ring_sub_(x.r, y.r); }) && bad([&] { ring_mul(x.r, y.r); }) &&
              bad([&] { ring_xor_(x.r, y.r); }) && bad([&] { ring_and(x.r, y.r); }) && bad([&] { ring_equal(x.r, y.r); }) &&
              bad([&] { ring_assign(x.r, y.r); }), "mismatched operands accepted");
  REQUIRE(x.untouched() && y.untouched(), "an operand changed");
}
