// Circuits over an abstract bit engine, and LowMC, against integer definitions.
#include "layout.h"
#include "sim.h"
#include "libspu/core/type_util.h"
#include "libspu/mpc/utils/circuits.h"
#include "libspu/mpc/utils/lowmc.h"
#include "libspu/mpc/utils/lowmc_utils.h"
using namespace pbt;
using namespace lay;

namespace {
// a packable value: lanes of W-bit words and the number of bits declared valid
struct Lanes {
  std::vector<u128> v;
};
}  // namespace
namespace spu {
template <>
struct SimdTrait<Lanes> {
  using PackInfo = std::vector<size_t>;
  template <class It>
  static Lanes pack(It a, It b, PackInfo& pi) {
    Lanes r;
    for (; a != b; ++a) { r.v.insert(r.v.end(), a->v.begin(), a->v.end()); pi.push_back(a->v.size()); }
    return r;
  }
  template <class Out>
  static Out unpack(const Lanes& x, Out o, const PackInfo& pi) {
    size_t k = 0;
    for (auto n : pi) { *o++ = Lanes{{x.v.begin() + k, x.v.begin() + k + n}}; k += n; }
    return o;
  }
};
}  // namespace spu
using namespace spu;
using namespace spu::mpc;
namespace {
u128 bitmask(int n) { return n >= 128 ? ~static_cast<u128>(0) : (static_cast<u128>(1) << n) - 1; }
template <class T>
struct Eng {
  int W;
  u128 junk;            // bits above the declared width after set_nbits
  std::string problem;  // a declared width that lost information
  static std::vector<u128> get(const u128& x) { return {x}; }
  static std::vector<u128> get(const Lanes& x) { return x.v; }
  static void set(u128& x, const std::vector<u128>& v) { x = v[0]; }
  static void set(Lanes& x, const std::vector<u128>& v) { x.v = v; }
  template <class F>
  T map(const T& a, F&& f) {
    auto v = get(a);
    for (auto& e : v) e = f(e) & bitmask(W);
    T r{};
    set(r, v);
    return r;
  }
  template <class F>
  T map2(const T& a, const T& b, F&& f) {
    auto v = get(a), y = get(b);
    if (v.size() != y.size()) problem = "lane counts differ";
    for (size_t i = 0; i < v.size() && i < y.size(); ++i) v[i] = f(v[i], y[i]);
    T r{};
    set(r, v);
    return r;
  }
  CircuitBasicBlock<T> block() {
    CircuitBasicBlock<T> b;
    b._xor = [this](const T& x, const T& y) { return map2(x, y, [](u128 p, u128 q) { return p ^ q; }); };
    b._and = [this](const T& x, const T& y) { return map2(x, y, [](u128 p, u128 q) { return p & q; }); };
    auto amt = [this](const Sizes& s) {
      if (s.size() != 1 || s[0] < 0 || s[0] >= W) { problem = fmt::format("shift by {}", fmt::join(s, ",")); return static_cast<int64_t>(0); }
      return s[0];
    };
    b.lshift = [this, amt](const T& x, const Sizes& s) { auto k = amt(s); return map(x, [k](u128 p) { return p << k; }); };
    b.rshift = [this, amt](const T& x, const Sizes& s) { auto k = amt(s); return map(x, [k](u128 p) { return p >> k; }); };
    b.init_like = [this](const T& x, uint128_t c) { return map(x, [c](u128) { return c; }); };
    b.set_nbits = [this](T& x, size_t n) {
      for (auto e : get(x)) if (e & ~bitmask(static_cast<int>(n))) problem = fmt::format("{} declared to have {} bits", str(e), n);
    };
    return b;
  }
};
template <class T>
void run(Gen& g, size_t lanes) {
  int W = static_cast<int>(g.of<int64_t>({8, 16, 32, 64, 128}));
  int which = static_cast<int>(g.u(3));
  int n = g.p(0.2) ? W : 1 + static_cast<int>(g.u(W - 1));
  if (which == 2 && n % 2 != 0 && n > 1) ++n;  // the split is defined for an even number of bits
  static const char* names[] = {"kogge_stone", "sklansky", "odd_even_split", "carry_out"};
  g.tag(names[which]);
  Eng<T> e{W, 0, ""};
  std::vector<u128> a, b;
  bool garbage = g.p(0.5);
  for (size_t i = 0; i < lanes; ++i) {
    u128 x = g.bits(n), y = g.p(0.2) ? (bitmask(n) ^ x) : g.bits(n);
    if (g.p(0.15)) y = (bitmask(n) ^ x) + 1;  // carries all the way
    x &= bitmask(n); y &= bitmask(n);
    if (garbage) { x |= g.bits(W) & ~bitmask(n) & bitmask(W); y |= g.bits(W) & ~bitmask(n) & bitmask(W); }
    a.push_back(x);
    b.push_back(y);
  }
  g.say("{} W={} nbits={} lanes={} a=[{}] b=[{}]", names[which], W, n, lanes, show(a), show(b));
  g.nontrivial(n > 1 && (a[0] & bitmask(n)) != 0 && (b[0] & bitmask(n)) != 0);
  T x{}, y{};
  Eng<T>::set(x, a);
  Eng<T>::set(y, b);
  auto blk = e.block();
  T r = which == 0 ? kogge_stone(blk, x, y, n) : which == 1 ? sklansky(blk, x, y, n) : which == 2 ? odd_even_split(blk, x, n) : carry_out(blk, x, y, n);
  REQUIRE(e.problem.empty(), "{}", e.problem);
  auto got = Eng<T>::get(r);
  REQUIRE(got.size() == lanes, "{} lanes", got.size());
  for (size_t i = 0; i < lanes; ++i) {
    u128 p = a[i] & bitmask(n), q = b[i] & bitmask(n), want, m = bitmask(n);
    if (which < 2) want = (p + q) & m;
    else if (which == 2) {
      want = 0;
      for (int k = 0; k < n; ++k) if ((p >> k) & 1) want |= static_cast<u128>(1) << (k % 2 == 0 ? k / 2 : (n + 1) / 2 + k / 2);
    } else {
      int c = 0;
      for (int k = 0; k < n; ++k) c = (static_cast<int>((p >> k) & 1) + static_cast<int>((q >> k) & 1) + c) >> 1;
      want = static_cast<u128>(c);
      m = bitmask(W);
    }
    REQUIRE((got[i] & m) == want, "lane {}: {} instead of {}", i, str(got[i] & m), str(want));
  }
  // operands are unchanged
  REQUIRE(Eng<T>::get(x) == a && Eng<T>::get(y) == b, "an operand changed");
}
}  // namespace
PBT(C11, circuits, 60000, 1000000, "more than one bit and both operands non-zero") {
  if (g.p(0.5)) run<u128>(g, 1);
  else run<Lanes>(g, 1 + g.u(4));
}
PBT(C11, small_circuits, 400, 400, "always: every operand pair of the drawn small width") {
  int n = 1 + static_cast<int>(g.u(4)), W = static_cast<int>(g.of<int64_t>({8, 32}));
  g.say("all pairs of {} bits in words of {}", n, W);
  g.nontrivial();
  Eng<u128> e{W, 0, ""};
  auto blk = e.block();
  u128 hi = g.bits(W) & ~bitmask(n) & bitmask(W);
  for (u128 x = 0; x < (static_cast<u128>(1) << n); ++x)
    for (u128 y = 0; y < (static_cast<u128>(1) << n); ++y) {
      u128 X = x | hi, Y = y | hi;
      REQUIRE((kogge_stone(blk, X, Y, n) & bitmask(n)) == ((x + y) & bitmask(n)), "kogge_stone {} {}", str(X), str(Y));
      REQUIRE((sklansky(blk, X, Y, n) & bitmask(n)) == ((x + y) & bitmask(n)), "sklansky {} {}", str(X), str(Y));
      REQUIRE(carry_out(blk, X, Y, n) == ((x + y) >> n), "carry_out {} {}", str(X), str(Y));
      REQUIRE(e.problem.empty(), "{}", e.problem);
    }
}
namespace {
int par(u128 x) { int c = 0; for (; x; x &= x - 1) c ^= 1; return c; }
u128 mulgf2(const std::vector<u128>& rows, u128 x) {
  u128 r = 0;
  for (size_t i = 0; i < rows.size(); ++i) r |= static_cast<u128>(par(rows[i] & x)) << i;
  return r;
}
int rankgf2(std::vector<u128> m) {
  int r = 0;
  for (int c = 127; c >= 0; --c) {
    size_t p = r;
    while (p < m.size() && !((m[p] >> c) & 1)) ++p;
    if (p == m.size()) continue;
    std::swap(m[r], m[p]);
    for (size_t i = 0; i < m.size(); ++i) if (static_cast<int>(i) != r && ((m[i] >> c) & 1)) m[i] ^= m[r];
    ++r;
  }
  return r;
}
// the LowMC S-box: (a, b, c) -> (a ^ bc, a ^ b ^ ac, a ^ b ^ c ^ ab)
u128 sbox(u128 t) {
  u128 a = (t >> 2) & 1, b = (t >> 1) & 1, c = t & 1;
  return ((a ^ (b & c)) << 2) | ((a ^ b ^ (a & c)) << 1) | (a ^ b ^ c ^ (a & b));
}
}  // namespace
PBT(C11, lowmc, 250, 4000, "at least one block") {
  auto f = g.of({FM32, FM64, FM128});
  int W = static_cast<int>(8 * SizeOf(f));
  int64_t d = g.of<int64_t>({20, 30, 40});
  bool dec = g.p(0.5);
  u128 seed = g.bits(128), key = g.bits(128);
  auto sh = gshape(g, 3, 4, 20);
  if (sh.ndim() == 0) sh = {1};  // the cipher works on arrays of blocks
  g.say("W={} d={} decrypt={} seed={} key={} shape {}", W, d, dec, str(seed), str(key), fmt::join(sh, "x"));
  g.nontrivial(sh.numel() > 0);
  if (f == FM32 && d == 40) {
    bool bad = false;
    try { LowMC c(f, seed, d, 128, dec); } catch (const std::exception&) { bad = true; }
    REQUIRE(bad, "2^40 blocks of 32 bits are accepted");
    return;
  }
  LowMC c(f, seed, d, 128, dec), c2(f, seed, d, 128, dec);
  auto x = arr(g, makeType<RingTy>(f), sh, false, [&] { return g.bits(W); });
  bool bad = false;
  try { c.encrypt(x.r); } catch (const std::exception&) { bad = true; }
  REQUIRE(bad, "encrypting without a key is accepted");
  c.set_key(key);
  // the parameters of the published instance family: enough boxes for the
  // block and enough rounds for the key and data complexity
  auto L = c.Lmat(), K = c.Kmat(), C = c.RoundConstants();
  int R = static_cast<int>(c.rounds()), B = static_cast<int>(c.number_of_boxes());
  static const std::map<std::pair<int, int>, std::pair<int, int>> par = {
      {{32, 20}, {9, 15}}, {{32, 30}, {9, 15}}, {{64, 20}, {15, 11}}, {{64, 30}, {13, 12}}, {{64, 40}, {13, 13}},
      {{128, 20}, {25, 10}}, {{128, 30}, {25, 11}}, {{128, 40}, {25, 12}}};
  auto pr = par.at({W, static_cast<int>(d)});
  REQUIRE(B == pr.first && R == pr.second && c.data_block_size() == W, "{} boxes, {} rounds, block {}", B, R, c.data_block_size());
  REQUIRE(static_cast<int>(L.size()) == R && static_cast<int>(K.size()) == R + 1 && static_cast<int>(C.size()) == R, "number of matrices");
  std::vector<std::vector<u128>> l, k;
  std::vector<u128> rc, rk;
  std::set<u128> distinct;
  auto L2 = c2.Lmat(), K2 = c2.Kmat(), C2 = c2.RoundConstants();
  for (int i = 0; i < R; ++i) {
    l.push_back(vals(L[i]));
    REQUIRE(static_cast<int>(l[i].size()) == W && L[i].elsize() * 8 == static_cast<size_t>(W), "linear matrix {} has the wrong size", i);
    rc.push_back(vals(C[i])[0]);
    REQUIRE(vals(L2[i]) == l[i] && vals(C2[i])[0] == rc[i], "the matrices are not a function of the seed");
    distinct.insert(l[i][0] ^ (l[i][1] << 1));
    if (dec) REQUIRE(rankgf2(l[i]) == W, "linear matrix {} is singular", i);
  }
  REQUIRE(static_cast<int>(distinct.size()) > R / 2, "the rounds share their matrices");
  for (int i = 0; i <= R; ++i) {
    k.push_back(vals(K[i]));
    REQUIRE(static_cast<int>(k[i].size()) == W && K[i].elsize() == 16, "key matrix {} has the wrong size", i);
    REQUIRE(vals(K2[i]) == k[i], "the key matrices are not a function of the seed");
    if (dec) REQUIRE(rankgf2(k[i]) == W, "key matrix {} does not have full rank", i);
    rk.push_back(mulgf2(k[i], key));
  }
  std::vector<u128> want;
  for (auto p : x.v) {
    u128 s = p ^ rk[0];
    for (int r = 0; r < R; ++r) {
      u128 t = (s >> (3 * B)) << (3 * B);
      for (int q = 0; q < B; ++q) t |= sbox((s >> (3 * q)) & 7) << (3 * q);
      s = mulgf2(l[r], t) ^ rc[r] ^ rk[r + 1];
    }
    want.push_back(s);
  }
  auto ct = c.encrypt(x.r);
  auto df = diff(vals(ct), want);
  REQUIRE(df.empty() && ct.shape() == sh, "ciphertext: {}", df);
  REQUIRE(x.untouched(), "encrypting changed the plaintext");
  auto again = vals(ct);
  if (dec) {
    auto pt = c.decrypt(ct);
    df = diff(vals(pt), x.v);
    REQUIRE(df.empty() && pt.shape() == sh, "decrypted: {}", df);
    REQUIRE(vals(ct) == again, "decrypting changed the ciphertext");
    c2.set_key(key ^ (static_cast<u128>(1) << g.u(127)));
    if (sh.numel() > 0) REQUIRE(vals(c2.decrypt(ct)) != x.v, "another key decrypts the ciphertext");
  } else if (sh.numel() * W >= 128) {
    c2.set_key(key ^ (static_cast<u128>(1) << g.u(127)));
    REQUIRE(vals(c2.encrypt(x.r)) != want, "another key gives the same ciphertext");
  }
}
PBT(C11, gf2, 20000, 300000, "several rows are non-zero") {
  auto f = g.of({FM32, FM64, FM128}), to = g.of({FM32, FM64, FM128});
  int W = static_cast<int>(8 * SizeOf(f)), N = static_cast<int>(8 * SizeOf(to));
  auto sh = gshape(g, 2, 3, 6);
  u128 s = g.seed();
  bool sparse = g.p(0.3);
  auto m = arr(g, makeType<RingTy>(f), {N}, false, [&] { s = mix(static_cast<uint64_t>(s)); u128 v = (s << 64) | mix(static_cast<uint64_t>(s) + 7); return sparse ? v & (v >> 3) & (v << 9) & (v >> 50): v; });
  auto y = arr(g, makeType<RingTy>(f), sh, false, [&] { return g.bits(W); });
  g.say("{}x{} times {}", N, W, show(y));
  g.nontrivial(sh.numel() > 0);
  std::vector<u128> want;
  for (auto v : y.v) want.push_back(mulgf2(m.v, v));
  auto r = dot_product_gf2(m.r, y.r, to);
  auto d = diff(vals(r), want);
  REQUIRE(d.empty() && r.shape() == sh && r.eltype() == makeType<RingTy>(to), "{}", d);
  REQUIRE(m.untouched() && y.untouched(), "an operand changed");
  auto n = static_cast<int64_t>(g.bits(42));
  if (n > 0) {
    bool bad = false;
    int64_t c = 0;
    try { c = get_data_complexity(n); } catch (const std::exception&) { bad = true; }
    REQUIRE(bad == (n > (1LL << 40)) && (bad || (n <= (1LL << c) && (c == 20 || c == 30 || c == 40) && (c == 20 || n > (1LL << (c - 10))))), "data complexity of {} is {}", n, c);
  }
}
