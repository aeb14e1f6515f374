// What the parties see against the secrets of the others: traffic shape and the
// statistical independence of whole views from secret values.
#include <malloc.h>
#include "kern.h"
#include "libspu/device/io.h"
#include "libspu/kernel/hlo/const.h"
#include "libspu/kernel/hlo/geometrical.h"
#include "libspu/kernel/hlo/indexing.h"
#include "libspu/kernel/hlo/permute.h"
#include "libspu/kernel/hlo/reduce.h"
#include "libspu/kernel/hlo/shuffle.h"
#include "libspu/kernel/hlo/sort.h"
#include "libspu/mpc/semi2k/beaver/beaver_impl/ttp_server/beaver_server.h"
#include "yacl/crypto/key_utils.h"
using namespace kn;
namespace {
// the recorded messages are large and short-lived
[[maybe_unused]] const int kMalloc = mallopt(M_MMAP_THRESHOLD, 1 << 30) + mallopt(M_TRIM_THRESHOLD, 1 << 30);
using Bits = std::vector<uint64_t>;
// ---------------------------------------------------------------- view analysis
struct Word { std::string name; std::vector<size_t> pos; std::vector<Bits> bit; };
struct Views {
  size_t M = 0, k = 0;
  std::vector<Word> words;
  std::vector<std::pair<std::string, Bits>> lin, other;  // uniform secret bits; functions of them
};
__attribute__((target("popcnt"))) double zscore(const Bits& a, const Bits& b, size_t M, size_t na, size_t nb) {
  if (na * 16 < M || (M - na) * 16 < M || nb * 16 < M || (M - nb) * 16 < M) return 0;
  size_t n11 = 0;
  for (size_t i = 0; i < a.size(); ++i) n11 += static_cast<size_t>(__builtin_popcountll(a[i] & b[i]));
  double m = static_cast<double>(M), p = static_cast<double>(na), q = static_cast<double>(nb);
  double mean = p * q / m, var = p * q * (m - p) * (m - q) / (m * m * (m - 1));
  return (static_cast<double>(n11) - mean) / std::sqrt(var);
}
__attribute__((target("popcnt"))) size_t ones(const Bits& a) { size_t n = 0; for (auto x : a) n += static_cast<size_t>(__builtin_popcountll(x)); return n; }
struct Finding { std::string what, key; double z = 0; };
// A GF(2)-linear function of the view that equals one of the secret bits.
std::string linear_leak(const Views& v, uint64_t pick) {
  size_t limit = v.M - 80 > v.lin.size() ? v.M - 80 - v.lin.size() : 0, nw = (v.M + 63) / 64;
  std::vector<size_t> order(v.words.size());
  for (size_t i = 0; i < order.size(); ++i) order[i] = i;
  for (size_t i = order.size(); i > 1; --i) { pick = pbt::mix(pick); std::swap(order[i - 1], order[pick % i]); }
  std::map<size_t, Bits> basis;
  auto reduce = [&](Bits x) {
    for (size_t w = 0; w < nw; ++w)
      while (x[w] != 0) {
        size_t pos = w * 64 + static_cast<size_t>(__builtin_ctzll(x[w]));
        auto it = basis.find(pos);
        if (it == basis.end()) return std::pair<Bits, int64_t>(std::move(x), pos);
        for (size_t i = w; i < nw; ++i) x[i] ^= it->second[i];
      }
    return std::pair<Bits, int64_t>(std::move(x), -1);
  };
  Bits one(nw, ~0ULL);
  if (v.M % 64) one[nw - 1] = (1ULL << (v.M % 64)) - 1;
  auto add = [&](const Bits& b) { auto r = reduce(b); if (r.second >= 0) basis.emplace(static_cast<size_t>(r.second), std::move(r.first)); return r.second >= 0; };
  add(one);
  size_t used = 0;
  for (size_t i : order) {
    if (used + v.words[i].bit.size() > limit) continue;
    used += v.words[i].bit.size();
    for (auto& b : v.words[i].bit) add(b);
  }
  for (auto& s : v.lin) if (!add(s.second)) return s.first;
  return "";
}
// Pairwise statistical dependence; calls hit(name of view function, secret, z).
template <class F>
void correlations(const Views& v, double limit, F&& hit) {
  auto tgt = v.lin;
  for (auto& o : v.other) tgt.push_back(o);
  std::vector<size_t> nt;
  for (auto& t : tgt) nt.push_back(ones(t.second));
  for (auto& w : v.words)
    for (size_t b = 0; b < w.bit.size(); ++b) {
      size_t n = ones(w.bit[b]);
      for (size_t t = 0; t < tgt.size(); ++t) {
        double z = zscore(w.bit[b], tgt[t].second, v.M, n, nt[t]);
        if (std::fabs(z) > limit) hit(fmt::format("bit {} of {}", w.pos[b], w.name), tgt[t].first, z);
      }
    }
  size_t stride = 1 + v.words.size() * v.words.size() / 4000;
  Bits x(v.words.empty() ? 0 : (v.M + 63) / 64);
  for (size_t i = 0; i < v.words.size(); i += 1)
    for (size_t j = i + 1; j < v.words.size(); j += (j - i < 12 ? 1 : stride)) {
      auto &p = v.words[i], &q = v.words[j];
      if (p.bit.size() != q.bit.size()) continue;
      size_t nb = p.bit.size();
      for (size_t b = 0; b < nb; b += (b == 0 || b + 2 >= nb || nb <= 4) ? 1 : nb / 4) {
        for (size_t k = 0; k < x.size(); ++k) x[k] = p.bit[b][k] ^ q.bit[b][k];
        size_t n = ones(x);
        for (size_t t = 0; t < tgt.size(); ++t) {
          if (t < v.lin.size() && t % v.k != p.pos[b] && t % v.k + 1 != v.k && t % v.k != 0) continue;
          double z = zscore(x, tgt[t].second, v.M, n, nt[t]);
          if (std::fabs(z) > limit) hit(fmt::format("bit {} of {} ^ {}", p.pos[b], p.name, q.name), tgt[t].first, z);
        }
      }
    }
}

// ---------------------------------------------------------------- experiments
struct Server {
  std::pair<yacl::Buffer, yacl::Buffer> key;
  std::unique_ptr<brpc::Server> s;
  Server() {
    sim::SeedThread(1, 1);
    key = yacl::crypto::GenSm2KeyPairToPemBuf();
    mpc::semi2k::beaver::ttp_server::ServerOptions o;
    o.asym_crypto_schema = "sm2";
    o.server_private_key = key.second;
    o.port = 0;
    s = mpc::semi2k::beaver::ttp_server::RunServer(o);
  }
};
Server& server() { static Server s; return s; }
struct Step { int op; size_t a, b, c, p; };
enum SOp { sAdd, sSub, sNeg, sAddP, sMulP, sMul, sSquare, sAnd, sXor, sAndP, sNot, sMsb, sLess, sEqual, sEqualP, sMux, sTrunc, sRsh, sArsh, sLsh, sPopc, sPrefOr, sPreferA, sPreferB, sBitrev, sToV, sParity, sDeintl, kElem,
           sMmul = kElem, sMmulP, sPerm, sConcat, sTranspose, sSlice, sSort, kAll };
const char* kNames[] = {"add", "sub", "neg", "add_p", "mul_p", "mul", "square", "and", "xor", "and_p", "not", "msb", "less", "equal", "equal_p", "mux", "trunc", "rshift", "arshift", "lshift", "popcount", "prefix_or", "prefer_a", "prefer_b",
                        "bitrev", "to_private", "parity", "bitdeintl", "mmul", "mmul_p", "shuffle", "concat", "transpose", "slice", "sort"};
struct Exp {
  Env e;
  Shape sh;            // of every secret
  size_t E, calls, runs, nsec;
  size_t owner;
  u128 pc;             // public operand
  std::vector<Step> steps;
  bool io = false;     // the owner provides the secrets through the colocated IO
};
Value apply(const Exp& x, SPUContext* ctx, const std::vector<Value>& v, const Step& s) {
  const auto &A = v[s.a], &B = v[s.b], &C = v[s.c];
  auto P = [&](const Shape& sh) { return hal::_constant(ctx, x.pc, sh); };
  int k = x.e.k;
  switch (s.op) {
    case sAdd: return hal::_add(ctx, A, B);
    case sSub: return hal::_sub(ctx, A, B);
    case sNeg: return hal::_negate(ctx, A);
    case sAddP: return hal::_add(ctx, A, P(A.shape()));
    case sMulP: return hal::_mul(ctx, A, P(A.shape()));
    case sMul: return hal::_mul(ctx, A, B);
    case sSquare: return hal::_square(ctx, A);
    case sAnd: return hal::_and(ctx, A, B);
    case sXor: return hal::_xor(ctx, A, B);
    case sAndP: return hal::_and(ctx, A, P(A.shape()));
    case sNot: return hal::_not(ctx, A);
    case sMsb: return hal::_msb(ctx, A);
    case sLess: return hal::_less(ctx, A, B);
    case sEqual: return hal::_equal(ctx, A, B);
    case sEqualP: return hal::_equal(ctx, A, P(A.shape()));
    case sMux: return hal::_mux(ctx, hal::_msb(ctx, A), B, C);
    case sTrunc: return hal::_trunc(ctx, A, 1 + s.p % (k / 2), s.p & 1 ? SignType::Unknown : (s.p & 2 ? SignType::Positive : SignType::Negative));
    case sRsh: return hal::_rshift(ctx, A, {static_cast<int64_t>(s.p % k)});
    case sArsh: return hal::_arshift(ctx, A, {static_cast<int64_t>(s.p % k)});
    case sLsh: return hal::_lshift(ctx, A, {static_cast<int64_t>(s.p % k)});
    case sPopc: return hal::_popcount(ctx, A, k);
    case sPrefOr: return hal::_prefix_or(ctx, A);
    case sPreferA: return hal::_prefer_a(ctx, A);
    case sPreferB: return hal::_prefer_b(ctx, A);
    case sBitrev: return hal::_bitrev(ctx, A, s.p % 4, 4 + s.p % (k - 4));
    case sToV: return hal::_v2s(ctx, hal::_s2v(ctx, A, static_cast<int>(x.owner)));
    case sParity: return hal::_bit_parity(ctx, A, k);
    case sDeintl: return hal::_bitdeintl(ctx, A);
    case sMmul: return hal::_mmul(ctx, A, B);
    case sMmulP: return hal::_mmul(ctx, A, P(B.shape()));
    case sPerm: { auto f = hal::_reshape(ctx, A, {A.numel()}); return hal::_reshape(ctx, hal::_perm_ss(ctx, f, hal::_rand_perm_s(ctx, f.shape())), A.shape()); }
    case sConcat: return hal::_extract_slice(ctx, hal::_concatenate(ctx, {A, B}, 0), {1, 0}, {1 + A.shape()[0], A.shape()[1]}, {1, 1});
    case sTranspose: return hal::_transpose(ctx, A, {1, 0});
    case sSlice: return hal::_extract_slice(ctx, A, {0, 0}, Index(A.shape().begin(), A.shape().end()), {1, 1});
    case sSort: {
      auto f = hal::_reshape(ctx, A, {A.numel()}).setDtype(DT_I32, true);
      return hal::_reshape(ctx, hlo::SimpleSort(ctx, {f}, 0, hal::SortDirection::Ascending, 1, -1)[0], A.shape());
    }
    default: throw Violation("op");
  }
}
// call -> key -> bytes, one per party
using Seen = std::vector<std::map<std::string, std::string>>;
struct Run { std::vector<Seen> party; std::vector<std::vector<std::vector<u128>>> secret; /* [call][i][elem] */ bool failed = false; std::string err; };
std::string bytes_of(const NdArrayRef& a) { auto c = a.clone(); return std::string(static_cast<const char*>(c.data()), c.numel() * c.elsize()); }
Run once(const Exp& x, uint64_t seed) {
  Run r;
  auto q = numel(x.sh);
  uint64_t s = pbt::mix(seed ^ 0x5ec7e7);
  auto rnd = [&] { s = pbt::mix(s); uint64_t h = s; s = pbt::mix(s); return (static_cast<u128>(h) << 64 | s) & x.e.mask; };
  r.secret.resize(x.calls);
  for (auto& c : r.secret) { c.resize(x.nsec); for (auto& i : c) for (int64_t j = 0; j < q; ++j) i.push_back(rnd()); }
  auto w = std::make_shared<sim::World>(x.e.n);
  w->record = true;
  auto e = x.e;
  e.seed = seed;
  auto out = hz::parties_raw<Seen>(w, seed, [&](size_t me, const hz::Lctx& l) {
    auto ctx = make(e, l);
    device::ColocatedIo io(ctx.get());
    std::vector<std::pair<int64_t, std::string>> log;
    sim::prg_log = &log;
    Seen seen(x.calls);
    try {
      for (size_t c = 0; c < x.calls; ++c) {
        sim::epoch = static_cast<int64_t>(c);
        std::vector<Value> v;
        if (x.io) {
          for (size_t i = 0; i < x.nsec; ++i) {
            if (me != x.owner) continue;
            std::vector<int64_t> w64;
            std::vector<int32_t> w32;
            for (auto s : r.secret[c][i]) { w64.push_back(static_cast<int64_t>(s)); w32.push_back(static_cast<int32_t>(s)); }
            Strides st = makeCompactStrides(x.sh);
            if (e.k == 32) io.hostSetVar(fmt::format("x{}", i), PtBufferView(w32.data(), PT_I32, x.sh, st), VIS_SECRET);
            else io.hostSetVar(fmt::format("x{}", i), PtBufferView(w64.data(), PT_I64, x.sh, st), VIS_SECRET);
          }
          io.sync();
          for (size_t i = 0; i < x.nsec; ++i) {
            auto a = io.deviceGetVar(fmt::format("x{}", i));
            seen[c][fmt::format("var{}", i)] = bytes_of(a.data());
            a = a.setDtype(DT_INVALID, true);
            if (a.isPrivate()) a = hal::_v2s(ctx.get(), a);
            v.push_back(a);
            seen[c][fmt::format("in{}", i)] = bytes_of(a.data());
          }
        }
        for (size_t i = 0; i < x.nsec && !x.io; ++i) {
          NdArrayRef raw(makeType<mpc::Pub2kTy>(e.field), x.sh);
          for (int64_t j = 0; j < q; ++j) memcpy(raw.data<char>() + j * e.w, &r.secret[c][i][j], e.w);
          v.push_back(hal::_v2s(ctx.get(), priv(e, raw, DT_INVALID, x.owner, me)));
          seen[c][fmt::format("in{}", i)] = bytes_of(v.back().data());
        }
        for (auto& st : x.steps) {
          v.push_back(apply(x, ctx.get(), v, st));
          seen[c][fmt::format("out{}", v.size() - 1)] = bytes_of(v.back().data());
        }
      }
    } catch (...) { sim::prg_log = nullptr; sim::epoch = -1; throw; }
    sim::prg_log = nullptr;
    sim::epoch = -1;
    std::vector<size_t> n(x.calls);
    for (auto& [ep, b] : log) {
      if (ep < 0) continue;
      // answers of the beaver server: a short header and the adjustments
      bool rpc = b.compare(0, 3, "rpc") == 0;
      seen[ep][fmt::format("{}{}", rpc ? "rpc" : "prg", n[ep]++)] = rpc ? b.substr(3 + (b.size() - 3) % (x.E * e.w)) : b;
    }
    return seen;
  });
  if (!out.ok()) { r.failed = true; r.err = out.first; return r; }
  for (auto& o : out.out) r.party.push_back(std::move(*o));
  // messages in order per link
  std::map<std::tuple<int64_t, size_t, size_t, bool>, size_t> cnt;
  std::map<std::tuple<int64_t, size_t, size_t>, std::map<size_t, std::string>> rounds;  // (call, index, receiver) -> sender -> data
  for (auto& m : w->log) {
    if (m.epoch < 0 || m.tag == "ideal-he") continue;
    auto idx = cnt[{m.epoch, m.src, m.dst, m.coll}]++;
    if (m.coll) rounds[{m.epoch, idx, m.dst}][m.src] = m.data;
    auto key = fmt::format("{}{}from{}", m.coll ? "coll" : "msg", idx, m.src);
    r.party[m.dst][m.epoch][key] = m.data;
    auto& own = r.party[m.src][m.epoch];
    auto it = own.find(key);
    if (it == own.end()) own[key] = m.data;
    else if (it->second != m.data) own[fmt::format("{}to{}", key, m.dst)] = m.data;
  }
  // sums of what everybody opens to a party
  for (auto& [k, by] : rounds) {
    auto [ep, idx, dst] = k;
    if (by.size() + 1 != x.e.n) continue;
    auto own = r.party[dst][ep].find(fmt::format("coll{}from{}", idx, dst));
    if (own == r.party[dst][ep].end()) continue;
    std::string sum = own->second;
    bool same = sum.size() % x.e.w == 0;
    for (auto& [p, d] : by) same = same && d.size() == sum.size();
    if (!same) continue;
    for (size_t o = 0; o + x.e.w <= sum.size(); o += x.e.w) {
      u128 t = 0;
      memcpy(&t, sum.data() + o, x.e.w);
      for (auto& [p, d] : by) { u128 y = 0; memcpy(&y, d.data() + o, x.e.w); t += y; }
      memcpy(&sum[o], &t, x.e.w);
    }
    r.party[dst][ep][fmt::format("opened{}", idx)] = sum;
  }
  return r;
}
Views collect(const Exp& x, const std::vector<Run>& runs, const std::vector<size_t>& coalition, bool with_prg, uint64_t pick) {
  Views v;
  size_t q = static_cast<size_t>(numel(x.sh)) / x.E;  // elements of one sample
  std::map<std::string, std::pair<size_t, size_t>> keys;  // key -> (times seen, size), size 0 if it varies
  size_t total = 0;
  for (auto& r : runs)
    for (size_t c = 0; c < x.calls; ++c) {
      ++total;
      for (size_t p : coalition)
        for (auto& [k, b] : r.party[p][c]) {
          if (!with_prg && k.rfind("prg", 0) == 0) continue;
          auto kk = fmt::format("{}@{}", k, p);
          auto it = keys.emplace(kk, std::pair<size_t, size_t>(0, b.size())).first;
          ++it->second.first;
          if (it->second.second != b.size()) it->second.second = 0;
        }
    }
  v.M = total * x.E;
  v.k = q > 1 ? 1 : x.e.k;
  size_t nw = (v.M + 63) / 64;
  // for each word: where its bits are
  struct Loc { std::string key; size_t bit0, step, nbits; };
  std::vector<Loc> locs;
  for (auto& [k, t] : keys) {
    size_t L = t.second, W = static_cast<size_t>(x.e.w);
    if (L == 0 || t.first * 10 < total * 9) continue;
    if (L % x.E == 0) {
      size_t b = L / x.E;
      for (size_t o = 0; o < b; o += W) locs.push_back({k, o * 8, b * 8, std::min(W, b - o) * 8});
      if (b > W && x.E > 1 && b % W == 0) for (size_t o = 0; o < b / W; ++o) locs.push_back({k, o * x.E * W * 8, W * 8, W * 8});
    } else if (L * 8 % x.E == 0) {
      size_t b = L * 8 / x.E;
      locs.push_back({k, 0, b, b});
      if (b > 1) for (size_t o = 0; o < b; ++o) locs.push_back({k, o * x.E, 1, 1});
    }
  }
  // Keep all words but few of their bits, the same ones everywhere: relations between words matter most.
  size_t budget = v.M - 100 - x.nsec * static_cast<size_t>(numel(x.sh)) / x.E * (q > 1 ? 8 : x.e.k), kWords = budget / 2;
  if (locs.size() > kWords) {
    std::vector<Loc> z;
    for (size_t i = 0; i < kWords; ++i) {
      pick = pbt::mix(pick);
      size_t lo = i * locs.size() / kWords, hi = (i + 1) * locs.size() / kWords;
      z.push_back(locs[lo + pick % std::max<size_t>(hi - lo, 1)]);
    }
    locs = z;
  }
  size_t per = std::max<size_t>(budget / std::max<size_t>(locs.size(), 1), 1);
  std::vector<size_t> bits{0};
  while (bits.size() < std::min<size_t>(per, x.e.k)) {
    pick = pbt::mix(pick);
    size_t b = bits.size() == 1 ? x.e.k - 1 : pick % x.e.k;
    if (std::find(bits.begin(), bits.end(), b) == bits.end()) bits.push_back(b);
  }
  std::sort(bits.begin(), bits.end());
  std::vector<std::vector<size_t>> use(locs.size());
  for (size_t i = 0; i < locs.size(); ++i) {
    for (size_t b : bits) if (b < locs[i].nbits) use[i].push_back(b);
    v.words.push_back({fmt::format("{}+{}", locs[i].key, locs[i].bit0), use[i], std::vector<Bits>(use[i].size(), Bits(nw))});
  }
  size_t row = 0;
  for (size_t i = 0; i < x.nsec; ++i)
    for (size_t j = 0; j < q; ++j)
      for (int b = 0; b < x.e.k; b += (q > 1 && b > 3 && b + 2 < x.e.k) ? (x.e.k - 6) / 2 : 1) v.lin.emplace_back(fmt::format("bit {} of secret {}{}", b, i, q > 1 ? fmt::format("[{}]", j) : ""), Bits(nw));
  if (q == 1 && x.nsec >= 2) {
    for (int b = 0; b < x.e.k; b += 3) v.other.emplace_back(fmt::format("bit {} of the product", b), Bits(nw));
    for (int b = 0; b < x.e.k; b += 3) v.other.emplace_back(fmt::format("bit {} of the difference", b), Bits(nw));
    v.other.emplace_back("the comparison", Bits(nw));
  }
  for (auto& r : runs)
    for (size_t c = 0; c < x.calls; ++c) {
      for (size_t li = 0; li < locs.size(); ++li) {
        auto& l = locs[li];
        const std::string* d = nullptr;
        for (size_t p : coalition) {
          auto at = l.key.rfind('@');
          if (at != std::string::npos && l.key.substr(at + 1) != std::to_string(p)) continue;
          auto it = r.party[p][c].find(at == std::string::npos ? l.key : l.key.substr(0, at));
          if (it != r.party[p][c].end()) { d = &it->second; break; }
        }
        if (d == nullptr) continue;
        for (size_t j = 0; j < x.E; ++j)
          for (size_t b = 0; b < use[li].size(); ++b) {
            size_t pos = l.bit0 + j * l.step + use[li][b];
            if ((static_cast<unsigned char>((*d)[pos / 8]) >> (pos % 8)) & 1) v.words[li].bit[b][(row + j) / 64] |= 1ULL << ((row + j) % 64);
          }
      }
      for (size_t j = 0; j < x.E; ++j) {
        size_t t = 0;
        auto set = [&](Bits& b) { b[(row + j) / 64] |= 1ULL << ((row + j) % 64); };
        for (size_t i = 0; i < x.nsec; ++i)
          for (size_t jj = 0; jj < q; ++jj)
            for (int b = 0; b < x.e.k; b += (q > 1 && b > 3 && b + 2 < x.e.k) ? (x.e.k - 6) / 2 : 1, ++t)
              if ((r.secret[c][i][j * q + jj] >> b) & 1) set(v.lin[t].second);
        if (!v.other.empty()) {
          u128 a = r.secret[c][0][j], b = r.secret[c][1][j];
          size_t o = 0;
          for (int k = 0; k < x.e.k; k += 3, ++o) if (((a * b) >> k) & 1) set(v.other[o].second);
          for (int k = 0; k < x.e.k; k += 3, ++o) if (((a - b) >> k) & 1) set(v.other[o].second);
          if (x.e.sgn(a) < x.e.sgn(b)) set(v.other[o].second);
        }
      }
      row += x.E;
    }
  return v;
}
std::vector<Run> runs_of(const Exp& x, uint64_t seed) {
  std::vector<Run> r;
  for (size_t i = 0; i < x.runs; ++i) {
    r.push_back(once(x, pbt::mix(seed + i)));
    if (r.back().failed) { if (getenv("HZ_DEBUG")) fmt::print("{}\n", r.back().err); throw Discard{}; }
  }
  return r;
}
void judge(const Exp& x, Gen& g) {
  uint64_t seed = g.seed();
  auto runs = runs_of(x, seed);
  std::vector<Run> again;
  std::vector<std::vector<size_t>> coalitions;
  std::vector<size_t> others;
  for (size_t p = 0; p < x.e.n; ++p) if (p != x.owner) others.push_back(p);
  // additive sharing hides from all but one, the others from any single party
  if (x.e.proto == kSemi2k || x.e.proto == kSpdz2k) coalitions.push_back(others);
  else for (auto p : others) coalitions.push_back({p});
  for (auto& co : coalitions) {
    // rank 0 plays the dealer of the trusted first party beaver and knows all correlated randomness
    bool dealer = (x.e.proto == kSpdz2k || (x.e.proto == kSemi2k && x.e.cfg.beaver_type == RuntimeConfig::TrustedFirstParty)) && co[0] == 0;
    bool prg = !dealer;
    auto v = collect(x, runs, co, prg, seed);
    if (getenv("HZ_DEBUG")) { fmt::print("M {} words {}\n", v.M, v.words.size()); for (auto& w : v.words) fmt::print(" {}:{}", w.name, w.bit.size()); fmt::print("\n"); }
    auto who = fmt::format("{}: parties {}", x.e.show(), fmt::join(co, ","));
    auto leak = linear_leak(v, seed);
    REQUIRE(leak.empty(), "{} can compute {} of party {} from what they see", who, leak, x.owner);
    std::map<std::string, double> sus;
    correlations(v, 7.5, [&](const std::string& f, const std::string& s, double z) { sus[f + " / " + s] = z; });
    if (!sus.empty()) {
      if (again.empty()) again = runs_of(x, pbt::mix(seed ^ 0xa9a17));
      auto v2 = collect(x, again, co, prg, seed);
      correlations(v2, 6, [&](const std::string& f, const std::string& s, double z) {
        auto it = sus.find(f + " / " + s);
        if (it != sus.end()) throw Violation(fmt::format("{}: {} depends on {} of party {} (z {:.1f} and {:.1f})", who, f, s, x.owner, it->second, z));
      });
    }
  }
}
Exp base(Gen& g, const std::vector<int>& protos, const std::vector<int>& widths) {
  Exp x;
  x.e = genv(g, protos, true, widths);
  x.e.chaos = 0;
  x.e.cfg.experimental_disable_vectorization = true;
  x.owner = g.u(x.e.n - 1);
  x.nsec = 2 + g.u(1);
  x.pc = elem(g, x.e);
  if (x.e.proto == kSemi2k && g.p(0.4)) {
    x.e.cfg.beaver_type = RuntimeConfig::TrustedThirdParty;
    x.e.cfg.ttp_beaver_config = std::make_shared<TTPBeaverConfig>();
    x.e.cfg.ttp_beaver_config->server_host = fmt::format("127.0.0.1:{}", server().s->listen_address().port);
    x.e.cfg.ttp_beaver_config->asym_crypto_schema = "sm2";
    x.e.cfg.ttp_beaver_config->server_public_key = std::string(std::string_view(server().key.first));
    x.e.cfg.ttp_beaver_config->adjust_rank = g.u(x.e.n - 1);
  }
  return x;
}
void steps(Gen& g, Exp& x, const std::vector<int>& ops, uint64_t max) {
  uint64_t n = 1 + g.u(max - 1);
  for (uint64_t i = 0; i < n; ++i) {
    size_t have = x.nsec + x.steps.size();
    Step s{g.of(ops), g.u(have - 1), g.u(have - 1), g.u(have - 1), g.u(1000)};
    if (x.steps.empty()) { s.a = 0; s.b = 1; s.c = x.nsec - 1; }
    g.tag(kNames[s.op]);
    g.say("{}({},{},{};{})", kNames[s.op], s.a, s.b, s.c, s.p);
    x.steps.push_back(s);
  }
}
std::vector<int> elem_ops(const Env& e) {
  std::vector<int> r;
  for (int i = 0; i < kElem; ++i)  // gigabytes of messages otherwise
    if (e.proto != kSpdz2k || (i != sPopc && i != sPrefOr && i != sParity && i != sDeintl)) r.push_back(i);
  return r;
}
}  // namespace
// Element-wise programs over long vectors: every element is one sample.
PBT(C20, views, 260, 14000, "a program with a secret-secret product, comparison, conversion or truncation") {
  auto x = base(g, {kSemi2k, kAby3, kSecurenn, kSwift, kSpdz2k}, {32, 64});
  bool big = x.e.proto == kSpdz2k;  // sends three orders of magnitude more
  x.E = big ? 256 : 1024;
  x.sh = big ? Shape{256} : g.p(0.5) ? Shape{1024} : Shape{64, 16};
  x.calls = 2;
  x.runs = big ? 2 : 1;
  steps(g, x, elem_ops(x.e), x.e.proto == kSpdz2k ? 2 : 3);
  g.say("owner {} beaver {}", x.owner, static_cast<int>(x.e.cfg.beaver_type));
  for (auto& s : x.steps) g.nontrivial(s.op >= sMul && s.op != sXor && s.op != sNot && s.op != sAndP);
  judge(x, g);
}
// Any program over small tensors: every execution in one session is one sample.
PBT(C20, sessions, 48, 3000, "a program with a secret-secret product, comparison, conversion, truncation or permutation") {
  auto x = base(g, {kSemi2k, kAby3, kSecurenn, kSwift, kCheetah, kCheetah, kSpdz2k}, {32, 32, 64});
  x.E = 1;
  x.sh = g.p(0.5) ? Shape{2, 2} : Shape{1, 1};
  x.calls = 700;
  x.runs = 1;
  x.nsec = 2;
  x.io = x.e.proto != kSpdz2k && g.p(0.3);
  if (x.io) g.tag("colocated_io");
  x.e.cfg.experimental_enable_colocated_optimization = g.p();
  std::vector<int> ops;
  for (int i : elem_ops(x.e)) if (i != sPopc && i != sPrefOr && i != sParity && i != sDeintl) ops.push_back(i);
  for (int i = kElem; i < kAll; ++i) {
    if ((i == sPerm) && x.e.proto != kSemi2k && x.e.proto != kAby3 && x.e.proto != kCheetah) continue;
    if (i == sSort && x.e.proto == kSpdz2k) continue;
    for (int j = 0; j < 3; ++j) ops.push_back(i);
  }
  if (x.e.proto == kSpdz2k) ops = {sAdd, sMul, sSquare, sMmul, sMmulP, sTrunc, sConcat, sTranspose, sToV, sMulP};
  steps(g, x, ops, x.e.proto == kSpdz2k ? 1 : 2);
  g.say("{} owner {} beaver {}", x.sh, x.owner, static_cast<int>(x.e.cfg.beaver_type));
  for (auto& s : x.steps) g.nontrivial(s.op >= sMul && s.op != sXor && s.op != sNot && s.op != sAndP && s.op != sConcat && s.op != sTranspose && s.op != sSlice);
  judge(x, g);
}

// What the IO client hands to each party.
PBT(C20, shares, 600, 20000, "a secret that not all parties own") {
  auto e = genv(g, {kSemi2k, kSemi2k, kAby3, kSecurenn, kSwift, kCheetah});
  e.cfg.experimental_enable_colocated_optimization = g.p(0.7);
  constexpr size_t kM = 2048;
  auto t = g.of<PtType>({PT_I1, PT_I8, PT_U16, PT_I32, PT_U64, PT_I64});
  auto bits = static_cast<size_t>(t == PT_I1 ? 1 : t == PT_I8 ? 8 : t == PT_U16 ? 16 : t == PT_I32 ? 32 : 64);
  if (bits > static_cast<size_t>(e.k)) throw Discard{};
  int owner = g.p(0.5) ? -1 : static_cast<int>(g.u(e.n - 1));
  auto sh = g.of<Shape>({{2048}, {64, 32}, {1, 2048, 1}, {8, 16, 16}});
  g.say("{} {} owner {}{}", fmt::join(sh, "x"), static_cast<int>(t), owner, e.cfg.experimental_enable_colocated_optimization ? " colocated" : "");
  g.nontrivial(true);
  sim::SeedThread(g.seed(), 7);
  device::IoClient io(e.n, makeFullRuntimeConfig(e.cfg));
  Views v;
  v.M = kM;
  v.k = bits;
  std::vector<std::vector<uint64_t>> sec(2);
  std::vector<std::vector<Value>> got;
  uint64_t s = g.seed();
  for (auto& x : sec) {
    for (size_t i = 0; i < kM; ++i) { s = pbt::mix(s); x.push_back(bits == 64 ? s : s & ((1ULL << bits) - 1)); }
    std::vector<unsigned char> buf(kM * 8);
    size_t w = bits == 1 ? 1 : bits / 8;
    for (size_t i = 0; i < kM; ++i) memcpy(&buf[i * w], &x[i], w);
    got.push_back(io.makeShares(PtBufferView(buf.data(), t, sh, makeCompactStrides(sh)), VIS_SECRET, owner));
  }
  bool owned = got[0][0].isPrivate();  // the owner keeps the plain value
  REQUIRE(!owned || e.cfg.experimental_enable_colocated_optimization, "{}: private without co-location", e.show());
  g.tag(owned ? "private" : "shared");
  size_t nw = kM / 64;
  auto bit_of = [&](auto&& f) { Bits b(nw); for (size_t i = 0; i < kM; ++i) if (f(i)) b[i / 64] |= 1ULL << (i % 64); return b; };
  for (size_t i = 0; i < 2; ++i) for (size_t b = 0; b < bits; ++b) v.lin.emplace_back(fmt::format("bit {} of value {}", b, i), bit_of([&](size_t j) { return (sec[i][j] >> b) & 1; }));
  for (size_t b = 0; b < bits; b += 3) v.other.emplace_back(fmt::format("bit {} of the difference", b), bit_of([&](size_t j) { return ((sec[0][j] - sec[1][j]) >> b) & 1; }));
  for (size_t except = 0; except < e.n; ++except) {
    if (owned && except != static_cast<size_t>(owner)) continue;
    // additive sharing hides from all but one, the others from any single party
    std::vector<std::vector<size_t>> cos;
    std::vector<size_t> rest;
    for (size_t p = 0; p < e.n; ++p) if (p != except) rest.push_back(p);
    if (e.proto == kSemi2k) cos = {rest}; else for (auto p : rest) cos.push_back({p});
    for (auto& co : cos) {
      v.words.clear();
      for (auto p : co)
        for (size_t i = 0; i < 2; ++i) {
          auto d = bytes_of(got[i][p].data());
          size_t per = d.size() / kM;
          for (size_t o = 0; o < per; o += e.w) {
            size_t n = std::min<size_t>(e.w, per - o) * 8;
            // of a long word, the low and some high bits
            Word wd{fmt::format("share of {} at {}+{}", i, p, o), {}, {}};
            for (size_t b = 0; b < n; b += n > 64 && b >= 40 ? 3 : 1) {
              wd.pos.push_back(b);
              wd.bit.push_back(bit_of([&](size_t j) { auto q = j * per * 8 + o * 8 + b; return (static_cast<unsigned char>(d[q / 8]) >> (q % 8)) & 1; }));
            }
            v.words.push_back(std::move(wd));
          }
        }
      auto leak = linear_leak(v, g.seed());
      REQUIRE(leak.empty(), "{}: parties {} can compute {} from their shares", e.show(), fmt::join(co, ","), leak);
      std::string hit;
      correlations(v, 8.5, [&](const std::string& f, const std::string& q, double z) { hit = fmt::format("{} depends on {} (z {:.1f})", f, q, z); });
      REQUIRE(hit.empty(), "{}: parties {}: {}", e.show(), fmt::join(co, ","), hit);
    }
  }
}

namespace {
// ---------------------------------------------------------------- traffic
using Traffic = std::map<std::tuple<std::string, size_t, size_t, bool>, std::vector<size_t>>;
Traffic traffic_of(const sim::World& w) {
  Traffic t;
  for (auto& m : w.log) t[{m.ctx, m.src, m.dst, m.coll}].push_back(m.data.size());
  return t;
}
std::string differ(const Traffic& a, const Traffic& b) {
  for (auto& [k, v] : a) {
    auto it = b.find(k);
    auto who = fmt::format("link {} {}->{}{}", std::get<0>(k), std::get<1>(k), std::get<2>(k), std::get<3>(k) ? " (collective)" : "");
    if (it == b.end()) return who + " is used for one input only";
    if (v.size() != it->second.size()) return fmt::format("{} carries {} or {} messages", who, v.size(), it->second.size());
    for (size_t i = 0; i < v.size(); ++i) if (v[i] != it->second[i]) return fmt::format("{} message {} has {} or {} bytes", who, i, v[i], it->second[i]);
  }
  for (auto& [k, v] : b) if (!a.count(k)) return fmt::format("link {} {}->{} is used for one input only", std::get<0>(k), std::get<1>(k), std::get<2>(k));
  return "";
}
// Runs fn(rank, ctx, variant) and gives its traffic.
template <class F>
Traffic watch(const Env& e, F&& fn, bool* ok) {
  auto w = std::make_shared<sim::World>(e.n);
  w->record = true;
  auto r = hz::parties_raw<int>(w, e.seed, [&](size_t rank, const hz::Lctx& l) {
    auto ctx = make(e, l);
    fn(rank, ctx.get());
    return 0;
  });
  *ok = r.ok();
  if (!r.ok() && getenv("HZ_DEBUG")) fmt::print(stderr, "{}\n", r.first);
  return traffic_of(*w);
}
u128 secret_like(Gen& g, const Env& e, bool bit) { return bit ? g.u(1) : elem(g, e); }
}  // namespace
// The same program with the same public inputs and other secrets.
PBT(C20, traffic, 3000, 60000, "a program with a message-exchanging secret operation") {
  auto e = genv(g, {kSemi2k, kAby3, kSecurenn, kSwift, kSpdz2k, kCheetah});
  e.chaos = 0;
  Options o;
  for (int i = ADD; i <= CLAMP; ++i) o.weights.push_back({static_cast<Op>(i), e.proto == kSpdz2k && (i == POPCOUNT || i == PREFIXOR || i == PARITY) ? 0 : 2});
  for (Op x : {TO_S, TO_V, TRANSPOSE, RESHAPE, SLICE, BROADCAST, REVERSE, PAD, UPDATE, CONCAT}) o.weights.push_back({x, 1});
  o.max_ops = 5;
  o.cap = 12;
  Program p(g, e, o);
  auto p2 = p;
  for (auto& x : p2.n)
    if (x.op == INPUT && x.vis != 'P' && x.own_in) {  // shared from a public value: known to everyone
      bool bit = x.is_bit();
      x.in = arr(g, x.in.r.eltype(), x.sh, false, [&] { return secret_like(g, e, bit); });
      x.v = x.in.v;
    }
  bool ok1 = false, ok2 = false;
  auto a = watch(e, [&](size_t me, SPUContext* c) { p.exec(c, me); }, &ok1);
  auto b = watch(e, [&](size_t me, SPUContext* c) { p2.exec(c, me); }, &ok2);
  if (getenv("HZ_DEBUG")) for (auto& x : p2.n) fmt::print(stderr, "   {}\n", p2.show(x));
  REQUIRE(ok1 && ok2, "{}: the program fails{}", e.show(), ok1 != ok2 ? " depending on a secret" : "");
  bool talks = false;
  for (auto& x : p.n) talks = talks || (x.vis == 'S' && !x.v.empty() && (x.op == MUL || x.op == SQUARE || x.op == MMUL || (x.op >= AND && x.op <= CLAMP)));
  g.nontrivial(talks);
  auto d = differ(a, b);
  REQUIRE(d.empty(), "{}: {}", e.show(), d);
}
namespace {
struct Kern { const char* name; bool real; std::function<Value(SPUContext*, const Value&, const Value&, const Value&)> f; };
std::vector<Kern> kerns() {
  using C = SPUContext;
  using V = Value;
#define U1(n) {#n, true, [](C* c, const V& a, const V&, const V&) { return hlo::n(c, a); }}
#define B1(n, r) {#n, r, [](C* c, const V& a, const V& b, const V&) { return hlo::n(c, a, b); }}
  return {
    U1(Exp), U1(Log), U1(Sqrt), U1(Rsqrt), U1(Reciprocal), U1(Tanh), U1(Logistic), U1(Sine), U1(Cosine), U1(Abs), U1(Sign), U1(Floor), U1(Ceil), U1(Neg), U1(Round_AFZ), U1(Round_RNTE),
    B1(Add, true), B1(Mul, true), B1(Div, true), B1(Max, true), B1(Min, true), B1(Less, true), B1(Equal, true), B1(Power, true), B1(Atan2, true), B1(GreaterEqual, false), B1(NotEqual, false), B1(Mul, false), B1(Div, false), B1(Remainder, true), B1(And, false), B1(Xor, false),
    {"Select", true, [](C* c, const V& a, const V& b, const V& d) { return hlo::Select(c, hlo::Less(c, a, b), b, d); }},
    {"Clamp", true, [](C* c, const V& a, const V& b, const V& d) { return hlo::Clamp(c, a, b, d); }},
    {"Dot", true, [](C* c, const V& a, const V& b, const V&) { return hlo::Dot(c, a, b); }},
    {"Sort", false, [](C* c, const V& a, const V& b, const V&) { return hlo::SimpleSort(c, std::vector<V>{hlo::Reshape(c, a, {a.numel()}), hlo::Reshape(c, b, {b.numel()})}, 0, hal::SortDirection::Descending, 1)[1]; }},
    {"Shuffle", false, [](C* c, const V& a, const V& b, const V&) { return hlo::Shuffle(c, std::vector<V>{a, b}, 0)[1]; }},
    {"SumAll", true, [](C* c, const V& a, const V&, const V&) {
       return hlo::Reduce(c, std::vector<V>{a}, std::vector<V>{hlo::Constant(c, 0.0F, {})}, Axes{0, 1}, [c](absl::Span<V const> l, absl::Span<V const> r) { return std::vector<V>{hlo::Add(c, l[0], r[0])}; })[0]; }},
    {"MaxAll", true, [](C* c, const V& a, const V&, const V&) {
       return hlo::Reduce(c, std::vector<V>{a}, std::vector<V>{hlo::Constant(c, -5.0F, {})}, Axes{0, 1}, [c](absl::Span<V const> l, absl::Span<V const> r) { return std::vector<V>{hlo::Max(c, l[0], r[0])}; })[0]; }},
    {"DynamicSlice", false, [](C* c, const V& a, const V& b, const V& d) {
       std::vector<V> ix{hlo::Reshape(c, hlo::Slice(c, b, {0, 0}, {1, 1}, {1, 1}), {}), hlo::Reshape(c, hlo::Slice(c, d, {0, 0}, {1, 1}, {1, 1}), {})};
       return hlo::DynamicSlice(c, a, {2, 1}, ix); }},
    {"DynamicUpdateSlice", false, [](C* c, const V& a, const V& b, const V& d) {
       std::vector<V> ix{hlo::Reshape(c, hlo::Slice(c, b, {0, 0}, {1, 1}, {1, 1}), {}), hlo::Reshape(c, hlo::Slice(c, d, {0, 0}, {1, 1}, {1, 1}), {})};
       return hlo::DynamicUpdateSlice(c, a, hlo::Slice(c, d, {0, 0}, {2, 1}, {1, 1}), ix); }},
  };
#undef U1
#undef B1
}
}  // namespace
// User-level functions of secret numbers.
PBT(C20, functions, 900, 18000, "at least two elements") {
  auto e = genv(g, {kSemi2k, kAby3, kSecurenn, kSwift, kSpdz2k, kCheetah}, true, {64});
  e.chaos = 0;
  static auto list = kerns();
  auto& k = list[g.u(list.size() - 1)];
  // SPDZ2K has no boolean shares of rank 0, which the dynamic slices need
  if (e.proto == kSpdz2k && (g.u(3) != 0 || std::string(k.name).find("Dynamic") == 0)) throw Discard{};
  int64_t n = 1 + static_cast<int64_t>(g.u(3));
  if (std::string(k.name).find("Dynamic") == 0 || n < 2) n = std::max<int64_t>(n, 2);
  g.tag(k.name);
  g.say("{} {}x{}", k.name, n, n);
  g.nontrivial(n > 1);
  size_t owner = g.u(e.n - 1);
  auto vals_of = [&] { std::vector<std::vector<i128>> v(3); for (auto& t : v) for (int64_t i = 0; i < n * n; ++i) t.push_back(g.p(0.3) ? g.in(-3, 3) * (k.real ? 1 << 18 : 1) : g.in(-(1 << 22), 1 << 22)); return v; };
  auto s1 = vals_of(), s2 = vals_of();
  auto go = [&](const std::vector<std::vector<i128>>& s, bool* ok) {
    return watch(e, [&](size_t me, SPUContext* c) {
      std::vector<Value> v;
      for (auto& t : s) {
        NdArrayRef raw(makeType<mpc::Pub2kTy>(e.field), {n, n});
        for (int64_t i = 0; i < n * n; ++i) { u128 x = static_cast<u128>(t[i]) & e.mask; memcpy(raw.data<char>() + i * e.w, &x, e.w); }
        v.push_back(hal::_v2s(c, priv(e, raw, k.real ? DT_F32 : DT_I32, owner, me)).setDtype(k.real ? DT_F32 : DT_I32, true));
      }
      k.f(c, v[0], v[1], v[2]);
    }, ok);
  };
  bool ok1 = false, ok2 = false;
  auto a = go(s1, &ok1), b = go(s2, &ok2);
  REQUIRE(ok1 == ok2, "{}: {} fails depending on a secret", e.show(), k.name);
  if (!ok1) throw Discard{};
  auto d = differ(a, b);
  REQUIRE(d.empty(), "{}: {} {}", e.show(), k.name, d);
}
