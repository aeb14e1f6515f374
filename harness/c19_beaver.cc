// Correlated randomness: every tuple reconstructs to the relation it is named for.
#include "prog.h"
#include "brpc/server.h"
#include "yacl/crypto/key_utils.h"
#include "libspu/mpc/semi2k/beaver/beaver_impl/beaver_tfp.h"
#include "libspu/mpc/semi2k/beaver/beaver_impl/beaver_ttp.h"
#include "libspu/mpc/semi2k/beaver/beaver_impl/ttp_server/beaver_server.h"
#include "libspu/mpc/semi2k/beaver/beaver_cache.h"
#include "libspu/mpc/semi2k/state.h"
#include "libspu/mpc/spdz2k/beaver/beaver_tfp.h"
#include "libspu/mpc/spdz2k/beaver/beaver_tinyot.h"
using namespace prog;
namespace {
using Vec = std::vector<u128>;
using B = mpc::semi2k::Beaver;
struct Server {
  std::pair<yacl::Buffer, yacl::Buffer> key;
  std::unique_ptr<brpc::Server> s;
  Server() {
    sim::SeedThread(1, 1);
    key = yacl::crypto::GenSm2KeyPairToPemBuf();
    mpc::semi2k::beaver::ttp_server::ServerOptions o;
    o.asym_crypto_schema = "sm2";
    o.server_private_key = key.second;
    o.port = 0;
    s = mpc::semi2k::beaver::ttp_server::RunServer(o);
  }
};
Server& server() { static Server s; return s; }
std::unique_ptr<B> make_beaver(bool ttp, size_t adjust, const hz::Lctx& l) {
  if (!ttp) return std::make_unique<mpc::semi2k::BeaverTfpUnsafe>(l);
  mpc::semi2k::BeaverTtp::Options o;
  o.server_host = fmt::format("127.0.0.1:{}", server().s->listen_address().port);
  o.asym_crypto_schema = "sm2";
  o.server_public_key = server().key.first;
  o.adjust_rank = adjust;
  return std::make_unique<mpc::semi2k::BeaverTtp>(l, o);
}
enum Op { kMul, kSquare, kDot, kAnd, kTrunc, kTruncPr, kRandBit, kPerm, kEqz, kMulPriv, kSpawn, kOps };
const char* kReqNames[] = {"Mul", "Square", "Dot", "And", "Trunc", "TruncPr", "RandBit", "PermPair", "Eqz", "MulPriv", "Spawn"};
struct Ref { int desc = -1; B::ReplayStatus st = B::Init; };  // desc: slot, st Init = fill it
struct Req {
  Op op = kMul;
  size_t beaver = 0;
  int k = 64;
  bool gfmp = false;
  int64_t m = 1, n = 1, kk = 1;  // size = m for elementwise
  size_t bits = 0, rank = 0;
  Ref x, y;
};
struct Slot { int k = 0; bool gfmp = false; int64_t rows = 0, cols = 0; size_t from = 0; int part = 0; };
struct Plan { std::vector<Req> r; std::vector<Slot> slots; };
struct Reply { std::vector<std::string> bufs; std::vector<int64_t> pi; };
std::string bytes(const yacl::Buffer& b) { return {static_cast<const char*>(b.data()), static_cast<size_t>(b.size())}; }
Plan gplan(Gen& g, size_t n) {
  Plan p;
  size_t beavers = 1;
  auto len = 1 + g.u(9);
  for (uint64_t i = 0; i < len; ++i) {
    Req q;
    q.op = static_cast<Op>(g.p(0.5) ? g.u(2) : g.u(kOps - 1));
    if (q.op == kMulPriv && n != 2) q.op = kMul;
    if (q.op == kSpawn && beavers >= 3) q.op = kDot;
    q.beaver = g.u(beavers - 1);
    if (q.op == kSpawn) { ++beavers; p.r.push_back(q); continue; }
    q.k = g.of({32, 64, 128});
    q.m = 1 + static_cast<int64_t>(g.u(g.p(0.1) ? 60 : 9));
    if (q.op == kDot) { q.m = 1 + g.u(5); q.n = 1 + g.u(5); q.kk = 1 + g.u(5); }
    q.bits = g.u(q.k - 2);
    q.rank = g.u(n - 1);
    q.gfmp = (q.op == kMul || q.op == kMulPriv) && g.p(0.3);
    auto pick = [&](int which) -> Ref {  // which 0: x, 1: y
      Ref r;
      if (g.p(0.35)) return r;
      bool mul = q.op != kDot;
      std::vector<int> fit;
      for (size_t s = 0; s < p.slots.size(); ++s) if (p.slots[s].gfmp == q.gfmp) fit.push_back(static_cast<int>(s));
      if (!fit.empty() && g.p(0.7)) {
        r.desc = g.of(fit);
        r.st = (!mul && g.p(0.4)) ? B::TransposeReplay : B::Replay;
        return r;
      }
      r.desc = static_cast<int>(p.slots.size());
      return r;
    };
    if (q.op == kMul || q.op == kSquare || q.op == kDot) {
      auto fits = [&](const Ref& r, int64_t rows, int64_t cols) {
        const auto& s = p.slots[r.desc];
        if (s.k != q.k) return false;
        if (q.op != kDot) return s.rows * s.cols == rows * cols;
        return r.st == B::TransposeReplay ? s.rows == cols && s.cols == rows : s.rows == rows && s.cols == cols;
      };
      q.x = pick(0);
      // adapt the request to the tuple it replays
      if (q.x.desc >= 0 && q.x.desc < static_cast<int>(p.slots.size())) {
        const auto& s = p.slots[q.x.desc];
        q.k = s.k;
        if (q.op != kDot) q.m = s.rows * s.cols;
        else { q.m = s.rows; q.kk = s.cols; if (q.x.st == B::TransposeReplay) std::swap(q.m, q.kk); }
      } else if (q.x.desc >= 0) {
        p.slots.push_back({q.k, q.gfmp, q.m, q.op == kDot ? q.kk : 1, p.r.size(), 0});
      }
      if (q.op != kSquare) {
        q.y = pick(1);
        if (q.y.desc >= 0 && q.y.desc < static_cast<int>(p.slots.size())) {
          const auto& s = p.slots[q.y.desc];
          bool ok;
          if (q.op != kDot) ok = fits(q.y, q.m, 1);
          else {
            q.n = q.y.st == B::TransposeReplay ? s.rows : s.cols;
            ok = fits(q.y, q.kk, q.n);
          }
          // the slot being filled by x in this very request is not a replay yet
          if (!ok || q.y.desc == q.x.desc) q.y = q.y.desc == q.x.desc && q.x.st != B::Init && ok ? q.y : Ref{};
        } else if (q.y.desc >= 0) {
          p.slots.push_back({q.k, q.gfmp, q.op == kDot ? q.kk : q.m, q.op == kDot ? q.n : 1, p.r.size(), 1});
        }
      }
    }
    p.r.push_back(q);
  }
  return p;
}
std::string show(const Plan& p) {
  std::string s;
  auto ref = [](const Ref& r) { return r.desc < 0 ? std::string("-") : fmt::format("{}{}", r.st == B::Init ? "=" : r.st == B::Replay ? "<" : "T", r.desc); };
  for (auto& q : p.r) {
    s += fmt::format("{}#{}", kReqNames[q.op], q.beaver);
    if (q.op != kSpawn) s += fmt::format("[{}{} {}", q.k, q.gfmp ? "p" : "", q.m);
    if (q.op == kDot) s += fmt::format("x{}x{}", q.kk, q.n);
    if (q.op == kTrunc || q.op == kTruncPr) s += fmt::format(" b{}", q.bits);
    if (q.op == kPerm) s += fmt::format(" @{}", q.rank);
    if (q.op <= kDot) s += fmt::format(" {} {}", ref(q.x), ref(q.y));
    if (q.op != kSpawn) s += "]";
    s += " ";
  }
  return s;
}
std::vector<Reply> execute(const Plan& p, bool ttp, size_t adjust, const hz::Lctx& l) {
  std::vector<std::unique_ptr<B>> bs;
  bs.push_back(make_beaver(ttp, adjust, l));
  std::vector<B::ReplayDesc> ds(p.slots.size());
  std::vector<Reply> out;
  for (auto& q : p.r) {
    Reply r;
    auto& b = *bs[q.beaver];
    auto f = pr::field_of(q.k);
    auto arm = [&](const Ref& x) -> B::ReplayDesc* {
      if (x.desc < 0) return nullptr;
      ds[x.desc].status = x.st;
      return &ds[x.desc];
    };
    auto el = q.gfmp ? mpc::ElementType::kGfmp : mpc::ElementType::kRing;
    auto put3 = [&](B::Triple t) { r.bufs = {bytes(std::get<0>(t)), bytes(std::get<1>(t)), bytes(std::get<2>(t))}; };
    auto put2 = [&](B::Pair t) { r.bufs = {bytes(t.first), bytes(t.second)}; };
    switch (q.op) {
      case kMul: {
        auto* x = arm(q.x);
        auto* y = arm(q.y);
        put3(b.Mul(f, q.m, x, y, el));
        break;
      }
      case kSquare: put2(b.Square(f, q.m, arm(q.x))); break;
      case kDot: {
        B::ReplayDesc copy;
        auto* x = arm(q.x);
        auto* y = arm(q.y);
        if (x != nullptr && x == y) {  // the same tuple on both sides, with its own orientation
          copy = ds[q.x.desc];
          copy.encrypted_seeds = ds[q.x.desc].encrypted_seeds;
          copy.status = q.x.st;
          x = &copy;
        }
        put3(b.Dot(f, q.m, q.n, q.kk, x, y));
        break;
      }
      case kAnd: put3(b.And(q.m)); break;
      case kTrunc: put2(b.Trunc(f, q.m, q.bits)); break;
      case kTruncPr: put3(b.TruncPr(f, q.m, q.bits)); break;
      case kRandBit: { auto a = b.RandBit(f, q.m); r.bufs = {bytes(a)}; break; }
      case kPerm: {
        auto t = b.PermPair(f, q.m, q.rank);
        r.bufs = {bytes(std::get<0>(t)), bytes(std::get<1>(t))};
        auto& pi = std::get<2>(t);
        r.pi.assign(pi.begin(), pi.end());
        break;
      }
      case kEqz: put2(b.Eqz(f, q.m)); break;
      case kMulPriv: put2(b.MulPriv(f, q.m, el)); break;
      default: bs.push_back(b.Spawn());
    }
    out.push_back(std::move(r));
  }
  return out;
}
u128 prime(int k) { return k == 32 ? (static_cast<u128>(1) << 31) - 1 : k == 64 ? (static_cast<u128>(1) << 61) - 1 : (static_cast<u128>(1) << 127) - 1; }
u128 addp(u128 a, u128 b, u128 p) { u128 s = a + b; return s >= p ? s - p : s; }
u128 mulp(u128 a, u128 b, u128 p) {
  u128 r = 0;
  for (a %= p, b %= p; b; b >>= 1) { if (b & 1) r = addp(r, a, p); a = addp(a, a, p); }
  return r;
}
Vec unpack(const std::string& s, int w) {
  Vec v;
  for (size_t i = 0; i + w <= s.size(); i += w) v.push_back(load(s.data() + i, w));
  return v;
}
struct Checker {
  size_t n;
  std::vector<std::vector<Reply>> out;  // party -> request -> reply
  std::string where;
  Vec open(size_t i, size_t part, const Req& q, bool xr = false) const {
    int w = q.op == kAnd ? 1 : q.k / 8;
    Vec r;
    for (size_t p = 0; p < n; ++p) {
      auto& b = out[p][i].bufs[part];
      auto v = unpack(b, w);
      if (p == 0) r.assign(v.size(), 0);
      REQUIRE(v.size() == r.size(), "{}: parties hold {} and {} elements", where, r.size(), v.size());
      for (size_t e = 0; e < v.size(); ++e) {
        if (q.gfmp) { REQUIRE(v[e] < prime(q.k), "{}: {} is not a canonical field element", where, str(v[e])); r[e] = addp(r[e], v[e], prime(q.k)); }
        else r[e] = xr ? r[e] ^ v[e] : (r[e] + v[e]) & mask(w);
      }
    }
    return r;
  }
};
void check(const Plan& p, const std::vector<std::vector<Reply>>& out, size_t n, bool big) {
  Checker c{n, out, ""};
  size_t nb = 0, ones = 0;
  for (size_t i = 0; i < p.r.size(); ++i) {
    const auto& q = p.r[i];
    if (q.op == kSpawn) continue;
    c.where = fmt::format("request {} ({})", i, kReqNames[q.op]);
    auto m = mask(q.k / 8);
    auto eq = [&](const Vec& got, const Vec& want, size_t len, const char* what) {
      REQUIRE(want.size() == len && got.size() == len, "{}: {} elements instead of {}", c.where, got.size(), len);
      auto d = diff(got, want);
      REQUIRE(d.empty(), "{}: {}: {}", c.where, what, d);
    };
    size_t sz = q.m;
    if (q.op == kMul) {
      auto a = c.open(i, 0, q), b = c.open(i, 1, q), cc = c.open(i, 2, q);
      REQUIRE(a.size() == sz && b.size() == sz, "{}: wrong length", c.where);
      Vec w;
      for (size_t e = 0; e < sz; ++e) w.push_back(q.gfmp ? mulp(a[e], b[e], prime(q.k)) : (a[e] * b[e]) & m);
      eq(cc, w, sz, "product");
    } else if (q.op == kSquare) {
      auto a = c.open(i, 0, q), cc = c.open(i, 1, q);
      Vec w;
      for (auto x : a) w.push_back((x * x) & m);
      eq(cc, w, sz, "square");
    } else if (q.op == kDot) {
      auto a = c.open(i, 0, q), b = c.open(i, 1, q), cc = c.open(i, 2, q);
      REQUIRE(a.size() == static_cast<size_t>(q.m * q.kk) && b.size() == static_cast<size_t>(q.kk * q.n), "{}: wrong length", c.where);
      Vec w;
      for (int64_t r = 0; r < q.m; ++r) for (int64_t s = 0; s < q.n; ++s) {
        u128 t = 0;
        for (int64_t u = 0; u < q.kk; ++u) t += a[r * q.kk + u] * b[u * q.n + s];
        w.push_back(t & m);
      }
      eq(cc, w, q.m * q.n, "matrix product");
    } else if (q.op == kAnd) {
      auto a = c.open(i, 0, q, true), b = c.open(i, 1, q, true), cc = c.open(i, 2, q, true);
      REQUIRE(a.size() == sz && b.size() == sz, "{}: wrong length", c.where);
      Vec w;
      for (size_t e = 0; e < sz; ++e) w.push_back(a[e] & b[e]);
      eq(cc, w, sz, "and");
    } else if (q.op == kTrunc) {
      auto a = c.open(i, 0, q), b = c.open(i, 1, q);
      Vec w;
      for (auto x : a) {
        u128 s = x >> q.bits;
        if (q.bits > 0 && (x >> (q.k - 1)) & 1) s |= m & ~(m >> q.bits);
        w.push_back(s);
      }
      eq(b, w, sz, "truncation");
    } else if (q.op == kTruncPr) {
      auto a = c.open(i, 0, q), rc = c.open(i, 1, q), rb = c.open(i, 2, q);
      Vec w1, w2;
      for (auto x : a) { w1.push_back(((x << 1) & m) >> (q.bits + 1)); w2.push_back(x >> (q.k - 1)); }
      eq(rc, w1, sz, "middle bits");
      eq(rb, w2, sz, "top bit");
    } else if (q.op == kRandBit) {
      auto a = c.open(i, 0, q);
      REQUIRE(a.size() == sz, "{}: wrong length", c.where);
      for (auto x : a) { REQUIRE(x <= 1, "{}: {} is no bit", c.where, str(x)); ++nb; ones += x == 1; }
    } else if (q.op == kPerm) {
      auto a = c.open(i, 0, q), b = c.open(i, 1, q);
      for (size_t r = 0; r < n; ++r) if (r != q.rank) REQUIRE(out[r][i].pi.empty(), "{}: party {} got the permutation of party {}", c.where, r, q.rank);
      auto& pi = out[q.rank][i].pi;
      REQUIRE(pi.size() == sz, "{}: permutation of {} elements", c.where, pi.size());
      Vec w(sz, 0);
      std::vector<bool> seen(sz, false);
      for (size_t e = 0; e < sz; ++e) {
        REQUIRE(pi[e] >= 0 && pi[e] < static_cast<int64_t>(sz) && !seen[pi[e]], "{}: no permutation", c.where);
        seen[pi[e]] = true;
        w[pi[e]] = a[e];
      }
      eq(b, w, sz, "inversely permuted");
    } else if (q.op == kEqz) {
      eq(c.open(i, 1, q, true), c.open(i, 0, q), sz, "boolean sharing of the same value");
    } else if (q.op == kMulPriv) {
      auto a = unpack(out[0][i].bufs[0], q.k / 8), b = unpack(out[1][i].bufs[0], q.k / 8);
      REQUIRE(a.size() == sz && b.size() == sz, "{}: wrong length", c.where);
      Vec w;
      for (size_t e = 0; e < sz; ++e) w.push_back(q.gfmp ? mulp(a[e], b[e], prime(q.k)) : (a[e] * b[e]) & m);
      eq(c.open(i, 1, q), w, sz, "private product");
    }
    // a replayed operand is the one first handed out
    auto same = [&](const Ref& x, size_t part, int64_t rows, int64_t cols) {
      if (x.desc < 0 || x.st == B::Init) return;
      const auto& s = p.slots[x.desc];
      for (size_t r = 0; r < n; ++r) {
        auto now = unpack(out[r][i].bufs[part], q.k / 8), was = unpack(out[r][s.from].bufs[s.part], q.k / 8);
        if (x.st == B::TransposeReplay) {
          Vec t(now.size());
          for (int64_t u = 0; u < rows; ++u) for (int64_t v = 0; v < cols; ++v) t[v * rows + u] = now[u * cols + v];
          now = t;
        }
        REQUIRE(now == was, "{}: party {} got another operand {} than the one it replays", c.where, r, part);
      }
    };
    same(q.x, 0, q.m, q.op == kDot ? q.kk : 1);
    same(q.y, 1, q.op == kDot ? q.kk : q.m, q.op == kDot ? q.n : 1);
  }
  if (nb >= 64) REQUIRE(ones > 0 && ones < nb, "{} random bits are all {}", nb, ones ? 1 : 0);
  if (big) return;
  // no part of a fresh operand appears a second time at the same party
  for (size_t r = 0; r < n; ++r) {
    std::map<std::string, std::string> seen;
    for (size_t i = 0; i < p.r.size(); ++i) {
      const auto& q = p.r[i];
      for (size_t part = 0; part < out[r][i].bufs.size(); ++part) {
        const Ref* ref = part == 0 ? &q.x : part == 1 ? &q.y : nullptr;
        if (q.op <= kDot && ref != nullptr && ref->desc >= 0 && ref->st != B::Init && !(q.op == kSquare && part == 1)) continue;
        auto& b = out[r][i].bufs[part];
        for (size_t o = 0; o + 8 <= b.size(); o += 16) {
          auto piece = b.substr(o, 16);
          if (piece.size() < 8) break;
          auto me = fmt::format("request {} ({}) output {} byte {}", i, kReqNames[q.op], part, o);
          // a shorter tail is compared through its first 8 bytes
          auto [it, fresh] = seen.emplace(piece.substr(0, 8), me);
          REQUIRE(fresh, "party {}: {} repeats the random bytes of {}", r, me, it->second);
        }
      }
    }
  }
}
}  // namespace

PBT(C19, tuples, 10000, 120000, "at least two requests, one of them with at least two elements") {
  size_t n = g.of<size_t>({2, 2, 3, 4, 5});
  bool ttp = g.p(0.6);
  size_t adjust = g.u(n - 1);
  auto p = gplan(g, n);
  auto seed = g.seed();
  g.say("{} {}pc adjust={} {}", ttp ? "ttp" : "tfp", n, adjust, show(p));
  bool multi = false;
  for (auto& q : p.r) { g.tag(kReqNames[q.op]); multi |= q.m > 1; if (q.x.desc >= 0 && q.x.st != B::Init) g.tag("replay"); if (q.y.st == B::TransposeReplay || q.x.st == B::TransposeReplay) g.tag("transpose replay"); }
  g.nontrivial(p.r.size() > 1 && multi);
  if (ttp) server();
  auto w = std::make_shared<sim::World>(n);
  auto out = hz::parties<std::vector<Reply>>(w, seed, [&](size_t, const hz::Lctx& l) { return execute(p, ttp, adjust, l); });
  check(p, out, n, false);
}

// tuples larger than one network message of the trusted third party
PBT(C19, large, 40, 400, "the adjustment spans several chunks") {
  size_t n = 2;
  bool ttp = g.p(0.9);
  Plan p;
  Req q;
  q.op = g.of({kTruncPr, kTruncPr, kMul, kSquare, kAnd, kTrunc, kRandBit, kEqz, kMulPriv, kDot, kPerm});
  q.k = q.op == kAnd ? 8 : g.of({64, 128, 128});
  q.bits = 1 + g.u(20);
  int64_t chunk = 32 << 20;
  int64_t total = chunk + (g.p(0.3) ? 0 : g.p(0.5) ? static_cast<int64_t>(g.u(200)) * 16 : static_cast<int64_t>(g.u(6 << 20)));
  q.m = std::max<int64_t>(1, total / (q.k / 8));
  q.gfmp = q.k != 8 && (q.op == kMul || q.op == kMulPriv) && g.p(0.3);
  if (q.op == kDot) { q.kk = 1 + g.u(2); q.n = 1024 + g.u(64); q.m = total / (q.k / 8) / q.n + 1; }
  if (q.op == kPerm) q.k = 128, q.m = total / 16;
  p.r.push_back(q);
  Req after;
  after.op = g.of({kMul, kTruncPr, kEqz});
  after.k = 64;
  after.m = 5;
  after.bits = 7;
  p.r.push_back(after);
  auto seed = g.seed();
  g.say("{} {}", ttp ? "ttp" : "tfp", show(p));
  g.tag(kReqNames[q.op]);
  g.nontrivial(ttp);
  size_t adjust = g.u(1);
  if (ttp) server();
  auto w = std::make_shared<sim::World>(n);
  w->stall_timeout_s = 200;
  auto out = hz::parties<std::vector<Reply>>(w, seed, [&](size_t, const hz::Lctx& l) { return execute(p, ttp, adjust, l); });
  check(p, out, n, true);
}

// dealers of the maliciously secure protocol
namespace {
struct SReq { int op; int64_t m, n, k; size_t bits; int vis; };
struct SRep { std::vector<Vec> v; bool ok = true; };
const char* kAuthNames[] = {"AuthArrayRef", "AuthCoinTossing", "AuthMul", "AuthDot", "AuthAnd", "AuthTrunc", "AuthRandBit", "BatchOpen", "PublCoin"};
}
PBT(C19, authenticated, 3000, 8000, "at least one authenticated tuple with at least two elements") {
  bool tiny = g.p(0.45);
  size_t n = tiny ? 2 : g.of<size_t>({2, 2, 3});
  int w = g.of({8, 16});
  auto field = w == 8 ? FM64 : FM128;
  size_t k = w * 4, s = w * 4;
  std::vector<SReq> rs;
  auto len = 1 + g.u(4);
  for (uint64_t i = 0; i < len; ++i)
    rs.push_back({static_cast<int>(g.u(8)), 1 + static_cast<int64_t>(g.u(tiny ? 5 : 20)), 1 + static_cast<int64_t>(g.u(3)), 1 + static_cast<int64_t>(g.u(4)), g.u(k - 1), static_cast<int>(g.u(1))});
  g.say("{} {}pc FM{}", tiny ? "TinyOT" : "TFP", n, w * 8);
  for (auto& r : rs) { g.say("{}[{}x{}x{} b{}]", kAuthNames[r.op], r.m, r.n, r.k, r.bits); g.tag(fmt::format("{}{}", tiny ? "TinyOT " : "", kAuthNames[r.op])); g.nontrivial(r.m > 1 || r.op == 3); }
  auto seed = g.seed();
  struct Out { u128 key; std::vector<SRep> r; };
  auto world = std::make_shared<sim::World>(n);
  auto out = hz::parties<Out>(world, seed, [&](size_t, const hz::Lctx& l) {
    std::unique_ptr<mpc::spdz2k::Beaver> b;
    if (tiny) b = std::make_unique<mpc::spdz2k::BeaverTinyOt>(l);
    else b = std::make_unique<mpc::spdz2k::BeaverTfpUnsafe>(l);
    Out o;
    o.key = b->InitSpdzKey(field, s);
    for (auto& q : rs) {
      SRep r;
      auto add = [&](const NdArrayRef& a, Shape sh) {
        if (a.shape() != sh) throw Violation(fmt::format("{} returned shape {} instead of {}", kAuthNames[q.op], a.shape(), sh));
        r.v.push_back(vals(a));
      };
      auto add3 = [&](const mpc::spdz2k::Beaver::Triple_Pair& t, Shape x, Shape y, Shape z) {
        add(std::get<0>(t.first), x); add(std::get<0>(t.second), x);
        add(std::get<1>(t.first), y); add(std::get<1>(t.second), y);
        add(std::get<2>(t.first), z); add(std::get<2>(t.second), z);
      };
      Shape sh{q.m};
      switch (q.op) {
        case 0: { auto v = mpc::ring_rand(field, sh); add(v, sh); add(b->AuthArrayRef(v, field, k, s), sh); break; }
        case 1: { auto p = b->AuthCoinTossing(field, sh, k, s); add(p.first, sh); add(p.second, sh); break; }
        case 2: add3(b->AuthMul(field, sh, k, s), sh, sh, sh); break;
        case 3: add3(b->AuthDot(field, q.m, q.n, q.k, k, s), {q.m, q.k}, {q.k, q.n}, {q.m, q.n}); break;
        case 4: add3(b->AuthAnd(field, sh, s), sh, sh, sh); break;
        case 5: { auto p = b->AuthTrunc(field, sh, q.bits, k, s); add(p.first.first, sh); add(p.second.first, sh); add(p.first.second, sh); add(p.second.second, sh); break; }
        case 6: { auto p = b->AuthRandBit(field, sh, k, s); add(p.first, sh); add(p.second, sh); break; }
        case 7: {
          auto p = b->AuthCoinTossing(field, sh, k, s);
          size_t bits = q.vis ? 1 : k;
          auto [v, m] = b->BatchOpen(p.first, p.second, bits, s);
          add(p.first, sh); add(p.second, sh); add(v, sh); add(m, sh);
          r.ok = b->BatchMacCheck(v, m, bits, s);
          break;
        }
        default: add(b->genPublCoin(field, q.m), sh);
      }
      o.r.push_back(std::move(r));
    }
    return o;
  });
  auto M = mask(w);
  u128 key = 0;
  for (auto& o : out) key += o.key;
  for (size_t i = 0; i < rs.size(); ++i) {
    const auto& q = rs[i];
    auto where = fmt::format("request {} ({})", i, kAuthNames[q.op]);
    auto sum = [&](size_t part) { Vec r = out[0].r[i].v[part]; for (size_t p = 1; p < n; ++p) for (size_t e = 0; e < r.size(); ++e) r[e] += out[p].r[i].v[part][e]; for (auto& x : r) x &= M; return r; };
    auto authed = [&](size_t part) {
      auto v = sum(part), m = sum(part + 1);
      Vec want;
      for (auto x : v) want.push_back((x * key) & M);
      REQUIRE(diff(m, want).empty(), "{}: MAC of value {}: {}", where, part / 2, diff(m, want));
      return v;
    };
    auto km = mask(static_cast<int>(k / 8));
    switch (q.op) {
      case 0: case 1: authed(0); break;
      case 2: { auto a = authed(0), b = authed(2), c = authed(4); Vec want; for (size_t e = 0; e < a.size(); ++e) want.push_back((a[e] * b[e]) & M); REQUIRE(diff(c, want).empty(), "{}: {}", where, diff(c, want)); break; }
      case 3: {
        auto a = authed(0), b = authed(2), c = authed(4);
        Vec want;
        for (int64_t r = 0; r < q.m; ++r) for (int64_t cc = 0; cc < q.n; ++cc) { u128 t = 0; for (int64_t u = 0; u < q.k; ++u) t += a[r * q.k + u] * b[u * q.n + cc]; want.push_back(t & M); }
        REQUIRE(diff(c, want).empty(), "{}: {}", where, diff(c, want));
        break;
      }
      case 4: { auto a = authed(0), b = authed(2), c = authed(4); for (size_t e = 0; e < a.size(); ++e) REQUIRE(((a[e] & b[e]) & 1) == (c[e] & 1), "{}: element {}", where, e); break; }
      case 5: {
        auto a = authed(0), b = authed(2);
        for (size_t e = 0; e < a.size(); ++e) {
          u128 x = a[e] & km, want = x >> q.bits;
          if (q.bits > 0 && (x >> (k - 1)) & 1) want |= km & ~(km >> q.bits);
          REQUIRE((b[e] & km) == want, "{}: {} becomes {} instead of {}", where, str(x), str(b[e] & km), str(want));
        }
        break;
      }
      case 6: { auto a = authed(0); for (auto x : a) REQUIRE((x & km) <= 1, "{}: {} is no bit", where, str(x)); break; }
      case 7: {
        auto a = authed(0);
        u128 vm = q.vis ? 1 : km;
        for (size_t p = 0; p < n; ++p) {
          REQUIRE(out[p].r[i].ok, "{}: the MAC check of honestly opened values fails at party {}", where, p);
          for (size_t e = 0; e < a.size(); ++e) REQUIRE((out[p].r[i].v[2][e] & vm) == (a[e] & vm), "{}: party {} opens {} instead of {}", where, p, str(out[p].r[i].v[2][e] & vm), str(a[e] & vm));
        }
        break;
      }
      default: for (size_t p = 1; p < n; ++p) REQUIRE(out[p].r[i].v[0] == out[0].r[i].v[0], "{}: parties disagree on the public coin", where);
    }
  }
}

// tuples served from the cache of fixed operands
PBT(C19, cached, 5000, 30000, "an operand with an enabled cache is used at least twice") {
  auto e = genv(g, {kSemi2k});
  bool ttp = g.p(0.4);
  if (ttp) {
    server();
    e.cfg.beaver_type = RuntimeConfig::TrustedThirdParty;
    auto t = std::make_shared<TTPBeaverConfig>();
    t->server_host = fmt::format("127.0.0.1:{}", server().s->listen_address().port);
    t->adjust_rank = static_cast<int32_t>(g.u(e.n - 1));
    t->asym_crypto_schema = "SM2";
    t->server_public_key = bytes(server().key.first);
    e.cfg.ttp_beaver_config = t;
  }
  // square matrices, and views of them, so that everything fits everything
  int64_t d = 1 + static_cast<int64_t>(g.u(4));
  size_t na = 1 + g.u(2);
  std::vector<Arr> base;
  for (size_t i = 0; i < na; ++i) base.push_back(arr(g, makeType<mpc::Pub2kTy>(e.field), {d, d}, true, [&] { return elem(g, e); }, 1.0));
  struct Step { int op; size_t a, b; int va, vb; size_t ctx; };  // op 0 mul 1 mmul 2 square 3 enable 4 disable 5 fork
  std::vector<Step> st;
  auto len = 2 + g.u(12);
  size_t ctxs = 1;
  std::map<size_t, bool> on;
  std::map<size_t, int> uses;
  for (uint64_t i = 0; i < len; ++i) {
    Step s{0, g.u(na - 1), g.u(na - 1), static_cast<int>(g.u(4)), static_cast<int>(g.u(4)), g.u(ctxs - 1)};
    s.op = static_cast<int>(i == 0 ? 3 : g.p(0.15) ? 3 : g.p(0.08) ? 4 : g.p(0.05) && ctxs < 3 ? 5 : g.u(2));
    if (s.op == 5) ++ctxs;
    if (s.op == 3) on[s.a] = true;
    if (s.op == 4) { on[s.a] = false; uses[s.a] = 0; }
    if (s.op <= 2) for (auto x : {s.a, s.b}) if (on[x] && ++uses[x] == 2) g.nontrivial();
    st.push_back(s);
  }
  g.say("{} d={} arrays={}", ttp ? "ttp" : "tfp", d, na);
  static const char* names[] = {"mul", "mmul", "square", "enable", "disable", "fork"};
  for (auto& s : st) g.say("{}({}v{},{}v{})#{}", names[s.op], s.a, s.va, s.b, s.vb, s.ctx);
  // views: 0 itself 1 transpose 2 reversed rows 3 a copy 4 first row broadcast
  auto nview = [&](const Vec& v, int k) {
    Vec r(v.size());
    for (int64_t i = 0; i < d; ++i) for (int64_t j = 0; j < d; ++j)
      r[i * d + j] = k == 1 ? v[j * d + i] : k == 2 ? v[(d - 1 - i) * d + j] : k == 4 ? v[j] : v[i * d + j];
    return r;
  };
  auto aview = [&](const NdArrayRef& a, int k) {
    switch (k) {
      case 1: return a.transpose();
      case 2: return a.reverse({0});
      case 3: return a.clone();
      case 4: return a.slice({0, 0}, {1, d}, {}).reshape({d}).broadcast_to({d, d}, {1});
      default: return a;
    }
  };
  auto w = std::make_shared<sim::World>(e.n);
  auto out = pr::run<std::vector<Vec>>(e, w, [&](size_t, SPUContext* ctx) {
    std::vector<Vec> r;
    std::vector<std::unique_ptr<SPUContext>> forks;
    std::vector<SPUContext*> cs{ctx};
    std::vector<Value> x;
    for (auto& b : base) {
      auto v = hal::_p2s(ctx, pub(e, b.r, e.k == 32 ? DT_I32 : DT_I64));
      v = mpc::p2a(ctx, pub(e, b.r, DT_INVALID));
      x.push_back(v);
    }
    for (auto& s : st) {
      auto* c = cs[s.ctx];
      if (s.op == 5) { forks.push_back(c->fork()); cs.push_back(forks.back().get()); continue; }
      if (s.op >= 3) {
        dynDispatch(c, "beaver_cache", x[s.a], s.op == 3);
        continue;
      }
      Value a(aview(x[s.a].data(), s.va), DT_INVALID), b(aview(x[s.b].data(), s.vb), DT_INVALID);
      if (s.va == s.vb && s.a == s.b) b = a;
      Value y = s.op == 0 ? mpc::mul_aa(c, a, b) : s.op == 1 ? mpc::mmul_aa(c, a, b) : mpc::square_a(c, a);
      r.push_back(vals(mpc::a2p(c, y).data()));
    }
    return r;
  });
  size_t i = 0;
  for (auto& s : st) {
    if (s.op >= 3) continue;
    auto a = nview(base[s.a].v, s.va), b = nview(base[s.b].v, s.vb);
    Vec want;
    for (int64_t p = 0; p < d; ++p) for (int64_t q = 0; q < d; ++q) {
      u128 t = 0;
      if (s.op == 0) t = a[p * d + q] * b[p * d + q];
      else if (s.op == 2) t = a[p * d + q] * a[p * d + q];
      else for (int64_t u = 0; u < d; ++u) t += a[p * d + u] * b[u * d + q];
      want.push_back(t & e.mask);
    }
    for (size_t p = 0; p < out.size(); ++p) REQUIRE(diff(out[p][i], want).empty(), "{} ({}v{},{}v{}): party {}: {}", names[s.op], s.a, s.va, s.b, s.vb, p, diff(out[p][i], want));
    ++i;
  }
}
