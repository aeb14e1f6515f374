// Oblivious transfers and the two-party blocks built on them.
#include "layout.h"
#include "proto.h"
#include "world.h"
#include "libspu/mpc/cheetah/nonlinear/compare_prot.h"
#include "libspu/mpc/cheetah/nonlinear/equal_prot.h"
#include "libspu/mpc/cheetah/nonlinear/truncate_prot.h"
#include "libspu/mpc/cheetah/ot/basic_ot_prot.h"
#include "libspu/mpc/cheetah/ot/ot_util.h"
#include "libspu/mpc/cheetah/type.h"
#include "libspu/mpc/utils/ring_ops.h"
using namespace pbt;
using namespace lay;
using namespace spu;
namespace ch = spu::mpc::cheetah;
using spu::mpc::Communicator;
namespace {
u128 bmask(size_t b) { return b >= 128 ? ~static_cast<u128>(0) : (static_cast<u128>(1) << b) - 1; }
CheetahOtKind gkind(Gen& g) {
  auto k = g.of<CheetahOtKind>({CheetahOtKind::YACL_Ferret, CheetahOtKind::YACL_Softspoken});
  g.say("{}", k == CheetahOtKind::YACL_Ferret ? "ferret" : "softspoken");
  return k;
}
enum Kind { CMCC, RMRC, RMCC, CAMCC, COLL, KINDS };
const char* kKinds[] = {"cmcc", "rmrc", "rmcc", "camcc", "collapse"};
struct Op {
  int kind = 0, ty = 0, levels = 1;
  size_t dir = 0, bw = 0, n = 1, N = 2;
  std::vector<u128> m;
  std::vector<uint8_t> c;
  std::string str() const { return fmt::format("{}<u{}> from {} n={} bw={}{}{}", kKinds[kind], 8 << ty, dir, n, bw, kind == CMCC ? fmt::format(" N={}", N) : "", kind == COLL ? fmt::format(" levels={}", levels) : ""); }
};
int tybytes(int ty) { return 1 << ty; }
size_t gsize(Gen& g, bool big) {
  switch (g.u(5)) {
    case 0: return 1;
    case 1: return 1 + g.u(20);
    case 2: return g.of<size_t>({7, 8, 9, 63, 64, 65, 127, 128, 129, 255, 256, 257});
    case 3: return 1 + g.u(1100);
    case 4: return g.of<size_t>({1023, 1024, 1025, 2047, 2048, 2049});
    default: return big ? 2000 + g.u(9000) : 1 + g.u(300);
  }
}
Op gop(Gen& g) {
  Op o;
  o.kind = static_cast<int>(g.u(KINDS - 1));
  o.dir = g.u(1);
  o.ty = g.of({0, 2, 3, 4});
  size_t full = 8 * tybytes(o.ty);
  o.bw = g.p(0.3) ? full : g.p(0.2) ? 1 : 1 + g.u(full - 1);
  o.n = gsize(g, true);
  if (o.kind == CMCC) {
    o.N = g.of<size_t>({2, 4, 8, 16, 256});  // the transfers there are
    while (o.n * o.N > 40000) o.n = 1 + o.n / 2;
  }
  if (o.kind == COLL) {
    o.levels = static_cast<int>(1 + g.u(std::min<size_t>(o.bw, 20) - 1));
    o.n = (o.n + o.levels - 1) / o.levels * o.levels;
  }
  if (o.kind != CMCC && o.bw == full && g.p()) o.bw = 0;
  if (o.kind == RMRC && g.p(0.03)) o.n = 150000 + g.u(100000);
  size_t msgs = o.kind == CMCC ? o.n * o.N : o.kind == CAMCC || o.kind == COLL ? o.n : 0;
  uint64_t s = g.seed();
  int style = static_cast<int>(g.u(3));
  for (size_t i = 0; i < msgs; ++i) {
    u128 x = (static_cast<u128>(mix(s + 2 * i)) << 64) | mix(s + 2 * i + 1);
    if (style == 1) x = 0;
    if (style == 2) x = static_cast<u128>(1) << (x % full);
    if (style == 3) x = ~static_cast<u128>(0) - (x % 3);
    // chosen messages have the width announced
    o.m.push_back(o.kind == CMCC ? x & bmask(o.bw) : x & bmask(full));
  }
  int cs = static_cast<int>(g.u(3));
  for (size_t i = 0; i < o.n; ++i) {
    uint64_t x = mix(s ^ (i * 7919 + 13));
    size_t lim = o.kind == CMCC ? o.N : 2;
    o.c.push_back(static_cast<uint8_t>(cs == 0 ? 0 : cs == 1 ? lim - 1 : x % lim));
  }
  return o;
}
struct Res { std::vector<u128> a, b; std::vector<uint8_t> c; };
template <class T> std::vector<u128> up(const std::vector<T>& v) { return std::vector<u128>(v.begin(), v.end()); }
template <class T>
Res play(const Op& o, size_t me, ch::BasicOTProtocols& ot) {
  Res r;
  bool send = me == o.dir;
  auto s = ot.GetSenderCOT();
  auto v = ot.GetReceiverCOT();
  std::vector<T> m(o.m.begin(), o.m.end()), x(o.n), y(o.n);
  auto c = o.c;
  switch (o.kind) {
    case CMCC:
      if (send) s->SendCMCC(absl::MakeConstSpan(m), o.N, o.bw);
      else v->RecvCMCC(absl::MakeConstSpan(c), o.N, absl::MakeSpan(x), o.bw);
      break;
    case RMRC:
      if (send) s->SendRMRC(absl::MakeSpan(x), absl::MakeSpan(y), o.bw);
      else v->RecvRMRC(absl::MakeSpan(c), absl::MakeSpan(x), o.bw);
      break;
    case RMCC:
      if (send) s->SendRMCC(absl::MakeSpan(x), absl::MakeSpan(y), o.bw);
      else v->RecvRMCC(absl::MakeConstSpan(c), absl::MakeSpan(x), o.bw);
      break;
    case CAMCC:
      if (send) s->SendCAMCC(absl::MakeConstSpan(m), absl::MakeSpan(x), static_cast<int>(o.bw));
      else v->RecvCAMCC(absl::MakeConstSpan(c), absl::MakeSpan(x), static_cast<int>(o.bw));
      break;
    default:
      if (send) s->SendCAMCC_Collapse(absl::MakeConstSpan(m), absl::MakeSpan(x), static_cast<int>(o.bw), o.levels);
      else v->RecvCAMCC_Collapse(absl::MakeConstSpan(c), absl::MakeSpan(x), static_cast<int>(o.bw), o.levels);
  }
  if (send) s->Flush();
  r.a = up(x);
  r.b = up(y);
  r.c = c;
  return r;
}
Res play_any(const Op& o, size_t me, ch::BasicOTProtocols& ot) {
  switch (o.ty) {
    case 0: return play<uint8_t>(o, me, ot);
    case 2: return play<uint32_t>(o, me, ot);
    case 3: return play<uint64_t>(o, me, ot);
    default: return play<uint128_t>(o, me, ot);
  }
}
template <class R, class F>
std::vector<R> two(uint64_t seed, CheetahOtKind kind, const std::shared_ptr<sim::World>& w, F&& fn) {
  auto out = hz::parties<R>(w, seed, [&](size_t me, const hz::Lctx& l) {
    auto conn = std::make_shared<Communicator>(l);
    auto ot = std::make_shared<ch::BasicOTProtocols>(conn, kind);
    sim::epoch = 1;
    return fn(me, ot, conn);
  });
  REQUIRE(w->leftover() == 0, "{} messages were sent and never read", w->leftover());
  return out;
}
}  // namespace
PBT(C38, transfers, 8000, 60000, "the history has a transfer with more than one item or more than two messages") {
  auto kind = gkind(g);
  std::vector<Op> h;
  int n = 1 + static_cast<int>(g.u(5));
  for (int i = 0; i < n; ++i) {
    h.push_back(gop(g));
    g.say("{};", h.back().str());
    g.tag(kKinds[h.back().kind]);
    g.nontrivial(h.back().n > 1 || h.back().N > 2);
  }
  auto out = two<std::vector<Res>>(g.seed(), kind, std::make_shared<sim::World>(2), [&](size_t me, const std::shared_ptr<ch::BasicOTProtocols>& ot, const std::shared_ptr<Communicator>&) {
    std::vector<Res> r;
    for (auto& o : h) r.push_back(play_any(o, me, *ot));
    return r;
  });
  std::set<u128> seen;
  for (size_t k = 0; k < h.size(); ++k) {
    auto& o = h[k];
    auto& s = out[o.dir][k];
    auto& r = out[1 - o.dir][k];
    size_t full = 8 * tybytes(o.ty), bw = o.bw == 0 ? full : o.bw;
    u128 m = bmask(bw);
    size_t ones = 0;
    for (size_t i = 0; i < o.n; ++i) {
      auto at = [&](const char* what) { return fmt::format("op {} ({}) item {} choice {}: {}", k, o.str(), i, o.c[i], what); };
      u128 x = r.a[i];
      if (o.kind == CMCC) {
        u128 w = o.m[i * o.N + o.c[i]];
        REQUIRE(x == w, "{} {:x} instead of {:x}", at("received"), static_cast<uint64_t>(x), static_cast<uint64_t>(w));
      } else if (o.kind == RMRC || o.kind == RMCC) {
        uint8_t c = o.kind == RMRC ? r.c[i] : o.c[i];
        REQUIRE(c <= 1, "{}", at("random choice is not a bit"));
        ones += c;
        REQUIRE(x == (c ? s.b[i] : s.a[i]), "{}", at("not the chosen random message"));
        REQUIRE((s.a[i] | s.b[i]) <= m, "{}", at("random message wider than announced"));
        if (bw >= 64) REQUIRE(s.a[i] != s.b[i], "{}", at("equal random messages"));
        if (bw >= 96) REQUIRE(seen.insert(s.a[i]).second && seen.insert(s.b[i]).second, "{}", at("random message used before"));
      } else {
        size_t b = o.kind == CAMCC ? bw : bw - i / (o.n / o.levels);
        u128 w = s.a[i] + (o.c[i] ? o.m[i] : 0);
        REQUIRE(((x - w) & bmask(b)) == 0, "{} {:x} instead of {:x} (mod 2^{})", at("received"), static_cast<uint64_t>(x), static_cast<uint64_t>(w), b);
      }
    }
    if (o.kind == RMRC && o.n >= 100) REQUIRE(ones > o.n / 10 && ones < o.n - o.n / 10, "op {} ({}): {} of {} random choices are one", k, o.str(), ones, o.n);
  }
}
// Zero messages turn what is sent into the pads: none may repeat, or a
// receiver could open messages it did not choose.
PBT(C38, pads, 3000, 20000, "more than one message is padded") {
  auto kind = gkind(g);
  Op o;
  o.kind = g.of({CMCC, CMCC, CAMCC});
  o.ty = g.of({3, 4});
  o.dir = g.u(1);
  o.bw = 8 * tybytes(o.ty);
  o.n = g.p(0.3) ? 1 : 1 + g.u(300);
  if (o.kind == CMCC) {
    o.N = g.p(0.7) ? g.of<size_t>({2, 4, 8, 16, 256}) : 2 + g.u(g.p() ? 6 : 254);
    while (o.n * o.N > 20000) o.n = 1 + o.n / 2;
  }
  g.say("{}", o.str());
  o.m.assign(o.kind == CMCC ? o.n * o.N : o.n, 0);
  uint64_t s = g.seed();
  for (size_t i = 0; i < o.n; ++i) o.c.push_back(static_cast<uint8_t>(mix(s + i) % (o.kind == CMCC ? o.N : 2)));
  bool pow2 = o.N == 2 || o.N == 4 || o.N == 8 || o.N == 16 || o.N == 256;  // others may be refused
  g.nontrivial(o.n * o.N > 1);
  g.tag(pow2 ? "supported N" : "other N");
  auto w = std::make_shared<sim::World>(2);
  w->record = true;
  w->stall_timeout_s = 20;
  std::vector<std::optional<Res>> out;
  auto run = hz::parties_raw<Res>(w, g.seed(), [&](size_t me, const hz::Lctx& l) {
    auto conn = std::make_shared<Communicator>(l);
    auto ot = std::make_shared<ch::BasicOTProtocols>(conn, kind);
    sim::epoch = 1;
    return play_any(o, me, *ot);
  });
  if (!run.ok()) {
    REQUIRE(!pow2, "{} failed: {}", o.str(), run.first);
    g.tag("rejected");
    return;
  }
  for (size_t i = 0; i < o.n; ++i) {
    if (o.kind == CMCC) REQUIRE(run.out[1 - o.dir]->a[i] == 0, "{} item {}: wrong message", o.str(), i);
  }
  std::map<u128, int> seen;
  size_t es = tybytes(o.ty), words = 0;
  for (auto& m : w->log) {
    if (m.epoch < 1 || m.src != o.dir) continue;
    if (m.tag.find("otbuf") == std::string::npos && m.data.size() < es) continue;
    if (m.tag.find("seed") != std::string::npos || m.tag.find("ot-sim") != std::string::npos) continue;
    for (size_t i = 0; i + es <= m.data.size(); i += es) { ++seen[load(m.data.data() + i, static_cast<int>(es))]; ++words; }
  }
  REQUIRE(words >= o.m.size(), "only {} words seen", words);
  for (auto& [x, c] : seen) REQUIRE(c == 1, "{}: one pad hides {} messages", o.str(), c);
}
namespace {
template <class T>
void zip(Gen& g) {
  size_t full = 8 * sizeof(T), bw = 1 + g.u(full - 1), n = 1 + g.u(200);
  g.say("zip u{} bw={} n={}", full, bw, n);
  std::vector<T> in, packed((n * bw + full - 1) / full + 1, static_cast<T>(0x5a)), out(n, 0);
  for (size_t i = 0; i < n; ++i) in.push_back(static_cast<T>(g.bits(static_cast<int>(full))));
  size_t used = ch::ZipArray<T>(absl::MakeConstSpan(in), bw, absl::MakeSpan(packed));
  REQUIRE(used == (n * bw + full - 1) / full, "used {}", used);
  REQUIRE(packed.back() == static_cast<T>(0x5a), "wrote past the packed array");
  for (size_t b = 0; b < used * full; ++b) {
    bool got = packed[b / full] >> (b % full) & 1;
    bool want = b < n * bw && (in[b / bw] >> (b % bw) & 1);
    REQUIRE(got == want, "bit {} of the packed array", b);
  }
  packed.resize(used);
  ch::UnzipArray<T>(absl::MakeConstSpan(packed), bw, absl::MakeSpan(out));
  for (size_t i = 0; i < n; ++i) REQUIRE(out[i] == static_cast<T>(in[i] & static_cast<T>(bmask(bw))), "item {}", i);
  std::vector<uint8_t> u8;
  size_t nb = 1 + g.u(100);
  for (size_t i = 0; i < nb; ++i) u8.push_back(static_cast<uint8_t>(g.u(255)));
  std::vector<T> p8((nb + sizeof(T) - 1) / sizeof(T) + 1, static_cast<T>(0x77));
  size_t k = ch::PackU8Array<T>(absl::MakeConstSpan(u8), absl::MakeSpan(p8));
  REQUIRE(k == p8.size() - 1 && p8.back() == static_cast<T>(0x77), "PackU8Array size {}", k);
  for (size_t i = 0; i < k; ++i) {
    T w = 0;
    for (size_t j = i * sizeof(T); j < std::min(nb, (i + 1) * sizeof(T)); ++j) w = static_cast<T>((static_cast<u128>(w) << 8) | u8[j]);
    REQUIRE(p8[i] == w, "PackU8Array word {}", i);
  }
}
}  // namespace
PBT(C38, packing, 20000, 400000, "always") {
  g.nontrivial();
  switch (g.u(5)) {
    case 0: zip<uint8_t>(g); break;
    case 1: zip<uint32_t>(g); break;
    case 2: zip<uint64_t>(g); break;
    case 3: zip<uint128_t>(g); break;
    case 4: {
      size_t n = 1 + g.u(7);
      std::vector<uint8_t> b, c(1 + g.u(11), 9);
      for (size_t i = 0; i < n; ++i) b.push_back(static_cast<uint8_t>(g.u(3)));
      auto x = ch::BoolToU8(absl::MakeConstSpan(b));
      uint8_t w = 0;
      for (auto y : b) w = static_cast<uint8_t>(w << 1 | (y & 1));
      REQUIRE(x == w, "BoolToU8");
      auto v = static_cast<uint8_t>(g.u(255));
      ch::U8ToBool(absl::MakeSpan(c), v);
      for (size_t i = 0; i < c.size(); ++i) REQUIRE(c[i] == (i < 8 ? v >> i & 1 : 9), "U8ToBool bit {}", i);
      break;
    }
    default: {
      uint64_t r = 8 * (1 + g.u(9)), c = 8 * (1 + g.u(9));
      g.say("transpose {}x{}", r, c);
      std::vector<uint8_t> in(r * c / 8), out(r * c / 8 + 16, 0xa5);
      uint64_t s = g.seed();
      for (size_t i = 0; i < in.size(); ++i) in[i] = static_cast<uint8_t>(mix(s + i));
      ch::SseTranspose(out.data(), in.data(), r, c);
      for (uint64_t i = 0; i < r; ++i)
        for (uint64_t j = 0; j < c; ++j) {
          auto a = i * c + j, b = j * r + i;
          REQUIRE((in[a / 8] >> (a % 8) & 1) == (out[b / 8] >> (b % 8) & 1), "bit {},{}", i, j);
        }
      for (size_t i = r * c / 8; i < out.size(); ++i) REQUIRE(out[i] == 0xa5, "wrote past the output");
    }
  }
}
namespace {
enum Blk { CMP, CMPEQ, EQ, TRUNC, B2A1, B2AP, B2AW, MUX, PMUX, ANDT, CANDT, AND, CAND, RBITS, OPEN, BLKS };
const char* kBlk[] = {"compare", "compare+eq", "equal", "truncate", "b2a", "b2a packed", "b2a sized", "mux", "private mux", "and triple", "correlated triple", "and", "correlated and", "random bits", "open"};
struct B {
  int kind = 0;
  Shape shape;
  size_t radix = 4, bw = 0, shift = 0, owner = 0;
  bool gt = false, add = false, span = false;
  ch::TruncateProtocol::Meta meta;
  int lay = 0;
  std::vector<u128> x[2], y[2], z[2];  // what each party holds
  std::vector<u128> plain;
  std::string str() const { return fmt::format("{}{} radix={} bw={} shift={} gt={} lay={} sign={} heur={} signed={}", kBlk[kind], shape, radix, bw, shift, gt, lay, static_cast<int>(meta.sign), meta.use_heuristic, meta.signed_arith); }
};
struct BRes { std::vector<std::vector<u128>> v; std::vector<Shape> s; };
}  // namespace
PBT(C38, blocks, 20000, 120000, "more than one element") {
  auto kind = gkind(g);
  int k = g.of({32, 64, 128});
  auto field = pr::field_of(k);
  u128 m = bmask(k);
  g.say("FM{}", k);
  std::vector<B> h;
  int nops = 1 + static_cast<int>(g.u(2));
  for (int q = 0; q < nops; ++q) {
    B b;
    b.kind = static_cast<int>(g.u(BLKS - 1));
    b.shape = gshape(g, 3, 6, 60);
    if (g.p(0.06)) b.shape = {static_cast<int64_t>(200 + g.u(1500))};
    if (b.shape.numel() == 0) b.shape = {1};
    b.lay = g.p(0.6) ? 0 : 1 + static_cast<int>(g.u(2));
    auto n = static_cast<size_t>(b.shape.numel());
    bool wide = n > 100;
    b.owner = g.u(1);
    auto rnd = [&](std::vector<u128>& v, u128 msk) {
      uint64_t s = g.seed();
      for (size_t i = 0; i < n; ++i) v.push_back(((static_cast<u128>(mix(s + 2 * i)) << 64) | mix(s + 2 * i + 1)) & msk);
    };
    auto val = [&](int bits) { return wide ? g.wide() & bmask(bits) : g.bits(bits); };
    switch (b.kind) {
      case CMP: case CMPEQ: case EQ: {
        b.radix = g.of<size_t>({1, 2, 3, 4, 4, 8});  // 1-of-2^r transfers exist for these r only
        b.bw = g.p() ? 0 : 1 + g.u(k - 1);
        b.gt = g.p();
        int bits = b.bw == 0 ? k : static_cast<int>(b.bw);
        for (size_t i = 0; i < n; ++i) {
          u128 x = val(bits), y = val(bits);
          switch (g.u(4)) {
            case 0: y = x; break;
            case 1: y = (x + (g.p() ? 1 : -1)) & bmask(bits); break;
            case 2: y = x ^ (static_cast<u128>(1) << g.u(bits - 1)); break;
            default: break;
          }
          // only the low bits take part in an equality test
          if (b.kind == EQ && bits < k && g.p(0.3)) x |= (g.wide() << bits) & m;
          b.x[0].push_back(x);
          b.x[1].push_back(y);
        }
        break;
      }
      case TRUNC: {
        b.shift = b.meta.shift_bits = g.u(k - 2);
        b.meta.signed_arith = g.p(0.7);
        b.meta.sign = g.of<SignType>({SignType::Unknown, SignType::Unknown, SignType::Positive, SignType::Negative});
        b.meta.use_heuristic = g.p(0.3);
        bool heur = b.meta.use_heuristic && b.meta.signed_arith && b.meta.sign == SignType::Unknown;
        if (heur) b.shift = b.meta.shift_bits = g.u(k - 3);
        rnd(b.x[1], m);
        for (size_t i = 0; i < n; ++i) {
          u128 p = val(k);
          u128 top = static_cast<u128>(1) << (k - 1);
          if (b.meta.sign == SignType::Positive) p &= ~top & m;
          if (b.meta.sign == SignType::Negative) p |= top;
          if (heur) { p &= bmask(k - 2); if (g.p()) p = (~p) & m; }
          b.plain.push_back(p);
          if (g.p(0.3)) b.x[1][i] = val(k);
          b.x[0].push_back((p - b.x[1][i]) & m);
        }
        break;
      }
      case B2A1: case B2AW:
        b.bw = b.kind == B2AW ? 1 + g.u(k - 2) : 1;
        rnd(b.x[0], 1);
        rnd(b.x[1], 1);
        break;
      case B2AP:
        b.bw = 2 + g.u(k - 2);
        rnd(b.x[0], bmask(b.bw));
        rnd(b.x[1], bmask(b.bw));
        break;
      case MUX: case PMUX:
        rnd(b.x[0], m); rnd(b.x[1], m); rnd(b.y[0], 1); rnd(b.y[1], 1);
        if (g.p(0.3)) for (size_t i = 0; i < n; ++i) b.x[1][i] = (val(k) - b.x[0][i]) & m;
        if (b.kind == PMUX) b.lay = 0;
        b.span = g.p();
        break;
      case ANDT:
        b.bw = 1 + g.u(k - 1);
        break;
      case AND: case CAND:
        b.bw = b.kind == CAND ? 1 : 1 + g.u(k - 1);
        for (int p = 0; p < 2; ++p) { rnd(b.x[p], bmask(b.bw)); rnd(b.y[p], bmask(b.bw)); rnd(b.z[p], bmask(b.bw)); }
        break;
      case OPEN:
        b.add = g.p();
        b.lay = 0;
        b.bw = g.p(0.3) ? 0 : 1 + g.u(k - 1);
        for (int p = 0; p < 2; ++p) rnd(b.x[p], b.bw == 0 ? m : bmask(b.bw));
        break;
      default: break;
    }
    g.say("{};", b.str());
    g.tag(kBlk[b.kind]);
    g.nontrivial(n > 1);
    h.push_back(std::move(b));
  }
  auto body = [&](size_t me, const std::shared_ptr<ch::BasicOTProtocols>& ot, const std::shared_ptr<Communicator>& conn) {
    std::vector<BRes> r;
    for (auto& b : h) {
      auto ring = makeType<RingTy>(field);
      auto bool_t = [&](size_t nb) { return makeType<ch::BShrTy>(field, nb); };
      auto arr = [&](const std::vector<u128>& v, const Type& t) {
        NdArrayRef a(t, b.shape);
        auto w = static_cast<size_t>(k / 8);
        for (size_t i = 0; i < v.size(); ++i) memcpy(static_cast<char*>(a.data()) + i * w, &v[i], w);
        return pr::odd(a, b.lay);
      };
      std::vector<NdArrayRef> o;
      switch (b.kind) {
        case CMP: o = {ch::CompareProtocol(ot, b.radix).Compute(arr(b.x[me], ring), b.gt, static_cast<int64_t>(b.bw))}; break;
        case CMPEQ: { auto p = ch::CompareProtocol(ot, b.radix).ComputeWithEq(arr(b.x[me], ring), b.gt, static_cast<int64_t>(b.bw)); o = {p[0], p[1]}; break; }
        case EQ: o = {ch::EqualProtocol(ot, b.radix).Compute(arr(b.x[me], ring), b.bw)}; break;
        case TRUNC: o = {ch::TruncateProtocol(ot).Compute(arr(b.x[me], ring), b.meta)}; break;
        case B2A1: case B2AP: o = {ot->B2A(arr(b.x[me], bool_t(b.bw)))}; break;
        case B2AW: o = {ot->B2ASingleBitWithSize(arr(b.x[me], bool_t(1)), static_cast<int>(b.bw))}; break;
        case MUX: o = {ot->Multiplexer(arr(b.x[me], ring), arr(b.y[me], bool_t(1)))}; break;
        case PMUX:
          if (me != b.owner) o = {ot->PrivateMulxSend(arr(b.x[me], ring))};
          else if (b.span) { std::vector<uint8_t> s(b.y[me].begin(), b.y[me].end()); o = {ot->PrivateMulxRecv(arr(b.x[me], ring), absl::MakeConstSpan(s))}; }
          else o = {ot->PrivateMulxRecv(arr(b.x[me], ring), arr(b.y[me], ring))};
          break;
        case ANDT: { auto t = ot->AndTriple(field, b.shape, b.bw); o.assign(t.begin(), t.end()); break; }
        case CANDT: { auto t = ot->CorrelatedAndTriple(field, b.shape); o.assign(t.begin(), t.end()); break; }
        case AND: o = {ot->BitwiseAnd(arr(b.x[me], bool_t(b.bw)), arr(b.y[me], bool_t(b.bw)))}; break;
        case CAND: { auto t = ot->CorrelatedBitwiseAnd(arr(b.x[me], bool_t(1)), arr(b.y[me], bool_t(1)), arr(b.z[me], bool_t(1))); o.assign(t.begin(), t.end()); break; }
        case RBITS: o = {ot->RandBits(field, b.shape)}; break;
        default: o = {ch::OpenShare(arr(b.x[me], ring), b.add ? mpc::ReduceOp::ADD : mpc::ReduceOp::XOR, b.bw, conn)}; break;
      }
      BRes t;
      for (auto& a : o) { t.v.push_back(vals(a)); t.s.push_back(a.shape()); }
      r.push_back(std::move(t));
    }
    ot->Flush();
    return r;
  };
  auto out = two<std::vector<BRes>>(g.seed(), kind, std::make_shared<sim::World>(2), body);
  for (size_t q = 0; q < h.size(); ++q) {
    auto& b = h[q];
    auto& r0 = out[0][q];
    auto& r1 = out[1][q];
    auto n = static_cast<size_t>(b.shape.numel());
    for (auto* r : {&r0, &r1}) for (size_t j = 0; j < r->s.size(); ++j) REQUIRE(r->s[j] == b.shape, "{}: output {} has shape {}", b.str(), j, r->s[j]);
    size_t ones = 0;
    for (size_t i = 0; i < n; ++i) {
      auto sum = [&](size_t j) { return (r0.v[j][i] + r1.v[j][i]) & m; };
      auto xo = [&](size_t j) { return r0.v[j][i] ^ r1.v[j][i]; };
      auto in = [&](const std::vector<u128>* v) { return (v[0][i] + v[1][i]) & m; };
      auto inx = [&](const std::vector<u128>* v) { return v[0][i] ^ v[1][i]; };
      auto expect = [&](u128 got, u128 want, const char* what) { REQUIRE(got == want, "{} element {}: {} is {:x}:{:x} instead of {:x}:{:x}", b.str(), i, what, static_cast<uint64_t>(got >> 64), static_cast<uint64_t>(got), static_cast<uint64_t>(want >> 64), static_cast<uint64_t>(want)); };
      switch (b.kind) {
        case CMP: case CMPEQ: {
          u128 x = b.x[0][i], y = b.x[1][i];
          expect(xo(0), b.gt ? x > y : x < y, "comparison");
          REQUIRE((r0.v[0][i] | r1.v[0][i]) <= 1, "{}: share wider than a bit", b.str());
          if (b.kind == CMPEQ) expect(xo(1), x == y, "equality");
          break;
        }
        case EQ: { u128 mm = b.bw == 0 ? m : bmask(b.bw); expect(xo(0), (b.x[0][i] & mm) == (b.x[1][i] & mm), "equality"); break; }
        case TRUNC: {
          u128 p = b.plain[i], w;
          if (b.meta.signed_arith) {
            i128 sp = k == 128 ? static_cast<i128>(p) : (p >> (k - 1) & 1) ? static_cast<i128>(p) - (static_cast<i128>(1) << k) : static_cast<i128>(p);
            w = static_cast<u128>(sp >> b.shift) & m;
          } else w = p >> b.shift;
          u128 e = (sum(0) - w + 1) & m;
          REQUIRE(b.shift == 0 ? e == 1 : e <= 2, "{} element {}: truncation of {:x} is off by {}", b.str(), i, static_cast<uint64_t>(p), static_cast<int64_t>(e) - 1);
          break;
        }
        case B2A1: case B2AP: expect(sum(0), inx(b.x), "arithmetic value"); break;
        case B2AW: expect(sum(0) & bmask(b.bw), inx(b.x), "arithmetic value"); break;
        case MUX: expect(sum(0), inx(b.y) ? in(b.x) : 0, "selected value"); break;
        case PMUX: expect(sum(0), b.y[b.owner][i] ? in(b.x) : 0, "selected value"); break;
        case ANDT: {
          u128 x = xo(0), y = xo(1), z = xo(2);
          REQUIRE((x | y | z) <= bmask(b.bw), "{}: triple wider than {} bits", b.str(), b.bw);
          expect(z, x & y, "triple product");
          break;
        }
        case CANDT: expect(xo(2), xo(0) & xo(1), "first product"); expect(xo(4), xo(0) & xo(3), "second product"); REQUIRE((xo(0) | xo(1) | xo(3)) <= 1, "{}: wide triple", b.str()); break;
        case AND: expect(xo(0), inx(b.x) & inx(b.y), "and"); break;
        case CAND: expect(xo(0), inx(b.x) & inx(b.y), "first and"); expect(xo(1), inx(b.x) & inx(b.z), "second and"); break;
        case RBITS: REQUIRE(sum(0) <= 1, "{}: random bit is {}", b.str(), static_cast<uint64_t>(sum(0))); ones += static_cast<size_t>(sum(0)); break;
        default: {
          u128 mm = b.bw == 0 ? m : bmask(b.bw);
          u128 w = b.add ? (b.x[0][i] + b.x[1][i]) & mm : inx(b.x);
          expect(r0.v[0][i], w, "opened value"); expect(r1.v[0][i], w, "opened value of party 1");
        }
      }
    }
    if (b.kind == RBITS && n >= 60) REQUIRE(ones > n / 20 && ones < n - n / 20, "{}: {} of {} random bits are one", b.str(), ones, n);
  }
}
