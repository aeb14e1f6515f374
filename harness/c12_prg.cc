// Shared pseudo-random streams of 2..6 parties under generated draw histories.
#include "layout.h"
#include "world.h"
#include "libspu/core/type_util.h"
#include "libspu/mpc/common/prg_state.h"
#include "libspu/mpc/common/prg_tensor.h"
#include "libspu/mpc/utils/ring_ops.h"
#include "libspu/mpc/utils/gfmp_ops.h"
using namespace pbt;
using namespace lay;
using namespace spu;
using namespace spu::mpc;
namespace {
enum Op { Publ, Priv, Pair, OneSided, PairPerm, PrivPerm, FillPubl, FillPriv, Zero, ZeroXor, Fork, kOps };
const char* kNames[] = {"publ", "priv", "pair", "one-sided", "pairperm", "privperm", "fillpubl", "fillpriv", "zero", "zeroxor", "fork"};
struct Step {
  Op op;
  size_t state;  // which of the (forked) states
  FieldType f;
  Shape sh;
  size_t n;      // for permutations and byte fills
  size_t owner;  // whose stream a one-sided draw uses
};
struct Draw {
  std::vector<u128> a, b;  // self / next, or the only one
  bool has_a = false, has_b = false;
};
std::vector<u128> idx(const Index& p) { return {p.begin(), p.end()}; }
std::vector<u128> bytes(const std::vector<uint8_t>& v) { return {v.begin(), v.end()}; }
}  // namespace
PBT(C12, streams, 15000, 200000, "at least three draws, one of them shared between parties") {
  size_t n = 2 + g.u(g.p(0.2) ? 4 : 1);
  size_t states = 1, len = 1 + g.u(10);
  std::vector<Step> prog;
  std::string txt;
  size_t shared = 0;
  for (size_t i = 0; i < len; ++i) {
    Step s;
    s.op = static_cast<Op>(g.u(kOps - 1));
    s.state = g.u(states - 1);
    s.f = g.of({FM32, FM64, FM128});
    s.sh = gshape(g, 3, 6, 40);
    s.n = g.u(40);
    s.owner = g.u(n - 1);
    if (s.op == Fork) {
      if (states >= 4) s.op = Publ;
      else ++states;
    }
    shared += s.op != Priv && s.op != PrivPerm && s.op != FillPriv;
    txt += fmt::format(" {}@{}({} {} n={} owner={})", kNames[s.op], s.state, static_cast<int>(s.f), fmt::join(s.sh, "x"), s.n, s.owner);
    prog.push_back(s);
    g.tag(kNames[s.op]);
  }
  g.say("{} parties:{}", n, txt);
  g.nontrivial(len >= 3 && shared > 0);
  auto seed = g.seed();
  auto out = hz::parties<std::vector<Draw>>(n, seed, [&](size_t rank, const hz::Lctx& lctx) {
    std::vector<std::unique_ptr<State>> st;
    st.push_back(std::make_unique<PrgState>(lctx));
    std::vector<Draw> r;
    for (const auto& s : prog) {
      auto* p = dynamic_cast<PrgState*>(st[s.state].get());
      Draw d;
      switch (s.op) {
        case Publ: d.a = vals(p->genPubl(s.f, s.sh)); d.has_a = true; break;
        case Priv: d.a = vals(p->genPriv(s.f, s.sh)); d.has_a = true; break;
        case Pair: {
          auto [x, y] = p->genPrssPair(s.f, s.sh, PrgState::GenPrssCtrl::Both);
          if (x.shape() != s.sh || y.shape() != s.sh || x.eltype() != makeType<RingTy>(s.f) || y.eltype() != x.eltype()) throw Violation("shape or type of a pair");
          d.a = vals(x); d.b = vals(y); d.has_a = d.has_b = true;
          break;
        }
        case OneSided: {
          // the stream of `owner` is also known to its predecessor
          if (rank == s.owner) { d.a = vals(p->genPrssPair(s.f, s.sh, PrgState::GenPrssCtrl::First).first); d.has_a = true; }
          if (rank == (s.owner + n - 1) % n) { d.b = vals(p->genPrssPair(s.f, s.sh, PrgState::GenPrssCtrl::Second).second); d.has_b = true; }
          break;
        }
        case PairPerm: { auto [x, y] = p->genPrssPermPair(s.n); d.a = idx(x); d.b = idx(y); d.has_a = d.has_b = true; break; }
        case PrivPerm: d.a = idx(p->genPrivPerm(s.n)); d.has_a = true; break;
        case FillPubl: { std::vector<uint8_t> v(s.n); p->fillPubl(absl::MakeSpan(v)); d.a = bytes(v); d.has_a = true; break; }
        case FillPriv: { std::vector<uint8_t> v(s.n); p->fillPriv(absl::MakeSpan(v)); d.a = bytes(v); d.has_a = true; break; }
        case Zero: case ZeroXor: {
          auto [x, y] = p->genPrssPair(s.f, s.sh, PrgState::GenPrssCtrl::Both);
          d.a = vals(s.op == Zero ? ring_sub(x, y) : ring_xor(x, y));
          d.has_a = true;
          break;
        }
        default: st.push_back(p->fork());
      }
      r.push_back(std::move(d));
    }
    return r;
  });
  std::set<std::vector<u128>> seen;  // draws long enough that a repetition means reuse
  auto fresh = [&](const std::vector<u128>& v, int w, const Step& s, size_t at) {
    if (static_cast<int>(v.size()) * w < 16) return;
    std::vector<u128> head;
    u128 word = 0;
    // the first 16 bytes of the draw
    int k = 16 / w;
    for (int i = 0; i < k; ++i) { word |= w == 16 ? v[i] : v[i] << (8 * w * i); }
    head.push_back(word);
    if (!seen.insert(head).second) throw Violation(fmt::format("step {} ({}) repeats the randomness of an earlier draw", at, kNames[s.op]));
  };
  auto isperm = [](const std::vector<u128>& v) {
    std::set<u128> s(v.begin(), v.end());
    return s.size() == v.size() && (v.empty() || *s.rbegin() == v.size() - 1);
  };
  for (size_t i = 0; i < prog.size(); ++i) {
    const auto& s = prog[i];
    auto w = static_cast<int>(SizeOf(s.f));
    for (size_t r = 0; r < n; ++r) {
      auto& d = out[r][i];
      auto& nx = out[(r + 1) % n][i];
      switch (s.op) {
        case Publ: case FillPubl:
          REQUIRE(d.a == out[0][i].a, "step {} ({}): parties {} and 0 see different public randomness", i, kNames[s.op], r);
          if (r == 0) fresh(d.a, s.op == Publ ? w : 1, s, i);
          break;
        case Priv: case FillPriv: fresh(d.a, s.op == Priv ? w : 1, s, i); break;
        case PrivPerm: REQUIRE(isperm(d.a), "step {}: not a permutation", i); break;
        case Pair: case PairPerm:
          REQUIRE(d.b == nx.a, "step {} ({}): party {} and its successor disagree", i, kNames[s.op], r);
          if (s.op == Pair) fresh(d.a, w, s, i);
          else REQUIRE(d.a.size() == s.n && isperm(d.a), "step {}: not a permutation", i);
          break;
        case OneSided:
          if (d.has_b) REQUIRE(d.b == nx.a, "step {}: party {} and the owner of the stream disagree", i, r);
          if (d.has_a) fresh(d.a, w, s, i);
          break;
        default: break;
      }
    }
    if (s.op == Zero || s.op == ZeroXor) {
      for (size_t k = 0; k < out[0][i].a.size(); ++k) {
        u128 t = 0;
        for (size_t r = 0; r < n; ++r) t = s.op == Zero ? t + out[r][i].a[k] : t ^ out[r][i].a[k];
        REQUIRE((t & mask(w)) == 0, "step {}: shares of zero give {}", i, str(t & mask(w)));
      }
    }
  }
}
PBT(C12, replay, 60000, 800000, "at least two recorded tensors") {
  u128 seed = g.bits(128);
  auto k = 1 + g.u(5);
  uint64_t ctr = g.u(3) == 0 ? 0 : g.u(1000);
  std::vector<PrgArrayDesc> desc(k);
  std::vector<std::vector<u128>> got(k);
  std::string txt;
  uint64_t c = ctr;
  for (size_t i = 0; i < k; ++i) {
    auto f = g.of({FM32, FM64, FM128});
    auto sh = gshape(g, 3, 6, 40);
    auto ty = g.p(0.3) && sh.numel() > 0 ? ElementType::kGfmp : ElementType::kRing;
    auto before = c;
    auto a = prgCreateArray(f, sh, seed, &c, &desc[i], ty);
    txt += fmt::format(" {}{}[{}]", ty == ElementType::kGfmp ? "p" : "r", 8 * SizeOf(f), fmt::join(sh, "x"));
    REQUIRE(a.shape() == sh && a.eltype() == (ty == ElementType::kGfmp ? makeType<GfmpTy>(f) : makeType<RingTy>(f)), "shape or type");
    got[i] = vals(a);
    REQUIRE(sh.numel() == 0 || c > before, "no randomness consumed");
    uint64_t c2 = before;
    REQUIRE(vals(prgCreateArray(f, sh, seed, &c2, nullptr, ty)) == got[i] && c2 == c, "recording changes the draw");
  }
  g.say("seed {} counter {}:{}", str(seed), ctr, txt);
  g.nontrivial(k >= 2);
  for (size_t t = 0; t < k; ++t) {
    auto i = g.u(k - 1);
    auto d = desc[i];
    auto r = prgReplayArray(seed, d);
    REQUIRE(r.shape() == d.shape && vals(r) == got[i], "replaying tensor {} gives other elements", i);
    REQUIRE(d.prg_counter == desc[i].prg_counter, "replaying moved the description");
    // the mutable replay continues the stream
    auto m = prgReplayArrayMutable(seed, d);
    REQUIRE(vals(m) == got[i], "mutable replay of tensor {} gives other elements", i);
    uint64_t want = desc[i].prg_counter;
    prgCreateArray(d.field, d.shape, seed, &want, nullptr, d.eltype);
    REQUIRE(d.prg_counter == want, "mutable replay advances to {} instead of {}", d.prg_counter, want);
    auto e = d;
    auto next = prgCreateArray(d.field, d.shape, seed, &want, nullptr, d.eltype);
    REQUIRE(vals(prgReplayArrayMutable(seed, e)) == vals(next), "mutable replay does not continue the stream");
    if (d.shape.numel() * static_cast<int64_t>(SizeOf(d.field)) >= 16) REQUIRE(vals(next) != got[i], "two draws are equal");
    u128 other = seed ^ (static_cast<u128>(1) << g.u(127));
    if (d.shape.numel() * static_cast<int64_t>(SizeOf(d.field)) >= 16) REQUIRE(vals(prgReplayArray(other, desc[i])) != got[i], "another seed gives the same elements");
  }
}
