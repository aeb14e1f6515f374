// Collectives of the communicator under generated programs, layouts and
// sub-channels used from concurrent threads.
#include "layout.h"
#include "world.h"
#include "libspu/core/type_util.h"
#include "libspu/mpc/common/communicator.h"
using namespace pbt;
using namespace lay;
using namespace spu;
using namespace spu::mpc;
namespace {
enum Op { AllReduce, Reduce, Rotate, Gather, Bcast, SendRecv, VRotate, VSend, VAllReduce, VBcast, VGather, kOps };
const char* kNames[] = {"allreduce", "reduce", "rotate", "gather", "broadcast", "send/recv", "rotate<T>", "send/recv<T>", "allreduce<T>", "bcast<T>", "gather<T>"};
struct Step {
  Op op;
  ReduceOp red;
  bool gf = false;
  Type ty;
  int w;
  Shape sh;
  size_t root, to;
  std::vector<Arr> in;  // per party
};
struct Res {
  std::vector<std::vector<u128>> v;  // one or several arrays
  bool ok = true;                    // shapes and types
  size_t lat = 0, comm = 0, sent = 0;
  bool untouched = true;
};
template <class T>
std::vector<T> flat(const Arr& a) {
  std::vector<T> r;
  for (auto v : a.v) r.push_back(static_cast<T>(v));
  return r;
}
template <class T>
std::vector<u128> wide(const std::vector<T>& v) { return {v.begin(), v.end()}; }
u128 prime(int w) { return (static_cast<u128>(1) << (w == 4 ? 31 : w == 8 ? 61 : 127)) - 1; }

template <class T>
void typed(const Step& s, Communicator& c, size_t me, Res& r) {
  auto v = flat<T>(s.in[me]);
  absl::Span<T const> sp(v);
  switch (s.op) {
    case VRotate: r.v.push_back(wide(c.rotate<T>(sp, "t"))); break;
    case VSend:
      if (me == s.root) c.sendAsync<T>(s.to, sp, "t");
      if (me == s.to) r.v.push_back(wide(c.recv<T>(s.root, "t")));
      break;
    case VAllReduce:
      if (s.red == ReduceOp::ADD) r.v.push_back(wide(c.allReduce<T, std::plus>(sp, "t")));
      else r.v.push_back(wide(c.allReduce<T, std::bit_xor>(sp, "t")));
      break;
    case VBcast: r.v.push_back(wide(c.bcast<T>(sp, s.root, "t"))); break;
    default: for (auto& x : c.gather<T>(sp, s.root, "t")) r.v.push_back(wide(x));
  }
}
std::vector<Res> execute(const std::vector<Step>& prog, Communicator& c, size_t me, uint64_t chaos) {
  sim::parallel_chaos = chaos;
  std::vector<Res> out;
  for (const auto& s : prog) {
    Res r;
    auto st0 = c.getStats();
    auto sent0 = c.lctx()->GetStats()->sent_bytes.load();
    auto note = [&](const NdArrayRef& a, const Shape& sh) { r.ok = r.ok && a.shape() == sh && a.eltype() == s.ty; r.v.push_back(vals(a)); };
    const auto& x = s.in[me].r;
    switch (s.op) {
      case AllReduce: { auto a = c.allReduce(s.red, x, "t"); r.ok = a.buf() != x.buf(); note(a, s.sh); break; }
      case Reduce: { auto a = c.reduce(s.red, x, s.root, "t"); if (me == s.root) note(a, s.sh); break; }
      case Rotate: note(c.rotate(x, "t"), s.sh); break;
      case Gather: { auto v = c.gather(x, s.root, "t"); if (me == s.root) for (auto& a : v) note(a, s.sh); r.ok = r.ok && v.size() == c.getWorldSize(); break; }
      case Bcast: note(c.broadcast(x, s.root, s.ty, s.sh, "t"), s.sh); break;
      case SendRecv:
        if (me == s.root) c.sendAsync(s.to, x, "t");
        if (me == s.to) note(c.recv(s.root, s.ty, "t"), {s.sh.numel()});
        break;
      default:
        if (s.w == 4) typed<uint32_t>(s, c, me, r);
        else if (s.w == 8) typed<uint64_t>(s, c, me, r);
        else typed<uint128_t>(s, c, me, r);
    }
    auto d = c.getStats() - st0;
    r.lat = d.latency;
    r.comm = d.comm;
    r.sent = c.lctx()->GetStats()->sent_bytes.load() - sent0;
    r.untouched = s.in[me].untouched();
    out.push_back(std::move(r));
  }
  return out;
}
}  // namespace
PBT(C13, programs, 12000, 160000, "at least three steps on at least two sub-channels or three parties") {
  size_t n = 2 + g.u(g.p(0.5) ? 4 : 1);
  size_t chans = 1 + g.u(2), nest = g.u(1);
  bool concurrent = g.p(0.6);
  std::vector<std::vector<Step>> prog(chans);
  std::string txt;
  size_t steps = 0;
  for (size_t ch = 0; ch < chans; ++ch) {
    auto len = 1 + g.u(5);
    txt += fmt::format(" channel {}:", ch);
    for (size_t i = 0; i < len; ++i) {
      Step s;
      s.op = static_cast<Op>(g.u(kOps - 1));
      s.red = g.p() ? ReduceOp::ADD : ReduceOp::XOR;
      auto f = g.of({FM32, FM64, FM128});
      s.w = static_cast<int>(SizeOf(f));
      s.gf = s.op == AllReduce || s.op == Reduce ? g.p(0.3) : g.p(0.1);
      if (s.gf) s.red = ReduceOp::ADD;
      s.ty = s.gf ? makeType<GfmpTy>(f) : makeType<RingTy>(f);
      s.sh = gshape(g, 3, 5, 40);
      s.root = g.u(n - 1);
      s.to = (s.root + 1 + g.u(n - 2)) % n;
      for (size_t p = 0; p < n; ++p)
        s.in.push_back(arr(g, s.ty, s.sh, false, [&] { u128 v = g.bits(8 * s.w); return s.gf ? (v & prime(s.w)) % prime(s.w) : v; }));
      txt += fmt::format(" {}{}{}[{}]{}", kNames[s.op], 8 * s.w, s.gf ? "p" : "", fmt::join(s.sh, "x"), s.root);
      g.tag(kNames[s.op]);
      prog[ch].push_back(std::move(s));
      ++steps;
    }
  }
  uint64_t chaos = g.p(0.4) ? (g.seed() | 1) : 0;
  g.say("{} parties{}{}{}", n, concurrent ? " concurrent" : "", nest ? " nested" : "", txt);
  g.nontrivial(steps >= 3 && (chans >= 2 || n >= 3));
  auto world = std::make_shared<sim::World>(n);
  auto out = hz::parties<std::vector<std::vector<Res>>>(world, g.seed(), [&](size_t me, const hz::Lctx& lctx) {
    std::vector<std::unique_ptr<State>> keep;
    auto root = std::make_unique<Communicator>(lctx);
    std::vector<Communicator*> comms{root.get()};
    for (size_t ch = 1; ch < chans; ++ch) {
      // forks of the root or of a fork
      auto* from = nest ? comms.back() : comms.front();
      keep.push_back(from->fork());
      comms.push_back(dynamic_cast<Communicator*>(keep.back().get()));
    }
    std::vector<std::vector<Res>> r(chans);
    if (!concurrent) {
      for (size_t ch = 0; ch < chans; ++ch) r[ch] = execute(prog[ch], *comms[ch], me, chaos);
    } else {
      std::vector<std::thread> ts;
      std::vector<std::string> err(chans);
      for (size_t k = 0; k < chans; ++k) {
        auto ch = (k + me) % chans;  // parties start the channels in different orders
        ts.emplace_back([&, ch] {
          try { r[ch] = execute(prog[ch], *comms[ch], me, chaos); } catch (const std::exception& e) { err[ch] = e.what(); world->Abort(e.what()); }
        });
      }
      for (auto& t : ts) t.join();
      for (auto& e : err) if (!e.empty()) throw std::runtime_error(e);
    }
    return r;
  });
  REQUIRE(world->leftover() == 0, "{} messages were never received", world->leftover());
  for (size_t ch = 0; ch < chans; ++ch)
    for (size_t i = 0; i < prog[ch].size(); ++i) {
      const auto& s = prog[ch][i];
      size_t numel = s.in[0].v.size(), bytes = numel * s.w;
      auto reduce = [&] {
        std::vector<u128> t(numel, 0);
        for (auto& a : s.in)
          for (size_t k = 0; k < numel; ++k) {
            if (s.red == ReduceOp::XOR) t[k] ^= a.v[k];
            else if (s.gf && s.op < VRotate) { u128 p = prime(s.w); t[k] = t[k] >= p - a.v[k] ? t[k] - (p - a.v[k]) : t[k] + a.v[k]; }
            else t[k] = (t[k] + a.v[k]) & mask(s.w);
          }
        return t;
      };
      for (size_t me = 0; me < n; ++me) {
        const auto& r = out[me][ch][i];
        std::vector<std::vector<u128>> want;
        bool root = me == s.root;
        size_t lat = 1, comm = bytes;
        bool exact = true;  // the counter equals what this party really sent
        switch (s.op) {
          case AllReduce: case VAllReduce: want.push_back(reduce()); comm = bytes * (n - 1); break;
          case Reduce: if (root) want.push_back(reduce()); exact = !root; break;
          case Rotate: case VRotate: want.push_back(s.in[(me + 1) % n].v); break;
          case Gather: case VGather: if (root) for (auto& a : s.in) want.push_back(a.v); exact = !root; break;
          case Bcast: case VBcast: want.push_back(s.in[s.root].v); exact = false; break;
          case SendRecv: case VSend: if (me == s.to) want.push_back(s.in[s.root].v); lat = 0; comm = 0; exact = false; break;
          default: break;
        }
        auto where = fmt::format("channel {} step {} ({}) party {}", ch, i, kNames[s.op], me);
        REQUIRE(r.ok, "{}: shape or type of the result", where);
        REQUIRE(r.v.size() == want.size(), "{}: {} results instead of {}", where, r.v.size(), want.size());
        for (size_t k = 0; k < want.size(); ++k) {
          auto d = diff(r.v[k], want[k]);
          REQUIRE(d.empty(), "{}: {}", where, d);
        }
        REQUIRE(r.untouched, "{}: the input changed", where);
        REQUIRE(r.lat == lat && r.comm == comm, "{}: counted latency {} and {} bytes instead of {} and {}", where, r.lat, r.comm, lat, comm);
        if (exact) REQUIRE(r.sent == comm, "{}: {} bytes sent, {} counted", where, r.sent, comm);
      }
    }
}
