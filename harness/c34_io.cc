// Client and co-located input/output against the plaintext, and the symbol table against a map.
#include <map>
#include "kern.h"
#include "libspu/device/io.h"
#include "libspu/device/symbol_table.h"
#include "libspu/kernel/hal/shape_ops.h"
#include "libspu/mpc/spdz2k/io.h"
using namespace kn;
using namespace spu::device;
namespace {
const std::vector<int> kClient{kRef2k, kSemi2k, kSemi2k, kAby3, kAby3, kSecurenn, kSwift, kCheetah};  // those the factory knows
const std::vector<PtType> kPts{PT_I1, PT_I1, PT_I8, PT_U8, PT_I16, PT_U16, PT_I32, PT_U32, PT_I64, PT_U64, PT_F16, PT_F32, PT_F32, PT_F64, PT_CF32, PT_CF64};
const char* nm(PtType t) {
  switch (t) {
    case PT_I1: return "I1"; case PT_I8: return "I8"; case PT_U8: return "U8"; case PT_I16: return "I16"; case PT_U16: return "U16";
    case PT_I32: return "I32"; case PT_U32: return "U32"; case PT_I64: return "I64"; case PT_U64: return "U64"; case PT_F16: return "F16";
    case PT_F32: return "F32"; case PT_F64: return "F64"; case PT_CF32: return "CF32"; default: return "CF64";
  }
}
bool cplx(PtType t) { return t == PT_CF32 || t == PT_CF64; }
bool flt(PtType t) { return t == PT_F16 || t == PT_F32 || t == PT_F64 || cplx(t); }
DataType dt_of(PtType t) {
  switch (t) {
    case PT_I1: return DT_I1; case PT_I8: return DT_I8; case PT_U8: return DT_U8; case PT_I16: return DT_I16; case PT_U16: return DT_U16;
    case PT_I32: return DT_I32; case PT_U32: return DT_U32; case PT_I64: return DT_I64; case PT_U64: return DT_U64; case PT_F16: return DT_F16;
    case PT_F32: case PT_CF32: return DT_F32; default: return DT_F64;
  }
}
// bit pattern of a float of the type that is a whole number of fixed-point units within the range
u128 number(Gen& g, PtType t, int k, int f) {
  int sig = t == PT_F16 ? 11 : t == PT_F32 || t == PT_CF32 ? 24 : 50;
  int top = std::min(k - 3, f + (t == PT_F16 ? 15 : 100));
  int lowest = t == PT_F16 ? std::max(0, f - 14) : 0;
  int bits = static_cast<int>(g.u(std::min(sig, top - lowest)));
  double m = bits == 0 ? 0 : static_cast<double>(static_cast<uint64_t>(g.wide()) >> (64 - bits));
  double x = std::ldexp(m, lowest + static_cast<int>(g.u(std::max(0, top - lowest - bits))) - f);
  if (g.p(0.4)) x = -x;
  if (x == 0) x = 0.0;
  if (t == PT_F16) { auto h = static_cast<half_float::half>(static_cast<float>(x)); u128 o = 0; memcpy(&o, &h, 2); return o; }
  if (t == PT_F32 || t == PT_CF32) { auto h = static_cast<float>(x); u128 o = 0; memcpy(&o, &h, 4); return o; }
  u128 o = 0; memcpy(&o, &x, 8);
  return o;
}
u128 item(Gen& g, PtType t, int k, int f) {
  if (t == PT_I1) return g.u(1);
  if (cplx(t)) { u128 re = number(g, t, k, f), im = number(g, t, k, f); return re | (im << (t == PT_CF32 ? 32 : 64)); }
  if (flt(t)) return number(g, t, k, f);
  return g.bits(static_cast<int>(SizeOf(t)) * 8);
}
PtType gpt(Gen& g, int k) {
  auto t = g.of(kPts);
  if (k == 32 && (t == PT_I64 || t == PT_U64)) t = PT_I32;
  return t;
}
struct Data { PtType t = PT_I32; Arr a; PtBufferView view() const { return PtBufferView(a.r.data(), t, a.r.shape(), a.r.strides()); } };
Data data(Gen& g, const Env& e, PtType t, const Shape& sh) {
  Data d;
  d.t = t;
  int f = static_cast<int>(fxp(e));
  d.a = arr(g, makePtType(t), sh, false, [&] { return item(g, t, e.k, f); });
  return d;
}
RuntimeConfig full(const Env& e) { RuntimeConfig c = e.cfg; populateRuntimeConfig(c); return c; }
// combine into a buffer of its own layout; nothing but the elements may be written
std::vector<u128> combine(Gen& g, const Env& e, IoClient& io, const std::vector<Value>& shares, PtType want) {
  auto t = io.getPtType(shares);
  REQUIRE(t == want, "{}: combined type {} instead of {}", e.show(), nm(t), nm(want));
  auto out = arr(g, makePtType(t), shares[0].shape(), true, [&] { return t == PT_I1 ? static_cast<u128>(g.u(1)) : g.wide(); });
  auto keep = out.snap;
  PtBufferView v(out.r.data(), t, out.r.shape(), out.r.strides());
  io.combineShares(shares, &v);
  REQUIRE(out.only_elements(), "{}: combining wrote outside the output array {}", e.show(), lay::show(out));
  return vals(out.r);
}
size_t part(Gen& g) { return g.of<size_t>({1, 3, 7, 16, 64, 1000, 1 << 20}); }
// the wire form of a share
Value wire(Gen& g, const Env& e, const Value& v, const IoClient* = nullptr, int64_t expect = -1) {
  auto m = part(g);
  if (v.numel() * static_cast<int64_t>(v.elsize()) > 3000) m = std::max<size_t>(m, 64);
  auto p = v.toProto(m);
  REQUIRE(p.chunks.size() == v.chunksCount(m), "{}: {} chunks, {} announced", e.show(), p.chunks.size(), v.chunksCount(m));
  size_t total = 0;
  for (auto& c : p.chunks) { REQUIRE(c.content().size() <= m && !c.content().empty(), "{}: chunk of {} bytes, limit {}", e.show(), c.content().size(), m); total += c.content().size(); }
  if (expect >= 0) REQUIRE(total == static_cast<size_t>(expect), "{}: share of {} bytes, {} announced", e.show(), total, expect);
  return Value::fromProto(p);
}
}  // namespace

PBT(C34, client, 6000, 120000, "secret data of at least two elements that are not all the same") {
  auto e = genv(g, kClient);
  if (e.proto == kRef2k || e.proto == kSemi2k) e.n = 1 + g.u(6) + (e.proto == kSemi2k);
  if (g.p(0.4)) e.cfg.fxp_fraction_bits = 1 + g.u(e.k / 2 - 6);
  auto t = gpt(g, e.k);
  auto sh = gshape(g, 4, 6, 100);
  auto vis = g.p(0.7) ? VIS_SECRET : VIS_PUBLIC;
  int owner = g.p(0.5) ? -1 : static_cast<int>(g.u(e.n - 1));
  auto d = data(g, e, t, sh);
  g.say("f={} {} {} owner {} col {} {}", static_cast<int>(fxp(e)), nm(t), vis == VIS_SECRET ? "secret" : "public", owner, e.cfg.experimental_enable_colocated_optimization, lay::show(d.a));
  g.tag(nm(t));
  IoClient io(e.n, full(e));
  auto size = io.getShareSize(d.view(), vis, owner);
  auto shares = io.makeShares(d.view(), vis, owner);
  REQUIRE(shares.size() == e.n, "{}: {} shares", e.show(), shares.size());
  REQUIRE(d.a.untouched(), "{}: the input changed", e.show());
  bool priv = vis == VIS_SECRET && owner >= 0 && e.cfg.experimental_enable_colocated_optimization && e.proto != kRef2k && !(t == PT_I1 && e.proto == kAby3);
  std::vector<Value> got;
  for (size_t i = 0; i < e.n; ++i) {
    auto& s = shares[i];
    REQUIRE(s.shape() == sh && s.dtype() == dt_of(t) && s.isComplex() == cplx(t), "{}: share {} of shape {} type {}", e.show(), i, s.shape(), static_cast<int>(s.dtype()));
    REQUIRE(s.isPublic() == (vis == VIS_PUBLIC) && s.isPrivate() == priv, "{}: share {} is {}", e.show(), i, s.isPublic() ? "public" : s.isPrivate() ? "private" : "secret");
    if (priv) REQUIRE(s.owner() == owner, "{}: share {} is owned by {}", e.show(), i, s.owner());
    if (priv && static_cast<int>(i) != owner) for (auto x : vals(s.data())) REQUIRE(x == 0, "{}: party {} holds data of party {}", e.show(), i, owner);
    got.push_back(g.p(0.7) ? wire(g, e, s, &io, static_cast<int64_t>(size)) : s);
    REQUIRE(got.back().storage_type() == s.storage_type(), "{}: type {} of share {} became {}", e.show(), s.storage_type(), i, got.back().storage_type());
  }
  auto r = combine(g, e, io, got, t);
  auto df = diff(r, d.a.v);
  REQUIRE(df.empty(), "{}: {} {}", e.show(), nm(t), df);
  g.nontrivial(vis == VIS_SECRET && std::set<u128>(d.a.v.begin(), d.a.v.end()).size() >= 2);
}
PBT(C34, ring, 5000, 100000, "a secret of at least two different ring elements") {
  auto e = genv(g);
  if (e.proto == kRef2k || e.proto == kSemi2k) e.n = 1 + g.u(6) + (e.proto == kSemi2k);
  auto vis = g.p(0.7) ? VIS_SECRET : VIS_PUBLIC;
  int owner = g.p(0.6) || e.proto == kSpdz2k ? -1 : static_cast<int>(g.u(e.n - 1));
  auto x = arr(g, makeType<RingTy>(e.field), gshape(g, 4, 6, 100), false, [&] { return elem(g, e); });
  g.say("{} {} {}", vis == VIS_SECRET ? "secret" : "public", owner, lay::show(x));
  std::unique_ptr<mpc::IoInterface> io;
  if (e.proto == kSpdz2k) io = mpc::spdz2k::makeSpdz2kIo(e.field, e.n);
  else io = mpc::Factory::CreateIO(full(e), e.n);
  auto s = io->toShares(x.r, vis, owner);
  REQUIRE(s.size() == e.n, "{}: {} shares", e.show(), s.size());
  for (auto& y : s) REQUIRE(y.shape() == x.r.shape() && y.eltype() == io->getShareType(vis, owner), "{}: share of shape {} type {} instead of {}", e.show(), y.shape(), y.eltype(), io->getShareType(vis, owner));
  auto r = io->fromShares(s);
  REQUIRE(r.shape() == x.r.shape() && r.eltype().isa<Ring2k>() && r.eltype().as<Ring2k>()->field() == e.field, "{}: combined to {} {}", e.show(), r.shape(), r.eltype());
  auto df = diff(vals(r), x.v);
  REQUIRE(df.empty(), "{}: {}", e.show(), df);
  REQUIRE(x.untouched(), "{}: the input changed", e.show());
  g.nontrivial(vis == VIS_SECRET && std::set<u128>(x.v.begin(), x.v.end()).size() >= 2);
}
namespace {
struct Two { std::vector<Value> v; };
}  // namespace
// upload, compute on the parties, download
PBT(C34, device, 2500, 50000, "a secret result of at least two elements that are not all the same") {
  auto e = genv(g, kClient);
  auto t = gpt(g, e.k);
  if (cplx(t) || t == PT_U64) t = PT_I32;
  auto sh = gshape(g, 3, 5, 60);
  auto vis = g.p(0.85) ? VIS_SECRET : VIS_PUBLIC;
  int owner = g.p(0.6) ? -1 : static_cast<int>(g.u(e.n - 1));
  auto d = data(g, e, t, sh);
  auto dt = dt_of(t);
  int op = static_cast<int>(g.u(7));
  bool view = g.p();  // as the kernels do for large tensors
  if (flt(t) && op == 5) op = 1;
  if (op == 3 && t != PT_I1) op = 4;
  g.say("{} {} owner {} col {} op {} {}", nm(t), vis == VIS_SECRET ? "secret" : "public", owner, e.cfg.experimental_enable_colocated_optimization, op, lay::show(d.a));
  auto& x = d.a.v;
  auto want = x;
  auto wt = t;
  Axes ax;
  for (size_t i = 0; i < sh.size(); ++i) ax.push_back(static_cast<int64_t>(sh.size() - 1 - i));
  Index from(sh.size(), 0), to(sh.begin(), sh.end());
  Strides step(sh.size(), 1);
  auto rsh = sh;
  auto at = [&](auto&& src) {  // src(index of the result) -> index of the input
    want.clear();
    int64_t n = 1;
    for (auto q : rsh) n *= q;
    for (int64_t i = 0; i < n; ++i) {
      Index ix(rsh.size(), 0);
      int64_t r = i;
      for (size_t k = rsh.size(); k-- > 0;) { ix[k] = r % rsh[k]; r /= rsh[k]; }
      auto jx = src(ix);
      int64_t o = 0;
      for (size_t k = 0; k < sh.size(); ++k) o = o * sh[k] + jx[k];
      want.push_back(x[o]);
    }
  };
  switch (op) {
    case 1:
      rsh = Shape(sh.rbegin(), sh.rend());
      at([&](const Index& i) { return Index(i.rbegin(), i.rend()); });
      break;
    case 2:
      for (size_t i = 0; i < sh.size(); ++i) if (sh[i] > 0) { from[i] = static_cast<int64_t>(g.u(sh[i] - 1)); to[i] = from[i] + 1 + static_cast<int64_t>(g.u(sh[i] - from[i] - 1)); step[i] = 1 + static_cast<int64_t>(g.u(2)); rsh[i] = (to[i] - from[i] + step[i] - 1) / step[i]; }
      at([&](const Index& i) { Index j = i; for (size_t k = 0; k < j.size(); ++k) j[k] = from[k] + i[k] * step[k]; return j; });
      break;
    case 3: for (auto& q : want) q = 1 - q; break;
    case 5: {
      u128 m = (static_cast<u128>(1) << (SizeOf(t) * 8)) - 1;
      if (SizeOf(t) == 16) m = ~static_cast<u128>(0);
      if (t == PT_I1) { op = 0; break; }
      for (auto& q : want) q = q & 5 & m;
      break;
    }
    case 6: at([&](const Index& i) { Index j = i; for (size_t k = 0; k < j.size(); ++k) j[k] = sh[k] - 1 - i[k]; return j; }); break;
    case 7:
      rsh.insert(rsh.begin(), static_cast<int64_t>(1 + g.u(3)));
      at([&](const Index& i) { return Index(i.begin() + 1, i.end()); });
      break;
    default: break;
  }
  auto io = std::make_shared<IoClient>(e.n, full(e));
  auto shares = io->makeShares(d.view(), vis, owner);
  for (auto& s : shares) s = wire(g, e, s);
  auto w = std::make_shared<sim::World>(e.n);
  std::vector<Value> res(e.n);
  sim::parallel_chaos = e.chaos;
  hz::parties<int>(w, e.seed, [&](size_t me, const hz::Lctx& l) {
    auto ctx = pr::make(e, l);
    SymbolTable st;
    st.setVar("x", shares[me]);
    auto v = st.getVar("x");
    auto* c = ctx.get();
    switch (op) {
      case 1: v = view ? Value(v.data().transpose(ax), dt) : hal::transpose(c, v, ax); break;
      case 2: v = view ? Value(v.data().slice(from, to, step), dt) : hal::slice(c, v, from, to, step); break;
      case 3: v = hlo::Not(c, v); break;
      case 4: v = hal::_prefer_b(c, v).setDtype(dt, true); break;
      case 5: v = hlo::And(c, v, hal::_constant(c, 5, v.shape()).setDtype(dt, true)); break;
      case 6: v = hal::reverse(c, v, ax); break;
      case 7: v = hal::broadcast_to(c, v, rsh); break;
      default: break;
    }
    st.setVar("y", v);
    res[me] = st.getVar("y");
    return 0;
  });
  sim::parallel_chaos = 0;
  bool ser = g.p(0.5);
  for (auto& v : res) {
    REQUIRE(v.storage_type() == res[0].storage_type() && v.dtype() == dt, "{}: result types {} and {}", e.show(), v.storage_type(), res[0].storage_type());
    REQUIRE(v.shape() == rsh, "{}: result shape {}", e.show(), v.shape());
    if (ser) v = wire(g, e, v);
  }
  auto r = combine(g, e, *io, res, wt);
  auto df = diff(r, want);
  REQUIRE(df.empty(), "{}: {} op {} {} {}", e.show(), nm(t), op, ser ? "by wire" : "in memory", df);
  g.nontrivial(vis == VIS_SECRET && std::set<u128>(want.begin(), want.end()).size() >= 2);
}
// histories of host and device accesses around synchronizations
PBT(C34, colocated, 2500, 50000, "two parties provide data") {
  auto e = genv(g, kClient);
  e.n = e.proto == kRef2k || e.proto == kSemi2k ? 2 + g.u(2) : e.n;
  struct Set { size_t party; std::string name; Data d; Visibility vis; };
  std::vector<std::vector<Set>> rounds(1 + g.u(2));
  std::set<size_t> givers;
  const std::vector<std::string> names{"x", "y", "z", "a longer name with \n and \xc3\xa9", std::string("nul\0byte", 8), "0"};
  bool clash = g.p(0.06);
  for (auto& r : rounds) {
    std::map<std::string, size_t> who;
    size_t k = g.u(5);
    for (size_t i = 0; i < k; ++i) {
      auto name = g.of(names);
      size_t p = g.u(e.n - 1);
      if (!clash && who.count(name)) p = who[name];
      who[name] = p;
      givers.insert(p);
      auto t = gpt(g, e.k);
      if (cplx(t)) t = PT_F32;  // refused by hostSetVar
      r.push_back({p, name, data(g, e, t, gshape(g, 3, 4, 24)), g.p(0.6) ? VIS_SECRET : VIS_PUBLIC});
      g.say("p{}:{}{}{}", p, name, nm(t), lay::show(r.back().d.a));
    }
    g.say("|");
  }
  // does a round give one name by two parties
  size_t dup = rounds.size();
  for (size_t i = 0; i < rounds.size() && dup == rounds.size(); ++i) {
    std::map<std::string, std::set<size_t>> by;
    for (auto& s : rounds[i]) by[s.name].insert(s.party);
    for (auto& [_, ps] : by) if (ps.size() > 1) dup = i;
  }
  auto w = std::make_shared<sim::World>(e.n);
  using M = std::map<std::string, const Set*>;
  auto out = hz::parties<int>(w, e.seed, [&](size_t me, const hz::Lctx& l) {
    auto ctx = pr::make(e, l);
    ColocatedIo io(ctx.get());
    M all;
    auto pt_vals = [](const NdArrayRef& a) { return vals(a); };
    for (size_t ri = 0; ri < rounds.size(); ++ri) {
      M mine;
      for (auto& s : rounds[ri]) if (s.party == me) {
        io.hostSetVar(s.name, s.d.view(), s.vis);
        mine[s.name] = &s;
        auto back = io.hostGetVar(s.name);
        REQUIRE(back.eltype() == makePtType(s.d.t) && back.shape() == s.d.a.r.shape(), "host variable came back as {}{}", back.eltype(), back.shape());
        auto df = diff(pt_vals(back), s.d.a.v);
        REQUIRE(df.empty(), "host variable {}", df);
      }
      // not visible before the synchronization
      for (auto& n : names) REQUIRE(io.deviceHasVar(n) == (all.count(n) != 0), "before sync {} is {}", n, io.deviceHasVar(n));
      if (ri == dup) {
        bool threw = false;
        try { io.sync(); } catch (const std::exception&) { threw = true; }
        REQUIRE(threw, "a name given by two parties was accepted");
        return 0;
      }
      io.sync();
      for (auto& s : rounds[ri]) all[s.name] = &s;
      for (auto& n : names) {
        REQUIRE(io.deviceHasVar(n) == (all.count(n) != 0), "after sync {} is {}", n, io.deviceHasVar(n));
        if (all.count(n)) continue;
        bool threw = false;
        try { io.deviceGetVar(n); } catch (const std::exception&) { threw = true; }
        REQUIRE(threw, "missing device variable {} was found", n);
        threw = false;
        try { io.hostGetVar(n); } catch (const std::exception&) { threw = true; }
        REQUIRE(threw, "missing host variable {} was found", n);
      }
      for (auto& [n, s] : all) {
        auto v = io.deviceGetVar(n);
        auto t = s->d.t;
        REQUIRE(v.shape() == s->d.a.r.shape() && v.dtype() == dt_of(t) && v.isComplex() == cplx(t), "device variable {} {}", v.shape(), static_cast<int>(v.dtype()));
        REQUIRE(v.isPublic() == (s->vis == VIS_PUBLIC), "visibility of {}", n);
        bool priv = s->vis == VIS_SECRET && e.cfg.experimental_enable_colocated_optimization && e.proto != kRef2k && !(t == PT_I1 && e.proto == kAby3);
        REQUIRE(v.isPrivate() == priv && (!priv || v.owner() == static_cast<int64_t>(s->party)), "{} is private {} of {}", n, v.isPrivate(), v.owner());
        if (cplx(t)) continue;
        auto p = v.isPublic() ? v : hal::reveal(ctx.get(), v);
        auto a = hal::dump_public(ctx.get(), p);
        auto df = diff(pt_vals(a), s->d.a.v);
        REQUIRE(df.empty(), "{} {}: {}", e.show(), nm(t), df);
        if (s->vis == VIS_PUBLIC) {
          auto h = io.hostGetVar(n);
          auto dh = diff(pt_vals(h), s->d.a.v);
          REQUIRE(dh.empty(), "host {} {}: {}", e.show(), nm(t), dh);
        }
        // a variable set by the device replaces the old one
        if (n == "z") {
          io.deviceSetVar("out", p);
          auto h = io.hostGetVar("out");
          auto dh = diff(pt_vals(h), s->d.a.v);
          REQUIRE(dh.empty(), "device to host {} {}: {}", e.show(), nm(t), dh);
        }
      }
    }
    return 0;
  });
  g.nontrivial(givers.size() >= 2);
}
PBT(C34, table, 3000, 60000, "a name set twice") {
  SymbolTable st;
  std::map<std::string, int> m;
  std::map<int, Value> made;
  std::vector<std::string> names;
  int k = 1 + static_cast<int>(g.u(6));
  for (int i = 0; i < k; ++i) { std::string s; auto n = g.u(6); for (uint64_t j = 0; j < n; ++j) s += static_cast<char>(g.u(255)); names.push_back(s); }
  int steps = 1 + static_cast<int>(g.u(40)), next = 0;
  bool twice = false;
  for (int i = 0; i < steps; ++i) {
    auto& n = names[g.u(names.size() - 1)];
    switch (g.u(8)) {
      case 0: case 1: case 2: case 3: {
        auto a = arr(g, makeType<mpc::Pub2kTy>(FM64), gshape(g, 2, 3, 9), false, [&] { return g.wide(); });
        Value v(a.r, DT_I64);
        made[next] = v;
        twice = twice || m.count(n);
        m[n] = next++;
        st.setVar(n, v);
        g.say("set {}", n.size());
        break;
      }
      case 4: st.delVar(n); m.erase(n); g.say("del"); break;
      case 5: if (g.p(0.2)) { st.clear(); m.clear(); g.say("clear"); } break;
      default: {
        REQUIRE(st.hasVar(n) == (m.count(n) != 0), "has {}", st.hasVar(n));
        bool threw = false;
        Value v;
        try { v = st.getVar(n); } catch (const std::exception&) { threw = true; }
        REQUIRE(threw == (m.count(n) == 0), "get threw {}", threw);
        if (!threw) {
          auto& w = made[m[n]];
          REQUIRE(v.shape() == w.shape() && v.dtype() == w.dtype() && v.storage_type() == w.storage_type() && vals(v.data()) == vals(w.data()), "another value came back");
        }
      }
    }
    size_t cnt = 0;
    for (auto& [key, v] : st) { ++cnt; REQUIRE(m.count(key) && vals(v.data()) == vals(made[m[key]].data()), "iteration yields a wrong entry"); }
    REQUIRE(cnt == m.size(), "iteration yields {} of {} entries", cnt, m.size());
  }
  g.nontrivial(twice);
}
