// User-level tensors of any data type, visibility and memory layout, and the
// execution of kernel-level functions over them by all parties.
#pragma once
#include "prog.h"
#include "libspu/kernel/hal/constants.h"
#include "libspu/kernel/hal/polymorphic.h"
#include "libspu/kernel/hal/public_helper.h"
#include "libspu/kernel/hal/type_cast.h"
#include "libspu/kernel/hlo/basic_binary.h"
#include "libspu/kernel/hlo/basic_ternary.h"
#include "libspu/kernel/hlo/basic_unary.h"
#include "libspu/kernel/hlo/casting.h"
namespace kn {
using namespace prog;
namespace hlo = spu::kernel::hlo;
inline i128 one(int s) { return static_cast<i128>(1) << s; }
inline bool uns(DataType d) { return d == DT_I1 || d == DT_U8 || d == DT_U16 || d == DT_U32 || d == DT_U64; }
inline bool real(DataType d) { return d == DT_F16 || d == DT_F32 || d == DT_F64; }
inline int width(DataType d) {
  switch (d) {
    case DT_I1: return 1;
    case DT_I8: case DT_U8: return 8;
    case DT_I16: case DT_U16: case DT_F16: return 16;
    case DT_I32: case DT_U32: case DT_F32: return 32;
    default: return 64;
  }
}
inline const std::vector<DataType> kInts{DT_I1, DT_I8, DT_U8, DT_I16, DT_U16, DT_I32, DT_U32, DT_I64, DT_U64};
inline const std::vector<DataType> kReals{DT_F16, DT_F32, DT_F64};
// the value of a ring element of an integer type: the type's low bits
inline i128 as_int(u128 raw, DataType d) {
  int w = width(d);
  u128 v = raw & ((static_cast<u128>(1) << w) - 1);
  if (!uns(d) && (v >> (w - 1)) & 1) return static_cast<i128>(v) - one(w);
  return static_cast<i128>(v);
}
// smallest and largest value of the type that a signed ring of k bits can order
inline i128 lo_of(DataType d, int k) { return uns(d) ? 0 : -one(std::min(width(d), k) - 1); }
inline i128 hi_of(DataType d, int k) { return uns(d) ? one(std::min(width(d), k - 1)) - 1 : one(std::min(width(d), k) - 1) - 1; }

enum How { kPlain, kPriv, kViaPub, kViaPriv, kBShare, kBit, kViewS, kFewBits, kHows };
struct Tn {
  DataType dt = DT_I32;
  Shape sh;
  char vis = 'P';      // P V S
  size_t owner = 0;
  int how = 0, view = 0;
  Arr raw;
  std::vector<i128> v;  // signed numbers: integers, or reals times 2^fxp
  std::string show() const {
    std::string s = fmt::format("{}{}", static_cast<int>(dt), vis);
    if (vis == 'V') s += std::to_string(owner);
    if (vis == 'S') s += fmt::format("/{}", how);
    if (view) s += fmt::format("~{}", view);
    s += lay::show(raw) + "{";
    for (size_t i = 0; i < v.size() && i < 5; ++i) s += (i ? "," : "") + strs(v[i]);
    return s + (v.size() > 5 ? ",..}" : "}");
  }
};
// val() yields the signed number of each element
template <class F>
Tn tensor(Gen& g, const Env& e, DataType dt, const Shape& sh, char vis, F&& val) {
  Tn t;
  t.dt = dt; t.sh = sh; t.vis = vis;
  t.owner = g.u(e.n - 1);
  t.raw = arr(g, makeType<mpc::Pub2kTy>(e.field), sh, false, [&]() -> u128 { return static_cast<u128>(static_cast<i128>(val())) & e.mask; });
  for (auto x : t.raw.v) t.v.push_back(uns(dt) && width(dt) <= e.k ? as_int(x, dt) : e.sgn(x));
  t.how = static_cast<int>(g.u(5));
  t.view = g.p(0.3) ? static_cast<int>(1 + g.u(2)) : 0;
  return t;
}
inline char gvis(Gen& g, int ps = 60) { return g.u(99) < static_cast<uint64_t>(ps) ? 'S' : g.p() ? 'P' : 'V'; }
inline bool bits_only(const Tn& t) { for (auto x : t.v) if (x != 0 && x != 1) return false; return true; }
inline Value put_as(const Env& e, SPUContext* ctx, const Tn& t, size_t me) {
  if (t.vis == 'P') return pub(e, t.raw.r, t.dt);
  auto V = [&] { return priv(e, t.raw.r, t.dt, t.owner, me); };
  if (t.vis == 'V') return V();
  bool safe = !(e.proto == kSpdz2k && (t.sh.size() == 0));
  switch (t.how) {
    case 1: return hal::_v2s(ctx, V()).setDtype(t.dt);
    case 2: {
      auto s = hal::_p2s(ctx, pub(e, t.raw.r, t.dt)).setDtype(t.dt);
      return safe ? hal::_prefer_b(ctx, s) : s;
    }
    case 3: {
      // a bit that comes out of a comparison is a boolean share of one bit
      bool bit = t.dt == DT_I1;
      if (!bit) return hal::_v2s(ctx, V()).setDtype(t.dt);
      auto s = hal::_p2s(ctx, pub(e, t.raw.r, t.dt)).setDtype(t.dt);
      return hal::equal(ctx, s, hal::constant(ctx, static_cast<uint8_t>(1), DT_I1, t.sh));
    }
    case 4: {
      Axes ax;
      for (size_t i = 0; i < t.sh.size(); ++i) ax.push_back(static_cast<int64_t>(t.sh.size() - 1 - i));
      auto s = hal::_p2s(ctx, hal::_transpose(ctx, pub(e, t.raw.r, t.dt), ax));
      return hal::_transpose(ctx, s, ax).setDtype(t.dt, true);
    }
    case 5: {  // a number masked to few bits is a boolean share of that many bits
      auto s = hal::_p2s(ctx, pub(e, t.raw.r, t.dt)).setDtype(t.dt);
      u128 all = 0;
      for (auto x : t.raw.v) all |= x;
      if (!safe || e.proto == kSpdz2k || t.raw.v.empty() || (all >> (e.k - 1)) & 1) return s;
      u128 m = 1;
      while (m < all) m = 2 * m + 1;
      return hal::_and(ctx, s, hal::_constant(ctx, m, t.sh)).setDtype(t.dt, true);
    }
    default: return hal::_p2s(ctx, pub(e, t.raw.r, t.dt)).setDtype(t.dt);
  }
}
inline Value put(const Env& e, SPUContext* ctx, const Tn& t, size_t me) { return odd(put_as(e, ctx, t, me), t.vis == 'S' ? t.view : 0); }
struct Res {
  DataType dt = DT_INVALID;
  Shape sh;
  char vis = 'P';
  int64_t owner = -1;
  std::vector<u128> raw;
};
struct Opt { bool may_reveal = false; bool may_throw = false; bool keep_inputs = true; };
inline Res get(SPUContext* ctx, const Value& v) {
  Res r;
  r.dt = v.dtype();
  r.sh = v.shape();
  r.vis = v.isPublic() ? 'P' : v.isPrivate() ? 'V' : 'S';
  r.owner = v.owner();
  auto p = v.isPublic() ? v : hal::reveal(ctx, v);
  if (p.dtype() != v.dtype()) throw Violation("revealing changed the data type");
  if (p.shape() != v.shape()) throw Violation(fmt::format("revealing changed the shape {} to {}", v.shape(), p.shape()));
  if (v.numel() == 0) return r;
  r.raw = vals(p.data());
  return r;
}
// fn(ctx, inputs) -> outputs
template <class F>
std::vector<Res> exec(const Env& e, const std::vector<Tn>& ins, F&& fn, const std::shared_ptr<sim::World>& w, Opt opt = {}) {
  struct Out { std::vector<Res> r; std::vector<std::vector<u128>> in; };
  auto out = pr::run<Out>(e, w, [&](size_t me, SPUContext* ctx) {
    std::vector<Value> vs;
    for (auto& t : ins) vs.push_back(put(e, ctx, t, me));
    auto keep = vs;
    Out o;
    for (auto& v : fn(ctx, vs)) o.r.push_back(get(ctx, v));
    if (opt.keep_inputs) for (auto& v : keep) o.in.push_back(get(ctx, v).raw);
    return o;
  });
  bool sec = false, prv = false;
  for (auto& t : ins) { sec = sec || t.vis == 'S'; prv = prv || t.vis == 'V'; }
  for (size_t p = 0; p < out.size(); ++p) {
    auto& o = out[p];
    REQUIRE(o.r.size() == out[0].r.size(), "parties disagree on the number of results");
    for (size_t i = 0; i < o.r.size(); ++i) {
      auto &a = o.r[i], &b = out[0].r[i];
      REQUIRE(a.dt == b.dt && a.sh == b.sh && a.vis == b.vis && a.raw == b.raw, "{}: parties disagree on result {}: {}", e.show(), i, diff(a.raw, b.raw));
      if (!opt.may_reveal) {
        REQUIRE(!sec || a.vis == 'S', "{}: result {} of a secret input is {}", e.show(), i, a.vis);
        REQUIRE(!prv || a.vis != 'P', "{}: result {} of a private input is public", e.show(), i);
      }
    }
    if (opt.keep_inputs)
      for (size_t i = 0; i < ins.size(); ++i) {
        if (ins[i].raw.v.empty()) continue;
        auto d = diff(o.in[i], ins[i].raw.v);
        REQUIRE(d.empty(), "{}: input {} changed: {}", e.show(), i, d);
      }
  }
  for (size_t i = 0; i < ins.size(); ++i) REQUIRE(ins[i].raw.untouched(), "{}: the memory of input {} changed", e.show(), i);
  return out[0].r;
}
template <class F>
std::vector<Res> exec(const Env& e, const std::vector<Tn>& ins, F&& fn, Opt opt = {}) {
  return exec(e, ins, std::forward<F>(fn), std::make_shared<sim::World>(e.n), opt);
}
inline double fxp(const Env& e) { RuntimeConfig c = e.cfg; populateRuntimeConfig(c); return static_cast<double>(c.fxp_fraction_bits); }
}  // namespace kn
