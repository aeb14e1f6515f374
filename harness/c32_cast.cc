// Conversions between data types and visibilities, bit casts, promotion.
#include <algorithm>
#include "kern.h"
#include "libspu/kernel/hal/complex.h"
using namespace kn;
namespace {
std::vector<DataType> all_types(const Env& e) {
  std::vector<DataType> r;
  for (auto d : kInts) if (width(d) <= e.k) r.push_back(d);
  for (auto d : kReals) r.push_back(d);
  return r;
}
const char* nm(DataType d) {
  switch (d) {
    case DT_I1: return "i1"; case DT_I8: return "i8"; case DT_U8: return "u8"; case DT_I16: return "i16"; case DT_U16: return "u16";
    case DT_I32: return "i32"; case DT_U32: return "u32"; case DT_I64: return "i64"; case DT_U64: return "u64";
    case DT_F16: return "f16"; case DT_F32: return "f32"; case DT_F64: return "f64"; default: return "?";
  }
}
bool fits(i128 x, DataType d, int k) {
  if (real(d)) return true;
  return x >= lo_of(d, k) && x <= (uns(d) && width(d) < k ? one(width(d)) - 1 : hi_of(d, k));
}
Shape vsh(Gen& g, const Env& e) {
  Shape sh = gshape(g, 3, 4, 16);
  if (e.proto == kSpdz2k) { for (auto& d : sh) d = std::max<int64_t>(d, 1); if (sh.size() == 0) sh.push_back(2); }
  return sh;
}
// the fraction bits may be anything the ring leaves room for
void gfxp(Gen& g, Env& e) {
  if (!g.p(0.6)) return;
  int top = e.k == 32 ? 14 : e.k == 64 ? 30 : 62;
  e.cfg.fxp_fraction_bits = static_cast<int64_t>(1 + g.u(static_cast<uint64_t>(top - 1)));
  g.say("f={}", e.cfg.fxp_fraction_bits);
}
// a signed number (scaled if real) of the type
i128 num(Gen& g, const Env& e, DataType d, int f, int style) {
  int lim = e.k - 2;
  if (e.proto == kSecurenn || e.proto == kSpdz2k) lim = e.k - 3;
  i128 x;
  if (real(d)) {
    switch (style) {
      case 0: x = static_cast<i128>(g.bits(std::min(lim, f + 8))); break;          // around one
      case 1: x = g.in(-300, 300) * one(f) + g.in(-1, 1); break;                    // whole numbers and their neighbours
      case 2: x = g.in(-3, 3); break;
      default: x = static_cast<i128>(g.bits(lim)) & (one(lim) - 1);
    }
    if (g.p()) x = -x;
    return std::clamp<i128>(x, -(one(lim) - 1), one(lim) - 1);
  }
  switch (style) {
    case 0: x = g.in(-3, 3); break;
    case 1: x = as_int(g.bits(width(d)), d); break;
    case 2: x = g.p() ? hi_of(d, e.k) - static_cast<i128>(g.u(2)) : lo_of(d, e.k) + static_cast<i128>(g.u(2)); break;
    default: x = g.in(-200, 200);
  }
  return std::clamp<i128>(x, lo_of(d, e.k), hi_of(d, e.k));
}
}  // namespace

// a chain of conversions, each of which can represent the number it is given
PBT(C32, chain, 8000, 100000, "at least two conversions, one of them of a secret number or between integers and reals") {
  auto e = genv(g);
  gfxp(g, e);
  int f = static_cast<int>(fxp(e));
  auto sh = vsh(g, e);
  auto types = all_types(e);
  auto d0 = g.of(types);
  int style = static_cast<int>(g.u(3));
  char vis = gvis(g);
  if (vis == 'V' && e.proto == kRef2k) vis = 'S';
  auto t = tensor(g, e, d0, sh, vis, [&] { return num(g, e, d0, f, style); });
  struct Step { DataType d; Visibility v; int fn; };
  std::vector<Step> st;
  auto cur = t.v;  // numbers, scaled when the current type is real
  auto d = d0;
  char cv = vis;
  bool cross = false;
  struct Want { DataType d; char v; std::vector<i128> x; };
  std::vector<Want> want;
  for (int i = 0, n = 1 + static_cast<int>(g.u(4)); i < n; ++i) {
    auto to = g.of(types);
    std::vector<i128> nx = cur;
    bool ok = true;
    for (auto& x : nx) {
      if (real(d) && !real(to)) { i128 q = x / one(f); x = q; ok = ok && fits(q, to, e.k); }
      else if (!real(d) && real(to)) { ok = ok && (x < one(e.k - 4 - f) && x > -one(e.k - 4 - f)); x = x * one(std::min(f, 62)); }
      else if (!real(d)) ok = ok && fits(x, to, e.k);
    }
    bool last = i == n - 1;
    if (!ok) {
      if (!last) continue;
      // the last conversion may wrap: integers keep the low bits of the target
      if (real(to) || (real(d) && uns(to) && width(to) > 32)) { if (want.empty()) throw Discard{}; break; }
      if (to == DT_I1) { if (want.empty()) throw Discard{}; break; }
    }
    Visibility v = g.p(0.6) ? (cv == 'P' ? VIS_PUBLIC : cv == 'S' ? VIS_SECRET : VIS_PRIVATE) : g.p() ? VIS_PUBLIC : VIS_SECRET;
    if (e.proto == kSpdz2k && cv == 'V' && v == VIS_PRIVATE && g.p()) v = VIS_SECRET;
    cross = cross || real(d) != real(to) || cv == 'S';
    st.push_back({to, v, static_cast<int>(g.u(3))});
    cv = v == VIS_PUBLIC ? 'P' : v == VIS_SECRET ? 'S' : 'V';
    cur = nx;
    d = to;
    want.push_back({to, cv, cur});
    g.say("->{}{}", nm(to), cv);
    if (!ok) break;
  }
  if (st.empty()) throw Discard{};
  g.say("{} {}", e.show(), t.show());
  Opt opt;
  opt.may_reveal = true;
  auto r = exec(e, {t}, [&](SPUContext* c, std::vector<Value>& v) {
    std::vector<Value> o;
    auto x = v[0];
    for (auto& s : st) {
      if (s.fn == 0 && s.v == x.vtype()) x = hal::dtype_cast(c, x, s.d);
      else if (s.fn == 1 && s.v == VIS_SECRET && x.vtype() != VIS_SECRET) x = hlo::Cast(c, hlo::Seal(c, x), s.v, s.d);
      else if (s.fn == 1 && s.v == VIS_PUBLIC && x.vtype() != VIS_PUBLIC) x = hlo::Cast(c, hlo::Reveal(c, x), s.v, s.d);
      else x = hlo::Cast(c, x, s.v, s.d);
      o.push_back(x);
    }
    return o;
  }, opt);
  for (size_t i = 0; i < r.size(); ++i) {
    auto& w = want[i];
    REQUIRE(r[i].dt == w.d && r[i].sh == sh, "conversion {} gives type {} and shape {}", i, nm(r[i].dt), r[i].sh);
    REQUIRE(r[i].vis == w.v, "conversion {} gives visibility {} instead of {}", i, r[i].vis, w.v);
    for (size_t j = 0; j < w.x.size(); ++j) {
      bool whole = real(w.d) || fits(w.x[j], w.d, e.k);
      u128 m = whole ? e.mask : static_cast<u128>(one(std::min(width(w.d), e.k))) - 1;
      if (whole && uns(w.d) && width(w.d) >= e.k) m = static_cast<u128>(w.x[j]) | e.mask;
      REQUIRE((r[i].raw[j] & m & e.mask) == (static_cast<u128>(w.x[j]) & m & e.mask), "conversion {} element {}: ring element {} instead of {}", i, j, strs(e.sgn(r[i].raw[j])), strs(w.x[j]));
    }
  }
  if (st.size() >= 2 && cross && sh.numel() > 0) g.nontrivial();
}

PBT(C32, bits, 2500, 30000, "a conversion between different types of at least two elements") {
  auto e = genv(g);
  auto sh = vsh(g, e);
  auto d0 = g.of(all_types(e));
  std::vector<DataType> same;
  for (auto d : all_types(e)) if (width(d) == width(d0)) same.push_back(d);
  auto to = g.of(same);
  char vis = gvis(g);
  if (vis == 'V' && e.proto == kRef2k) vis = 'S';
  auto t = tensor(g, e, d0, sh, vis, [&] { return d0 == DT_I1 ? static_cast<i128>(g.u(1)) : e.sgn(g.bits(e.k)); });
  int what = static_cast<int>(g.u(2));
  size_t to_rank = g.u(e.n - 1);
  g.say("{} {} {}->{} {} to {}", e.show(), t.show(), nm(d0), nm(to), what, to_rank);
  Opt opt;
  opt.may_reveal = true;
  if (what < 2) {
    auto r = exec(e, {t}, [&](SPUContext* c, std::vector<Value>& v) {
      auto x = hlo::Bitcast(c, v[0], to);
      // writing through one must not show in the other
      if (v[0].numel() > 0 && x.data().buf() == v[0].data().buf()) throw Violation("a bit cast shares memory with its operand");
      return what == 0 ? std::vector<Value>{x} : std::vector<Value>{x, hlo::Bitcast(c, x, d0)};
    }, opt);
    for (size_t i = 0; i < r.size(); ++i) {
      REQUIRE(r[i].dt == (i ? d0 : to) && r[i].sh == sh && r[i].vis == vis, "type, shape or visibility of a bit cast");
      auto d = sh.numel() ? diff(r[i].raw, t.raw.v) : "";
      REQUIRE(d.empty(), "bit cast changed the bits: {}", d);
    }
  } else {
    if (vis == 'P') { vis = t.vis = 'S'; }
    exec(e, {t}, [&](SPUContext* c, std::vector<Value>& v) -> std::vector<Value> {
      auto x = hlo::RevealTo(c, v[0], to_rank);
      if (!x.isPrivate() || x.owner() != static_cast<int64_t>(to_rank) || x.dtype() != d0 || x.shape() != sh) throw Violation("reveal_to: type, shape or owner");
      if (c->getState<mpc::Communicator>()->getRank() == to_rank && x.numel() > 0) {
        auto got = vals(x.data());
        auto d = diff(got, t.raw.v);
        if (!d.empty()) throw Violation("reveal_to: " + d);
      }
      return {};
    }, opt);
  }
  if (sh.numel() >= 2 && (d0 != to || what == 2)) g.nontrivial();
}

// operands of different types meet in the wider of the two, reals win
PBT(C32, promote, 4000, 50000, "operands of different types") {
  auto e = genv(g);
  gfxp(g, e);
  int f = static_cast<int>(fxp(e));
  if (3 * f > e.k - 8) { f = (e.k - 8) / 3; e.cfg.fxp_fraction_bits = f; g.say("f={}", f); }
  auto sh = vsh(g, e);
  if (sh.numel() == 0) sh = Shape{2};
  auto types = all_types(e);
  auto a = g.of(types), b = g.of(types);
  // which of two integers of equal width wins is not specified
  auto whole = [&](DataType d) { i128 x = d == DT_I1 ? static_cast<i128>(g.u(1)) : uns(d) ? static_cast<i128>(g.u(7)) : g.in(-7, 7); return real(d) ? x * one(f) : x; };
  auto gv = [&] { char v = gvis(g); return v == 'V' && (e.proto == kRef2k || e.proto == kSwift || e.proto == kSpdz2k) ? 'S' : v; };
  auto x = tensor(g, e, a, sh, gv(), [&] { return whole(a); });
  auto y = tensor(g, e, b, sh, gv(), [&] { return whole(b); });
  enum { ADD, SUB, MUL, EQ, LT, GE, MAX, kN };
  int op = static_cast<int>(g.u(kN - 1));
  if ((op == ADD || op == SUB) && a == DT_I1 && b == DT_I1) op = MUL;
  g.say("{} {} {} op{}", e.show(), x.show(), y.show(), op);
  DataType want = real(a) && real(b) ? std::max(a, b) : real(a) ? a : real(b) ? b : std::max(a, b);
  if (op == EQ || op == LT || op == GE) want = DT_I1;
  auto r = exec(e, {x, y}, [&](SPUContext* c, std::vector<Value>& v) -> std::vector<Value> {
    switch (op) {
      case ADD: return {hlo::Add(c, v[0], v[1])};
      case SUB: return {hlo::Sub(c, v[0], v[1])};
      case MUL: return {hlo::Mul(c, v[0], v[1])};
      case EQ: return {hlo::Equal(c, v[0], v[1])};
      case LT: return {hlo::Less(c, v[0], v[1])};
      case GE: return {hlo::GreaterEqual(c, v[0], v[1])};
      default: return {hlo::Max(c, hal::dtype_cast(c, v[0], want), hal::dtype_cast(c, v[1], want))};
    }
  });
  REQUIRE(r[0].dt == want && r[0].sh == sh, "{} op {} gives {} instead of {}", nm(a), nm(b), nm(r[0].dt), nm(want));
  bool rr = real(want);
  for (size_t i = 0; i < r[0].raw.size(); ++i) {
    i128 p = real(a) ? x.v[i] / one(f) : x.v[i], q = real(b) ? y.v[i] / one(f) : y.v[i];
    i128 w = op == ADD ? p + q : op == SUB ? p - q : op == MUL ? p * q : op == EQ ? p == q : op == LT ? p < q : op == GE ? p >= q : std::max(p, q);
    if (rr) {
      i128 got = e.sgn(r[0].raw[i]), exact = w * one(f), err = got > exact ? got - exact : exact - got;
      REQUIRE(err <= (op == MUL && real(a) && real(b) ? 3 : 0), "element {}: {} instead of {}", i, strs(got), strs(exact));
    } else {
      REQUIRE(as_int(r[0].raw[i], want) == as_int(static_cast<u128>(w), want), "element {}: {} instead of {}", i, strs(as_int(r[0].raw[i], want)), strs(w));
    }
  }
  if (a != b) g.nontrivial();
}

PBT(C32, complex, 1200, 15000, "a secret or private complex tensor of at least two elements") {
  auto e = genv(g);
  auto sh = vsh(g, e);
  int f = static_cast<int>(fxp(e));
  auto d = g.of<DataType>({DT_F32, DT_F64}), to = g.of<DataType>({DT_F32, DT_F64});
  char vis = gvis(g);
  if (vis == 'V' && e.proto == kRef2k) vis = 'S';
  auto re = tensor(g, e, d, sh, vis, [&] { return num(g, e, d, f, 0); });
  auto im = tensor(g, e, d, sh, vis, [&] { return num(g, e, d, f, 0); });
  im.owner = re.owner;
  im.how = re.how = static_cast<int>(g.u(2));  // both parts in the same form
  auto v = vis == 'V' || g.p() ? VIS_SECRET : VIS_PUBLIC;
  g.say("{} {} {} -> {}{}", e.show(), re.show(), im.show(), nm(to), static_cast<int>(v));
  Opt opt;
  opt.may_reveal = true;
  auto r = exec(e, {re, im}, [&](SPUContext* c, std::vector<Value>& x) {
    auto z = hal::complex(c, x[0], x[1]);
    if (!z.isComplex() || z.shape() != sh || z.dtype() != d) throw Violation("complex value has the wrong type");
    auto y = hlo::Cast(c, z, v, to);
    if (!y.isComplex()) throw Violation("conversion lost the imaginary part");
    return std::vector<Value>{hal::real(c, z), hal::imag(c, z), hal::real(c, y), hal::imag(c, y), hal::imag(c, x[0]), hal::real(c, x[1])};
  }, opt);
  const std::vector<u128> zero(re.raw.v.size(), 0);
  const std::vector<u128>* w[] = {&re.raw.v, &im.raw.v, &re.raw.v, &im.raw.v, &zero, &im.raw.v};
  for (size_t i = 0; i < 6; ++i) {
    REQUIRE(r[i].dt == (i == 2 || i == 3 ? to : d) && r[i].sh == sh, "part {} has type {}", i, nm(r[i].dt));
    if (i < 2 || i == 5) REQUIRE(r[i].vis == vis, "part {} is {}", i, r[i].vis);
    if (i == 2 || i == 3) REQUIRE(r[i].vis == (v == VIS_SECRET ? 'S' : 'P'), "part {} is {}", i, r[i].vis);
    if (i == 4) REQUIRE(vis != 'S' || r[i].vis == 'S', "the zero imaginary part of a secret is {}", r[i].vis);
    auto df = sh.numel() ? diff(r[i].raw, *w[i]) : "";
    REQUIRE(df.empty(), "part {}: {}", i, df);
  }
  if (vis != 'P' && sh.numel() >= 2) g.nontrivial();
}
