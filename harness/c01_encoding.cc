#include <limits>
#include <type_traits>
#include "pbt.h"
#include "libspu/core/encoding.h"
#include "libspu/core/pt_buffer_view.h"
#include "libspu/core/type_util.h"
using namespace pbt;
using half_float::half;
using spu::FieldType; using spu::Index; using spu::NdArrayRef; using spu::PtBufferView; using spu::Shape; using spu::Strides;
namespace {
std::vector<int64_t> unflat(int64_t i, const Shape& s) {
  std::vector<int64_t> r(s.size());
  for (size_t k = s.size(); k-- > 0;) { r[k] = i % s[k]; i /= s[k]; }
  return r;
}
Shape gshape(Gen& g) {
  Shape s;
  for (auto n = g.u(3); n > 0; --n) s.push_back(g.p(0.05) ? 0 : g.in(1, 5));
  return s;
}
// how a view of the given shape lies in a buffer
struct Lay { Strides st; int64_t off = 0, len = 0; std::vector<int64_t> pos; };
Lay layout(Gen& g, const Shape& s, bool compact, bool ndarray = false) {
  Lay l;
  auto n = s.size();
  l.st.resize(n);
  if (compact) {
    l.st = spu::makeCompactStrides(s);
  } else {
    auto order = g.perm(n);
    int64_t step = g.in(1, 3);
    for (auto k : order) {
      l.st[k] = step * (g.p(0.2) ? -1 : 1);
      step = step * std::max<int64_t>(1, s[k]) + (g.p(0.3) ? g.in(0, 3) : 0);
      if (ndarray && s[k] == 1) l.st[k] = 0;
    }
  }
  int64_t lo = 0, hi = 0;
  for (size_t k = 0; k < n; ++k) { auto e = l.st[k] * (std::max<int64_t>(1, s[k]) - 1); (e < 0 ? lo : hi) += e; }
  l.off = -lo + (g.p(0.5) ? g.in(0, 3) : 0);
  l.len = l.off + hi + 1 + g.in(0, 3);
  for (int64_t i = 0; i < s.numel(); ++i) {
    auto x = unflat(i, s);
    int64_t o = l.off;
    for (size_t k = 0; k < n; ++k) o += x[k] * l.st[k];
    l.pos.push_back(o);
  }
  return l;
}
template <class T> constexpr bool is_flt = std::is_same_v<T, half> || std::is_floating_point_v<T>;
template <class T>
T fval(Gen& g, int k, int fxp) {
  switch (g.u(9)) {
    case 0: return static_cast<T>(std::numeric_limits<float>::quiet_NaN());
    case 1: return static_cast<T>((g.p() ? 1 : -1) * std::numeric_limits<float>::infinity());
    case 2: return static_cast<T>(g.p() ? 0.0F : -0.0F);
    case 3: {  // around the saturation limits
      double lim = std::ldexp(1.0, k - 2 - fxp) * (g.p() ? 1 : -1);
      T v = static_cast<T>(lim);
      if constexpr (!std::is_same_v<T, half>) { for (auto n = g.in(0, 3); n > 0; --n) v = std::nextafter(v, static_cast<T>(g.p() ? 0 : lim * 2)); }
      return v;
    }
    case 4: return static_cast<T>(static_cast<double>(g.in(-2000, 2000)) * std::ldexp(1.0, -fxp) / (g.p() ? 2 : 1));  // multiples of half a quantum
    case 5: return static_cast<T>((g.p() ? 1 : -1) * std::ldexp(1.0 + g.unit(), static_cast<int>(g.in(-30, 12))));
    case 6: {
      T m = g.p() ? std::numeric_limits<T>::max() : g.p() ? std::numeric_limits<T>::denorm_min() : std::numeric_limits<T>::min();
      return g.p() ? m : static_cast<T>(-m);
    }
    default: return static_cast<T>(static_cast<double>(g.in(-100000, 100000)) / static_cast<double>(g.in(1, 1000)));
  }
}
template <class T>
T ival(Gen& g) {
  if constexpr (std::is_same_v<T, bool>) return g.p();
  else return static_cast<T>(g.bits(static_cast<int>(sizeof(T)) * 8));
}
// exact value of a finite float scaled by 2^fxp, truncated toward zero (must fit 127 bits)
i128 scaled(double x, int fxp) {
  int e;
  double m = std::frexp(x, &e);
  i128 mi = static_cast<i128>(std::ldexp(m, 53));
  int s = e - 53 + fxp;
  if (s >= 0) return mi * (static_cast<i128>(1) << s);
  if (s < -120) return 0;
  return mi / (static_cast<i128>(1) << -s);
}
i128 sext(u128 v, int k) { return k == 128 ? static_cast<i128>(v) : static_cast<i128>(v << (128 - k)) >> (128 - k); }
u128 read(const void* p, int k) { u128 v = 0; memcpy(&v, p, static_cast<size_t>(k / 8)); return v; }

template <class T>
void roundtrip(Gen& g, spu::PtType pt, spu::DataType dt, bool decodable) {
  auto field = g.of({FieldType::FM32, FieldType::FM64, FieldType::FM128});
  int k = static_cast<int>(spu::SizeOf(field)) * 8;
  int fxp = static_cast<int>(g.p(0.5) ? g.of({18, 8, 20, 26, 1, 0}) : g.in(0, std::min(k - 4, 60)));
  if (fxp > k - 4) fxp = k / 2 - 4;
  auto s = gshape(g);
  auto L = layout(g, s, g.p(0.4));
  auto n = s.numel();
  std::vector<char> mem(static_cast<size_t>(L.len) * sizeof(T));
  auto* buf = reinterpret_cast<T*>(mem.data());
  for (int64_t i = 0; i < L.len; ++i) { if constexpr (is_flt<T>) buf[i] = fval<T>(g, k, fxp); else buf[i] = ival<T>(g); }
  auto mem0 = mem;
  g.say("type={} k={} fxp={} shape=({}) strides=({})", static_cast<int>(pt), k, fxp, fmt::join(s, ","), fmt::join(L.st, ","));
  g.nontrivial(n > 0);
  g.tag(fmt::format("pt{} k{}", static_cast<int>(pt), k));
  PtBufferView bv(static_cast<const T*>(buf + L.off), pt, s, L.st);
  spu::DataType got = spu::DT_INVALID;
  if (!is_flt<T> && static_cast<int>(sizeof(T)) * 8 > k) {
    bool t = false;
    try { spu::encodeToRing(bv, field, fxp, decodable ? &got : nullptr); } catch (const std::exception&) { t = true; }
    REQUIRE(t, "an integer type wider than the ring was encoded");
    return;
  }
  NdArrayRef r = spu::encodeToRing(bv, field, fxp, decodable ? &got : nullptr);
  REQUIRE(!decodable || got == dt, "data type {} instead of {}", static_cast<int>(got), static_cast<int>(dt));
  REQUIRE(r.shape() == s && r.eltype() == spu::makeType<spu::RingTy>(field), "shape or type of the encoding");
  REQUIRE(mem == mem0, "the plaintext buffer was changed");
  i128 up = (static_cast<i128>(1) << (k - 2)) - 1, lo = -(static_cast<i128>(1) << (k - 2));
  std::vector<i128> enc(n);
  for (int64_t i = 0; i < n; ++i) {
    T x = buf[L.pos[i]];
    i128 e;
    if constexpr (is_flt<T>) {
      double d = static_cast<double>(static_cast<std::conditional_t<std::is_same_v<T, half>, float, T>>(x));
      if (std::isnan(d)) e = 0;
      else if (d >= std::ldexp(1.0, k - 2 - fxp)) e = up;
      else if (d <= -std::ldexp(1.0, k - 2 - fxp)) e = lo;
      else e = scaled(d, fxp);
      // the scaled largest value may round up to the limit
      i128 have = sext(read(&r.at(i), k), k);
      REQUIRE(have == e, "element {} = {} encoded as {} instead of {}", i, d, strs(have), strs(e));
    } else {
      e = sext(static_cast<u128>(static_cast<i128>(x)), k);
      i128 have = sext(read(&r.at(i), k), k);
      REQUIRE(have == e, "element {} = {} encoded as {} instead of {}", i, strs(static_cast<i128>(x)), strs(have), strs(e));
    }
    enc[i] = e;
  }
  if (!decodable) return;
  REQUIRE(spu::getEncodeType(pt) == dt && spu::getDecodeType(dt) == pt, "type maps disagree");
  // decode from any array layout into any buffer layout
  auto A = layout(g, s, g.p(0.3), true), O = layout(g, s, g.p(0.4));
  auto ab = std::make_shared<yacl::Buffer>(A.len * (k / 8));
  for (int64_t i = 0; i < A.len * (k / 8); ++i) ab->data<uint8_t>()[i] = static_cast<uint8_t>(0xA5 + i * 7);
  for (int64_t i = 0; i < n; ++i) memcpy(ab->data<uint8_t>() + A.pos[i] * (k / 8), &enc[i], static_cast<size_t>(k / 8));
  NdArrayRef src(ab, spu::makeType<spu::RingTy>(field), s, A.st, A.off * (k / 8));
  std::vector<char> om(static_cast<size_t>(O.len) * sizeof(T), 0x5a);
  auto om0 = om;
  auto* ob = reinterpret_cast<T*>(om.data());
  PtBufferView out(ob + O.off, pt, s, O.st);
  spu::PtType opt = spu::PT_INVALID;
  spu::decodeFromRing(src, dt, fxp, &out, g.p(0.8) ? &opt : nullptr);
  REQUIRE(opt == spu::PT_INVALID || opt == pt, "decoded type");
  for (int64_t i = 0; i < n; ++i) {
    T x = buf[L.pos[i]], y = ob[O.pos[i]];
    if constexpr (is_flt<T>) {
      double dx = static_cast<double>(static_cast<std::conditional_t<std::is_same_v<T, half>, float, T>>(x));
      double dy = static_cast<double>(static_cast<std::conditional_t<std::is_same_v<T, half>, float, T>>(y));
      double q = std::ldexp(1.0, -fxp);
      double rel = std::is_same_v<T, half> ? 0x1p-10 : std::is_same_v<T, float> ? 0x1p-23 : 0x1p-52;
      double e = std::ldexp(static_cast<double>(enc[i]), -fxp);
      if (std::isnan(dx)) REQUIRE(dy == 0, "NaN decodes as {}", dy);
      else if (std::is_same_v<T, half> && std::abs(e) > 65519) REQUIRE(std::isinf(dy) || std::abs(dy) >= 65504, "{} decodes as {}", e, dy);
      else {
        REQUIRE(std::abs(dy - e) <= std::abs(e) * rel + (std::is_same_v<T, half> ? 0x1p-24 : 0), "element {}: ring value {} decodes as {}", i, e, dy);
        double sat = std::min(std::max(dx, -std::ldexp(1.0, k - 2 - fxp)), std::ldexp(1.0, k - 2 - fxp));
        REQUIRE(std::abs(dy - sat) <= q + std::abs(sat) * rel, "element {}: {} round-trips to {}", i, dx, dy);
      }
    } else REQUIRE(x == y, "element {}: {} round-trips to {}", i, strs(static_cast<i128>(x)), strs(static_cast<i128>(y)));
    memcpy(om0.data() + O.pos[i] * static_cast<int64_t>(sizeof(T)), &y, sizeof(T));
  }
  REQUIRE(om == om0, "decoding wrote outside the output view");
}
template <class T>
void to_ndarray(Gen& g, spu::PtType pt) {
  auto s = gshape(g);
  auto L = layout(g, s, g.p(0.3));
  std::vector<char> mem(static_cast<size_t>(L.len) * sizeof(T));
  auto* buf = reinterpret_cast<T*>(mem.data());
  for (int64_t i = 0; i < L.len; ++i) { if constexpr (is_flt<T>) buf[i] = static_cast<T>(static_cast<float>(i) + 0.5F); else buf[i] = ival<T>(g); }
  g.say("convert pt={} shape=({}) strides=({})", static_cast<int>(pt), fmt::join(s, ","), fmt::join(L.st, ","));
  g.nontrivial(s.numel() > 0);
  auto a = spu::convertToNdArray(PtBufferView(static_cast<const T*>(buf + L.off), pt, s, L.st));
  REQUIRE(a.shape() == s && a.eltype() == spu::makePtType(pt) && a.isCompact(), "shape/type/compactness");
  for (int64_t i = 0; i < s.numel(); ++i) REQUIRE(memcmp(&a.at<T>(i), &buf[L.pos[i]], sizeof(T)) == 0, "element {}", i);
  // ... and its element accessors
  PtBufferView bv(buf + L.off, pt, s, L.st);
  for (int64_t i = 0; i < s.numel(); ++i) {
    auto x = unflat(i, s);
    Index id(x.begin(), x.end());
    REQUIRE(&bv.get<T>(i) == &buf[L.pos[i]] && &bv.get<T>(id) == &buf[L.pos[i]], "address of element {}", i);
  }
  if (s.numel() > 0) {
    auto i = g.in(0, s.numel() - 1);
    auto mem0 = mem;
    auto x = unflat(i, s);
    T v = static_cast<T>(1);
    if (g.p()) bv.set<T>(i, v); else bv.set<T>(Index(x.begin(), x.end()), v);
    memcpy(mem0.data() + L.pos[i] * static_cast<int64_t>(sizeof(T)), &v, sizeof(T));
    REQUIRE(mem == mem0, "set({}) wrote elsewhere", i);
  }
}
template <class F>
void with_type(Gen& g, F&& f) {
  switch (g.u(13)) {
    case 0: return f(int8_t{}, spu::PT_I8, spu::DT_I8);
    case 1: return f(uint8_t{}, spu::PT_U8, spu::DT_U8);
    case 2: return f(int16_t{}, spu::PT_I16, spu::DT_I16);
    case 3: return f(uint16_t{}, spu::PT_U16, spu::DT_U16);
    case 4: return f(int32_t{}, spu::PT_I32, spu::DT_I32);
    case 5: return f(uint32_t{}, spu::PT_U32, spu::DT_U32);
    case 6: return f(int64_t{}, spu::PT_I64, spu::DT_I64);
    case 7: return f(uint64_t{}, spu::PT_U64, spu::DT_U64);
    case 8: return f(bool{}, spu::PT_I1, spu::DT_I1);
    case 9: return f(half{}, spu::PT_F16, spu::DT_F16);
    case 10: case 11: return f(float{}, spu::PT_F32, spu::DT_F32);
    default: return f(double{}, spu::PT_F64, spu::DT_F64);
  }
}
}  // namespace
PBT(C01, roundtrip, 120000, 3000000, "at least one element") {
  with_type(g, [&](auto t, spu::PtType pt, spu::DataType dt) { roundtrip<decltype(t)>(g, pt, dt, true); });
}
PBT(C01, half_values, 2000, 20000, "every case: 64 half values at one scale") {
  // all halves at every scale, in blocks
  auto field = g.of({FieldType::FM32, FieldType::FM64, FieldType::FM128});
  int k = static_cast<int>(spu::SizeOf(field)) * 8;
  int fxp = static_cast<int>(g.in(0, std::min(k - 4, 60)));
  auto b0 = static_cast<uint32_t>(g.u(65535));
  g.say("k={} fxp={} halves from {:#x}", k, fxp, b0);
  g.nontrivial();
  std::vector<half> v(64);
  for (uint32_t i = 0; i < 64; ++i) { auto b = static_cast<uint16_t>(b0 + i * 8191); memcpy(static_cast<void*>(&v[i]), &b, 2); }
  auto r = spu::encodeToRing(PtBufferView(static_cast<const half*>(v.data()), spu::PT_F16, {64}, {1}), field, fxp);
  for (int64_t i = 0; i < 64; ++i) {
    double d = static_cast<double>(static_cast<float>(v[i]));
    i128 e = std::isnan(d) ? 0 : d >= std::ldexp(1.0, k - 2 - fxp) ? (static_cast<i128>(1) << (k - 2)) - 1 : d <= -std::ldexp(1.0, k - 2 - fxp) ? -(static_cast<i128>(1) << (k - 2)) : scaled(d, fxp);
    i128 have = sext(read(&r.at(i), k), k);
    REQUIRE(have == e, "half {} encoded as {} instead of {}", d, strs(have), strs(e));
  }
}
PBT(C01, buffer_views, 60000, 500000, "at least one element") {
  with_type(g, [&](auto t, spu::PtType pt, spu::DataType) { to_ndarray<decltype(t)>(g, pt); });
}
PBT(C01, bitset, 10000, 100000, "at least one bit") {
  auto s = gshape(g);
  auto n = s.numel();
  std::vector<uint8_t> m((n + 7) / 8 + 1);
  for (auto& b : m) b = static_cast<uint8_t>(g.u(255));
  g.say("bitset shape=({})", fmt::join(s, ","));
  g.nontrivial(n > 0);
  PtBufferView bv(static_cast<const uint8_t*>(m.data()), spu::PT_I1, s, spu::makeCompactStrides(s), true);
  auto a = spu::convertToNdArray(bv);
  REQUIRE(a.shape() == s, "shape");
  for (int64_t i = 0; i < n; ++i) {
    bool e = ((m[i / 8] >> (i % 8)) & 1) != 0;
    REQUIRE(bv.getBit(i) == e && a.at<bool>(i) == e, "bit {}", i);
  }
}
// scalars and containers as buffers
PBT(C01, scalar_views, 20000, 200000, "every case") {
  with_type(g, [&](auto t, spu::PtType pt, spu::DataType dt) {
    using T = decltype(t);
    if constexpr (!std::is_same_v<T, half>) {
      T x = T{};
      if constexpr (is_flt<T>) x = static_cast<T>(g.in(-1000, 1000)) / 4; else x = ival<T>(g);
      PtBufferView bv(x);
      g.say("scalar pt={}", static_cast<int>(pt));
      g.nontrivial();
      REQUIRE(bv.pt_type == pt && bv.shape.numel() == 1 && bv.shape.size() == 0 && bv.get<T>(0) == x, "scalar view");
      spu::DataType d;
      auto r = spu::encodeToRing(bv, FieldType::FM64, 10, &d);
      REQUIRE(d == dt && r.numel() == 1 && r.ndim() == 0, "encoded scalar");
      i128 e = is_flt<T> ? scaled(static_cast<double>(x), 10) : static_cast<i128>(static_cast<int64_t>(x));
      REQUIRE(static_cast<i128>(r.at<int64_t>(0)) == e, "scalar encodes as {} instead of {}", r.at<int64_t>(0), strs(e));
      if constexpr (!std::is_same_v<T, bool>) {
        std::vector<T> v(g.in(0, 5), x);
        PtBufferView cv(v);
        REQUIRE(cv.pt_type == pt && cv.shape == Shape({static_cast<int64_t>(v.size())}) && cv.isCompact() && !cv.isBitSet(), "container view");
        for (size_t i = 0; i < v.size(); ++i) REQUIRE(cv.get<T>(i) == x, "container element");
      }
    }
  });
}
