// Ring-like tensors of arbitrary memory layout, with the whole buffer known.
#pragma once
#include "pbt.h"
#include "libspu/core/ndarray_ref.h"
namespace lay {
using namespace pbt;
inline u128 mask(int bytes) { return bytes >= 16 ? ~static_cast<u128>(0) : (static_cast<u128>(1) << (8 * bytes)) - 1; }
inline u128 load(const void* p, int bytes) { u128 v = 0; memcpy(&v, p, bytes); return v; }
inline spu::Shape gshape(Gen& g, int maxrank = 4, int64_t maxd = 5, int64_t cap = 120) {
  spu::Shape s;
  auto nd = g.u(maxrank);
  int64_t n = 1;
  for (uint64_t i = 0; i < nd; ++i) {
    auto d = g.p(0.1) ? 0 : 1 + static_cast<int64_t>(g.u(maxd - 1));
    if (n * d > cap) d = 1;
    n *= std::max<int64_t>(d, 1);
    s.push_back(d);
  }
  return s;
}
// row-major element values read through shape, strides and offset alone
inline std::vector<u128> vals(const spu::NdArrayRef& a, int bytes = 0, int part = 0) {
  if (bytes == 0) bytes = static_cast<int>(a.elsize());
  std::vector<u128> out;
  int64_t n = 1;
  for (auto d : a.shape()) n *= d;
  const auto* base = static_cast<const char*>(a.buf()->data()) + a.offset();
  for (int64_t i = 0; i < n; ++i) {
    int64_t r = i, o = 0;
    for (size_t k = a.shape().size(); k-- > 0;) { o += (r % a.shape()[k]) * a.strides()[k]; r /= a.shape()[k]; }
    out.push_back(load(base + o * static_cast<int64_t>(a.elsize()) + part * bytes, bytes));
  }
  return out;
}
struct Arr {
  spu::NdArrayRef r;
  int w = 0;             // bytes per element
  std::string snap;      // the whole buffer
  std::vector<u128> v;   // values in row-major order
  bool plain = false;
  bool untouched() const { return memcmp(r.buf()->data(), snap.data(), snap.size()) == 0; }
  // no byte outside the elements of the view changed
  bool only_elements() const {
    std::vector<bool> mine(snap.size(), false);
    int64_t n = 1;
    for (auto d : r.shape()) n *= d;
    for (int64_t i = 0; i < n; ++i) {
      int64_t q = i, o = 0;
      for (size_t k = r.shape().size(); k-- > 0;) { o += (q % r.shape()[k]) * r.strides()[k]; q /= r.shape()[k]; }
      for (int b = 0; b < w; ++b) mine[r.offset() + o * w + b] = true;
    }
    const auto* p = static_cast<const char*>(r.buf()->data());
    for (size_t i = 0; i < snap.size(); ++i) if (!mine[i] && p[i] != snap[i]) return false;
    return true;
  }
};
// target: distinct indices denote distinct elements
template <class V>
Arr arr(Gen& g, const spu::Type& ty, const spu::Shape& shape, bool target, V&& value, double plainp = 0.3) {
  size_t n = shape.size();
  spu::Strides st(n, 0);
  int64_t step = 1;
  Arr a;
  a.plain = g.p(plainp);
  auto order = g.perm(n);
  if (a.plain) for (size_t i = 0; i < n; ++i) order[i] = static_cast<int64_t>(n - 1 - i);
  for (auto k : order) {
    if (!a.plain && !target && g.p(0.15)) { st[k] = 0; continue; }
    st[k] = step;
    step = step * std::max<int64_t>(1, shape[k]) + (a.plain ? 0 : static_cast<int64_t>(g.u(1)));
  }
  int64_t lo = 0, hi = 0;
  for (size_t k = 0; k < n; ++k) {
    if (shape[k] <= 1) st[k] = 0;
    if (!a.plain && g.p(0.2)) st[k] = -st[k];
    auto e = st[k] * (std::max<int64_t>(1, shape[k]) - 1);
    (e < 0 ? lo : hi) += e;
  }
  int64_t off = -lo + (a.plain ? 0 : static_cast<int64_t>(g.u(2)));
  int64_t len = off + hi + 1 + (a.plain ? 0 : static_cast<int64_t>(g.u(2)));
  a.w = static_cast<int>(ty.size());
  auto buf = std::make_shared<yacl::Buffer>(len * a.w);
  auto* p = static_cast<char*>(buf->data());
  for (int64_t i = 0; i < len; ++i) { u128 x = value(); memcpy(p + i * a.w, &x, a.w); }
  a.snap.assign(p, len * a.w);
  a.r = spu::NdArrayRef(buf, ty, shape, st, off * a.w);
  a.v = vals(a.r);
  return a;
}
inline std::string show(const Arr& a) {
  return fmt::format("[{}]s[{}]@{}", fmt::join(a.r.shape(), "x"), fmt::join(a.r.strides(), ","), a.r.offset() / std::max(1, a.w));
}
inline std::string show(const std::vector<u128>& v, size_t n = 6) {
  std::string s;
  for (size_t i = 0; i < v.size() && i < n; ++i) s += (i ? "," : "") + str(v[i]);
  return s + (v.size() > n ? ",..." : "");
}
inline std::string diff(const std::vector<u128>& got, const std::vector<u128>& want) {
  if (got.size() != want.size()) return fmt::format("{} elements instead of {}", got.size(), want.size());
  for (size_t i = 0; i < got.size(); ++i)
    if (got[i] != want[i]) return fmt::format("element {} is {} instead of {}", i, str(got[i]), str(want[i]));
  return "";
}
}  // namespace lay
