#pragma once
// Minimal dense row-major tensors: the part of xtensor that libspu uses.
#include <algorithm>
#include <cstddef>
#include <cstdint>
#include <initializer_list>
#include <iterator>
#include <memory>
#include <numeric>
#include <ostream>
#include <random>
#include <stdexcept>
#include <type_traits>
#include <utility>
#include <vector>
namespace xt {
using dynamic_shape_t = std::vector<std::size_t>;
using dynamic_stride_t = std::vector<std::ptrdiff_t>;
template <typename T>
using dynamic_shape = std::vector<T>;
template <typename T>
using svector = std::vector<T>;

template <typename D>
class xexpression {
 public:
  const D& derived_cast() const& { return static_cast<const D&>(*this); }
  D& derived_cast() & { return static_cast<D&>(*this); }
};

namespace detail {
template <typename S>
dynamic_stride_t row_major(const S& shape) {
  dynamic_stride_t st(shape.size());
  std::ptrdiff_t acc = 1;
  for (std::size_t i = shape.size(); i-- > 0;) {
    st[i] = shape[i] == 1 ? 0 : acc;
    acc *= static_cast<std::ptrdiff_t>(shape[i]);
  }
  return st;
}
// Visits every element offset in row-major order.
template <typename F>
void each_offset(const dynamic_shape_t& shape, const dynamic_stride_t& strides, F&& f) {
  std::size_t n = 1;
  for (auto s : shape) n *= s;
  if (n == 0) return;
  std::vector<std::size_t> idx(shape.size(), 0);
  std::ptrdiff_t off = 0;
  for (std::size_t k = 0; k < n; ++k) {
    f(off);
    for (std::size_t d = shape.size(); d-- > 0;) {
      off += strides[d];
      if (++idx[d] < shape[d]) break;
      off -= strides[d] * static_cast<std::ptrdiff_t>(shape[d]);
      idx[d] = 0;
    }
  }
}
}  // namespace detail

template <typename T>
struct bool_safe_storage { using type = std::vector<T>; };

// uvector-like storage (no vector<bool> packing).
template <typename T>
class uvec {
  std::size_t n_{0};
  std::unique_ptr<T[]> p_;

 public:
  uvec() = default;
  explicit uvec(std::size_t n, T v = T{}) : n_(n), p_(new T[n > 0 ? n : 1]) { std::fill_n(p_.get(), n, v); }
  uvec(const uvec& o) : n_(o.n_), p_(new T[o.n_ > 0 ? o.n_ : 1]) { std::copy_n(o.p_.get(), n_, p_.get()); }
  uvec(uvec&&) noexcept = default;
  uvec& operator=(uvec o) noexcept { std::swap(n_, o.n_); std::swap(p_, o.p_); return *this; }
  std::size_t size() const { return n_; }
  T* data() { return p_.get(); }
  const T* data() const { return p_.get(); }
  T* begin() { return data(); }
  T* end() { return data() + n_; }
  const T* begin() const { return data(); }
  const T* end() const { return data() + n_; }
};

template <typename T>
class xarray : public xexpression<xarray<T>> {
  dynamic_shape_t shape_;
  dynamic_stride_t strides_;
  uvec<T> d_;

 public:
  using value_type = T;
  using shape_type = dynamic_shape_t;
  using strides_type = dynamic_stride_t;
  using iterator = T*;
  using const_iterator = const T*;

  xarray() : d_(1) {}
  xarray(const T& v) : d_(1, v) {}  // NOLINT
  explicit xarray(const dynamic_shape_t& s) { resize(s); }
  xarray(const dynamic_shape_t& s, const T& v) { resize(s); std::fill(begin(), end(), v); }
  xarray(std::initializer_list<T> l) { resize({l.size()}); std::copy(l.begin(), l.end(), d_.begin()); }
  xarray(std::initializer_list<std::initializer_list<T>> l) {
    resize({l.size(), l.begin()->size()});
    T* o = d_.data();
    for (auto& r : l) o = std::copy(r.begin(), r.end(), o);
  }
  xarray(std::initializer_list<std::initializer_list<std::initializer_list<T>>> l) {
    resize({l.size(), l.begin()->size(), l.begin()->begin()->size()});
    T* o = d_.data();
    for (auto& m : l) for (auto& r : m) o = std::copy(r.begin(), r.end(), o);
  }
  template <typename E, typename = std::enable_if_t<!std::is_same_v<E, xarray>>>
  xarray(const xexpression<E>& e) { assign(e.derived_cast()); }  // NOLINT
  template <typename E, typename = std::enable_if_t<!std::is_same_v<E, xarray>>>
  xarray& operator=(const xexpression<E>& e) { assign(e.derived_cast()); return *this; }
  template <typename E>
  void assign(const E& e) {
    resize(dynamic_shape_t(e.shape().begin(), e.shape().end()));
    T* o = d_.data();
    e.visit([&](const auto& v) { *o++ = static_cast<T>(v); });
  }
  template <typename S>
  static xarray from_shape(const S& s) { xarray r; r.resize(dynamic_shape_t(s.begin(), s.end())); return r; }
  void resize(const dynamic_shape_t& s) {
    shape_ = s;
    strides_ = detail::row_major(s);
    std::size_t n = 1;
    for (auto x : s) n *= x;
    d_ = uvec<T>(n);
  }
  template <typename S>
  xarray& reshape(const S& s) { shape_.assign(s.begin(), s.end()); strides_ = detail::row_major(shape_); return *this; }
  const dynamic_shape_t& shape() const { return shape_; }
  std::size_t shape(std::size_t i) const { return shape_[i]; }
  const dynamic_stride_t& strides() const { return strides_; }
  std::size_t dimension() const { return shape_.size(); }
  std::size_t size() const { return d_.size(); }
  T* data() { return d_.data(); }
  const T* data() const { return d_.data(); }
  T* begin() { return d_.begin(); }
  T* end() { return d_.end(); }
  const T* begin() const { return d_.begin(); }
  const T* end() const { return d_.end(); }
  T& front() { return d_.data()[0]; }
  const T& front() const { return d_.data()[0]; }
  T& flat(std::size_t i) { return d_.data()[i]; }
  const T& flat(std::size_t i) const { return d_.data()[i]; }
  T& operator[](std::size_t i) { return (*this)(i); }
  const T& operator[](std::size_t i) const { return (*this)(i); }
  template <typename... I>
  T& operator()(I... i) { return d_.data()[off({static_cast<std::ptrdiff_t>(i)...})]; }
  template <typename... I>
  const T& operator()(I... i) const { return d_.data()[off({static_cast<std::ptrdiff_t>(i)...})]; }
  template <typename F>
  void visit(F&& f) const { for (auto& v : d_) f(v); }
  friend bool operator==(const xarray& a, const xarray& b) {
    return a.shape_ == b.shape_ && std::equal(a.begin(), a.end(), b.begin());
  }
  friend bool operator!=(const xarray& a, const xarray& b) { return !(a == b); }

 private:
  std::ptrdiff_t off(std::initializer_list<std::ptrdiff_t> i) const {
    // xtensor drops leading indices when too many are given.
    std::ptrdiff_t r = 0;
    std::size_t skip = i.size() > shape_.size() ? i.size() - shape_.size() : 0;
    std::size_t base = shape_.size() - (i.size() - skip), d = 0, k = 0;
    for (auto v : i) { if (k++ < skip) continue; r += v * strides_[base + d++]; }
    return r;
  }
};

struct no_ownership {};

// Strided view over foreign memory.
template <typename P>
class xstrided_adaptor : public xexpression<xstrided_adaptor<P>> {
  P* p_;
  dynamic_shape_t shape_;
  dynamic_stride_t strides_;

 public:
  using value_type = std::remove_const_t<P>;
  xstrided_adaptor(P* p, dynamic_shape_t s, dynamic_stride_t t) : p_(p), shape_(std::move(s)), strides_(std::move(t)) {}
  xstrided_adaptor(const xstrided_adaptor&) = default;
  const dynamic_shape_t& shape() const { return shape_; }
  std::size_t shape(std::size_t i) const { return shape_[i]; }
  const dynamic_stride_t& strides() const { return strides_; }
  std::size_t dimension() const { return shape_.size(); }
  std::size_t size() const { std::size_t n = 1; for (auto s : shape_) n *= s; return n; }
  P* data() const { return p_; }
  template <typename F>
  void visit(F&& f) const { detail::each_offset(shape_, strides_, [&](std::ptrdiff_t o) { f(p_[o]); }); }
  template <typename E>
  xstrided_adaptor& operator=(const xexpression<E>& e) {
    xarray<value_type> tmp;
    tmp.assign(e.derived_cast());
    if (tmp.shape() != shape_) throw std::runtime_error("xt: incompatible shapes");
    const value_type* s = tmp.data();
    detail::each_offset(shape_, strides_, [&](std::ptrdiff_t o) { p_[o] = *s++; });
    return *this;
  }
  xstrided_adaptor& operator=(const xstrided_adaptor& e) { return *this = static_cast<const xexpression<xstrided_adaptor>&>(e); }
  template <typename... I>
  P& operator()(I... i) const {
    std::ptrdiff_t ix[] = {static_cast<std::ptrdiff_t>(i)..., 0}, r = 0;
    for (std::size_t d = 0; d < sizeof...(I) && d < strides_.size(); ++d) r += ix[d] * strides_[d];
    return p_[r];
  }
  P& operator[](std::size_t i) const { return (*this)(i); }
  P& front() const { return p_[0]; }
  std::vector<value_type> flat_copy() const { std::vector<value_type> v; visit([&](const auto& x) { v.push_back(x); }); return v; }
};

template <typename P, typename S, typename St>
auto adapt(P* p, std::size_t, no_ownership, const S& s, const St& st) {
  return xstrided_adaptor<P>(p, dynamic_shape_t(s.begin(), s.end()), dynamic_stride_t(st.begin(), st.end()));
}
template <typename P, typename S>
auto adapt(P* p, std::size_t, no_ownership, const S& s) {
  dynamic_shape_t sh(s.begin(), s.end());
  auto st = detail::row_major(sh);
  return xstrided_adaptor<P>(p, sh, st);
}
template <typename C, typename S>
auto adapt(C& c, const S& s) { return adapt(c.data(), c.size(), no_ownership{}, s); }

template <typename T, typename E>
xarray<T> cast(const xexpression<E>& e) {
  xarray<T> r;
  r.assign(e.derived_cast());
  return r;
}
template <typename E>
const E& eval(const xexpression<E>& e) { return e.derived_cast(); }
template <typename E>
const E& eval(const E& e) { return e; }

template <typename T = bool>
xarray<T> eye(const std::vector<std::size_t>& shape, int k = 0) {
  xarray<T> r(shape, T{});
  for (std::ptrdiff_t i = 0; i < static_cast<std::ptrdiff_t>(shape[0]); ++i) {
    std::ptrdiff_t j = i + k;
    if (j >= 0 && j < static_cast<std::ptrdiff_t>(shape[1])) r(i, j) = T{1};
  }
  return r;
}
template <typename T>
xarray<T> eye(std::size_t n, int k = 0) { return eye<T>(std::vector<std::size_t>{n, n}, k); }
template <typename T, typename S>
xarray<T> zeros(const S& s) { return xarray<T>(dynamic_shape_t(s.begin(), s.end()), T{0}); }
template <typename T, typename S>
xarray<T> ones(const S& s) { return xarray<T>(dynamic_shape_t(s.begin(), s.end()), T{1}); }
template <typename T>
xarray<T> zeros(std::initializer_list<std::size_t> s) { return xarray<T>(dynamic_shape_t(s), T{0}); }
template <typename T>
xarray<T> ones(std::initializer_list<std::size_t> s) { return xarray<T>(dynamic_shape_t(s), T{1}); }
template <typename T = double>
xarray<T> arange(T b, T e, T step = 1) {
  std::vector<T> v;
  for (T x = b; x < e; x += step) v.push_back(x);
  xarray<T> r(dynamic_shape_t{v.size()});
  std::copy(v.begin(), v.end(), r.begin());
  return r;
}
template <typename T>
xarray<T> arange(T e) { return arange<T>(0, e); }

namespace random {
inline std::mt19937_64& default_engine() { static thread_local std::mt19937_64 e(42); return e; }
template <typename T, typename S>
xarray<T> randint(const S& s, T lo, T hi) {
  xarray<T> r(dynamic_shape_t(s.begin(), s.end()));
  for (auto& v : r) v = static_cast<T>(std::uniform_int_distribution<long long>(lo, static_cast<long long>(hi) - 1)(default_engine()));
  return r;
}
template <typename T, typename S>
xarray<T> rand(const S& s, T lo = 0, T hi = 1) {
  xarray<T> r(dynamic_shape_t(s.begin(), s.end()));
  for (auto& v : r) v = std::uniform_real_distribution<T>(lo, hi)(default_engine());
  return r;
}
}  // namespace random

template <typename E>
std::ostream& print(std::ostream& os, const E& e) {
  os << "{";
  bool first = true;
  e.visit([&](const auto& v) { os << (first ? "" : ", ") << +v; first = false; });
  return os << "}";
}
template <typename T>
std::ostream& operator<<(std::ostream& os, const xarray<T>& e) { return print(os, e); }
template <typename P>
std::ostream& operator<<(std::ostream& os, const xstrided_adaptor<P>& e) { return print(os, e); }
}  // namespace xt
