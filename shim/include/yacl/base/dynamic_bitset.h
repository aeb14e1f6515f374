#pragma once
#include <vector>
namespace std {
// libstdc++ only offers friend swaps for bit references.
inline void swap(_Bit_reference&& a, _Bit_reference&& b) { bool t = a; a = static_cast<bool>(b); b = t; }
}
#include <cstddef>
#include <cstdint>
#include <initializer_list>
#include <stdexcept>
#include <string>
#include <vector>
#include "yacl/base/int128.h"
namespace yacl {
template <typename Block = uint128_t>
class dynamic_bitset {
  static constexpr size_t W = sizeof(Block) * 8;
  std::vector<Block> b_;
  size_t n_{0};
  void trim() {
    if (n_ % W != 0 && !b_.empty()) b_.back() &= (static_cast<Block>(1) << (n_ % W)) - 1;
  }

 public:
  using block_type = Block;
  static constexpr size_t bits_per_block = W;
  static constexpr size_t npos = static_cast<size_t>(-1);
  class reference {
    Block* p_;
    size_t i_;
   public:
    reference(Block* p, size_t i) : p_(p), i_(i) {}
    operator bool() const { return ((*p_ >> i_) & 1) != 0; }  // NOLINT
    reference& operator=(bool v) {
      if (v) *p_ |= static_cast<Block>(1) << i_;
      else *p_ &= ~(static_cast<Block>(1) << i_);
      return *this;
    }
    reference& operator=(const reference& o) { return *this = static_cast<bool>(o); }
    bool operator~() const { return !static_cast<bool>(*this); }
    reference& operator^=(bool v) { return *this = (static_cast<bool>(*this) != v); }
    reference& operator&=(bool v) { return *this = (static_cast<bool>(*this) && v); }
    reference& operator|=(bool v) { return *this = (static_cast<bool>(*this) || v); }
    reference& flip() { return *this = !static_cast<bool>(*this); }
  };
  dynamic_bitset() = default;
  explicit dynamic_bitset(size_t n, unsigned long long v = 0) : b_((n + W - 1) / W, 0), n_(n) {
    for (size_t i = 0; i < n && i < 64; ++i) set(i, ((v >> i) & 1) != 0);
  }
  dynamic_bitset(std::initializer_list<Block> l) : b_(l), n_(l.size() * W) {}
  size_t size() const { return n_; }
  bool empty() const { return n_ == 0; }
  size_t num_blocks() const { return b_.size(); }
  Block* data() { return b_.data(); }
  const Block* data() const { return b_.data(); }
  void resize(size_t n, bool v = false) {
    size_t o = n_;
    b_.resize((n + W - 1) / W, 0);
    n_ = n;
    trim();
    if (v) for (size_t i = o; i < n; ++i) set(i, true);
  }
  void clear() { b_.clear(); n_ = 0; }
  void push_back(bool v) { resize(n_ + 1); set(n_ - 1, v); }
  void append(Block v) {
    size_t o = n_;
    resize(n_ + W);
    for (size_t i = 0; i < W; ++i) set(o + i, ((v >> i) & 1) != 0);
  }
  template <typename It> void append(It f, It l) { for (; f != l; ++f) append(*f); }
  reference operator[](size_t i) { return {&b_[i / W], i % W}; }
  bool operator[](size_t i) const { return test(i); }
  bool test(size_t i) const {
    if (i >= n_) throw std::out_of_range("dynamic_bitset::test");
    return ((b_[i / W] >> (i % W)) & 1) != 0;
  }
  dynamic_bitset& set(size_t i, bool v = true) {
    if (i >= n_) throw std::out_of_range("dynamic_bitset::set");
    (*this)[i] = v;
    return *this;
  }
  dynamic_bitset& set() { for (auto& x : b_) x = ~static_cast<Block>(0); trim(); return *this; }
  dynamic_bitset& reset(size_t i) { return set(i, false); }
  dynamic_bitset& reset() { for (auto& x : b_) x = 0; return *this; }
  dynamic_bitset& flip(size_t i) { return set(i, !test(i)); }
  dynamic_bitset& flip() { for (auto& x : b_) x = ~x; trim(); return *this; }
  dynamic_bitset operator~() const { auto r = *this; r.flip(); return r; }
  size_t count() const { size_t c = 0; for (size_t i = 0; i < n_; ++i) c += test(i); return c; }
  bool any() const { return count() > 0; }
  bool none() const { return !any(); }
  bool all() const { return count() == n_; }
  dynamic_bitset& operator^=(const dynamic_bitset& o) { for (size_t i = 0; i < b_.size(); ++i) b_[i] ^= o.b_[i]; return *this; }
  dynamic_bitset& operator&=(const dynamic_bitset& o) { for (size_t i = 0; i < b_.size(); ++i) b_[i] &= o.b_[i]; return *this; }
  dynamic_bitset& operator|=(const dynamic_bitset& o) { for (size_t i = 0; i < b_.size(); ++i) b_[i] |= o.b_[i]; return *this; }
  dynamic_bitset& operator>>=(size_t s) {
    dynamic_bitset r(n_);
    for (size_t i = 0; i + s < n_; ++i) r.set(i, test(i + s));
    return *this = r;
  }
  dynamic_bitset& operator<<=(size_t s) {
    dynamic_bitset r(n_);
    for (size_t i = s; i < n_; ++i) r.set(i, test(i - s));
    return *this = r;
  }
  friend dynamic_bitset operator^(dynamic_bitset a, const dynamic_bitset& b) { return a ^= b; }
  friend dynamic_bitset operator&(dynamic_bitset a, const dynamic_bitset& b) { return a &= b; }
  friend dynamic_bitset operator|(dynamic_bitset a, const dynamic_bitset& b) { return a |= b; }
  bool operator==(const dynamic_bitset& o) const { return n_ == o.n_ && b_ == o.b_; }
  bool operator!=(const dynamic_bitset& o) const { return !(*this == o); }
};
}  // namespace yacl
