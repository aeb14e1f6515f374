#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <memory>
#include <ostream>
#include <string>
#include <string_view>
#include <type_traits>
#include "yacl/base/exception.h"
#include "yacl/base/int128.h"
#include "yacl/base/byte_container_view.h"
namespace yacl {
// A simple owning byte buffer, same interface as yacl::Buffer.
class Buffer final {
  void* ptr_{nullptr};
  int64_t size_{0};
  int64_t capacity_{0};
  std::function<void(void*)> deleter_;

 public:
  Buffer() = default;
  explicit Buffer(int64_t size) {
    YACL_ENFORCE(size >= 0);
    ptr_ = size > 0 ? ::operator new(static_cast<size_t>(size)) : nullptr;
    // Poison: reads of never-written bytes give garbage, as in production, but
    // deterministic garbage.
    if (size > 0) std::memset(ptr_, 0xA5, static_cast<size_t>(size));
    size_ = capacity_ = size;
  }
  Buffer(const void* ptr, size_t size) : Buffer(static_cast<int64_t>(size)) {
    if (size > 0) std::memcpy(ptr_, ptr, size);
  }
  Buffer(void* ptr, size_t size, std::function<void(void*)> deleter)
      : ptr_(ptr), size_(static_cast<int64_t>(size)), capacity_(size_), deleter_(std::move(deleter)) {}
  template <typename ByteContainer,
            std::enable_if_t<sizeof(typename ByteContainer::value_type) == 1,
                             bool> = true>
  explicit Buffer(const ByteContainer& u) : Buffer(u.data(), u.size()) {}
  ~Buffer() { reset(); }

  Buffer(const Buffer& o) { *this = o; }
  Buffer& operator=(const Buffer& o) {
    if (this != &o) {
      Buffer tmp(o.ptr_, static_cast<size_t>(o.size_));
      *this = std::move(tmp);
    }
    return *this;
  }
  Buffer(Buffer&& o) noexcept { *this = std::move(o); }
  Buffer& operator=(Buffer&& o) noexcept {
    if (this != &o) {
      std::swap(ptr_, o.ptr_);
      std::swap(size_, o.size_);
      std::swap(capacity_, o.capacity_);
      std::swap(deleter_, o.deleter_);
    }
    return *this;
  }
  bool operator==(const Buffer& o) const {
    return size_ == o.size_ && (size_ == 0 || std::memcmp(ptr_, o.ptr_, static_cast<size_t>(size_)) == 0);
  }
  bool operator!=(const Buffer& o) const { return !(*this == o); }
  void reset() {
    if (ptr_ != nullptr) {
      if (deleter_) {
        deleter_(ptr_);
      } else {
        ::operator delete(ptr_);
      }
    }
    ptr_ = nullptr;
    size_ = capacity_ = 0;
    deleter_ = nullptr;
  }
  void* release() {
    YACL_ENFORCE(!deleter_);
    void* t = ptr_;
    ptr_ = nullptr;
    size_ = capacity_ = 0;
    return t;
  }
  int64_t size() const { return size_; }
  int64_t capacity() const { return capacity_; }
  template <typename T = void>
  const T* data() const { return reinterpret_cast<const T*>(ptr_); }
  template <typename T = void>
  T* data() { return reinterpret_cast<T*>(ptr_); }
  void resize(int64_t n) {
    YACL_ENFORCE(n >= 0);
    if (n > capacity_) {
      Buffer nb(n);
      if (size_ > 0) std::memcpy(nb.ptr_, ptr_, static_cast<size_t>(size_));
      *this = std::move(nb);
    }
    size_ = n;
  }
  void reserve(int64_t n) {
    auto s = size_;
    if (n > capacity_) {
      resize(n);
      size_ = s;
    }
  }
  operator std::string_view() const {  // NOLINT
    return {reinterpret_cast<const char*>(ptr_), static_cast<size_t>(size_)};
  }
  operator ByteContainerView() const {  // NOLINT
    return ByteContainerView(ptr_, static_cast<size_t>(size_));
  }
};
inline std::ostream& operator<<(std::ostream& os, const Buffer& v) {
  return os << "Buffer<" << v.size() << ">";
}
}  // namespace yacl
