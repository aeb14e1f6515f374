#pragma once
#include <cstddef>
#include <memory>
#include <new>
#include <vector>
namespace yacl {
template <typename T, size_t Align = 64>
class AlignedAlloc {
 public:
  using value_type = T;
  template <typename U> struct rebind { using other = AlignedAlloc<U, Align>; };
  AlignedAlloc() = default;
  template <typename U> AlignedAlloc(const AlignedAlloc<U, Align>&) {}
  T* allocate(size_t n) {
    return static_cast<T*>(::operator new(n * sizeof(T), std::align_val_t(Align)));
  }
  void deallocate(T* p, size_t) { ::operator delete(p, std::align_val_t(Align)); }
  template <typename U> bool operator==(const AlignedAlloc<U, Align>&) const { return true; }
  template <typename U> bool operator!=(const AlignedAlloc<U, Align>&) const { return false; }
};
template <typename T, size_t A = 64> using AlignedVector = std::vector<T, AlignedAlloc<T, A>>;
template <typename T, size_t A = 64> using UninitAlignedVector = std::vector<T, AlignedAlloc<T, A>>;
template <typename T> using UninitVector = std::vector<T>;
}  // namespace yacl
