#pragma once
#include <utility>
#include <functional>
namespace yacl {
template <typename F>
class ScopeGuard {
  F f_;
  bool on_{true};
 public:
  explicit ScopeGuard(F f) : f_(std::move(f)) {}
  ScopeGuard(ScopeGuard&& o) noexcept : f_(std::move(o.f_)), on_(o.on_) { o.on_ = false; }
  ScopeGuard(const ScopeGuard&) = delete;
  ~ScopeGuard() { if (on_) f_(); }
  void cancel() { on_ = false; }
};
template <typename F> ScopeGuard<F> MakeScopeGuard(F f) { return ScopeGuard<F>(std::move(f)); }
}  // namespace yacl
#define YACL_SG_CAT2(a, b) a##b
#define YACL_SG_CAT(a, b) YACL_SG_CAT2(a, b)
#define ON_SCOPE_EXIT(...) \
  auto YACL_SG_CAT(yacl_scope_guard_, __LINE__) = ::yacl::MakeScopeGuard(__VA_ARGS__)
