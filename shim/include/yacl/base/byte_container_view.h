#pragma once
#include "absl/strings/sim_strings.h"
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <string>
#include <string_view>
#include <type_traits>
#include <vector>
#include "absl/types/span.h"
namespace yacl {
class ByteContainerView : public absl::Span<const uint8_t> {
 public:
  using absl::Span<const uint8_t>::Span;
  ByteContainerView() = default;
  ByteContainerView(const void* data, size_t len)
      : absl::Span<const uint8_t>(static_cast<const uint8_t*>(data), len) {}
  ByteContainerView(const char* c)  // NOLINT
      : ByteContainerView(c, std::strlen(c)) {}
  template <typename C,
            typename = std::enable_if_t<
                !std::is_convertible_v<const C&, absl::Span<const uint8_t>> &&
                sizeof(*std::declval<const C&>().data()) == 1>>
  ByteContainerView(const C& c)  // NOLINT
      : ByteContainerView(static_cast<const void*>(c.data()),
                          static_cast<size_t>(c.size())) {}
  operator std::string_view() const {  // NOLINT
    return {reinterpret_cast<const char*>(data()), size()};
  }
  explicit operator std::string() const {
    return {reinterpret_cast<const char*>(data()), size()};
  }
};
}  // namespace yacl
