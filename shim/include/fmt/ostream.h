#pragma once
// fmt 9 lacks format_as() for class types; give classes with an ADL-visible
// format_as() (as newer fmt does) a formatter.
#include_next <fmt/ostream.h>
#include <type_traits>
#include <utility>
namespace fmt_compat {
template <typename T, typename = void>
struct format_as_result { static constexpr bool ok = false; };
template <typename T>
struct format_as_result<T, std::void_t<decltype(format_as(std::declval<const T&>()))>> {
  static constexpr bool ok = std::is_class_v<T>;
  using type = std::decay_t<decltype(format_as(std::declval<const T&>()))>;
};
}  // namespace fmt_compat
namespace fmt {
template <typename T>
struct formatter<T, char, std::enable_if_t<fmt_compat::format_as_result<T>::ok>>
    : formatter<typename fmt_compat::format_as_result<T>::type> {
  template <typename C>
  auto format(const T& t, C& ctx) const -> decltype(ctx.out()) {
    return formatter<typename fmt_compat::format_as_result<T>::type>::format(format_as(t), ctx);
  }
};
}  // namespace fmt
