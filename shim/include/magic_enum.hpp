#pragma once
// Minimal reflection over enum names (stand-in for magic_enum): values in
// [-128, 256) are probed through __PRETTY_FUNCTION__.
#include <array>
#include <optional>
#include <string_view>
#include <type_traits>
#include <utility>
#include <vector>
namespace magic_enum {
namespace detail {
template <auto V>
constexpr std::string_view raw_name() {
  std::string_view s = __PRETTY_FUNCTION__;
  // "... [with auto V = X; ...]" (gcc) or "... [V = X]" (clang)
  auto p = s.find("V = ");
  s = s.substr(p + 4);
  auto e = s.find_first_of(";]");
  s = s.substr(0, e);
  if (s.empty() || s[0] == '(' || (s[0] >= '0' && s[0] <= '9') || s[0] == '-') return {};
  auto c = s.rfind("::");
  return c == std::string_view::npos ? s : s.substr(c + 2);
}
constexpr int kMin = -2, kMax = 128;
template <typename E, int... I>
constexpr auto names_impl(std::integer_sequence<int, I...>) {
  return std::array<std::string_view, sizeof...(I)>{raw_name<static_cast<E>(I + kMin)>()...};
}
template <typename E>
inline constexpr auto kNames = names_impl<E>(std::make_integer_sequence<int, kMax - kMin>{});
}  // namespace detail
template <typename E>
constexpr std::string_view enum_name(E e) {
  auto i = static_cast<long long>(e) - detail::kMin;
  if (i < 0 || i >= static_cast<long long>(detail::kNames<E>.size())) return {};
  return detail::kNames<E>[static_cast<size_t>(i)];
}
template <typename E>
constexpr std::optional<E> enum_cast(std::string_view s) {
  if (s.empty()) return std::nullopt;
  for (size_t i = 0; i < detail::kNames<E>.size(); ++i)
    if (detail::kNames<E>[i] == s) return static_cast<E>(static_cast<int>(i) + detail::kMin);
  return std::nullopt;
}
template <typename E, typename I, typename = std::enable_if_t<std::is_integral_v<I>>>
constexpr std::optional<E> enum_cast(I v) {
  if (enum_name(static_cast<E>(v)).empty()) return std::nullopt;
  return static_cast<E>(v);
}
template <typename E>
constexpr bool enum_contains(E e) { return !enum_name(e).empty(); }
template <typename E>
std::vector<E> enum_values() {
  std::vector<E> r;
  for (size_t i = 0; i < detail::kNames<E>.size(); ++i)
    if (!detail::kNames<E>[i].empty()) r.push_back(static_cast<E>(static_cast<int>(i) + detail::kMin));
  return r;
}
}  // namespace magic_enum
