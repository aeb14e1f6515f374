#pragma once
// The few absl string helpers libspu uses, on std::string_view (the system
// absl is built for C++14 with its own string_view).
#include <algorithm>
#include <cctype>
#include <charconv>
#include <cstdio>
#include <string>
#include <string_view>
#include <vector>
namespace absl {
using std::string_view;
inline std::string_view StripAsciiWhitespace(std::string_view s) {
  while (!s.empty() && std::isspace(static_cast<unsigned char>(s.front()))) s.remove_prefix(1);
  while (!s.empty() && std::isspace(static_cast<unsigned char>(s.back()))) s.remove_suffix(1);
  return s;
}
inline std::string AsciiStrToLower(std::string_view s) {
  std::string r(s);
  for (auto& c : r) c = static_cast<char>(std::tolower(static_cast<unsigned char>(c)));
  return r;
}
inline std::string AsciiStrToUpper(std::string_view s) {
  std::string r(s);
  for (auto& c : r) c = static_cast<char>(std::toupper(static_cast<unsigned char>(c)));
  return r;
}
inline bool StartsWith(std::string_view s, std::string_view p) { return s.substr(0, p.size()) == p; }
inline bool EndsWith(std::string_view s, std::string_view p) { return s.size() >= p.size() && s.substr(s.size() - p.size()) == p; }
inline bool StrContains(std::string_view s, std::string_view p) { return s.find(p) != s.npos; }
struct ByChar { char c; explicit ByChar(char x) : c(x) {} };
struct SkipEmpty {};
struct AllowEmpty {};
class SplitResult {
  std::vector<std::string_view> v_;
 public:
  explicit SplitResult(std::vector<std::string_view> v) : v_(std::move(v)) {}
  operator std::vector<std::string>() const { return {v_.begin(), v_.end()}; }  // NOLINT
  operator std::vector<std::string_view>() const { return v_; }  // NOLINT
  auto begin() const { return v_.begin(); }
  auto end() const { return v_.end(); }
};
inline SplitResult StrSplit(std::string_view s, std::string_view d, bool skip = false) {
  std::vector<std::string_view> r;
  while (true) {
    auto p = d.empty() ? s.npos : s.find(d);
    auto t = s.substr(0, p);
    if (!(skip && t.empty())) r.push_back(t);
    if (p == s.npos) break;
    s.remove_prefix(p + d.size());
  }
  return SplitResult(std::move(r));
}
inline SplitResult StrSplit(std::string_view s, char c) { return StrSplit(s, std::string_view(&c, 1)); }
inline SplitResult StrSplit(std::string_view s, ByChar c) { return StrSplit(s, c.c); }
template <typename D>
SplitResult StrSplit(std::string_view s, D d, SkipEmpty) {
  if constexpr (std::is_same_v<D, ByChar>) return StrSplit(s, std::string_view(&d.c, 1), true);
  else if constexpr (std::is_same_v<D, char>) return StrSplit(s, std::string_view(&d, 1), true);
  else return StrSplit(s, std::string_view(d), true);
}
template <typename I>
bool SimpleAtoi(std::string_view s, I* out) {
  s = StripAsciiWhitespace(s);
  if (!s.empty() && s[0] == '+') s.remove_prefix(1);
  auto r = std::from_chars(s.data(), s.data() + s.size(), *out);
  return r.ec == std::errc() && r.ptr == s.data() + s.size();
}
inline std::string BytesToHexString(std::string_view s) {
  std::string r;
  char b[3];
  for (unsigned char c : s) { std::snprintf(b, 3, "%02x", c); r += b; }
  return r;
}
inline std::string CHexEscape(std::string_view s) { return BytesToHexString(s); }
template <typename R>
std::string StrJoin(const R& r, std::string_view sep) {
  std::string o; bool f = true;
  for (const auto& x : r) {
    if (!f) o += sep;
    f = false;
    if constexpr (std::is_arithmetic_v<std::decay_t<decltype(x)>>) o += std::to_string(x); else o += x;
  }
  return o;
}
}  // namespace absl
