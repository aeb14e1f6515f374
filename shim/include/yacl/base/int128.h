#pragma once
#include <cstdint>
#include <limits>
#include <ostream>
#include <string>
#include <type_traits>
#include <utility>
#include "absl/numeric/int128.h"
#include "fmt/format.h"
using int128_t = __int128;
using uint128_t = unsigned __int128;

namespace yacl {
constexpr uint128_t MakeUint128(uint64_t high, uint64_t low) {
  return (static_cast<uint128_t>(high) << 64) | low;
}
constexpr int128_t MakeInt128(int64_t high, uint64_t low) {
  return static_cast<int128_t>((static_cast<uint128_t>(static_cast<uint64_t>(high)) << 64) | low);
}
inline std::pair<int64_t, uint64_t> DecomposeInt128(int128_t v) {
  return {static_cast<int64_t>(v >> 64), static_cast<uint64_t>(v)};
}
inline std::pair<uint64_t, uint64_t> DecomposeUInt128(uint128_t v) {
  return {static_cast<uint64_t>(v >> 64), static_cast<uint64_t>(v)};
}
}  // namespace yacl

namespace std {  // found by ADL on the stream
inline std::ostream& operator<<(std::ostream& os, uint128_t x) {
  return os << fmt::format("{}", x);
}
inline std::ostream& operator<<(std::ostream& os, int128_t x) {
  return os << fmt::format("{}", x);
}
}  // namespace std
