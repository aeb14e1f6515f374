#pragma once
#include <array>
#include <vector>
#include "absl/types/span.h"
#include "yacl/base/aligned_vector.h"
#include "yacl/base/dynamic_bitset.h"
#include "yacl/base/exception.h"
#include "yacl/base/int128.h"
namespace yacl::crypto {
class OtRecvStore {
  std::vector<bool> c_;
  std::vector<uint128_t> b_;
 public:
  OtRecvStore() = default;
  OtRecvStore(std::vector<bool> c, std::vector<uint128_t> b) : c_(std::move(c)), b_(std::move(b)) { YACL_ENFORCE(c_.size() == b_.size()); }
  uint64_t Size() const { return b_.size(); }
  uint8_t GetChoice(uint64_t i) const { return c_.at(i) ? 1 : 0; }
  uint128_t GetBlock(uint64_t i) const { return b_.at(i); }
};
class OtSendStore {
  std::vector<std::array<uint128_t, 2>> b_;
  uint128_t delta_{0};
 public:
  OtSendStore() = default;
  explicit OtSendStore(std::vector<std::array<uint128_t, 2>> b, uint128_t d = 0) : b_(std::move(b)), delta_(d) {}
  uint64_t Size() const { return b_.size(); }
  uint128_t GetBlock(uint64_t i, uint64_t j) const { return b_.at(i).at(j); }
  uint128_t GetDelta() const { return delta_; }
};
template <typename B, typename C>
OtRecvStore MakeOtRecvStore(const B& choices, const C& blocks) {
  std::vector<bool> c;
  for (size_t i = 0; i < choices.size(); ++i) c.push_back(choices[i]);
  return OtRecvStore(std::move(c), std::vector<uint128_t>(blocks.begin(), blocks.end()));
}
template <typename C>
OtSendStore MakeOtSendStore(const C& blocks) { return OtSendStore({blocks.begin(), blocks.end()}); }
// Compact: the choice is the LSB of the block.
template <typename C>
OtRecvStore MakeCompactOtRecvStore(C&& blocks) {
  std::vector<bool> c;
  for (auto b : blocks) c.push_back((b & 1) != 0);
  return OtRecvStore(std::move(c), std::vector<uint128_t>(blocks.begin(), blocks.end()));
}
template <typename C>
OtSendStore MakeCompactOtSendStore(C&& blocks, uint128_t delta) {
  std::vector<std::array<uint128_t, 2>> v;
  for (auto b : blocks) v.push_back({b, b ^ delta});
  return OtSendStore(std::move(v), delta);
}
}  // namespace yacl::crypto
