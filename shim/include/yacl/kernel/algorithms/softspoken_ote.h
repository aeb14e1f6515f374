#pragma once
#include "yacl/kernel/algorithms/base_ot.h"
namespace yacl::crypto {
class SoftspokenOtExtSender {
  uint128_t delta_{0};
 public:
  explicit SoftspokenOtExtSender(uint64_t = 2, uint64_t = 0, bool = false) {}
  void OneTimeSetup(const std::shared_ptr<link::Context>&) { delta_ = RandU128(); }
  uint128_t GetDelta() const { return delta_; }
  void Send(const std::shared_ptr<link::Context>& c, absl::Span<std::array<uint128_t, 2>> out, bool = false) {
    uint128_t s = RandU128();
    sim_ot::SendSeed(c, s, delta_);
    for (size_t i = 0; i < out.size(); ++i) { uint128_t b = sim_ot::block(s, i); out[i] = {b, b ^ delta_}; }
  }
};
class SoftspokenOtExtReceiver {
 public:
  explicit SoftspokenOtExtReceiver(uint64_t = 2, uint64_t = 0, bool = false) {}
  void OneTimeSetup(const std::shared_ptr<link::Context>&) {}
  template <typename C>
  void Recv(const std::shared_ptr<link::Context>& c, const C& choices, absl::Span<uint128_t> out, bool = false) {
    auto m = sim_ot::RecvSeed(c);
    for (size_t i = 0; i < out.size(); ++i) out[i] = sim_ot::block(m[0], i) ^ (choices[i] ? m[1] : 0);
  }
};
}  // namespace yacl::crypto
