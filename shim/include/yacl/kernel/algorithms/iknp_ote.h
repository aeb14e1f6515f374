#pragma once
#include "yacl/kernel/algorithms/base_ot.h"
namespace yacl::crypto {
inline void IknpOtExtSend(const std::shared_ptr<link::Context>& c, const OtRecvStore& base, absl::Span<std::array<uint128_t, 2>> out, bool cot = false) {
  uint128_t d = 0;
  for (size_t k = 0; k < base.Size(); ++k) d |= static_cast<uint128_t>(base.GetChoice(k)) << k;
  uint128_t s = RandU128();
  sim_ot::SendSeed(c, s, d);
  for (size_t i = 0; i < out.size(); ++i) {
    uint128_t b = sim_ot::block(s, i);
    out[i] = {b, b ^ d};
    if (!cot) out[i][1] = sim_ot::block(s ^ 1, i);
  }
}
template <typename C>
void IknpOtExtRecv(const std::shared_ptr<link::Context>& c, const OtSendStore&, const C& choices, absl::Span<uint128_t> out, bool cot = false) {
  auto m = sim_ot::RecvSeed(c);
  for (size_t i = 0; i < out.size(); ++i) {
    uint128_t b = sim_ot::block(m[0], i);
    out[i] = !choices[i] ? b : cot ? b ^ m[1] : sim_ot::block(m[0] ^ 1, i);
  }
}
}  // namespace yacl::crypto
