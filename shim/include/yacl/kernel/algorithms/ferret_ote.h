#pragma once
#include "yacl/kernel/algorithms/base_ot.h"
namespace yacl::crypto {
enum class LpnNoiseAsm { RegularNoise, UniformNoise };
// The stand-in shrinks the batch (n) 64 times, so refills of the OT pool are
// exercised by small cases.
struct LpnParam {
  uint64_t n, k, t;
  LpnNoiseAsm noise_asm;
  LpnParam(uint64_t n_, uint64_t k_, uint64_t t_, LpnNoiseAsm a) : n(n_ / 64), k(k_), t(t_), noise_asm(a) {}
};
inline uint64_t FerretCotHelper(const LpnParam&, uint64_t) { return 1024; }
inline void FerretOtExtSend_cheetah(const std::shared_ptr<link::Context>& c, const OtSendStore& base, const LpnParam&, uint64_t n, absl::Span<uint128_t> out) {
  uint128_t s = RandU128();
  sim_ot::SendSeed(c, s, base.GetDelta());
  for (uint64_t i = 0; i < n; ++i) out[i] = sim_ot::block(s, i) & ~static_cast<uint128_t>(1);
}
inline void FerretOtExtRecv_cheetah(const std::shared_ptr<link::Context>& c, const OtRecvStore&, const LpnParam&, uint64_t n, absl::Span<uint128_t> out) {
  auto m = sim_ot::RecvSeed(c);
  uint128_t my = RandU128();
  for (uint64_t i = 0; i < n; ++i) {
    uint128_t b = sim_ot::block(m[0], i) & ~static_cast<uint128_t>(1);
    out[i] = (sim_ot::block(my, i) >> 77 & 1) != 0 ? b ^ m[1] : b;
  }
}
}  // namespace yacl::crypto
