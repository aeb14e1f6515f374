#pragma once
// Ideal OT functionalities (the sender plays the dealer and tells the
// receiver what it needs): correct results, no cryptographic hiding.
#include <array>
#include <memory>
#include <vector>
#include "yacl/crypto/rand/rand.h"
#include "yacl/kernel/type/ot_store.h"
#include "yacl/link/link.h"
#include "yacl/utils/serialize.h"
#include "sim.h"
namespace yacl::crypto {
namespace sim_ot {
inline uint128_t block(uint128_t seed, uint64_t i) { uint128_t r; sim::PrgBlocks(seed, 0x07, i, &r, 16); return r; }
inline void SendSeed(const std::shared_ptr<link::Context>& c, uint128_t seed, uint128_t delta) {
  std::array<uint128_t, 2> m{seed, delta};
  c->SendAsync(c->NextRank(), ByteContainerView(m.data(), sizeof(m)), "sim-ot");
}
inline std::array<uint128_t, 2> RecvSeed(const std::shared_ptr<link::Context>& c) {
  auto b = c->Recv(c->NextRank(), "sim-ot");
  std::array<uint128_t, 2> m{};
  YACL_ENFORCE(b.size() == sizeof(m));
  std::memcpy(m.data(), b.data(), sizeof(m));
  return m;
}
}  // namespace sim_ot
inline void BaseOtSend(const std::shared_ptr<link::Context>& c, absl::Span<std::array<uint128_t, 2>> out) {
  uint128_t s = RandU128();
  sim_ot::SendSeed(c, s, 0);
  for (size_t i = 0; i < out.size(); ++i) out[i] = {sim_ot::block(s, 2 * i), sim_ot::block(s, 2 * i + 1)};
}
template <typename C>
void BaseOtRecv(const std::shared_ptr<link::Context>& c, const C& choices, absl::Span<uint128_t> out) {
  auto m = sim_ot::RecvSeed(c);
  for (size_t i = 0; i < out.size(); ++i) out[i] = sim_ot::block(m[0], 2 * i + (choices[i] ? 1 : 0));
}
inline OtSendStore BaseOtSend(const std::shared_ptr<link::Context>& c, uint32_t n) {
  std::vector<std::array<uint128_t, 2>> v(n);
  BaseOtSend(c, absl::MakeSpan(v));
  return OtSendStore(std::move(v));
}
template <typename C>
OtRecvStore BaseOtRecv(const std::shared_ptr<link::Context>& c, const C& choices, uint32_t n) {
  std::vector<uint128_t> v(n);
  BaseOtRecv(c, choices, absl::MakeSpan(v));
  return MakeOtRecvStore(choices, v);
}
}  // namespace yacl::crypto
