#pragma once
#include <array>
#include <cstring>
#include "yacl/crypto/hash/blake3.h"
#include "yacl/base/int128.h"
namespace yacl::crypto {
inline std::array<uint8_t, 32> Sha256(ByteContainerView d) {
  auto v = SimHash(std::string_view(d), 32);
  std::array<uint8_t, 32> r;
  std::memcpy(r.data(), v.data(), 32);
  return r;
}
inline std::array<uint8_t, 32> Sm3(ByteContainerView d) { return Sha256(d); }
inline std::array<uint8_t, 32> Blake3(ByteContainerView d) { return Sha256(d); }
inline uint128_t Blake3_128(ByteContainerView d) {
  auto v = Sha256(d);
  uint128_t r;
  std::memcpy(&r, v.data(), 16);
  return r;
}
}  // namespace yacl::crypto
