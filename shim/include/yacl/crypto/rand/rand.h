#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include "absl/types/span.h"
#include "yacl/base/buffer.h"
#include "yacl/base/dynamic_bitset.h"
#include "yacl/base/exception.h"
#include "yacl/base/int128.h"
#include "sim.h"
#include "yacl/crypto/tools/prg.h"
namespace yacl::crypto {
inline uint64_t RandU64(bool = false) { return sim::NextU64(); }
inline uint32_t RandU32(bool = false) { return static_cast<uint32_t>(sim::NextU64()); }
inline uint128_t RandU128(bool = false) {
  uint64_t a = sim::NextU64();
  return yacl::MakeUint128(a, sim::NextU64());
}
inline uint64_t FastRandU64() { return RandU64(); }
inline uint64_t SecureRandU64() { return RandU64(); }
inline uint128_t FastRandU128() { return RandU128(); }
inline uint128_t SecureRandU128() { return RandU128(); }
inline uint128_t SecureRandSeed() { return RandU128(); }
inline uint128_t FastRandSeed() { return RandU128(); }
inline uint128_t RandSeed(bool = false) { return RandU128(); }
inline void FillRand(char* buf, size_t len, bool = false) { sim::FillBytes(buf, len); }
inline std::vector<uint8_t> RandBytes(uint64_t len, bool = false) {
  std::vector<uint8_t> r(len);
  sim::FillBytes(r.data(), len);
  return r;
}
inline Buffer SecureRandBytes(uint64_t len) {
  Buffer r(static_cast<int64_t>(len));
  sim::FillBytes(r.data(), len);
  return r;
}
inline Buffer FastRandBytes(uint64_t len) { return SecureRandBytes(len); }
template <typename T = dynamic_bitset<uint128_t>>
T RandBits(uint64_t len, bool = false) {
  T out;
  out.resize(len);
  for (uint64_t i = 0; i < len; ++i) out[i] = (sim::NextU64() & 1) != 0;
  return out;
}
template <typename T = dynamic_bitset<uint128_t>>
T SecureRandBits(uint64_t len) { return RandBits<T>(len); }
template <typename T = dynamic_bitset<uint128_t>>
T FastRandBits(uint64_t len) { return RandBits<T>(len); }
template <typename T>
std::vector<T> RandVec(uint64_t len, bool = false) {
  std::vector<T> r(len);
  sim::FillBytes(r.data(), len * sizeof(T));
  return r;
}
}  // namespace yacl::crypto
