#pragma once
#include <cstdint>
#include <type_traits>
#include <array>
#include <vector>
#include "absl/types/span.h"
#include "yacl/base/exception.h"
#include "yacl/base/int128.h"
#include "yacl/crypto/block_cipher/symmetric_crypto.h"
#include "sim.h"
namespace yacl::crypto {
enum class PRG_MODE { kNistAesCtrDrbg, kAesEcb, kSm4Ecb };

// Fills `out` with the PRG stream (seed, iv) starting at 16-byte block `count`
// and returns the counter of the next unused block.
inline uint64_t FillPRand(SymmetricCrypto::CryptoType, uint128_t seed, uint64_t iv,
                          uint64_t count, char* buf, size_t len) {
  sim::PrgBlocks(seed, iv, count, buf, len);
  return count + (len + 15) / 16;
}
template <typename T,
          std::enable_if_t<std::is_standard_layout_v<T>, int> = 0>
uint64_t FillPRand(SymmetricCrypto::CryptoType type, uint128_t seed, uint64_t iv,
                   uint64_t count, absl::Span<T> out) {
  return FillPRand(type, seed, iv, count,
                   const_cast<char*>(reinterpret_cast<const char*>(out.data())),
                   out.size() * sizeof(T));
}
template <typename T>
uint64_t FillPRandWithLtN(SymmetricCrypto::CryptoType type, uint128_t seed, uint64_t iv,
                          uint64_t count, absl::Span<T> out, T n) {
  auto c = FillPRand(type, seed, iv, count, out);
  for (auto& x : out) x %= n;
  return c;
}
template <typename T>
uint64_t FillPRandWithMersennePrime(SymmetricCrypto::CryptoType type, uint128_t seed,
                                    uint64_t iv, uint64_t count, absl::Span<T> out) {
  auto c = FillPRand(type, seed, iv, count, out);
  constexpr int kExp = sizeof(T) == 16 ? 127 : sizeof(T) == 8 ? 61 : 31;
  const T p = (static_cast<T>(1) << kExp) - 1;
  for (auto& x : out) {
    x &= p;
    if (x == p) x = 0;
  }
  return c;
}
inline uint64_t DummyUpdateRandomCount(uint64_t count, size_t buffer_size) {
  return count + (buffer_size + 15) / 16;
}

template <typename T, size_t BATCH_SIZE = 128>
class Prg {
  uint128_t seed_;
  uint64_t pos_{0};  // bytes consumed
 public:
  explicit Prg(uint128_t seed = 0, PRG_MODE = PRG_MODE::kAesEcb) : seed_(seed) {}
  T operator()() {
    if constexpr (std::is_same_v<T, bool>) {
      uint8_t b;
      Raw(&b, 1);
      return (b & 1) != 0;
    } else {
      T r;
      Raw(&r, sizeof(T));
      return r;
    }
  }
  template <typename Y>
  void Fill(absl::Span<Y> out) { Raw(out.data(), out.size() * sizeof(Y)); }
  template <typename Y = T, size_t N>
  std::array<Y, N> FillArray() { std::array<Y, N> a; Raw(a.data(), N * sizeof(Y)); return a; }
  uint64_t Counter() const { return (pos_ + 15) / 16; }
  uint128_t Seed() const { return seed_; }
  void Reset(uint128_t seed, uint64_t = 0) { seed_ = seed; pos_ = 0; }
 private:
  void Raw(void* p, size_t n) {
    uint64_t b0 = pos_ / 16, off = pos_ % 16;
    std::vector<char> tmp(off + n);
    sim::PrgBlocks(seed_, 0x5f5f, b0, tmp.data(), off + n);
    std::memcpy(p, tmp.data() + off, n);
    pos_ += n;
  }
};

template <typename T, std::enable_if_t<std::is_standard_layout_v<T>, int> = 0>
void PrgAesCtr(const uint128_t seed, absl::Span<T> out) {
  FillPRand(SymmetricCrypto::CryptoType::AES128_CTR, seed, 0, 0, out);
}
template <typename T>
std::vector<T> PrgAesCtr(const uint128_t seed, const size_t num) {
  std::vector<T> r(num);
  PrgAesCtr(seed, absl::MakeSpan(r));
  return r;
}
template <typename RandomIt>
void ReplayShuffle(RandomIt first, RandomIt last, uint128_t seed, uint64_t* counter) {
  if (first == last) return;
  const auto n = static_cast<uint64_t>(last - first);
  std::vector<uint64_t> rnd(n);
  *counter = FillPRand(SymmetricCrypto::CryptoType::AES128_CTR, seed, 0, *counter, absl::MakeSpan(rnd));
  for (uint64_t i = n - 1; i > 0; --i) std::swap(first[i], first[rnd[i] % (i + 1)]);
}
}  // namespace yacl::crypto
