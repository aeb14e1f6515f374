#pragma once
#include <cstdint>
#include <memory>
#include "absl/types/span.h"
#include "yacl/base/exception.h"
#include "yacl/base/int128.h"
namespace yacl::crypto {
class SymmetricCrypto {
 public:
  enum class CryptoType : int {
    AES128_ECB, AES128_CBC, AES128_CTR, SM4_ECB, SM4_CBC, SM4_CTR,
  };
  SymmetricCrypto(CryptoType type, uint128_t key, uint128_t iv = 0);
  SymmetricCrypto(CryptoType type, absl::Span<const uint8_t> key, absl::Span<const uint8_t> iv);
  void Encrypt(absl::Span<const uint8_t> in, absl::Span<uint8_t> out) const;
  void Decrypt(absl::Span<const uint8_t> in, absl::Span<uint8_t> out) const;
  uint128_t Encrypt(uint128_t in) const;
  uint128_t Decrypt(uint128_t in) const;
  void Encrypt(absl::Span<const uint128_t> in, absl::Span<uint128_t> out) const;
  void Decrypt(absl::Span<const uint128_t> in, absl::Span<uint128_t> out) const;
  CryptoType GetType() const { return type_; }
 private:
  CryptoType type_;
  uint128_t key_, iv_;
};
}  // namespace yacl::crypto
