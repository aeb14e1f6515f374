// Stand-in public-key encryption: the "key pair" is one shared secret; the
// ciphertext is nonce || xor-pad || tag, so tampering or a wrong key is noticed.
#pragma once
#include <cstring>
#include <vector>
#include "yacl/base/buffer.h"
#include "yacl/base/byte_container_view.h"
#include "yacl/base/exception.h"
#include "yacl/crypto/block_cipher/symmetric_crypto.h"
#include "yacl/crypto/hash/hash_utils.h"
#include "sim.h"
namespace yacl::crypto {
class PkeEncryptor {
 public:
  virtual ~PkeEncryptor() = default;
  virtual std::vector<uint8_t> Encrypt(ByteContainerView p) = 0;
};
class PkeDecryptor {
 public:
  virtual ~PkeDecryptor() = default;
  virtual std::vector<uint8_t> Decrypt(ByteContainerView c) = 0;
};
namespace sm2_sim {
inline std::vector<uint8_t> Pad(const std::string& key, const std::string& nonce, size_t n) {
  std::vector<uint8_t> r;
  for (uint32_t i = 0; r.size() < n; ++i) {
    auto h = Sha256(key + nonce + std::to_string(i));
    r.insert(r.end(), h.begin(), h.end());
  }
  r.resize(n);
  return r;
}
}  // namespace sm2_sim
class Sm2Encryptor : public PkeEncryptor {
 public:
  explicit Sm2Encryptor(ByteContainerView pk) : k_(reinterpret_cast<const char*>(pk.data()), pk.size()) {}
  std::vector<uint8_t> Encrypt(ByteContainerView p) override {
    std::string nonce(16, '\0');
    sim::FillBytes(nonce.data(), 16);
    std::string plain(reinterpret_cast<const char*>(p.data()), p.size());
    auto pad = sm2_sim::Pad(k_, nonce, plain.size());
    std::vector<uint8_t> out(nonce.begin(), nonce.end());
    auto tag = Sha256("tag" + k_ + nonce + plain);
    for (size_t i = 0; i < plain.size(); ++i) out.push_back(static_cast<uint8_t>(plain[i]) ^ pad[i]);
    out.insert(out.end(), tag.begin(), tag.begin() + 16);
    return out;
  }
 private:
  std::string k_;
};
class Sm2Decryptor : public PkeDecryptor {
 public:
  explicit Sm2Decryptor(ByteContainerView sk) : k_(reinterpret_cast<const char*>(sk.data()), sk.size()) {}
  std::vector<uint8_t> Decrypt(ByteContainerView c) override {
    std::string s(reinterpret_cast<const char*>(c.data()), c.size());
    YACL_ENFORCE(s.size() >= 32, "short ciphertext");
    std::string nonce = s.substr(0, 16), body = s.substr(16, s.size() - 32), tag = s.substr(s.size() - 16);
    auto pad = sm2_sim::Pad(k_, nonce, body.size());
    for (size_t i = 0; i < body.size(); ++i) body[i] = static_cast<char>(body[i] ^ pad[i]);
    auto t = Sha256("tag" + k_ + nonce + body);
    YACL_ENFORCE(std::memcmp(t.data(), tag.data(), 16) == 0, "bad ciphertext");
    return {body.begin(), body.end()};
  }
 private:
  std::string k_;
};
}  // namespace yacl::crypto
