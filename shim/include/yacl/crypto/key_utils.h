#pragma once
#include <tuple>
#include <utility>
#include "yacl/base/buffer.h"
#include "yacl/crypto/rand/rand.h"
namespace yacl::crypto {
inline std::pair<Buffer, Buffer> GenSm2KeyPairToPemBuf() {
  auto k = SecureRandBytes(32);
  return {Buffer(k.data(), k.size()), Buffer(k.data(), k.size())};
}
}  // namespace yacl::crypto
