#pragma once
#include "absl/types/span.h"
#include "yacl/crypto/aes/aes_opt.h"
namespace yacl::crypto {
inline uint128_t CrHash_128(uint128_t x) {
  static const AES_KEY k = [] { AES_KEY r; sim_aes::schedule(_mm_set_epi64x(0x0123456789abcdefLL, 0x1122334455667788LL), &r); return r; }();
  __m128i v;
  __builtin_memcpy(&v, &x, 16);
  __m128i e = _mm_xor_si128(sim_aes::enc(v, k), v);
  __builtin_memcpy(&x, &e, 16);
  return x;
}
inline void ParaCrHashInplace_128(absl::Span<uint128_t> x) { for (auto& v : x) v = CrHash_128(v); }
}  // namespace yacl::crypto
