#pragma once
#include <immintrin.h>
#include <cstdint>
#include "yacl/base/int128.h"
namespace yacl::crypto {
struct AES_KEY { __m128i rd_key[11]; unsigned rounds; };
namespace sim_aes {
inline __m128i assist(__m128i k, __m128i g) {
  g = _mm_shuffle_epi32(g, 0xff);
  k = _mm_xor_si128(k, _mm_slli_si128(k, 4));
  k = _mm_xor_si128(k, _mm_slli_si128(k, 4));
  k = _mm_xor_si128(k, _mm_slli_si128(k, 4));
  return _mm_xor_si128(k, g);
}
inline void schedule(__m128i k, AES_KEY* o) {
  __m128i* r = o->rd_key;
  r[0] = k;
#define SIM_AES_R(i, c) r[i] = assist(r[i - 1], _mm_aeskeygenassist_si128(r[i - 1], c));
  SIM_AES_R(1, 0x01) SIM_AES_R(2, 0x02) SIM_AES_R(3, 0x04) SIM_AES_R(4, 0x08) SIM_AES_R(5, 0x10)
  SIM_AES_R(6, 0x20) SIM_AES_R(7, 0x40) SIM_AES_R(8, 0x80) SIM_AES_R(9, 0x1b) SIM_AES_R(10, 0x36)
#undef SIM_AES_R
  o->rounds = 10;
}
inline __m128i enc(__m128i x, const AES_KEY& k) {
  x = _mm_xor_si128(x, k.rd_key[0]);
  for (int i = 1; i < 10; ++i) x = _mm_aesenc_si128(x, k.rd_key[i]);
  return _mm_aesenclast_si128(x, k.rd_key[10]);
}
}  // namespace sim_aes
template <int N>
inline void AES_opt_key_schedule(__m128i* user_key, AES_KEY* keys) {
  for (int i = 0; i < N; ++i) sim_aes::schedule(user_key[i], keys + i);
}
template <int K, int P>
inline void ParaEnc(__m128i* blks, AES_KEY* keys) {
  for (int i = 0; i < K; ++i) for (int j = 0; j < P; ++j) blks[i * P + j] = sim_aes::enc(blks[i * P + j], keys[i]);
}
}  // namespace yacl::crypto
