#pragma once
// GF(2)[x] products and GF(2^128) mod x^128+x^7+x^2+x+1.
#include <cstdint>
#include <cstring>
#include "emp-tool/utils/block.h"
#include "sim.h"
namespace emp {
namespace simf {
using u128 = unsigned __int128;
inline u128 u(block b) { u128 r; std::memcpy(&r, &b, 16); return r; }
inline block b(u128 v) { block r; std::memcpy(&r, &v, 16); return r; }
inline void mul(u128 a, u128 c, u128* lo, u128* hi) {
  *lo = *hi = 0;
  for (int i = 0; i < 128; ++i)
    if (c >> i & 1) { *lo ^= a << i; if (i > 0) *hi ^= a >> (128 - i); }
}
inline u128 red(u128 lo, u128 hi) {
  for (int i = 127; i >= 0; --i)
    if (hi >> i & 1) {
      // x^(128+i) = x^i * (x^7+x^2+x+1)
      u128 p = 0x87;
      lo ^= p << i;
      if (i > 0) hi ^= p >> (128 - i);
    }
  return lo;
}
}  // namespace simf
inline void mul128(block a, block b, block* r1, block* r2) {
  simf::u128 lo, hi;
  simf::mul(simf::u(a), simf::u(b), &lo, &hi);
  *r1 = simf::b(lo);
  *r2 = simf::b(hi);
}
inline void gfmul(block a, block b, block* r) {
  simf::u128 lo, hi;
  simf::mul(simf::u(a), simf::u(b), &lo, &hi);
  *r = simf::b(simf::red(lo, hi));
}
inline void uni_hash_coeff_gen(block* coeff, block seed, int sz) {
  if (sz <= 0) return;
  coeff[0] = seed;
  for (int i = 1; i < sz; ++i) gfmul(coeff[i - 1], seed, &coeff[i]);
}
inline void vector_inn_prdt_sum_red(block* res, const block* a, const block* b, int sz) {
  block r = zero_block, t;
  for (int i = 0; i < sz; ++i) { gfmul(a[i], b[i], &t); r = _mm_xor_si128(r, t); }
  *res = r;
}
}  // namespace emp
