#pragma once
#include <cstdint>
namespace yacl {
bool hasAVX2();
bool hasAVX512ifma();
bool hasBMI2();
// Software pdep/pext: same results as the BMI2 instructions.
inline uint64_t pdep_u64(uint64_t src, uint64_t mask) {
  uint64_t r = 0;
  for (uint64_t bb = 1; mask != 0; bb += bb) {
    if (src & bb) r |= mask & (~mask + 1);
    mask &= mask - 1;
  }
  return r;
}
inline uint64_t pext_u64(uint64_t src, uint64_t mask) {
  uint64_t r = 0;
  for (uint64_t bb = 1; mask != 0; bb += bb) {
    if (src & mask & (~mask + 1)) r |= bb;
    mask &= mask - 1;
  }
  return r;
}
}  // namespace yacl
