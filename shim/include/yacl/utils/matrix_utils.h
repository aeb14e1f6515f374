#pragma once
#include <array>
#include "yacl/base/int128.h"
namespace yacl {
inline void MatrixTranspose128(std::array<uint128_t, 128>* in) {
  std::array<uint128_t, 128> o{};
  for (size_t i = 0; i < 128; ++i)
    for (size_t j = 0; j < 128; ++j) o[j] |= ((*in)[i] >> j & 1) << i;
  *in = o;
}
inline void SseTranspose128(std::array<uint128_t, 128>* in) { MatrixTranspose128(in); }
}  // namespace yacl
