#pragma once
#include "yacl/base/int128.h"
namespace yacl {
// GF(2^128), x^128+x^7+x^2+x+1; schoolbook (independent of the code under test)
inline uint128_t GfMul128(uint128_t a, uint128_t b) {
  uint128_t r = 0;
  for (int i = 0; i < 128; ++i) {
    r ^= a & (0 - (b & 1));
    b >>= 1;
    uint128_t c = a >> 127;
    a = (a << 1) ^ (0x87 & (0 - c));
  }
  return r;
}
}  // namespace yacl
