#pragma once
#include <cstdint>
namespace yacl::math {
inline uint64_t Log2Floor(uint64_t x) { return x <= 1 ? 0 : 63 - __builtin_clzll(x); }
inline uint64_t Log2Ceil(uint64_t x) { return x <= 1 ? 0 : 64 - __builtin_clzll(x - 1); }
inline constexpr uint64_t DivCeil(uint64_t x, uint64_t y) { return y == 0 ? 0 : (x + y - 1) / y; }
inline constexpr uint64_t RoundUpTo(uint64_t x, uint64_t s) { return DivCeil(x, s) * s; }
}  // namespace yacl::math
