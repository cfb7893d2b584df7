#pragma once
#include <cstdint>
#include <iostream>
#include <limits>
#include <string>
#include <utility>
#include <algorithm>
#include "fmt/format.h"
#include "fmt/ostream.h"
using int128_t = __int128;
using uint128_t = unsigned __int128;

namespace yacl {
inline constexpr uint128_t Uint128Max() { return ~static_cast<uint128_t>(0); }
inline constexpr uint128_t Uint128Min() { return 0; }
inline constexpr int128_t Int128Max() { return static_cast<int128_t>(Uint128Max() >> 1); }
inline constexpr int128_t Int128Min() { return -Int128Max() - 1; }
inline constexpr uint128_t MakeUint128(uint64_t high, uint64_t low) {
  return (static_cast<uint128_t>(high) << 64) | low;
}
inline constexpr int128_t MakeInt128(int64_t high, uint64_t low) {
  return static_cast<int128_t>((static_cast<uint128_t>(high) << 64) | low);
}
inline std::pair<int64_t, uint64_t> DecomposeInt128(int128_t v) {
  return {static_cast<int64_t>(v >> 64), static_cast<uint64_t>(v)};
}
inline std::pair<uint64_t, uint64_t> DecomposeUInt128(uint128_t v) {
  return {static_cast<uint64_t>(v >> 64), static_cast<uint64_t>(v)};
}
inline std::string ShimU128Str(uint128_t v) {
  if (v == 0) return "0";
  std::string s;
  while (v) {
    s.push_back('0' + static_cast<int>(v % 10));
    v /= 10;
  }
  std::reverse(s.begin(), s.end());
  return s;
}
}  // namespace yacl
inline std::ostream& operator<<(std::ostream& os, uint128_t v) {
  return os << yacl::ShimU128Str(v);
}
inline std::ostream& operator<<(std::ostream& os, int128_t v) {
  if (v < 0) return os << "-" << yacl::ShimU128Str(-static_cast<uint128_t>(v));
  return os << yacl::ShimU128Str(v);
}
namespace std {
inline std::ostream& operator<<(std::ostream& os, uint128_t v) {
  return os << yacl::ShimU128Str(v);
}
#ifdef __STRICT_ANSI__
template <>
struct hash<uint128_t> {
  size_t operator()(uint128_t v) const noexcept {
    uint64_t a = static_cast<uint64_t>(v), b = static_cast<uint64_t>(v >> 64);
    return a * 0x9e3779b97f4a7c15ULL ^ (b + 0x7f4a7c15 + (a << 6) + (a >> 2));
  }
};
#endif
}  // namespace std
