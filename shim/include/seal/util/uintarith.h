#pragma once
#include <cstdint>
namespace seal::util {
template <typename T, typename S>
inline unsigned char add_uint64(T a, S b, unsigned long long* r) {
  unsigned __int128 s = (unsigned __int128)(std::uint64_t)a + (std::uint64_t)b;
  *r = (unsigned long long)s;
  return (unsigned char)(s >> 64);
}
template <typename T, typename S>
inline unsigned char add_uint64(T a, S b, std::uint64_t* r) {
  unsigned __int128 s = (unsigned __int128)(std::uint64_t)a + (std::uint64_t)b;
  *r = (std::uint64_t)s;
  return (unsigned char)(s >> 64);
}
template <typename T, typename S>
inline void multiply_uint64(T a, S b, unsigned long long* r) {
  unsigned __int128 p = (unsigned __int128)(std::uint64_t)a * (std::uint64_t)b;
  r[0] = (unsigned long long)p;
  r[1] = (unsigned long long)(p >> 64);
}
template <typename T, typename S>
inline void multiply_uint64_hw64(T a, S b, unsigned long long* r) {
  *r = (unsigned long long)(((unsigned __int128)(std::uint64_t)a * (std::uint64_t)b) >> 64);
}
inline void divide_uint192_inplace(std::uint64_t* n, std::uint64_t d, std::uint64_t* q) {
  unsigned __int128 rem = 0;
  for (int i = 2; i >= 0; --i) {
    rem = (rem << 64) | n[i];
    q[i] = (std::uint64_t)(rem / d);
    rem %= d;
  }
  n[0] = (std::uint64_t)rem;
  n[1] = n[2] = 0;
}
}  // namespace seal::util
