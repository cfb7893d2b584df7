// Test double for libdivide: same API, plain division.
#pragma once
#include <cstdint>
#include <cstdlib>
namespace libdivide {
struct libdivide_u64_t {
  uint64_t d;
  uint64_t magic;
  uint8_t more;
};
inline libdivide_u64_t libdivide_u64_gen(uint64_t d) {
  if (d == 0) abort();  // as libdivide does (LIBDIVIDE_ERROR aborts)
  return {d, 0, 0};
}
inline uint64_t libdivide_u64_do(uint64_t n, const libdivide_u64_t* p) { return n / p->d; }
}  // namespace libdivide
