#pragma once
#include "seal/util/uintarithsmallmod.h"
namespace seal::util {
inline bool is_primitive_root(std::uint64_t root, std::uint64_t degree, const Modulus& m) {
  return root != 0 && exponentiate_uint_mod(root, degree >> 1, m) == m.value() - 1;
}
inline bool try_primitive_root(std::uint64_t degree, const Modulus& m, std::uint64_t& dst) {
  std::uint64_t size = m.value() - 1, quo = size / degree;
  if (size - quo * degree != 0) return false;
  for (std::uint64_t c = 2; c < 102; ++c) {
    dst = exponentiate_uint_mod(c, quo, m);
    if (is_primitive_root(dst, degree, m)) return true;
  }
  return false;
}
inline bool try_minimal_primitive_root(std::uint64_t degree, const Modulus& m, std::uint64_t& dst) {
  std::uint64_t root;
  if (!try_primitive_root(degree, m, root)) return false;
  std::uint64_t g2 = multiply_uint_mod(root, root, m), cur = root, best = root;
  for (std::uint64_t i = 0; i < degree; i += 2) {
    if (cur < best) best = cur;
    cur = multiply_uint_mod(cur, g2, m);
  }
  dst = best;
  return true;
}
}  // namespace seal::util
