// Test double for the part of Microsoft SEAL that psi/algorithm/spiral uses.
#pragma once
#include <array>
#include <cstdint>
#include <cstddef>
#include <stdexcept>
#include <vector>
namespace seal {
class Modulus {
 public:
  Modulus(std::uint64_t value = 0) { set(value); }
  std::uint64_t value() const { return value_; }
  int bit_count() const { return bit_count_; }
  std::size_t uint64_count() const { return 1; }
  const std::array<std::uint64_t, 3>& const_ratio() const { return ratio_; }
  bool is_zero() const { return value_ == 0; }
  bool operator==(const Modulus& o) const { return value_ == o.value_; }
  bool operator!=(const Modulus& o) const { return value_ != o.value_; }
  std::uint64_t reduce(std::uint64_t v) const { return v % value_; }

 private:
  void set(std::uint64_t v) {
    if (v == 1 || (v >> 61)) throw std::invalid_argument("value can be at most 61-bit and cannot be 1");
    value_ = v;
    bit_count_ = v ? 64 - __builtin_clzll(v) : 0;
    if (v) {
      unsigned __int128 all = ~(unsigned __int128)0;
      unsigned __int128 q = all / v, r = all % v;
      if (r == v - 1) { q += 1; r = 0; } else { r += 1; }
      ratio_ = {(std::uint64_t)q, (std::uint64_t)(q >> 64), (std::uint64_t)r};
    }
  }
  std::uint64_t value_ = 0;
  int bit_count_ = 0;
  std::array<std::uint64_t, 3> ratio_{0, 0, 0};
};
}  // namespace seal
