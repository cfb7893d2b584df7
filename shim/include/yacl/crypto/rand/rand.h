#pragma once
#include <cstdint>
#include <random>
#include <string>
#include <vector>
#include "absl/types/span.h"
#include "yacl/base/dynamic_bitset.h"
#include "yacl/base/int128.h"
#include "yacl/base/exception.h"
#include "yacl/crypto/tools/prg.h"
#include <climits>
namespace yacl::shim {
void SeedRand(uint64_t seed);  // makes every Rand*/RAND_bytes a function of seed
}
namespace yacl::crypto {
void FillRand(char* buf, size_t len, bool fast = false);
inline void FillRand(uint8_t* buf, size_t len, bool fast = false) { FillRand(reinterpret_cast<char*>(buf), len, fast); }
template <typename T>
void FillRand(absl::Span<T> out, bool fast = false) { FillRand(reinterpret_cast<char*>(out.data()), out.size() * sizeof(T), fast); }
template <typename T>
T ShimRandT() { T v; FillRand(reinterpret_cast<char*>(&v), sizeof v); return v; }
inline uint32_t RandU32(bool = false) { return ShimRandT<uint32_t>(); }
inline uint64_t RandU64(bool = false) { return ShimRandT<uint64_t>(); }
inline uint128_t RandU128(bool = false) { return ShimRandT<uint128_t>(); }
inline uint32_t SecureRandU32() { return RandU32(false); }
inline uint64_t SecureRandU64() { return RandU64(false); }
inline uint128_t SecureRandU128() { return RandU128(false); }
inline uint32_t FastRandU32() { return RandU32(false); }
inline uint64_t FastRandU64() { return RandU64(false); }
inline uint128_t FastRandU128() { return RandU128(false); }
inline uint128_t RandSeed(bool = false) { return RandU128(false); }
inline uint128_t SecureRandSeed() { return RandU128(false); }
inline uint128_t FastRandSeed() { return RandU128(false); }
inline std::vector<uint8_t> RandBytes(uint64_t n, bool = false) { std::vector<uint8_t> v(n); FillRand(v.data(), n); return v; }
inline std::vector<uint8_t> SecureRandBytes(uint64_t n) { return RandBytes(n); }
inline std::vector<uint8_t> FastRandBytes(uint64_t n) { return RandBytes(n); }
template <typename T = dynamic_bitset<uint128_t>>
T RandBits(uint64_t n, bool = false) {
  T o;
  o.resize(n);
  auto b = RandBytes(n);
  for (uint64_t i = 0; i < n; ++i) o[i] = b[i] & 1;
  return o;
}
template <typename T = dynamic_bitset<uint128_t>>
T SecureRandBits(uint64_t n) { return RandBits<T>(n); }
template <typename T = dynamic_bitset<uint128_t>>
T FastRandBits(uint64_t n) { return RandBits<T>(n); }
template <typename T>
std::vector<T> RandVec(uint64_t n, bool = false) {
  std::vector<T> v(n);
  FillRand(reinterpret_cast<char*>(v.data()), n * sizeof(T));
  return v;
}
template <typename T>
std::vector<T> SecureRandVec(uint64_t n) { return RandVec<T>(n); }
template <typename T>
std::vector<T> FastRandVec(uint64_t n) { return RandVec<T>(n); }
inline void ShimNoop() {}

template <typename T, std::enable_if_t<std::is_unsigned_v<T>, int> = 0>
class YaclStdUrbg {
 public:
  using result_type = T;
  static constexpr T min() { return 0; }
  static constexpr T max() { return static_cast<T>(~T(0)); }
  T operator()() { return ShimRandT<T>(); }
};
template <typename T, std::enable_if_t<std::is_unsigned_v<T>, int> = 0>
class YaclReplayUrbg {
 public:
  using result_type = T;
  YaclReplayUrbg(uint128_t seed, uint64_t ctr) : p_(seed) { for (uint64_t i = 0; i < ctr % 4096; ++i) (void)p_(); ctr_ = ctr; }
  YaclReplayUrbg(uint128_t seed, uint64_t ctr, uint128_t iv) : YaclReplayUrbg(seed ^ iv, ctr) {}
  static constexpr T min() { return 0; }
  static constexpr T max() { return static_cast<T>(~T(0)); }
  T operator()() { ++ctr_; return p_(); }
  uint64_t GetCounter() const { return ctr_; }
 private:
  Prg<T> p_;
  uint64_t ctr_ = 0;
};
template <class It>
void ReplayShuffle(It b, It e, uint128_t seed, uint64_t* ctr) {
  YaclReplayUrbg<uint32_t> g(seed, *ctr);
  std::shuffle(b, e, g);
  *ctr = g.GetCounter();
}
}  // namespace yacl::crypto
