#pragma once
#include "yacl/crypto/hash/hash_utils.h"
#include <cstdint>
#include <cstring>
#include <type_traits>
#include <vector>
#include "absl/types/span.h"
#include "yacl/base/buffer.h"
#include "yacl/base/exception.h"
#include "yacl/base/int128.h"
namespace yacl::crypto {
enum class PRG_MODE { kNistAesCtrDrbg, kGmSm4CtrDrbg, kAesEcb, kSm4Ecb };
enum class PrgMode { kAesCtr, kSm4Ctr };
// stream(seed, counter): keyed PRF block
uint64_t FillPRand(uint128_t seed, uint64_t iv, uint64_t count, char* buf, size_t len);

template <typename T, size_t BATCH_SIZE = 128>
class Prg {
 public:
  using result_type = T;
  explicit Prg(uint128_t seed, PRG_MODE = PRG_MODE::kAesEcb) : seed_(seed) {}
  Prg() : Prg(0) {}
  Prg(uint128_t seed, uint64_t counter, PRG_MODE = PRG_MODE::kAesEcb) : seed_(seed), ctr_(counter) {}
  static constexpr T min() { return 0; }
  static constexpr T max() { return static_cast<T>(~T(0)); }
  T operator()() {
    T v;
    Bytes(reinterpret_cast<char*>(&v), sizeof v);
    return v;
  }
  template <typename Y, std::enable_if_t<std::is_trivially_copyable_v<Y>, int> = 0>
  void Fill(absl::Span<Y> out) { Bytes(reinterpret_cast<char*>(out.data()), out.size() * sizeof(Y)); }
  void Reset() { pos_ = kBuf; ctr_ = 0; }
  uint128_t Seed() const { return seed_; }
  uint64_t Counter() const { return ctr_; }
  void SetSeed(uint128_t s) { seed_ = s; Reset(); }

 private:
  static constexpr size_t kBuf = 1024;
  void Bytes(char* p, size_t n) {
    while (n > 0) {
      if (pos_ == kBuf) {
        if (n >= kBuf) {
          size_t m = n / kBuf * kBuf;
          ctr_ = FillPRand(seed_, 0, ctr_, p, m);
          p += m;
          n -= m;
          continue;
        }
        ctr_ = FillPRand(seed_, 0, ctr_, buf_, kBuf);
        pos_ = 0;
      }
      size_t k = std::min(n, kBuf - pos_);
      std::memcpy(p, buf_ + pos_, k);
      pos_ += k;
      p += k;
      n -= k;
    }
  }
  uint128_t seed_;
  uint64_t ctr_ = 0;
  char buf_[kBuf];
  size_t pos_ = kBuf;
};
template <typename T, std::enable_if_t<std::is_trivially_copyable_v<T>, int> = 0>
uint64_t PrgAesCtr(uint128_t seed, absl::Span<T> out) { return FillPRand(seed, 0, 0, reinterpret_cast<char*>(out.data()), out.size() * sizeof(T)); }
template <typename T>
std::vector<T> PrgAesCtr(uint128_t seed, size_t num) {
  std::vector<T> v(num);
  FillPRand(seed, 0, 0, reinterpret_cast<char*>(v.data()), num * sizeof(T));
  return v;
}
template <typename T>
uint64_t PrgAesCtr(uint128_t seed, uint64_t iv, uint64_t count, absl::Span<T> out) { return FillPRand(seed, iv, count, reinterpret_cast<char*>(out.data()), out.size() * sizeof(T)); }
}  // namespace yacl::crypto
