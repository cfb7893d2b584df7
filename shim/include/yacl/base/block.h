#pragma once
#include <immintrin.h>
#include <array>
#include <cstdint>
#include <cstring>
#include "yacl/base/int128.h"
namespace yacl {
struct alignas(16) block {
  __m128i mData;
  block() = default;
  block(const block&) = default;
  block& operator=(const block&) = default;
  block(uint64_t hi, uint64_t lo) { mData = _mm_set_epi64x(hi, lo); }
  explicit block(uint64_t lo) { mData = _mm_set_epi64x(0, lo); }
  block(uint128_t v) { std::memcpy(&mData, &v, 16); }
  block(const __m128i& x) { mData = x; }
  operator const __m128i&() const { return mData; }
  operator __m128i&() { return mData; }
  __m128i& m128i() { return mData; }
  const __m128i& m128i() const { return mData; }
  template <typename T>
  std::array<T, 16 / sizeof(T)> get() const {
    std::array<T, 16 / sizeof(T)> o;
    std::memcpy(o.data(), &mData, 16);
    return o;
  }
  template <typename T>
  T get(size_t i) const {
    return get<T>()[i];
  }
  template <typename T>
  std::array<T, 16 / sizeof(T)> as() const { return get<T>(); }
  template <typename T>
  T as(size_t i) const { return get<T>()[i]; }
  template <typename T>
  void set(size_t i, T v) {
    std::memcpy(reinterpret_cast<uint8_t*>(&mData) + i * sizeof(T), &v, sizeof(T));
  }
  uint8_t* data() { return reinterpret_cast<uint8_t*>(&mData); }
  const uint8_t* data() const { return reinterpret_cast<const uint8_t*>(&mData); }
  block operator^(const block& o) const { return _mm_xor_si128(mData, o.mData); }
  block& operator^=(const block& o) { mData = _mm_xor_si128(mData, o.mData); return *this; }
  block operator&(const block& o) const { return _mm_and_si128(mData, o.mData); }
  block& operator&=(const block& o) { mData = _mm_and_si128(mData, o.mData); return *this; }
  block operator|(const block& o) const { return _mm_or_si128(mData, o.mData); }
  block& operator|=(const block& o) { mData = _mm_or_si128(mData, o.mData); return *this; }
  block operator~() const { return *this ^ block(~0ull, ~0ull); }
  block operator+(const block& o) const { return _mm_add_epi64(mData, o.mData); }
  block operator-(const block& o) const { return _mm_sub_epi64(mData, o.mData); }
  block operator<<(size_t n) const { return block(U() << n); }
  block operator>>(size_t n) const { return block(U() >> n); }
  block add_epi64(const block& b) const { return _mm_add_epi64(mData, b.mData); }
  block sub_epi64(const block& b) const { return _mm_sub_epi64(mData, b.mData); }
  block mm_andnot_si128(const block& b) const { return _mm_andnot_si128(mData, b.mData); }
  template <int imm8> block mm_slli_epi64() const { return _mm_slli_epi64(mData, imm8); }
  template <int imm8> block mm_srli_epi64() const { return _mm_srli_epi64(mData, imm8); }
  template <int imm8> block mm_slli_si128() const { return _mm_slli_si128(mData, imm8); }
  template <int imm8> block mm_srli_si128() const { return _mm_srli_si128(mData, imm8); }
  block slli_epi64(int i) const { return _mm_slli_epi64(mData, i); }
  block srli_epi64(int i) const { return _mm_srli_epi64(mData, i); }
  bool operator==(const block& o) const { return U() == o.U(); }
  bool operator!=(const block& o) const { return U() != o.U(); }
  bool operator<(const block& o) const { return U() < o.U(); }

 private:
  uint128_t U() const { uint128_t v; std::memcpy(&v, &mData, 16); return v; }
};
static_assert(sizeof(block) == 16);
}  // namespace yacl
