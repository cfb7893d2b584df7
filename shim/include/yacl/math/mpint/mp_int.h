// MPInt over OpenSSL BIGNUM.
#pragma once
#include <cstdint>
#include <memory>
#include <ostream>
#include <string>
#include "yacl/base/buffer.h"
#include "yacl/base/byte_container_view.h"
#include "yacl/base/exception.h"
#include "yacl/base/int128.h"
typedef struct bignum_st BIGNUM;
namespace yacl {
enum class Endian { native, big, little };
}
namespace yacl::math {
enum class PrimeType : int { Normal = 0, BBS = 1, SmallestPrime, FastSafe, FastNormal };
class MPInt {
 public:
  MPInt();
  ~MPInt();
  MPInt(const MPInt& o);
  MPInt(MPInt&& o) noexcept;
  MPInt& operator=(const MPInt& o);
  MPInt& operator=(MPInt&& o) noexcept;
  template <typename T, std::enable_if_t<std::is_integral_v<T> && sizeof(T) <= 8, int> = 0>
  explicit MPInt(T v) : MPInt() {
    bool neg = v < 0;
    SetU64(neg ? 0 - static_cast<uint64_t>(v) : static_cast<uint64_t>(v), neg);
  }
  template <typename T, std::enable_if_t<std::is_integral_v<T> && sizeof(T) <= 8, int> = 0>
  MPInt(T v, size_t) : MPInt(v) {}
  explicit MPInt(const std::string& num, size_t radix = 10);
  template <typename T> T Get() const { return static_cast<T>(GetU64()); }
  bool IsZero() const;
  bool IsOne() const;
  bool IsNegative() const;
  bool IsOdd() const;
  bool IsEven() const { return !IsOdd(); }
  bool IsPositive() const { return !IsNegative() && !IsZero(); }
  size_t BitCount() const;
  int Compare(const MPInt& o) const;
  bool operator==(const MPInt& o) const { return Compare(o) == 0; }
  bool operator!=(const MPInt& o) const { return Compare(o) != 0; }
  bool operator<(const MPInt& o) const { return Compare(o) < 0; }
  bool operator>(const MPInt& o) const { return Compare(o) > 0; }
  bool operator<=(const MPInt& o) const { return Compare(o) <= 0; }
  bool operator>=(const MPInt& o) const { return Compare(o) >= 0; }
  MPInt operator+(const MPInt& o) const;
  MPInt operator-(const MPInt& o) const;
  MPInt operator*(const MPInt& o) const;
  MPInt operator/(const MPInt& o) const;
  MPInt operator%(const MPInt& o) const;
  MPInt& operator+=(const MPInt& o) { return *this = *this + o; }
  MPInt& operator-=(const MPInt& o) { return *this = *this - o; }
  MPInt operator-() const { MPInt r(*this); r.NegateInplace(); return r; }
  void NegateInplace();
  void Negate(MPInt* z) const { *z = -*this; }
  MPInt Mod(const MPInt& m) const;  // non-negative
  MPInt AddMod(const MPInt& b, const MPInt& m) const;
  MPInt SubMod(const MPInt& b, const MPInt& m) const;
  MPInt MulMod(const MPInt& b, const MPInt& m) const;
  MPInt PowMod(const MPInt& e, const MPInt& m) const;
  MPInt InvertMod(const MPInt& m) const;
  static void Add(const MPInt& a, const MPInt& b, MPInt* c) { *c = a + b; }
  static void Sub(const MPInt& a, const MPInt& b, MPInt* c) { *c = a - b; }
  static void Mul(const MPInt& a, const MPInt& b, MPInt* c) { *c = a * b; }
  static void Div(const MPInt& a, const MPInt& b, MPInt* q, MPInt* r);
  static void AddMod(const MPInt& a, const MPInt& b, const MPInt& m, MPInt* d) { *d = a.AddMod(b, m); }
  static void SubMod(const MPInt& a, const MPInt& b, const MPInt& m, MPInt* d) { *d = a.SubMod(b, m); }
  static void MulMod(const MPInt& a, const MPInt& b, const MPInt& m, MPInt* d) { *d = a.MulMod(b, m); }
  static void PowMod(const MPInt& a, const MPInt& e, const MPInt& m, MPInt* d) { *d = a.PowMod(e, m); }
  static void InvertMod(const MPInt& a, const MPInt& m, MPInt* d) { *d = a.InvertMod(m); }
  static void RandomLtN(const MPInt& n, MPInt* r);
  static MPInt RandomLtN(const MPInt& n) { MPInt r; RandomLtN(n, &r); return r; }
  void FromMagBytes(ByteContainerView b, Endian e = Endian::native);
  Buffer ToMagBytes(Endian e = Endian::native) const;
  void ToBytes(unsigned char* buf, size_t n, Endian e = Endian::native) const;
  Buffer ToBytes(size_t n, Endian e = Endian::native) const;
  Buffer Serialize() const;
  void Deserialize(ByteContainerView b);
  std::string ToString() const;
  std::string ToHexString() const;
  friend std::ostream& operator<<(std::ostream& os, const MPInt& a) { return os << a.ToString(); }
  const BIGNUM* bn() const { return b_; }
  BIGNUM* bn() { return b_; }
 private:
  void SetU64(uint64_t v, bool neg);
  uint64_t GetU64() const;
  BIGNUM* b_;
};
}  // namespace yacl::math
