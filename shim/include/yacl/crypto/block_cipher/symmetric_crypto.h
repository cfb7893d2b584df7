#pragma once
#include <cstdint>
#include <memory>
#include "absl/types/span.h"
#include "yacl/base/int128.h"
#include "yacl/base/exception.h"
namespace yacl::crypto {
class SymmetricCrypto {
 public:
  enum class CryptoType : int { AES128_ECB, AES128_CBC, AES128_CTR, SM4_ECB, SM4_CBC, SM4_CTR };
  SymmetricCrypto(CryptoType type, uint128_t key, uint128_t iv = 0) : type_(type), key_(key), iv_(iv) {}
  SymmetricCrypto(CryptoType type, absl::Span<const uint8_t> key, absl::Span<const uint8_t> iv);
  virtual ~SymmetricCrypto() = default;
  void Decrypt(absl::Span<const uint8_t> c, absl::Span<uint8_t> p) const;
  void Encrypt(absl::Span<const uint8_t> p, absl::Span<uint8_t> c) const;
  uint128_t Encrypt(uint128_t in) const;
  uint128_t Decrypt(uint128_t in) const;
  void Encrypt(absl::Span<const uint128_t> p, absl::Span<uint128_t> c) const;
  void Decrypt(absl::Span<const uint128_t> c, absl::Span<uint128_t> p) const;
  CryptoType GetType() const { return type_; }
  static constexpr int BlockSize() { return 128 / 8; }
 protected:
  CryptoType type_;
  uint128_t key_, iv_;
};
}  // namespace yacl::crypto
