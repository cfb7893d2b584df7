#pragma once
#include <memory>
#include "yacl/crypto/hash/hash_interface.h"
namespace yacl::crypto {
class SslHash : public HashInterface {
 public:
  explicit SslHash(HashAlgorithm a);
  ~SslHash() override;
  SslHash(SslHash&&) = delete;
  HashAlgorithm GetHashAlgorithm() const override { return a_; }
  size_t DigestSize() const override { return n_; }
  SslHash& Reset() override;
  SslHash& Update(ByteContainerView data) override;
  std::vector<uint8_t> CumulativeHash() const override;
 private:
  HashAlgorithm a_;
  size_t n_ = 0;
  void* ctx_;
};
class Sha256Hash final : public SslHash { public: Sha256Hash() : SslHash(HashAlgorithm::SHA256) {} };
class Sm3Hash final : public SslHash { public: Sm3Hash() : SslHash(HashAlgorithm::SM3) {} };
}  // namespace yacl::crypto
