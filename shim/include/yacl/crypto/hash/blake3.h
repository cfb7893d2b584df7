// Stand-in: BLAKE2b truncated/extended to the requested length (only the
// collision-resistant-function contract matters to the code under test).
#pragma once
#include "yacl/crypto/hash/ssl_hash.h"
namespace yacl::crypto {
class Blake3Hash : public HashInterface {
 public:
  explicit Blake3Hash(uint64_t out = 32) : n_(out), h_(HashAlgorithm::BLAKE2B) {}
  HashAlgorithm GetHashAlgorithm() const override { return HashAlgorithm::BLAKE3; }
  size_t DigestSize() const override { return n_; }
  Blake3Hash& Reset() override { h_.Reset(); return *this; }
  Blake3Hash& Update(ByteContainerView d) override { h_.Update(d); return *this; }
  std::vector<uint8_t> CumulativeHash() const override;
 private:
  size_t n_;
  SslHash h_;
};
}  // namespace yacl::crypto
