#pragma once
#include <cstring>
#include <vector>
#include "absl/types/span.h"
#include "yacl/base/buffer.h"
#include "yacl/base/int128.h"
#include "yacl/crypto/hash/hash_utils.h"
namespace yacl::crypto {
class RandomOracle {
 public:
  explicit RandomOracle(HashAlgorithm a, size_t outlen = 32) : a_(a), n_(outlen) {}
  static RandomOracle& GetDefault() { static RandomOracle r(HashAlgorithm::BLAKE3, 32); return r; }
  static RandomOracle& GetBlake3() { return GetDefault(); }
  static RandomOracle& GetSha256() { static RandomOracle r(HashAlgorithm::SHA256, 32); return r; }
  size_t GetOutputLength() const { return n_; }
  void SetOutputLength(size_t n) { n_ = n; }
  Buffer operator()(ByteContainerView x, size_t outlen = 0) const { return Gen(x, outlen); }
  Buffer Gen(ByteContainerView x, size_t outlen = 0) const {
    size_t n = outlen ? outlen : n_;
    std::string o;
    for (uint32_t i = 0; o.size() < n; ++i) {
      SslHash h(HashAlgorithm::SHA256);
      h.Update(ByteContainerView(&i, 4)).Update(x);
      auto d = h.CumulativeHash();
      o.append(d.begin(), d.end());
    }
    return Buffer(o.data(), n);
  }
  template <typename T, std::enable_if_t<std::is_standard_layout_v<T>, int> = 0>
  T Gen(ByteContainerView x) const {
    auto b = Gen(x, std::max<size_t>(n_, sizeof(T)));
    T v;
    std::memcpy(&v, b.data(), sizeof(T));
    return v;
  }
  template <typename T>
  T Gen(ByteContainerView x, ByteContainerView y) const {
    std::string s(reinterpret_cast<const char*>(x.data()), x.size());
    s.append(reinterpret_cast<const char*>(y.data()), y.size());
    return Gen<T>(ByteContainerView(s));
  }
  template <typename T>
  T Gen(ByteContainerView x, uint64_t y) const { return Gen<T>(x, ByteContainerView(&y, 8)); }
 private:
  HashAlgorithm a_;
  size_t n_;
};
}  // namespace yacl::crypto
