#pragma once
#include <array>
#include <memory>
#include <vector>
#include "absl/types/span.h"
#include "yacl/base/dynamic_bitset.h"
#include "yacl/base/exception.h"
#include "yacl/base/int128.h"
namespace yacl::crypto {
enum class OtStoreType { Normal, Compact };
class OtRecvStore {
 public:
  OtRecvStore() = default;
  OtRecvStore(dynamic_bitset<uint128_t> c, std::vector<uint128_t> b) : c_(std::move(c)), b_(std::move(b)) { YACL_ENFORCE(c_.size() == b_.size()); }
  uint64_t Size() const { return b_.size(); }
  uint8_t GetChoice(uint64_t i) const { return c_[i]; }
  uint128_t GetBlock(uint64_t i) const { return b_.at(i); }
  dynamic_bitset<uint128_t> CopyChoice() const { return c_; }
  std::vector<uint128_t> CopyBlocks() const { return b_; }
 private:
  dynamic_bitset<uint128_t> c_;
  std::vector<uint128_t> b_;
};
class OtSendStore {
 public:
  OtSendStore() = default;
  explicit OtSendStore(std::vector<std::array<uint128_t, 2>> b) : b_(std::move(b)) {}
  uint64_t Size() const { return b_.size(); }
  uint128_t GetBlock(uint64_t i, uint64_t j) const { return b_.at(i)[j]; }
 private:
  std::vector<std::array<uint128_t, 2>> b_;
};
struct MockOtStore { OtSendStore send; OtRecvStore recv; };
inline OtRecvStore MakeOtRecvStore(const dynamic_bitset<uint128_t>& c, const std::vector<uint128_t>& b) { return OtRecvStore(c, b); }
inline OtSendStore MakeOtSendStore(const std::vector<std::array<uint128_t, 2>>& b) { return OtSendStore(b); }
}  // namespace yacl::crypto
