// KKRT OPRF over 512-column OT extension (T0/T1 rows, correction
// U = T0 ^ T1 ^ C(x); F = H(row, T0) = H(row, Q ^ (U ^ C(x)) & s ...)).
#pragma once
#include <array>
#include <cstring>
#include <memory>
#include <mutex>
#include <vector>
#include "absl/types/span.h"
#include "yacl/crypto/hash/hash_utils.h"
#include "yacl/crypto/tools/prg.h"
#include "yacl/kernel/algorithms/iknp_ote.h"
namespace yacl::crypto {
using KkrtRow = std::array<uint128_t, 4>;
namespace shim_kkrt {
KkrtRow Code(uint128_t x);
void Hash(uint64_t idx, const KkrtRow& r, uint8_t* dst, size_t n);
std::vector<KkrtRow> Expand(const std::vector<uint128_t>& seeds, size_t n);
}
class IGroupPRF {
 public:
  virtual ~IGroupPRF() = default;
  virtual size_t Size() const = 0;
  virtual uint64_t Eval(size_t group_idx, uint128_t input) = 0;
  virtual void Eval(size_t group_idx, uint128_t input, uint8_t* out, size_t n) = 0;
};
class KkrtOtExtSender {
 public:
  void Init(const std::shared_ptr<link::Context>& ctx, const OtRecvStore& base, uint64_t n);
  void SetBatchSize(uint64_t b) { YACL_ENFORCE(b > 0); batch_ = b; }
  uint64_t GetBatchSize() const { return batch_; }
  void RecvCorrection(const std::shared_ptr<link::Context>& ctx, uint64_t n) { SetCorrection(ctx->Recv(ctx->NextRank(), "KKRT:correction"), n); }
  void SetCorrection(const Buffer& b, uint64_t n);
  void Encode(uint64_t idx, uint128_t in, void* dest, uint64_t n);
  std::unique_ptr<IGroupPRF> GetOprf();
 private:
  uint64_t n_ = 0, batch_ = 896, done_ = 0;
  KkrtRow s_{};
  std::vector<KkrtRow> q_, u_;
};
class KkrtOtExtReceiver {
 public:
  void Init(const std::shared_ptr<link::Context>& ctx, const OtSendStore& base, uint64_t n);
  void SetBatchSize(uint64_t b) { YACL_ENFORCE(b > 0); batch_ = b; }
  uint64_t GetBatchSize() const { return batch_; }
  void Encode(uint64_t idx, uint128_t in, absl::Span<uint8_t> dest);
  void ZeroEncode(uint64_t idx);
  Buffer ShiftCorrection(uint64_t n);
  void SendCorrection(const std::shared_ptr<link::Context>& ctx, uint64_t n) { auto b = ShiftCorrection(n); ctx->SendAsync(ctx->NextRank(), b, "KKRT:correction"); }
 private:
  uint64_t n_ = 0, batch_ = 896, sent_ = 0;
  std::vector<KkrtRow> t0_, t1_, u_;
  std::vector<char> enc_;
};
}  // namespace yacl::crypto
