// Functional stand-in for silent VOLE: the sender samples (a, b, delta) and
// ships a, c = a*delta ^ b to the receiver. Same calling contract.
#pragma once
#include "yacl/crypto/hash/hash_utils.h"
#include <memory>
#include <string>
#include <vector>
#include "absl/types/span.h"
#include "yacl/crypto/rand/rand.h"
#include "yacl/link/link.h"
#include "yacl/math/galois_field/gf_intrinsic.h"
namespace yacl::crypto {
enum class CodeType { Silver5, Silver11, ExAcc7, ExAcc11, ExAcc21, ExAcc40, ExConv7x24, ExConv21x24 };
class SilentVoleSender {
 public:
  explicit SilentVoleSender(CodeType code, bool mal = false) : code_(code), mal_(mal) { FillRand((char*)&delta_, 16); }
  uint128_t GetDelta() const { return delta_; }
  void Send(const std::shared_ptr<link::Context>& ctx, absl::Span<uint128_t> b) { Run<uint128_t>(ctx, b); }
  void SfSend(const std::shared_ptr<link::Context>& ctx, absl::Span<uint128_t> b) { Run<uint64_t>(ctx, b); }
 private:
  template <typename T>
  void Run(const std::shared_ptr<link::Context>& ctx, absl::Span<uint128_t> b) {
    FillRand((char*)b.data(), b.size() * 16);
    std::vector<T> a(b.size());
    FillRand((char*)a.data(), a.size() * sizeof(T));
    std::vector<uint128_t> c(b.size());
    for (size_t i = 0; i < b.size(); ++i) c[i] = GfMul128(a[i], delta_) ^ b[i];
    int hdr[2] = {(int)code_, (int)mal_};
    ctx->SendAsync(ctx->NextRank(), ByteContainerView(hdr, sizeof hdr), "shim-vole-hdr");
    ctx->SendAsync(ctx->NextRank(), ByteContainerView(a.data(), a.size() * sizeof(T)), "shim-vole-a");
    ctx->SendAsync(ctx->NextRank(), ByteContainerView(c.data(), c.size() * 16), "shim-vole-c");
  }
  CodeType code_;
  bool mal_;
  uint128_t delta_;
};
class SilentVoleReceiver {
 public:
  explicit SilentVoleReceiver(CodeType code, bool mal = false) : code_(code), mal_(mal) {}
  void Recv(const std::shared_ptr<link::Context>& ctx, absl::Span<uint128_t> a, absl::Span<uint128_t> c) { Run<uint128_t>(ctx, a, c); }
  void SfRecv(const std::shared_ptr<link::Context>& ctx, absl::Span<uint64_t> a, absl::Span<uint128_t> c) { Run<uint64_t>(ctx, a, c); }
 private:
  template <typename T>
  void Run(const std::shared_ptr<link::Context>& ctx, absl::Span<T> a, absl::Span<uint128_t> c) {
    YACL_ENFORCE(a.size() == c.size());
    auto h = ctx->Recv(ctx->NextRank(), "shim-vole-hdr");
    int hdr[2];
    YACL_ENFORCE(h.size() == sizeof hdr);
    std::memcpy(hdr, h.data(), sizeof hdr);
    YACL_ENFORCE(hdr[0] == (int)code_ && hdr[1] == (int)mal_, "vole parameters differ");
    auto x = ctx->Recv(ctx->NextRank(), "shim-vole-a");
    auto y = ctx->Recv(ctx->NextRank(), "shim-vole-c");
    YACL_ENFORCE((size_t)x.size() == a.size() * sizeof(T) && (size_t)y.size() == c.size() * 16, "vole size mismatch");
    std::memcpy(a.data(), x.data(), x.size());
    std::memcpy(c.data(), y.data(), y.size());
  }
  CodeType code_;
  bool mal_;
};
}  // namespace yacl::crypto
