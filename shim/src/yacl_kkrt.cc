#include "yacl/kernel/algorithms/kkrt_ote.h"
#include "yacl/crypto/aes/aes_intrinsics.h"
namespace yacl::crypto {
namespace shim_kkrt {
KkrtRow Code(uint128_t x) {
  static const std::array<AES_KEY, 4> k = {AES_set_encrypt_key(1), AES_set_encrypt_key(2), AES_set_encrypt_key(3), AES_set_encrypt_key(4)};
  KkrtRow r;
  for (int i = 0; i < 4; ++i) r[i] = AES_ecb_encrypt_blk(k[i], x) ^ x;
  return r;
}
void Hash(uint64_t idx, const KkrtRow& r, uint8_t* dst, size_t n) {
  Blake3Hash h(n);
  h.Update(ByteContainerView(&idx, 8));
  h.Update(ByteContainerView(r.data(), 64));
  auto o = h.CumulativeHash();
  std::memcpy(dst, o.data(), n);
}
std::vector<KkrtRow> Expand(const std::vector<uint128_t>& seeds, size_t n) {
  std::vector<KkrtRow> rows(n, KkrtRow{});
  std::vector<uint8_t> bits((n + 7) / 8);
  for (size_t c = 0; c < seeds.size(); ++c) {
    Prg<uint8_t> p(seeds[c]);
    p.Fill(absl::MakeSpan(bits));
    for (size_t i = 0; i < n; ++i)
      rows[i][c / 128] |= (uint128_t)((bits[i / 8] >> (i % 8)) & 1) << (c % 128);
  }
  return rows;
}
}  // namespace shim_kkrt
static KkrtRow operator^(const KkrtRow& a, const KkrtRow& b) { KkrtRow r; for (int i = 0; i < 4; ++i) r[i] = a[i] ^ b[i]; return r; }
static KkrtRow operator&(const KkrtRow& a, const KkrtRow& b) { KkrtRow r; for (int i = 0; i < 4; ++i) r[i] = a[i] & b[i]; return r; }

void KkrtOtExtSender::Init(const std::shared_ptr<link::Context>&, const OtRecvStore& base, uint64_t n) {
  YACL_ENFORCE(base.Size() == 512, "KKRT requires 512 base OTs, got {}", base.Size());
  n_ = n;
  std::vector<uint128_t> seeds(512);
  s_ = KkrtRow{};
  for (int i = 0; i < 512; ++i) { seeds[i] = base.GetBlock(i); s_[i / 128] |= (uint128_t)base.GetChoice(i) << (i % 128); }
  q_ = shim_kkrt::Expand(seeds, n);
  u_.assign(n, KkrtRow{});
  done_ = 0;
}
void KkrtOtExtSender::SetCorrection(const Buffer& b, uint64_t n) {
  YACL_ENFORCE(b.size() == (int64_t)(n * sizeof(KkrtRow)), "correction size mismatch");
  YACL_ENFORCE(done_ + n <= n_);
  std::memcpy(u_.data() + done_, b.data(), b.size());
  done_ += n;
}
void KkrtOtExtSender::Encode(uint64_t idx, uint128_t in, void* dest, uint64_t n) {
  YACL_ENFORCE(idx < n_);
  shim_kkrt::Hash(idx, q_[idx] ^ (s_ & (u_[idx] ^ shim_kkrt::Code(in))), (uint8_t*)dest, n);
}
namespace {
struct Prf : IGroupPRF {
  KkrtOtExtSender* s; uint64_t n;
  size_t Size() const override { return n; }
  uint64_t Eval(size_t g, uint128_t in) override { uint64_t o; s->Encode(g, in, &o, 8); return o; }
  void Eval(size_t g, uint128_t in, uint8_t* o, size_t k) override { s->Encode(g, in, o, k); }
};
}
std::unique_ptr<IGroupPRF> KkrtOtExtSender::GetOprf() { auto p = std::make_unique<Prf>(); p->s = this; p->n = n_; return p; }

void KkrtOtExtReceiver::Init(const std::shared_ptr<link::Context>&, const OtSendStore& base, uint64_t n) {
  YACL_ENFORCE(base.Size() == 512, "KKRT requires 512 base OTs, got {}", base.Size());
  n_ = n;
  std::vector<uint128_t> a(512), b(512);
  for (int i = 0; i < 512; ++i) { a[i] = base.GetBlock(i, 0); b[i] = base.GetBlock(i, 1); }
  t0_ = shim_kkrt::Expand(a, n);
  t1_ = shim_kkrt::Expand(b, n);
  u_.assign(n, KkrtRow{});
  enc_.assign(n, 0);
  sent_ = 0;
}
// sender: Q col c = T_{s_c} col c.  Q ^ s&(U ^ C(y)) with U = T0^T1^C(x):
//   s_c=0: T0 ; s_c=1: T1 ^ T0 ^ T1 ^ C(x) ^ C(y) = T0 iff x==y.
void KkrtOtExtReceiver::Encode(uint64_t idx, uint128_t in, absl::Span<uint8_t> dest) {
  YACL_ENFORCE(idx < n_ && !enc_[idx], "row {} encoded twice", idx);
  enc_[idx] = 1;
  u_[idx] = t0_[idx] ^ t1_[idx] ^ shim_kkrt::Code(in);
  shim_kkrt::Hash(idx, t0_[idx], dest.data(), dest.size());
}
void KkrtOtExtReceiver::ZeroEncode(uint64_t idx) {
  YACL_ENFORCE(idx < n_ && !enc_[idx]);
  enc_[idx] = 1;
  FillRand((char*)&u_[idx], sizeof(KkrtRow));
}
Buffer KkrtOtExtReceiver::ShiftCorrection(uint64_t n) {
  YACL_ENFORCE(sent_ + n <= n_);
  for (uint64_t i = sent_; i < sent_ + n; ++i) YACL_ENFORCE(enc_[i], "correction for unencoded row {}", i);
  Buffer b(u_.data() + sent_, n * sizeof(KkrtRow));
  sent_ += n;
  return b;
}
}  // namespace yacl::crypto
