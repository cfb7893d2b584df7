#include <openssl/bn.h>
#include <openssl/ec.h>
#include <openssl/evp.h>
#include <openssl/obj_mac.h>
#include <openssl/rand.h>
#include <atomic>
#include <mutex>
#include "yacl/base/block.h"
#include "yacl/crypto/aes/aes_opt.h"
#include "yacl/crypto/block_cipher/symmetric_crypto.h"
#include "yacl/crypto/ecc/ecc_spi.h"
#include "yacl/crypto/hash/hash_utils.h"
#include "yacl/crypto/rand/rand.h"
#include "yacl/kernel/algorithms/base_ot.h"
#include "yacl/kernel/algorithms/iknp_ote.h"
#include "yacl/math/mpint/mp_int.h"

// ---------------- AES ----------------
namespace yacl::crypto {
namespace {
template <int RC>
inline __m128i Exp(__m128i k) {
  __m128i t = _mm_shuffle_epi32(_mm_aeskeygenassist_si128(k, RC), 0xff);
  k = _mm_xor_si128(k, _mm_slli_si128(k, 4));
  k = _mm_xor_si128(k, _mm_slli_si128(k, 4));
  k = _mm_xor_si128(k, _mm_slli_si128(k, 4));
  return _mm_xor_si128(k, t);
}
inline __m128i L(uint128_t v) { __m128i r; std::memcpy(&r, &v, 16); return r; }
inline uint128_t S(__m128i v) { uint128_t r; std::memcpy(&r, &v, 16); return r; }
}  // namespace
void AES_set_encrypt_key(uint128_t k, AES_KEY* key) {
  __m128i* r = key->rd_key;
  r[0] = L(k);
  r[1] = Exp<1>(r[0]); r[2] = Exp<2>(r[1]); r[3] = Exp<4>(r[2]); r[4] = Exp<8>(r[3]);
  r[5] = Exp<16>(r[4]); r[6] = Exp<32>(r[5]); r[7] = Exp<64>(r[6]); r[8] = Exp<128>(r[7]);
  r[9] = Exp<27>(r[8]); r[10] = Exp<54>(r[9]);
  key->rounds = 10;
}
AES_KEY AES_set_encrypt_key(uint128_t k) { AES_KEY r; AES_set_encrypt_key(k, &r); return r; }
void AES_set_decrypt_key(uint128_t k, AES_KEY* key) {
  AES_KEY e; AES_set_encrypt_key(k, &e);
  key->rd_key[0] = e.rd_key[10];
  for (int i = 1; i < 10; ++i) key->rd_key[i] = _mm_aesimc_si128(e.rd_key[10 - i]);
  key->rd_key[10] = e.rd_key[0];
  key->rounds = 10;
}
uint128_t AES_ecb_encrypt_blk(const AES_KEY& k, uint128_t in) {
  __m128i b = _mm_xor_si128(L(in), k.rd_key[0]);
  for (int i = 1; i < 10; ++i) b = _mm_aesenc_si128(b, k.rd_key[i]);
  return S(_mm_aesenclast_si128(b, k.rd_key[10]));
}
uint128_t AES_ecb_decrypt_blk(const AES_KEY& k, uint128_t in) {
  __m128i b = _mm_xor_si128(L(in), k.rd_key[0]);
  for (int i = 1; i < 10; ++i) b = _mm_aesdec_si128(b, k.rd_key[i]);
  return S(_mm_aesdeclast_si128(b, k.rd_key[10]));
}
void AES_ecb_encrypt_blks(const AES_KEY& k, absl::Span<const uint128_t> in, absl::Span<uint128_t> out) {
  for (size_t i = 0; i < in.size(); ++i) out[i] = AES_ecb_encrypt_blk(k, in[i]);
}
void AES_ecb_encrypt_blks(const AES_KEY& k, absl::Span<uint128_t> io) {
  for (auto& x : io) x = AES_ecb_encrypt_blk(k, x);
}
void AES_ecb_decrypt_blks(const AES_KEY& k, absl::Span<const uint128_t> in, absl::Span<uint128_t> out) {
  for (size_t i = 0; i < in.size(); ++i) out[i] = AES_ecb_decrypt_blk(k, in[i]);
}

SymmetricCrypto::SymmetricCrypto(CryptoType t, absl::Span<const uint8_t> key, absl::Span<const uint8_t> iv) : type_(t), key_(0), iv_(0) {
  YACL_ENFORCE(key.size() == 16);
  std::memcpy(&key_, key.data(), 16);
  if (!iv.empty()) std::memcpy(&iv_, iv.data(), 16);
}
void SymmetricCrypto::Encrypt(absl::Span<const uint8_t> p, absl::Span<uint8_t> c) const {
  YACL_ENFORCE(p.size() % 16 == 0 || type_ == CryptoType::AES128_CTR);
  YACL_ENFORCE(c.size() >= p.size());
  AES_KEY k = AES_set_encrypt_key(key_);
  uint128_t chain = iv_;
  for (size_t i = 0; i < p.size(); i += 16) {
    uint128_t b = 0;
    size_t n = std::min<size_t>(16, p.size() - i);
    std::memcpy(&b, p.data() + i, n);
    switch (type_) {
      case CryptoType::AES128_ECB: case CryptoType::SM4_ECB: b = AES_ecb_encrypt_blk(k, b); break;
      case CryptoType::AES128_CBC: case CryptoType::SM4_CBC: b = chain = AES_ecb_encrypt_blk(k, b ^ chain); break;
      default: b ^= AES_ecb_encrypt_blk(k, chain); chain += 1; break;
    }
    std::memcpy(c.data() + i, &b, n);
  }
}
void SymmetricCrypto::Decrypt(absl::Span<const uint8_t> c, absl::Span<uint8_t> p) const {
  if (type_ == CryptoType::AES128_CTR || type_ == CryptoType::SM4_CTR) { Encrypt(c, p); return; }
  YACL_ENFORCE(c.size() % 16 == 0 && p.size() >= c.size());
  AES_KEY k; AES_set_decrypt_key(key_, &k);
  uint128_t chain = iv_;
  for (size_t i = 0; i < c.size(); i += 16) {
    uint128_t b;
    std::memcpy(&b, c.data() + i, 16);
    uint128_t d = AES_ecb_decrypt_blk(k, b);
    if (type_ == CryptoType::AES128_CBC || type_ == CryptoType::SM4_CBC) { d ^= chain; chain = b; }
    std::memcpy(p.data() + i, &d, 16);
  }
}
uint128_t SymmetricCrypto::Encrypt(uint128_t in) const {
  uint128_t o; Encrypt(absl::MakeConstSpan((const uint8_t*)&in, 16), absl::MakeSpan((uint8_t*)&o, 16)); return o;
}
uint128_t SymmetricCrypto::Decrypt(uint128_t in) const {
  uint128_t o; Decrypt(absl::MakeConstSpan((const uint8_t*)&in, 16), absl::MakeSpan((uint8_t*)&o, 16)); return o;
}
void SymmetricCrypto::Encrypt(absl::Span<const uint128_t> p, absl::Span<uint128_t> c) const {
  Encrypt(absl::MakeConstSpan((const uint8_t*)p.data(), p.size() * 16), absl::MakeSpan((uint8_t*)c.data(), c.size() * 16));
}
void SymmetricCrypto::Decrypt(absl::Span<const uint128_t> c, absl::Span<uint128_t> p) const {
  Decrypt(absl::MakeConstSpan((const uint8_t*)c.data(), c.size() * 16), absl::MakeSpan((uint8_t*)p.data(), p.size() * 16));
}

// ---------------- PRG / RNG ----------------
uint64_t FillPRand(uint128_t seed, uint64_t iv, uint64_t count, char* buf, size_t len) {
  AES_KEY k = AES_set_encrypt_key(seed);
  for (size_t i = 0; i < len; i += 16) {
    uint128_t b = AES_ecb_encrypt_blk(k, MakeUint128(iv, count++));
    std::memcpy(buf + i, &b, std::min<size_t>(16, len - i));
  }
  return count;
}
namespace {
struct GlobalRng {
  std::mutex mu;
  AES_KEY key;
  uint64_t ctr = 0;
  GlobalRng() { Seed(0x5eed); }
  void Seed(uint64_t s) { key = AES_set_encrypt_key(MakeUint128(0x706174, s)); ctr = 0; }
  void Fill(char* p, size_t n) {
    std::lock_guard<std::mutex> g(mu);
    for (size_t i = 0; i < n; i += 16) {
      uint128_t b = AES_ecb_encrypt_blk(key, ctr++);
      std::memcpy(p + i, &b, std::min<size_t>(16, n - i));
    }
  }
};
GlobalRng& G() { static GlobalRng* g = new GlobalRng; return *g; }
int RBytes(unsigned char* b, int n) { G().Fill((char*)b, n); return 1; }
int RStatus() { return 1; }
int RSeed(const void*, int) { return 1; }
int RAdd(const void*, int, double) { return 1; }
RAND_METHOD kMeth = {RSeed, RBytes, nullptr, RAdd, RBytes, RStatus};
struct InstallRand { InstallRand() { RAND_set_rand_method(&kMeth); } } g_install;
}  // namespace
void FillRand(char* buf, size_t len, bool) { G().Fill(buf, len); }
}  // namespace yacl::crypto
namespace seal::util {
std::uint64_t bfv_rand() {
  std::uint64_t v;
  yacl::crypto::FillRand((char*)&v, sizeof v);
  return v;
}
}  // namespace seal::util
namespace yacl::shim {
void SeedRand(uint64_t s) { std::lock_guard<std::mutex> g(crypto::G().mu); crypto::G().Seed(s); }
}

// ---------------- hashes ----------------
namespace yacl::crypto {
static const EVP_MD* Md(HashAlgorithm a) {
  switch (a) {
    case HashAlgorithm::SHA224: return EVP_sha224();
    case HashAlgorithm::SHA256: return EVP_sha256();
    case HashAlgorithm::SHA384: return EVP_sha384();
    case HashAlgorithm::SHA512: return EVP_sha512();
    case HashAlgorithm::SHA_1: return EVP_sha1();
    case HashAlgorithm::SM3: return EVP_sm3();
    case HashAlgorithm::BLAKE2S: return EVP_blake2s256();
    default: return EVP_blake2b512();
  }
}
SslHash::SslHash(HashAlgorithm a) : a_(a) {
  auto* c = EVP_MD_CTX_new();
  ctx_ = c;
  EVP_DigestInit_ex(c, Md(a), nullptr);
  n_ = EVP_MD_size(Md(a));
}
SslHash::~SslHash() { EVP_MD_CTX_free((EVP_MD_CTX*)ctx_); }
SslHash& SslHash::Reset() { EVP_DigestInit_ex((EVP_MD_CTX*)ctx_, Md(a_), nullptr); return *this; }
SslHash& SslHash::Update(ByteContainerView d) { EVP_DigestUpdate((EVP_MD_CTX*)ctx_, d.data(), d.size()); return *this; }
std::vector<uint8_t> SslHash::CumulativeHash() const {
  auto* c = EVP_MD_CTX_new();
  EVP_MD_CTX_copy_ex(c, (EVP_MD_CTX*)ctx_);
  std::vector<uint8_t> o(n_);
  unsigned l = 0;
  EVP_DigestFinal_ex(c, o.data(), &l);
  EVP_MD_CTX_free(c);
  return o;
}
std::vector<uint8_t> Blake3Hash::CumulativeHash() const {
  auto h = h_.CumulativeHash();
  std::vector<uint8_t> o(h.begin(), h.begin() + std::min<size_t>(n_, h.size()));
  while (o.size() < n_) {  // XOF extension
    SslHash x(HashAlgorithm::BLAKE2B);
    uint64_t k = o.size();
    x.Update(ByteContainerView(&k, 8)).Update(ByteContainerView(h.data(), h.size()));
    auto e = x.CumulativeHash();
    for (auto b : e) if (o.size() < n_) o.push_back(b);
  }
  return o;
}
template <size_t N>
static std::array<uint8_t, N> Once(HashAlgorithm a, ByteContainerView d) {
  SslHash h(a);
  h.Update(d);
  auto v = h.CumulativeHash();
  std::array<uint8_t, N> o;
  std::copy_n(v.begin(), N, o.begin());
  return o;
}
std::array<uint8_t, 32> Sha256(ByteContainerView d) { return Once<32>(HashAlgorithm::SHA256, d); }
std::array<uint8_t, 32> Sm3(ByteContainerView d) { return Once<32>(HashAlgorithm::SM3, d); }
std::array<uint8_t, 64> Blake2(ByteContainerView d) { return Once<64>(HashAlgorithm::BLAKE2B, d); }
std::array<uint8_t, 32> Blake3(ByteContainerView d) { return Once<32>(HashAlgorithm::BLAKE2B, d); }
uint128_t Blake3_128(ByteContainerView d) {
  auto a = Blake3(d);
  uint128_t r;
  std::memcpy(&r, a.data(), 16);
  return r;
}
}  // namespace yacl::crypto

// ---------------- MPInt ----------------
namespace yacl::math {
static BN_CTX* Bc() { thread_local BN_CTX* c = BN_CTX_new(); return c; }
MPInt::MPInt() : b_(BN_new()) {}
MPInt::~MPInt() { BN_free(b_); }
MPInt::MPInt(const MPInt& o) : b_(BN_dup(o.b_)) {}
MPInt::MPInt(MPInt&& o) noexcept : b_(o.b_) { o.b_ = BN_new(); }
MPInt& MPInt::operator=(const MPInt& o) { if (this != &o) BN_copy(b_, o.b_); return *this; }
MPInt& MPInt::operator=(MPInt&& o) noexcept { std::swap(b_, o.b_); return *this; }
void MPInt::SetU64(uint64_t v, bool neg) { BN_set_word(b_, v); if (neg) BN_set_negative(b_, 1); }
uint64_t MPInt::GetU64() const {
  unsigned char t[8] = {0};
  MPInt m(*this); BN_set_negative(m.b_, 0);
  BN_mask_bits(m.b_, 64);
  BN_bn2lebinpad(m.b_, t, 8);
  uint64_t v; std::memcpy(&v, t, 8);
  return IsNegative() ? 0 - v : v;
}
MPInt::MPInt(const std::string& num, size_t radix) : MPInt() {
  std::string s = num; bool neg = false;
  if (!s.empty() && s[0] == '-') { neg = true; s = s.substr(1); }
  if (s.rfind("0x", 0) == 0 || s.rfind("0X", 0) == 0) { s = s.substr(2); radix = 16; }
  if (radix == 16) BN_hex2bn(&b_, s.c_str()); else BN_dec2bn(&b_, s.c_str());
  BN_set_negative(b_, neg);
}
bool MPInt::IsZero() const { return BN_is_zero(b_); }
bool MPInt::IsOne() const { return BN_is_one(b_); }
bool MPInt::IsNegative() const { return BN_is_negative(b_); }
bool MPInt::IsOdd() const { return BN_is_odd(b_); }
size_t MPInt::BitCount() const { return BN_num_bits(b_); }
int MPInt::Compare(const MPInt& o) const { return BN_cmp(b_, o.b_); }
MPInt MPInt::operator+(const MPInt& o) const { MPInt r; BN_add(r.b_, b_, o.b_); return r; }
MPInt MPInt::operator-(const MPInt& o) const { MPInt r; BN_sub(r.b_, b_, o.b_); return r; }
MPInt MPInt::operator*(const MPInt& o) const { MPInt r; BN_mul(r.b_, b_, o.b_, Bc()); return r; }
MPInt MPInt::operator/(const MPInt& o) const { MPInt r; BN_div(r.b_, nullptr, b_, o.b_, Bc()); return r; }
MPInt MPInt::operator%(const MPInt& o) const { MPInt r; BN_div(nullptr, r.b_, b_, o.b_, Bc()); return r; }
void MPInt::NegateInplace() { BN_set_negative(b_, !BN_is_negative(b_)); }
MPInt MPInt::Mod(const MPInt& m) const { MPInt r; BN_nnmod(r.b_, b_, m.b_, Bc()); return r; }
MPInt MPInt::AddMod(const MPInt& b, const MPInt& m) const { MPInt r; BN_mod_add(r.b_, b_, b.b_, m.b_, Bc()); return r; }
MPInt MPInt::SubMod(const MPInt& b, const MPInt& m) const { MPInt r; BN_mod_sub(r.b_, b_, b.b_, m.b_, Bc()); return r; }
MPInt MPInt::MulMod(const MPInt& b, const MPInt& m) const { MPInt r; BN_mod_mul(r.b_, b_, b.b_, m.b_, Bc()); return r; }
MPInt MPInt::PowMod(const MPInt& e, const MPInt& m) const { MPInt r; BN_mod_exp(r.b_, b_, e.b_, m.b_, Bc()); return r; }
MPInt MPInt::InvertMod(const MPInt& m) const { MPInt r; YACL_ENFORCE(BN_mod_inverse(r.b_, b_, m.b_, Bc()) != nullptr); return r; }
void MPInt::Div(const MPInt& a, const MPInt& b, MPInt* q, MPInt* r) { MPInt qq, rr; BN_div(qq.b_, rr.b_, a.b_, b.b_, Bc()); *q = qq; *r = rr; }
void MPInt::RandomLtN(const MPInt& n, MPInt* r) { BN_rand_range(r->b_, n.b_); }
void MPInt::FromMagBytes(ByteContainerView b, Endian e) {
  if (e == Endian::big) BN_bin2bn(b.data(), b.size(), b_); else BN_lebin2bn(b.data(), b.size(), b_);
  BN_set_negative(b_, 0);
}
Buffer MPInt::ToMagBytes(Endian e) const {
  size_t n = BN_num_bytes(b_);
  Buffer o(static_cast<int64_t>(n));
  if (e == Endian::big) BN_bn2binpad(b_, o.data<unsigned char>(), n); else BN_bn2lebinpad(b_, o.data<unsigned char>(), n);
  return o;
}
void MPInt::ToBytes(unsigned char* buf, size_t n, Endian e) const {
  MPInt m(*this);
  BN_set_negative(m.b_, 0);
  if ((size_t)BN_num_bits(m.b_) > n * 8) BN_mask_bits(m.b_, n * 8);
  if (e == Endian::big) BN_bn2binpad(m.b_, buf, n); else BN_bn2lebinpad(m.b_, buf, n);
}
Buffer MPInt::ToBytes(size_t n, Endian e) const { Buffer o(static_cast<int64_t>(n)); ToBytes(o.data<unsigned char>(), n, e); return o; }
Buffer MPInt::Serialize() const { auto s = ToHexString(); return Buffer(s.data(), s.size()); }
void MPInt::Deserialize(ByteContainerView b) { *this = MPInt(std::string((const char*)b.data(), b.size()), 16); }
std::string MPInt::ToString() const { char* p = BN_bn2dec(b_); std::string s(p); OPENSSL_free(p); return s; }
std::string MPInt::ToHexString() const { char* p = BN_bn2hex(b_); std::string s(p); OPENSSL_free(p); return s; }
}  // namespace yacl::math

// ---------------- ECC groups ----------------
namespace yacl::crypto {
namespace {
using math::MPInt;
Array32 X25519Mul(const Array32& u, const unsigned char sk[32]) {
  EVP_PKEY* s = EVP_PKEY_new_raw_private_key(EVP_PKEY_X25519, nullptr, sk, 32);
  EVP_PKEY* p = EVP_PKEY_new_raw_public_key(EVP_PKEY_X25519, nullptr, u.data(), 32);
  EVP_PKEY_CTX* c = EVP_PKEY_CTX_new(s, nullptr);
  Array32 o{};
  size_t n = 32;
  bool ok = EVP_PKEY_derive_init(c) == 1 && EVP_PKEY_derive_set_peer(c, p) == 1 && EVP_PKEY_derive(c, o.data(), &n) == 1;
  EVP_PKEY_CTX_free(c); EVP_PKEY_free(s); EVP_PKEY_free(p);
  if (!ok) o.fill(0);
  return o;
}
class XOnlyGroup : public EcGroup {
 public:
  explicit XOnlyGroup(std::string n) : n_(std::move(n)) {}
  std::string GetCurveName() const override { return n_; }
  std::string GetLibraryName() const override { return "shim"; }
  MPInt GetOrder() const override { return MPInt("1000000000000000000000000000000014DEF9DEA2F79CD65812631A5CF5D3ED", 16); }
  EcPoint GetGenerator() const override { Array32 g{}; g[0] = 9; return g; }
  EcPoint MulBase(const MPInt& s) const override { return Mul(GetGenerator(), s); }
  EcPoint Mul(const EcPoint& p, const MPInt& s) const override {
    unsigned char k[32];
    s.ToBytes(k, 32, Endian::little);
    return X25519Mul(std::get<Array32>(p), k);
  }
  EcPoint Add(const EcPoint&, const EcPoint&) const override { YACL_THROW("x-only group"); }
  EcPoint Negate(const EcPoint& p) const override { return p; }
  EcPoint HashToCurve(HashToCurveStrategy, std::string_view in) const override { return Sha256(std::string(n_) + std::string(in)); }
  Buffer SerializePoint(const EcPoint& p, PointOctetFormat) const override { auto& a = std::get<Array32>(p); return Buffer(a.data(), 32); }
  EcPoint DeserializePoint(ByteContainerView b, PointOctetFormat) const override {
    YACL_ENFORCE(b.size() == 32, "bad point size {}", b.size());
    Array32 a; std::memcpy(a.data(), b.data(), 32); return a;
  }
  uint64_t GetSerializeLength(PointOctetFormat) const override { return 32; }
  bool PointEqual(const EcPoint& a, const EcPoint& b) const override { return std::get<Array32>(a) == std::get<Array32>(b); }
  bool IsInfinity(const EcPoint& p) const override { return std::get<Array32>(p) == Array32{}; }
  bool IsInCurveGroup(const EcPoint&) const override { return true; }
 private:
  std::string n_;
};
class SslGroup : public EcGroup {
 public:
  SslGroup(std::string n, int nid) : n_(std::move(n)), g_(EC_GROUP_new_by_curve_name(nid)) { YACL_ENFORCE(g_); }
  ~SslGroup() override { EC_GROUP_free(g_); }
  std::string GetCurveName() const override { return n_; }
  std::string GetLibraryName() const override { return "openssl"; }
  MPInt GetOrder() const override { MPInt m; EC_GROUP_get_order(g_, m.bn(), C()); return m; }
  EcPoint GetGenerator() const override { return W(EC_POINT_dup(EC_GROUP_get0_generator(g_), g_)); }
  EcPoint MulBase(const MPInt& s) const override { auto* r = EC_POINT_new(g_); EC_POINT_mul(g_, r, s.bn(), nullptr, nullptr, C()); return W(r); }
  EcPoint Mul(const EcPoint& p, const MPInt& s) const override { auto* r = EC_POINT_new(g_); EC_POINT_mul(g_, r, nullptr, P(p), s.bn(), C()); return W(r); }
  EcPoint Add(const EcPoint& a, const EcPoint& b) const override { auto* r = EC_POINT_new(g_); EC_POINT_add(g_, r, P(a), P(b), C()); return W(r); }
  EcPoint Negate(const EcPoint& a) const override { auto* r = EC_POINT_dup(P(a), g_); EC_POINT_invert(g_, r, C()); return W(r); }
  EcPoint HashToCurve(HashToCurveStrategy st, std::string_view in) const override {
    auto alg = st == HashToCurveStrategy::TryAndRehash_SM ? HashAlgorithm::SM3 : HashAlgorithm::SHA256;
    auto h = Once<32>(alg, ByteContainerView(in.data(), in.size()));
    auto* r = EC_POINT_new(g_);
    MPInt p;
    EC_GROUP_get_curve(g_, p.bn(), nullptr, nullptr, C());
    for (int i = 0; i < 200; ++i) {
      MPInt x; x.FromMagBytes(ByteContainerView(h.data(), 32), Endian::big);
      x = x.Mod(p);
      if (EC_POINT_set_compressed_coordinates(g_, r, x.bn(), h[31] & 1, C()) == 1) return W(r);
      h = Once<32>(alg, ByteContainerView(h.data(), 32));
    }
    YACL_THROW("hash to curve failed");
  }
  Buffer SerializePoint(const EcPoint& p, PointOctetFormat) const override {
    Buffer b(static_cast<int64_t>(33));
    std::memset(b.data<char>(), 0, 33);
    size_t n = EC_POINT_point2oct(g_, P(p), POINT_CONVERSION_COMPRESSED, b.data<unsigned char>(), 33, C());
    b.resize(n);
    return b;
  }
  EcPoint DeserializePoint(ByteContainerView b, PointOctetFormat) const override {
    auto* r = EC_POINT_new(g_);
    auto w = W(r);
    YACL_ENFORCE(EC_POINT_oct2point(g_, r, b.data(), b.size(), C()) == 1, "bad point");
    return w;
  }
  uint64_t GetSerializeLength(PointOctetFormat) const override { return 33; }
  bool PointEqual(const EcPoint& a, const EcPoint& b) const override { return EC_POINT_cmp(g_, P(a), P(b), C()) == 0; }
  bool IsInfinity(const EcPoint& p) const override { return EC_POINT_is_at_infinity(g_, P(p)); }
  bool IsInCurveGroup(const EcPoint& p) const override { return EC_POINT_is_on_curve(g_, P(p), C()) == 1; }
  EcPoint CopyPoint(const EcPoint& p) const override { return W(EC_POINT_dup(P(p), g_)); }
 private:
  static BN_CTX* C() { thread_local BN_CTX* c = BN_CTX_new(); return c; }
  EcPoint W(EC_POINT* p) const { return AnyPtr(p, [](void* q) { EC_POINT_free((EC_POINT*)q); }); }
  const EC_POINT* P(const EcPoint& p) const { return (const EC_POINT*)std::get<AnyPtr>(p).get(); }
  std::string n_;
  EC_GROUP* g_;
};
}  // namespace
EcGroupFactory& EcGroupFactory::Instance() { static EcGroupFactory f; return f; }
std::unique_ptr<EcGroup> EcGroupFactory::Create(const std::string& name) {
  std::string l = name;
  for (auto& c : l) c = std::tolower(c);
  if (l == "curve25519" || l == "fourq") return std::make_unique<XOnlyGroup>(name);
  if (l == "sm2") return std::make_unique<SslGroup>(name, NID_sm2);
  if (l == "secp256k1") return std::make_unique<SslGroup>(name, NID_secp256k1);
  if (l == "secp256r1" || l == "prime256v1" || l == "p-256") return std::make_unique<SslGroup>(name, NID_X9_62_prime256v1);
  YACL_THROW("shim: unknown curve {}", name);
}

// ---------------- OT ----------------
OtSendStore BaseOtSend(const std::shared_ptr<link::Context>& ctx, uint32_t n) {
  std::vector<std::array<uint128_t, 2>> b(n);
  FillRand((char*)b.data(), b.size() * 32);
  ctx->SendAsync(ctx->NextRank(), ByteContainerView(b.data(), b.size() * 32), "shim-base-ot");
  return OtSendStore(std::move(b));
}
OtRecvStore BaseOtRecv(const std::shared_ptr<link::Context>& ctx, const dynamic_bitset<uint128_t>& ch, uint32_t n) {
  YACL_ENFORCE(ch.size() == n);
  auto buf = ctx->Recv(ctx->NextRank(), "shim-base-ot");
  YACL_ENFORCE(buf.size() == (int64_t)n * 32, "base ot size mismatch");
  std::vector<uint128_t> b(n);
  for (uint32_t i = 0; i < n; ++i) std::memcpy(&b[i], buf.data<char>() + i * 32 + (ch[i] ? 16 : 0), 16);
  return OtRecvStore(ch, std::move(b));
}
OtSendStore IknpOtExtSend(const std::shared_ptr<link::Context>& ctx, const OtRecvStore& base, uint32_t n, bool cot) {
  YACL_ENFORCE(base.Size() == 128);
  std::vector<std::array<uint128_t, 2>> b(n);
  FillRand((char*)b.data(), b.size() * 32);
  if (cot) {
    uint128_t delta = 0;
    for (int i = 0; i < 128; ++i) delta |= (uint128_t)base.GetChoice(i) << i;
    for (auto& x : b) x[1] = x[0] ^ delta;
  }
  ctx->SendAsync(ctx->NextRank(), ByteContainerView(b.data(), b.size() * 32), "shim-iknp");
  return OtSendStore(std::move(b));
}
OtRecvStore IknpOtExtRecv(const std::shared_ptr<link::Context>& ctx, const OtSendStore& base, const dynamic_bitset<uint128_t>& ch, uint32_t n, bool) {
  YACL_ENFORCE(base.Size() == 128);
  return BaseOtRecv(ctx, ch, n);
}
}  // namespace yacl::crypto
