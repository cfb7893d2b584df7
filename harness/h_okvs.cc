// Algebra under the RR22 protocol: GF(2^128), binary matrices, hashes, the
// Paxos/Baxos key-value stores, cuckoo hashing and the subfield-VOLE OPRF.
#include <functional>
#include <openssl/evp.h>
#include <algorithm>
#include <cmath>
#include <map>
#include <mutex>
#include <set>
#include "parties.h"
#include "psi/algorithm/rr22/davis_meyer_hash.h"
#include "psi/algorithm/rr22/okvs/aes_crhash.h"
#include "psi/algorithm/rr22/okvs/baxos.h"
#include "psi/algorithm/rr22/okvs/dense_mtx.h"
#include "psi/algorithm/rr22/okvs/galois128.h"
#include "psi/algorithm/rr22/okvs/paxos.h"
#include "psi/algorithm/rr22/okvs/paxos_hash.h"
#include "psi/algorithm/rr22/okvs/simple_index.h"
#include "psi/algorithm/rr22/rr22_oprf.h"
#include "psi/algorithm/rr22/rr22_psi.h"
#include "psi/utils/cuckoo_index.h"
#include "yacl/crypto/tools/prg.h"
using namespace pbt;
using namespace psi::rr22;
using namespace psi::rr22::okvs;
using u128 = uint128_t;

namespace {
struct Init { Init() { parties::Quiet(); } } init;
template <class F>
bool Throws(F f) {
  try { f(); } catch (const std::exception&) { return true; }
  return false;
}
u128 U128(Ctx& c) {
  switch (c.below(8)) {
    case 0: return c.below(4);
    case 1: return u128(1) << c.below(128);
    case 2: return ~u128(0) >> c.below(128);
    case 3: return u128(c.below(5)) << 64;
    default: return (u128(c.u64()) << 64) | c.u64();
  }
}
std::string H(u128 v) {
  char b[40];
  snprintf(b, sizeof b, "%016llx%016llx", (unsigned long long)(v >> 64), (unsigned long long)v);
  return b;
}
// Expands one drawn seed into distinct pseudo-random 128-bit values.
struct Stream {
  uint64_t s;
  u128 next() { uint64_t a = s = mix(s), b = s = mix(s); return (u128(a) << 64) | b; }
};
// GF(2^128) with x^128 = x^7 + x^2 + x + 1, bit i is the coefficient of x^i.
u128 GfMul(u128 a, u128 b) {
  u128 r = 0;
  for (int i = 127; i >= 0; --i) {
    bool top = r >> 127;
    r <<= 1;
    if (top) r ^= 0x87;
    if ((b >> i) & 1) r ^= a;
  }
  return r;
}
u128 Val(Galois128 g) { return g.get<u128>(0); }
u128 Aes(u128 key, u128 in) {
  u128 out = 0;
  unsigned char buf[32];
  int len = 0;
  EVP_CIPHER_CTX* x = EVP_CIPHER_CTX_new();
  EVP_EncryptInit_ex(x, EVP_aes_128_ecb(), nullptr, (unsigned char*)&key, nullptr);
  EVP_CIPHER_CTX_set_padding(x, 0);
  EVP_EncryptUpdate(x, buf, &len, (unsigned char*)&in, 16);
  EVP_CIPHER_CTX_free(x);
  memcpy(&out, buf, 16);
  return out;
}
}  // namespace

// ------------------------------------------------------------- the field
PROP(gf128, 10) {
  u128 a = U128(c), b = U128(c), d = U128(c);
  c.note() << H(a) << " " << H(b) << " " << H(d);
  c.nontrivial(a > 1 && b > 1);
  Galois128 A(a), B(b), D(d);
  REQUIRE(Val(A) == a, "construction from 128 bits changes the value");
  REQUIRE(Val(Galois128(uint64_t(a >> 64), uint64_t(a))) == a, "construction from two halves differs");
  REQUIRE(Val(Galois128(uint64_t(a))) == uint64_t(a), "construction from 64 bits differs");
  u128 want = GfMul(a, b);
  REQUIRE(Val(A.Mul(B)) == want, "Mul: " << H(Val(A.Mul(B))) << " expected " << H(want));
  REQUIRE(Val(A * B) == want && Val(A * b) == want, "operator* differs from Mul");
  REQUIRE(Val(A * uint64_t(b)) == GfMul(a, uint64_t(b)), "operator*(u64) is wrong");
  REQUIRE(cc_gf128Mul(a, b) == want, "portable multiplication differs: " << H(cc_gf128Mul(a, b)) << " expected " << H(want));
  REQUIRE(Val((A * B) * D) == Val(A * (B * D)), "multiplication is not associative");
  REQUIRE(Val(A * Galois128(b ^ d)) == (Val(A * B) ^ Val(A * D)), "multiplication does not distribute over xor");
  // powers
  uint64_t e = c.flip() ? c.below(40) : c.u64();
  u128 p = 1, base = a;
  for (uint64_t k = e; k; k >>= 1) {
    if (k & 1) p = GfMul(p, base);
    base = GfMul(base, base);
  }
  if (a != 0) REQUIRE(Val(A.Pow(e)) == p, "Pow(" << e << ") = " << H(Val(A.Pow(e))) << " expected " << H(p));
  if (a != 0) {
    u128 inv = Val(A.Inv());
    REQUIRE(GfMul(a, inv) == 1, "a * a^-1 = " << H(GfMul(a, inv)));
    REQUIRE(Val(Galois128(inv).Inv()) == a, "the inverse of the inverse is another element");
  } else {
    REQUIRE(Throws([&] { A.Inv(); }), "zero has an inverse");
  }
  // views of the representation
  auto w64 = A.get<uint64_t>();
  REQUIRE(w64[0] == uint64_t(a) && w64[1] == uint64_t(a >> 64), "64-bit words are not little endian halves");
  auto w8 = A.get<uint8_t>();
  size_t k = c.below(16);
  REQUIRE(w8[k] == uint8_t(a >> (8 * k)) && A.get<uint8_t>(k) == w8[k], "byte " << k << " is wrong");
  REQUIRE(Throws([&] { A.get<uint64_t>(2); }), "a word beyond the element can be read");
  Galois128 copy = A;
  copy = B;
  REQUIRE(Val(copy) == b && Val(A) == a, "assignment is wrong");
}

PROP(dense_mtx, 10) {
  auto gen = [&](size_t r, size_t k, std::vector<std::vector<int>>& ref) {
    DenseMtx m(r, k);
    ref.assign(r, std::vector<int>(k));
    uint64_t s = c.u64();
    int dens = 1 + c.below(3);
    for (size_t i = 0; i < r; ++i)
      for (size_t j = 0; j < k; ++j) {
        s = mix(s);
        ref[i][j] = int(s % 4) < dens;
        m(i, j) = uint8_t(ref[i][j]);
      }
    return m;
  };
  auto same = [](const DenseMtx& m, const std::vector<std::vector<int>>& r) {
    if (m.rows() != r.size()) return false;
    for (size_t i = 0; i < r.size(); ++i)
      for (size_t j = 0; j < r[i].size(); ++j)
        if (int(uint8_t(m(i, j))) != r[i][j]) return false;
    return true;
  };
  size_t n = 1 + c.skewed(0, 40), k = 1 + c.skewed(0, 20), l = 1 + c.skewed(0, 20);
  if (c.chance(1, 10)) n = 126 + c.below(6);
  c.note() << n << "x" << k << "x" << l;
  c.nontrivial(n > 1 && k > 1);
  std::vector<std::vector<int>> ra, rb, rc, rs;
  auto a = gen(n, k, ra), b = gen(k, l, rb), a2 = gen(n, k, rc), sq = gen(k, k, rs);
  REQUIRE(same(a, ra), "bits read back differ from the bits written");
  REQUIRE(a.rows() == n && a.cols() == k, "dimensions are wrong");
  std::vector<std::vector<int>> pr(n, std::vector<int>(l));
  for (size_t i = 0; i < n; ++i)
    for (size_t j = 0; j < l; ++j)
      for (size_t x = 0; x < k; ++x) pr[i][j] ^= ra[i][x] & rb[x][j];
  REQUIRE(same(a.Mult(b), pr) && same(a * b, pr), "matrix product is wrong");
  auto sum = ra;
  for (size_t i = 0; i < n; ++i)
    for (size_t j = 0; j < k; ++j) sum[i][j] ^= rc[i][j];
  REQUIRE(same(a.Add(a2), sum) && same(a + a2, sum), "matrix sum is wrong");
  REQUIRE(same(a, ra) && same(b, rb), "operands changed");
  if (l != k) REQUIRE(n == k || Throws([&] { a.Mult(a2); }), "a product of mismatched matrices is accepted");
  // inversion: the rank decides whether there is an inverse
  auto g = rs;
  size_t rank = 0;
  for (size_t col = 0; col < k; ++col) {
    size_t piv = rank;
    while (piv < k && !g[piv][col]) ++piv;
    if (piv == k) continue;
    std::swap(g[piv], g[rank]);
    for (size_t i = 0; i < k; ++i)
      if (i != rank && g[i][col])
        for (size_t j = 0; j < k; ++j) g[i][j] ^= g[rank][j];
    ++rank;
  }
  auto inv = sq.Invert();
  c.label(rank == k ? "invertible" : "singular");
  if (rank < k) {
    REQUIRE(inv.rows() == 0, "a singular matrix was inverted");
  } else {
    REQUIRE(inv.rows() == k, "an invertible matrix was not inverted");
    REQUIRE(sq.Mult(inv) == DenseMtx::Identity(k) && inv.Mult(sq) == DenseMtx::Identity(k), "M * M^-1 is not the identity");
  }
  // row operations
  size_t i = c.below(n), j = c.below(n);
  a.row(i).swap(a.row(j));
  std::swap(ra[i], ra[j]);
  REQUIRE(same(a, ra), "swapping rows " << i << "," << j << " is wrong");
  if (i != j) {
    a.row(i) ^= a.row(j);
    for (size_t x = 0; x < k; ++x) ra[i][x] ^= ra[j][x];
    REQUIRE(same(a, ra), "adding row " << j << " to row " << i << " is wrong");
  }
  REQUIRE(a.row(i).IsZero() == std::all_of(ra[i].begin(), ra[i].end(), [](int v) { return v == 0; }), "IsZero is wrong");
  // iterating over the bits of a column
  size_t col = c.below(k), row = c.below(n);
  BitIterator it((uint8_t*)a.col(col).data());
  for (size_t x = 0; x < row; ++x) c.flip() ? (void)++it : (void)it++;
  REQUIRE(int(uint8_t(*it)) == ra[row][col], "bit iterator reads another bit");
  for (size_t x = 0; x < row; ++x) --it;
  REQUIRE(int(uint8_t(*(it + int64_t(row)))) == ra[row][col] && int(uint8_t(*it)) == ra[0][col], "bit iterator arithmetic is wrong");
}

PROP(hashes, 10) {
  u128 key = U128(c);
  size_t n = c.below(40);
  c.note() << "key " << H(key) << " n " << n;
  c.nontrivial(n > 8);
  std::vector<u128> in(n), keys(n), out(n), out2(n), dm(n);
  for (size_t i = 0; i < n; ++i) in[i] = U128(c), keys[i] = c.chance(1, 4) && i ? keys[i - 1] : U128(c);
  AesCrHash h(key);
  h.Hash(absl::MakeConstSpan(in), absl::MakeSpan(out));
  h.Hash(absl::Span<const uint8_t>((const uint8_t*)in.data(), n * 16), absl::Span<uint8_t>((uint8_t*)out2.data(), n * 16));
  DavisMeyerHash(keys, in, absl::MakeSpan(dm));
  for (size_t i = 0; i < n; ++i) {
    u128 want = Aes(key, in[i]) ^ in[i];
    REQUIRE(h.Hash(in[i]) == want, "Hash(x) is not AES(x)^x");
    REQUIRE(out[i] == want, "batched hash " << i << " of " << n << " differs");
    REQUIRE(out2[i] == want, "byte-wise hash " << i << " of " << n << " differs");
    u128 w2 = Aes(keys[i], in[i]) ^ in[i];
    REQUIRE(DavisMeyerHash(keys[i], in[i]) == w2, "Davies-Meyer hash is not AES_k(x)^x");
    REQUIRE(dm[i] == w2, "batched Davies-Meyer hash " << i << " of " << n << " differs");
  }
  // in place
  auto copy = in;
  h.Hash(absl::MakeConstSpan(copy), absl::MakeSpan(copy));
  REQUIRE(copy == out, "hashing in place differs");
  auto copy2 = in;
  DavisMeyerHash(absl::MakeConstSpan(keys), absl::MakeConstSpan(copy2), absl::MakeSpan(copy2));
  REQUIRE(copy2 == dm, "Davies-Meyer hashing in place differs");
}

// ------------------------------------------------------------------ OKVS
namespace {
template <class I>
void RowLaws(Ctx& c) {
  PaxosHash<I> h;
  uint64_t weight = 3, sparse;
  uint64_t cap = std::min<uint64_t>(std::numeric_limits<I>::max(), 1ull << 40);
  switch (c.below(3)) {
    case 0: sparse = 4 + c.below(60); break;
    case 1: sparse = cap - 1 - c.below(cap / 4); break;
    default: sparse = 4 + c.u64() % (cap - 4); break;
  }
  bool other = c.chance(1, 3);
  if (other) weight = 4 + c.below(3);
  if (sparse < weight + 4) sparse += weight;
  sparse = std::min(sparse, cap - 1);
  h.init(U128(c), weight, sparse);
  std::vector<u128> in(32), hash32(32);
  Stream s{c.u64()};
  for (auto& x : in) x = s.next();
  if (c.chance(1, 4)) in[c.below(32)] = U128(c);
  std::vector<I> r32(32 * weight), rb(32 * weight);
  h.HashBuildRow32(absl::MakeConstSpan(in), absl::MakeSpan(r32), absl::MakeSpan(hash32));
  auto hcopy = hash32;
  h.BuildRow32(absl::MakeSpan(hcopy), absl::MakeSpan(rb));
  REQUIRE(rb == r32, "BuildRow32 differs from HashBuildRow32");
  for (size_t i = 0; i < 32; ++i) {
    std::vector<I> r1(weight), r2(weight);
    u128 h1 = 0;
    h.HashBuildRow1(in[i], absl::MakeSpan(r1), &h1);
    h.BuildRow(h1, absl::MakeSpan(r2));
    REQUIRE(h1 == hash32[i], "hash of item " << i << " depends on the batch");
    REQUIRE(r1 == r2, "BuildRow differs from HashBuildRow1");
    std::set<I> uniq;
    for (size_t k = 0; k < weight; ++k) {
      REQUIRE(r1[k] == r32[i * weight + k], "row of item " << i << " depends on the batch (weight " << weight << ", sparse " << sparse << ")");
      REQUIRE(uint64_t(r1[k]) < sparse, "row entry " << uint64_t(r1[k]) << " is outside " << sparse << " columns");
      uniq.insert(r1[k]);
    }
    REQUIRE(uniq.size() == weight, "a row names a column twice");
  }
}

template <class I>
void PaxosLaws(Ctx& c, uint64_t max_n) {
  auto dt = c.flip() ? PaxosParam::DenseType::Binary : PaxosParam::DenseType::GF128;
  uint64_t n = 1 + c.skewed(0, max_n - 1);
  uint64_t ssp = c.pick(std::vector<uint64_t>{40, 40, 30, 50});
  u128 seed = U128(c);
  Paxos<I> p, q;
  PaxosParam prm(n, 3, ssp, dt);
  if (prm.sparse_size >= std::numeric_limits<I>::max()) {
    REQUIRE(Throws([&] { p.Init(n, 3, ssp, dt, seed); }), "an index type too small for the structure is accepted");
    throw Discard{};
  }
  p.Init(n, 3, ssp, dt, seed);
  q.Init(n, 3, ssp, dt, seed);
  REQUIRE(p.size() == prm.size() && p.size() == p.sparse_size + p.dense_size, "size is inconsistent");
  uint64_t m = n;  // the structure is built for exactly its items
  Stream s{c.u64()};
  std::set<u128> dist;
  std::vector<u128> keys;
  bool small = c.chance(1, 4);   // structured keys
  while (keys.size() < m) {
    u128 k = small ? u128(keys.size()) << (8 * (s.s % 3)) : s.next();
    if (small) s.s = mix(s.s);
    if (dist.insert(k).second) keys.push_back(k);
    else small = false;
  }
  std::vector<u128> v1(m), v2(m);
  for (size_t i = 0; i < m; ++i) v1[i] = c.chance(1, 50) ? 0 : s.next(), v2[i] = s.next();
  c.note() << "idx " << sizeof(I) * 8 << " n " << n << " m " << m << (dt == PaxosParam::DenseType::Binary ? " binary" : " gf128") << " ssp " << ssp;
  c.label(dt == PaxosParam::DenseType::Binary ? "binary" : "gf128");
  c.nontrivial(m > 1);
  std::shared_ptr<yacl::crypto::Prg<uint8_t>> prg;
  if (c.chance(1, 3)) prg = std::make_shared<yacl::crypto::Prg<uint8_t>>(U128(c));
  p.SetInput(keys);
  std::vector<u128> P1(p.size()), P2(p.size());
  p.Encode(absl::MakeSpan(v1), absl::MakeSpan(P1), prg);
  if (c.flip()) p.Encode(absl::MakeSpan(v2), absl::MakeSpan(P2), prg);     // encode again after one SetInput
  else { q.SetInput(keys); q.Encode(absl::MakeSpan(v2), absl::MakeSpan(P2), prg); }
  std::vector<u128> got(m);
  // a fresh object with the same parameters decodes
  Paxos<I> d;
  d.Init(n, 3, ssp, dt, seed);
  d.Decode(absl::MakeConstSpan(keys), absl::MakeSpan(got), absl::MakeSpan(P1));
  for (size_t i = 0; i < m; ++i) REQUIRE(got[i] == v1[i], "key " << i << " of " << m << " decodes to another value");
  d.Decode(absl::MakeConstSpan(keys), absl::MakeSpan(got), absl::MakeSpan(P2));
  for (size_t i = 0; i < m; ++i) REQUIRE(got[i] == v2[i], "key " << i << " of " << m << " decodes to another value after a second encoding");
  // linear in the structure, for keys that were never encoded too
  size_t x = 1 + c.below(70);
  std::vector<u128> any(x), d1(x), d2(x), d12(x), P12(p.size());
  for (auto& k : any) k = c.flip() ? s.next() : keys[s.s % m];
  for (size_t i = 0; i < P12.size(); ++i) P12[i] = P1[i] ^ P2[i];
  d.Decode(absl::MakeConstSpan(any), absl::MakeSpan(d1), absl::MakeSpan(P1));
  d.Decode(absl::MakeConstSpan(any), absl::MakeSpan(d2), absl::MakeSpan(P2));
  d.Decode(absl::MakeConstSpan(any), absl::MakeSpan(d12), absl::MakeSpan(P12));
  for (size_t i = 0; i < x; ++i) REQUIRE(d12[i] == (d1[i] ^ d2[i]), "decoding is not linear");
  for (int t = 0; t < 3; ++t) {
    size_t i = c.below(x);
    u128 one = 0;
    d.Decode(absl::MakeConstSpan(&any[i], 1), absl::MakeSpan(&one, 1), absl::MakeSpan(P1));
    REQUIRE(one == d1[i], "decoding of one key depends on the batch it is in");
  }
  if (dt == PaxosParam::DenseType::Binary) {
    std::vector<uint64_t> v64(m), P64(p.size()), g64(m);
    for (auto& v : v64) v = uint64_t(s.next());
    Paxos<I> e;
    e.Init(n, 3, ssp, dt, seed);
    e.SetInput(keys);
    e.EncodeU64(absl::MakeSpan(v64), absl::MakeSpan(P64), prg);
    d.DecodeU64(absl::MakeConstSpan(keys), absl::MakeSpan(g64), absl::MakeSpan(P64));
    for (size_t i = 0; i < m; ++i) REQUIRE(g64[i] == v64[i], "64-bit: key " << i << " of " << m << " decodes to another value");
    std::vector<uint64_t> o64(x), one(1);
    d.DecodeU64(absl::MakeConstSpan(any), absl::MakeSpan(o64), absl::MakeSpan(P64));
    size_t i = c.below(x);
    d.DecodeU64(absl::MakeConstSpan(&any[i], 1), absl::MakeSpan(one), absl::MakeSpan(P64));
    REQUIRE(one[0] == o64[i], "64-bit: decoding of one key depends on the batch it is in");
  } else if (c.chance(1, 4)) {
    std::vector<uint64_t> v64(m), P64(p.size());
    REQUIRE(Throws([&] { p.EncodeU64(absl::MakeSpan(v64), absl::MakeSpan(P64)); }), "64-bit values with a GF(2^128) dense part are accepted");
  }
}
}  // namespace

PROP(okvs_rows, 20) {
  switch (c.below(4)) {
    case 0: RowLaws<uint8_t>(c); c.label("u8"); break;
    case 1: RowLaws<uint16_t>(c); c.label("u16"); break;
    case 2: RowLaws<uint32_t>(c); c.label("u32"); break;
    default: RowLaws<uint64_t>(c); c.label("u64"); break;
  }
  c.nontrivial(true);
}
PROP(okvs_paxos, 60) {
  uint64_t big = c.thorough ? 40000 : 6000;
  switch (c.below(4)) {
    case 0: PaxosLaws<uint8_t>(c, 130); c.label("u8"); break;
    case 1: PaxosLaws<uint16_t>(c, big); c.label("u16"); break;
    case 2: PaxosLaws<uint32_t>(c, big); c.label("u32"); break;
    default: PaxosLaws<uint64_t>(c, 1500); c.label("u64"); break;
  }
}
PROP(okvs_baxos, 60) {
  uint64_t n = 1 + c.skewed(0, c.thorough ? 60000 : 12000);
  if (c.chance(1, 5)) n = (3 + 2 * c.below(3)) << (8 + c.below(4));   // a power of two per thread
  uint64_t bin = c.chance(1, 3) ? (1 << 14) : c.pick(std::vector<uint64_t>{256, 512, 1024, 2048, 4096});
  if (n / bin > 24) bin = 1 << 14;
  uint64_t ssp = c.pick(std::vector<uint64_t>{40, 40, 30});
  auto dt = c.chance(1, 4) ? PaxosParam::DenseType::Binary : PaxosParam::DenseType::GF128;
  u128 seed = U128(c);
  Baxos b, e;
  b.Init(n, bin, 3, ssp, dt, seed);
  e.Init(n, bin, 3, ssp, dt, seed);
  REQUIRE(b.num_bins_ == (n + bin - 1) / bin, "number of bins");
  c.label(b.num_bins_ > 1 ? "several bins" : "one bin");
  c.note() << n << " items, " << b.num_bins_ << " bins of " << bin << ", dense " << b.paxos_param_.dense_size << "/" << b.paxos_param_.g << " sparse " << b.paxos_param_.sparse_size;
  c.nontrivial(b.num_bins_ > 1);
  uint64_t m = n;
  Stream s{c.u64()};
  std::vector<u128> keys(m), v1(m), v2(m), got(m), P1(b.size()), P2(b.size());
  for (size_t i = 0; i < m; ++i) keys[i] = s.next(), v1[i] = s.next(), v2[i] = s.next();
  if (c.chance(1, 6)) keys[c.below(m)] = 0;
  std::shared_ptr<yacl::crypto::Prg<uint8_t>> prg;
  if (c.chance(1, 4)) prg = std::make_shared<yacl::crypto::Prg<uint8_t>>(U128(c));
  b.Solve(absl::MakeConstSpan(keys), absl::MakeSpan(v1), absl::MakeSpan(P1), prg, c.below(5));
  b.Solve(absl::MakeConstSpan(keys), absl::MakeSpan(v2), absl::MakeSpan(P2), prg, c.below(5));
  e.Decode(absl::MakeConstSpan(keys), absl::MakeSpan(got), absl::MakeSpan(P1), c.below(5));
  for (size_t i = 0; i < m; ++i) REQUIRE(got[i] == v1[i], "key " << i << " of " << m << " decodes to another value");
  size_t x = 1 + c.below(200);
  std::vector<u128> any(x), d1(x), d2(x), d12(x), P12(P1.size());
  for (auto& k : any) k = c.flip() ? s.next() : keys[s.s % m];
  for (size_t i = 0; i < P12.size(); ++i) P12[i] = P1[i] ^ P2[i];
  e.Decode(absl::MakeConstSpan(any), absl::MakeSpan(d1), absl::MakeSpan(P1), c.below(4));
  e.Decode(absl::MakeConstSpan(any), absl::MakeSpan(d2), absl::MakeSpan(P2), c.below(4));
  e.Decode(absl::MakeConstSpan(any), absl::MakeSpan(d12), absl::MakeSpan(P12), c.below(4));
  for (size_t i = 0; i < x; ++i) REQUIRE(d12[i] == (d1[i] ^ d2[i]), "decoding is not linear");
  for (int t = 0; t < 3; ++t) {
    size_t i = c.below(x);
    u128 one = 0;
    e.Decode(absl::MakeConstSpan(&any[i], 1), absl::MakeSpan(&one, 1), absl::MakeSpan(P1));
    REQUIRE(one == d1[i], "decoding of one key depends on the batch it is in");
  }
}

// Bin capacities: the chance that a bin overflows stays below 2^-ssp.
namespace {
double Log2Overflow(uint64_t bins, uint64_t balls, uint64_t cap) {   // union bound
  if (cap >= balls) return -1e9;
  double best = -1e300, acc = 0;
  double lp = std::log(1.0 / bins), lq = std::log1p(-1.0 / bins);
  for (uint64_t i = cap + 1; i <= balls; ++i) {
    double t = std::lgamma(balls + 1.0) - std::lgamma(i + 1.0) - std::lgamma(balls - i + 1.0) + i * lp + (balls - i) * lq;
    if (i == cap + 1) best = t;
    acc += std::exp(t - best);
    if (t < best - 60) break;
  }
  return (best + std::log(acc) + std::log(double(bins))) / std::log(2.0);
}
}  // namespace
PROP(bin_size, 20) {
  bool approx = c.chance(2, 3);
  if (approx) {
    // as the OPRF asks for it: bins of 2^14 items, ssp + log2(bins)
    uint64_t balls = 1 + c.skewed(0, 1 << 24);
    if (c.flip()) balls = (1 << 14) * (1 + c.below(200)) + c.below(3);
    uint64_t bin = 1 << 14, bins = (balls + bin - 1) / bin, ssp = 40;
    c.note() << "approx " << bins << " bins " << balls << " balls";
    uint64_t cap = SimpleIndex::GetBinSize(bins, balls, ssp + std::log2(bins), true);
    c.nontrivial(bins > 1);
    c.label("approx");
    if (bins < 2) { REQUIRE(cap == balls, "one bin must hold every ball"); return; }
    double p = Log2Overflow(bins, balls, cap);
    REQUIRE(p <= -double(ssp), balls << " balls in " << bins << " bins of " << cap << ": overflow probability 2^" << p);
    REQUIRE(cap <= 3 * (balls / bins) + 400, "bins are far too large: " << cap);
    return;
  }
  uint64_t bins = 1 + c.skewed(0, 300), balls = 1 + c.skewed(0, 3000), ssp = c.pick(std::vector<uint64_t>{20, 30, 40, 50});
  c.note() << "exact " << bins << " bins " << balls << " balls ssp " << ssp;
  c.label("exact");
  uint64_t cap = SimpleIndex::GetBinSize(bins, balls, ssp, false);
  c.nontrivial(bins > 1 && cap < balls);
  if (bins < 2) { REQUIRE(cap == balls, "one bin must hold every ball"); return; }
  double p = Log2Overflow(bins, balls, cap);
  REQUIRE(p <= -double(ssp) + 0.01, balls << " balls in " << bins << " bins of " << cap << ": overflow probability 2^" << p << ", asked for " << ssp);
  if (cap > 1 && cap > balls / bins) {
    double q = Log2Overflow(bins, balls, cap - 1);
    REQUIRE(q >= -double(ssp) - 0.6, "bins of " << cap << " are larger than needed: 2^" << q << " with one less");
  }
}

// ------------------------------------------------------------ cuckoo hashing
PROP(cuckoo, 20) {
  using psi::CuckooIndex;
  CuckooIndex::Options o{};
  uint64_t n = 1 + c.skewed(0, c.thorough ? 20000 : 3000);
  if (c.chance(1, 4)) n = c.pick(std::vector<uint64_t>{255, 256, 257, 1, 2});
  bool sel = c.chance(2, 3);
  if (sel) {
    o = CuckooIndex::SelectParams(n, 0, c.flip() ? 3 : 0, c.flip() ? 40 : 30);
    REQUIRE(o.num_input == n && o.num_stash == 0 && o.num_hash == 3, "selected parameters");
    REQUIRE(o.NumBins() > n + n / 8 && (n >= 256 || o.NumBins() >= n + 8), "too few bins for a stash-less table of " << n << ": " << o.NumBins());
    REQUIRE(Throws([&] { CuckooIndex::SelectParams(n, 1 + c.below(3), 3); }), "parameters are selected for a stash");
  } else {
    o.num_input = n;
    o.num_stash = 4 + c.below(12) + n / 20;
    o.num_hash = 2 + c.below(4);
    o.scale_factor = 1.2 + c.below(20) / 10.0;
    if (o.num_hash == 2) o.scale_factor = 2.6;
    if (uint64_t(o.num_input * o.scale_factor) < 2) o.scale_factor = 3;
    o.max_try_count = 16 + c.below(200);
  }
  CuckooIndex x(o);
  REQUIRE(x.bins().size() == o.NumBins() && x.stash().size() == o.num_stash, "table size");
  Stream s{c.u64()};
  std::vector<u128> codes(n);
  for (auto& k : codes) k = s.next();
  c.note() << n << " inputs, " << o.num_hash << " hashes, stash " << o.num_stash << ", scale " << o.scale_factor;
  bool several = c.flip();
  try {
    if (several) {
      for (size_t i = 0; i < n;) {
        size_t k = std::min<size_t>(n - i, 1 + c.below(n));
        x.Insert(absl::MakeConstSpan(codes).subspan(i, k));
        i += k;
      }
    } else {
      x.Insert(codes);
    }
  } catch (const std::exception& e) {
    // A stash can overflow. With the parameters chosen for "no stash" a small
    // set overflows only when no placement exists at all (known finding, about
    // 1e-4); a large one nearly never, so fresh inputs have to fit.
    if (sel) {
      uint64_t bins = o.NumBins();
      std::vector<int64_t> own(bins, -1);
      std::function<bool(uint64_t, std::vector<char>&)> place = [&](uint64_t i, std::vector<char>& tried) {
        for (uint64_t k = 0; k < 3; ++k) {
          uint64_t v;
          memcpy(&v, (const uint8_t*)&codes[i] + 2 * k, 8);
          v %= bins;
          if (tried[v]) continue;
          tried[v] = 1;
          if (own[v] < 0 || place((uint64_t)own[v], tried)) { own[v] = (int64_t)i; return true; }
        }
        return false;
      };
      bool placeable = true;
      for (uint64_t i = 0; i < n && placeable; ++i) { std::vector<char> tried(bins); placeable = place(i, tried); }
      if (n <= 64) REQUIRE(!placeable, "inputs that can be placed do not fit: " << e.what());
      bool fits = false;
      for (int t = 0; t < 4 && !fits; ++t) {
        std::vector<u128> other(n);
        for (auto& k : other) k = s.next();
        CuckooIndex y(o);
        fits = !Throws([&] { y.Insert(other); });
      }
      REQUIRE(fits, "inputs do not fit the selected parameters: " << e.what());
    }
    c.label("stash overflow");
    throw Discard{};
  }
  c.label(sel ? "selected" : "stash");
  c.nontrivial(n > 1);
  x.SanityCheck();
  std::vector<int> seen(n);
  uint64_t nb = o.NumBins();
  auto ref_hash = [&](uint64_t i, uint64_t k) { uint64_t v; memcpy(&v, (const uint8_t*)&codes[i] + 2 * k, 8); return v; };
  for (uint64_t b = 0; b < nb; ++b) {
    auto& bin = x.bins()[b];
    if (bin.IsEmpty()) continue;
    REQUIRE(bin.InputIdx() < n, "bin " << b << " holds an input that was not inserted");
    REQUIRE(bin.HashIdx() < o.num_hash, "bin " << b << " names hash " << int(bin.HashIdx()));
    ++seen[bin.InputIdx()];
    REQUIRE(ref_hash(bin.InputIdx(), bin.HashIdx()) % nb == b, "input " << bin.InputIdx() << " is in a bin its hash " << int(bin.HashIdx()) << " does not name");
    uint64_t least = 0;
    while (ref_hash(bin.InputIdx(), least) % nb != b) ++least;
    REQUIRE(x.MinCollidingHashIdx(b) == least, "smallest hash of bin " << b << " is " << least << ", not " << int(x.MinCollidingHashIdx(b)));
  }
  for (auto& bin : x.stash())
    if (!bin.IsEmpty()) { REQUIRE(bin.InputIdx() < n, "stash holds an unknown input"); ++seen[bin.InputIdx()]; }
  for (uint64_t i = 0; i < n; ++i) {
    REQUIRE(seen[i] == 1, "input " << i << " is stored " << seen[i] << " times");
    for (uint64_t k = 0; k < o.num_hash; ++k) REQUIRE(x.hashes()[i].GetHash(k) == ref_hash(i, k), "hash " << k << " of input " << i);
  }
  std::vector<u128> more(1, s.next());
  REQUIRE(Throws([&] { x.Insert(more); }), "more inputs than announced are accepted");
}
PROP(cuckoo_reject, 10) {
  using psi::CuckooIndex;
  CuckooIndex::Options o{};
  o.num_input = 1 + c.below(50);
  o.scale_factor = 1.5 + c.below(3);
  o.num_hash = 1 + c.below(12);
  c.nontrivial(true);
  c.note() << o.num_hash << " hashes";
  bool fits = (o.num_hash - 1) * 2 + 8 <= 16;
  REQUIRE(Throws([&] { CuckooIndex x(o); }) == !fits, o.num_hash << " hash functions " << (fits ? "refused" : "accepted"));
  // too many equal codes cannot be placed: refused, never lost
  CuckooIndex::Options p{};
  p.num_hash = 2 + c.below(3);
  p.num_input = 2 + c.below(12);
  p.num_stash = c.below(6);
  p.scale_factor = 4;
  p.max_try_count = 1 + c.below(60);
  CuckooIndex x(p);
  std::vector<u128> same(p.num_input, U128(c));
  std::set<uint64_t> places;
  for (uint64_t k = 0; k < p.num_hash; ++k) { uint64_t v; memcpy(&v, (const uint8_t*)&same[0] + 2 * k, 8); places.insert(v % p.NumBins()); }
  bool threw = Throws([&] { x.Insert(same); });
  if (p.num_input > places.size() + p.num_stash) REQUIRE(threw, p.num_input << " equal codes fit " << places.size() << " bins and a stash of " << p.num_stash);
  if (!threw) x.SanityCheck();
}

// ------------------------------------------------------------------ RR22
PROP(vole, 20) {
  auto w = parties::World(2);
  yacl::shim::SeedRand(c.u64());
  size_t n = 1 + c.skewed(0, 2000);
  u128 seed = U128(c);
  bool f64 = c.flip();
  std::vector<u128> a(n), b(n), cc(n);
  std::vector<uint64_t> a64(n);
  u128 delta = 0;
  auto r = parties::Run(w, {[&](parties::Link l) { MocRr22VoleSender s(seed); f64 ? s.SendF64(l, absl::MakeSpan(cc)) : s.Send(l, absl::MakeSpan(cc)); delta = s.GetDelta(); },
                            [&](parties::Link l) { MocRr22VoleReceiver v(seed); f64 ? v.RecvF64(l, absl::MakeSpan(a64), absl::MakeSpan(b)) : v.Recv(l, absl::MakeSpan(a), absl::MakeSpan(b)); }});
  REQUIRE(r.ok(), r.all());
  c.nontrivial(n > 1);
  c.note() << n << (f64 ? " subfield" : " field");
  for (size_t i = 0; i < n; ++i) REQUIRE((cc[i] ^ b[i]) == GfMul(delta, f64 ? a64[i] : a[i]), "correlation " << i << " of " << n << " is wrong");
}

PROP(rr22_oprf, 90) {
  auto w = parties::World(2, 60000);
  yacl::shim::SeedRand(c.u64());
  bool mal = c.chance(1, 3);
  auto mode = !mal && c.flip() ? Rr22PsiMode::LowCommMode : Rr22PsiMode::FastMode;
  uint64_t top = c.thorough ? 40000 : 4000;
  size_t nr = 1 + c.skewed(0, top), ns = 1 + c.skewed(0, top);
  size_t bin = c.flip() ? 1 << 14 : c.pick(std::vector<size_t>{512, 1024, 2048});
  size_t ssp = c.pick(std::vector<size_t>{40, 40, 30});
  Stream s{c.u64()};
  std::vector<u128> rx(nr), sx(ns);
  for (auto& x : rx) x = s.next();
  for (auto& x : sx) x = s.next();
  size_t k = std::min(nr, ns), common = c.below(4) == 0 ? 0 : 1 + c.below(k);
  for (size_t i = 0; i < common; ++i) sx[ns - 1 - i] = rx[i];
  if (c.chance(1, 5)) rx[0] = 0;
  size_t tr = c.below(4), ts = c.below(4);
  bool with = c.flip();
  std::vector<u128> ro, so, hashes;
  auto r = parties::Run(w, {[&](parties::Link l) {
                              Rr22OprfSender o(bin, ssp, mode, yacl::crypto::CodeType::ExAcc7, mal);
                              o.Init(l, nr, ts);
                              hashes = o.Send(l, sx);
                              so = with ? o.Eval(sx, hashes) : o.Eval(sx);
                            },
                            [&](parties::Link l) {
                              Rr22OprfReceiver o(bin, ssp, mode, yacl::crypto::CodeType::ExAcc7, mal);
                              o.Init(l, nr, tr);
                              ro = o.Recv(l, rx);
                            }});
  c.note() << nr << "/" << ns << (mal ? " malicious" : mode == Rr22PsiMode::FastMode ? " fast" : " lowcomm") << " bin " << bin;
  c.label(mal ? "malicious" : mode == Rr22PsiMode::FastMode ? "fast" : "lowcomm");
  c.nontrivial(common > 0 && common < k);
  REQUIRE(r.ok(), r.all());
  REQUIRE(ro.size() == nr && so.size() == ns, "result sizes");
  std::map<u128, u128> f;
  for (size_t i = 0; i < ns; ++i) f[sx[i]] = so[i];
  std::map<u128, u128> back;
  for (auto& [x, y] : f) REQUIRE(back.emplace(y, x).second, "two items have the same OPRF value");
  for (size_t i = 0; i < nr; ++i) {
    auto it = f.find(rx[i]);
    if (it != f.end()) REQUIRE(ro[i] == it->second, "receiver item " << i << " of " << nr << " (held by the sender too) has another OPRF value");
    else REQUIRE(!back.count(ro[i]), "receiver item " << i << " has the OPRF value of another item");
  }
}

PROP(rr22_psi, 90) {
  auto w = parties::World(2, 60000);
  yacl::shim::SeedRand(c.u64());
  using Item = psi::HashBucketCache::BucketItem;
  bool mal = c.chance(1, 4);
  Rr22PsiOptions opt(c.chance(1, 3) ? 30 : 40, c.below(4), c.chance(2, 3), mal);
  if (!mal && c.flip()) opt.mode = Rr22PsiMode::LowCommMode;
  size_t buckets = 1 + c.below(c.chance(1, 4) ? 12 : 4);
  bool bcast = c.flip();
  int how = c.below(3);
  size_t start = how == 2 ? 0 : c.chance(1, 4) ? c.below(buckets) : 0;
  Stream s{c.u64()};
  // Per bucket: items with their own duplicate counts on both sides.
  std::vector<std::vector<Item>> R(buckets), S(buckets);
  size_t inter = 0;
  for (size_t b = 0; b < buckets; ++b) {
    size_t nr = c.chance(1, 6) ? 0 : c.skewed(0, c.thorough ? 3000 : 300), ns = c.chance(1, 6) ? 0 : c.skewed(0, c.thorough ? 3000 : 300);
    std::vector<std::string> pool;
    for (size_t i = 0; i < nr + ns; ++i) pool.push_back(std::to_string(b) + "/" + std::to_string(i));
    int ov = c.below(4);
    auto fill = [&](std::vector<Item>& v, size_t n, size_t from) {
      for (size_t i = 0; i < n; ++i) {
        Item it{};
        it.index = i * 7 + 1;
        it.base64_data = pool[(from + i) % pool.size()];
        it.extra_dup_cnt = s.s % 5 == 0 ? 1 + s.s % 3 : 0;
        s.s = mix(s.s);
        v.push_back(it);
      }
      for (size_t i = n; i > 1; --i) { s.s = mix(s.s); std::swap(v[i - 1], v[s.s % i]); }
    };
    fill(R[b], nr, 0);
    fill(S[b], ns, ov == 0 ? nr : ov == 1 ? 0 : nr / 2);
  }
  // pre/post functions as the product uses them
  struct Out { std::mutex mu; std::map<size_t, std::map<std::string, uint32_t>> got; std::map<size_t, int> calls; std::string bad; } out[2];
  auto pre = [&](std::vector<std::vector<Item>>& d) { return PreProcessFunc([&d](size_t i) { return d.at(i); }); };
  auto post = [&](Out& o, std::vector<std::vector<Item>>& mine) {
    return PostProcessFunc([&o, &mine](size_t b, const std::vector<Item>& items, const std::vector<uint32_t>& idx, const std::vector<uint32_t>& dup) {
      std::lock_guard<std::mutex> g(o.mu);
      ++o.calls[b];
      if (items.size() != mine.at(b).size()) o.bad = "items of another bucket";
      if (idx.size() != dup.size()) o.bad = "indices and duplicate counts differ in number";
      for (size_t i = 0; i < idx.size() && o.bad.empty(); ++i) {
        if (idx[i] >= items.size()) { o.bad = "index out of range"; break; }
        if (!o.got[b].emplace(items[idx[i]].base64_data, dup[i]).second) o.bad = "an item is reported twice";
      }
    });
  };
  auto rp = pre(R), sp = pre(S);
  auto rq = post(out[0], R), sq = post(out[1], S);
  auto go = [&](parties::Link l, PreProcessFunc& p, PostProcessFunc& q, bool sender) {
    Rr22Runner run(l, opt, buckets, bcast, p, q);
    if (how == 0) run.Run(start, sender);
    else if (how == 1) run.AsyncRun(start, sender);
    else run.ParallelRun(start, sender, 1 + c.below(1) + int(buckets % 3));
  };
  auto r = parties::Run(w, {[&](parties::Link l) { go(l, rp, rq, false); }, [&](parties::Link l) { go(l, sp, sq, true); }});
  c.label(mal ? "malicious" : opt.mode == Rr22PsiMode::FastMode ? "fast" : "lowcomm");
  c.label(how == 0 ? "sequential" : how == 1 ? "pipelined" : "parallel");
  REQUIRE(r.ok(), r.all());
  for (int side = 0; side < 2; ++side) {
    auto& o = out[side];
    auto& mine = side == 0 ? R : S;
    auto& peer = side == 0 ? S : R;
    std::string who = side == 0 ? "receiver: " : "sender: ";
    REQUIRE(o.bad.empty(), who << o.bad);
    for (size_t b = 0; b < buckets; ++b) {
      std::map<std::string, uint32_t> want, theirs;
      if (b >= start && (side == 0 || bcast)) {
        for (auto& x : peer[b]) theirs[x.base64_data] = x.extra_dup_cnt;
        for (auto& x : mine[b]) if (theirs.count(x.base64_data)) want[x.base64_data] = theirs[x.base64_data];
      }
      inter += want.size();
      REQUIRE(o.calls[b] <= 1, who << "bucket " << b << " is finished " << o.calls[b] << " times");
      if (!want.empty()) REQUIRE(o.calls[b] == 1, who << "bucket " << b << " is never finished");
      auto& got = o.got[b];
      REQUIRE(got.size() == want.size(), who << "bucket " << b << ": " << got.size() << " items, expected " << want.size());
      for (auto& [k, v] : want) {
        REQUIRE(got.count(k), who << "bucket " << b << " misses item " << k);
        REQUIRE(got[k] == v, who << "bucket " << b << " item " << k << ": peer count " << got[k] << ", expected " << v);
      }
    }
  }
  c.nontrivial(inter > 0);
  c.note() << buckets << " buckets, " << inter << " common" << (bcast ? ", broadcast" : "");
}
