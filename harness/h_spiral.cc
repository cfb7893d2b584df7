// Spiral PIR: ring arithmetic, conversions, serialization and whole queries.
#include <algorithm>
#include <cmath>
#include <fstream>
#include <set>

#include <fcntl.h>
#include <unistd.h>

#include "parties.h"
#include "pbt.h"
#include "wire.h"
#include "psi/algorithm/pir_interface/pir_db.h"
#include "psi/algorithm/spiral/arith/arith_params.h"
#include "psi/algorithm/spiral/arith/ntt.h"
#include "psi/algorithm/spiral/arith/number_theory.h"
#include "psi/algorithm/spiral/gadget.h"
#include "psi/algorithm/spiral/poly_matrix_utils.h"
#include "psi/algorithm/spiral/serialize.h"
#include "psi/algorithm/spiral/spiral_client.h"
#include "psi/algorithm/spiral/spiral_server.h"
#include "psi/algorithm/spiral/util.h"

using namespace pbt;
using namespace psi::spiral;
namespace ar = psi::spiral::arith;
using u128 = unsigned __int128;
using i128 = __int128;
using U64s = std::vector<uint64_t>;
using Bytes = std::vector<uint8_t>;
namespace {
struct Init {
  Init() { parties::Quiet(); }
} init;
constexpr uint64_t kM0 = 268369921, kM1 = 249561089;

uint64_t Edge(Ctx& c, uint64_t m) {  // a value below m, often at an edge
  switch (c.below(6)) {
    case 0: return c.below(m);
    case 1: return c.below(std::min<uint64_t>(m, 4));
    case 2: return m - 1 - c.below(std::min<uint64_t>(m, 4));
    case 3: return std::min(m - 1, m / 2 - std::min<uint64_t>(m / 2, 2) + c.below(5));
    case 4: return std::min(m - 1, (uint64_t{1} << c.below(64)) - c.below(2));
    default: return c.u64() % m;
  }
}
uint64_t AnyModulus(Ctx& c) {
  switch (c.below(4)) {
    case 0: return c.pick(U64s{kM0, kM1, kM0 * kM1, 12289, 65537, 61441, 520193, 256, 1024, 2, 3});
    case 1: return 2 + c.below(1000);
    case 2: return (uint64_t{1} << (2 + c.below(59))) + (c.flip() ? 1 : -1);
    default: return 2 + c.u64() % ((uint64_t{1} << (2 + c.below(59))) - 2);
  }
}
uint64_t PowMod(uint64_t b, uint64_t e, uint64_t m) {
  u128 r = 1 % m, x = b % m;
  for (; e; e >>= 1, x = x * x % m) if (e & 1) r = r * x % m;
  return (uint64_t)r;
}
i128 Centered(uint64_t v, uint64_t m) { return v >= m / 2 ? (i128)v - (i128)m : (i128)v; }
uint64_t PMod(i128 v, uint64_t m) { i128 r = v % (i128)m; return (uint64_t)(r < 0 ? r + m : r); }

Params MakeParams(size_t len, U64s moduli, PolyMatrixParams pm = {}, QueryParams q = QueryParams(2, 1, 1)) { return Params(len, std::move(moduli), 6.4, pm, q); }
Params AnyRing(Ctx& c, size_t max_log) {
  size_t len = size_t{1} << (3 + c.below(max_log - 2));
  switch (c.below(4)) {
    case 0: return MakeParams(len, {kM0});
    case 1: return MakeParams(len, {kM1, kM0});
    default: return MakeParams(len, {kM0, kM1});
  }
}
// A polynomial (PolyLen coefficients below the modulus)
U64s AnyPoly(Ctx& c, const Params& p) {
  U64s v(p.PolyLen());
  uint64_t q = p.Modulus(), s;
  switch (c.below(5)) {
    case 0: break;
    case 1: for (auto& x : v) x = q - 1; break;
    case 2: { size_t n = 1 + c.below(3); while (n--) v[c.below(v.size())] = Edge(c, q); break; }
    case 3: for (auto& x : v) { s = c.below(4); x = s == 0 ? 0 : s == 1 ? q - 1 : s == 2 ? 1 : q / 2; if (v.size() > 64) { uint64_t k = c.u64(); for (auto& y : v) { k = mix(k); y = k % 3 == 0 ? 0 : k % 3 == 1 ? q - 1 : q / 2; } break; } } break;
    default: s = c.u64(); for (auto& x : v) { s = mix(s); x = s % q; }
  }
  return v;
}
PolyMatrixRaw AnyMat(Ctx& c, const Params& p, size_t r, size_t k) {
  U64s d;
  for (size_t i = 0; i < r * k; ++i) { auto v = AnyPoly(c, p); d.insert(d.end(), v.begin(), v.end()); }
  return PolyMatrixRaw(p.PolyLen(), r, k, d);
}
U64s Vec(absl::Span<const uint64_t> s) { return U64s(s.begin(), s.end()); }
// a*b in Z_q[x]/(x^n+1)
U64s MulPoly(const U64s& a, const U64s& b, uint64_t q) {
  size_t n = a.size();
  U64s r(n);
  std::vector<size_t> nzb;
  for (size_t j = 0; j < n; ++j) if (b[j]) nzb.push_back(j);
  for (size_t i = 0; i < n; ++i) if (a[i])
    for (size_t j : nzb) {
      uint64_t m = (uint64_t)((u128)a[i] * b[j] % q);
      size_t k = i + j;
      if (k < n) r[k] = (r[k] + m) % q; else r[k - n] = (r[k - n] + q - m) % q;
    }
  return r;
}
bool SamePoly(absl::Span<const uint64_t> a, const U64s& b, uint64_t q) {
  for (size_t i = 0; i < b.size(); ++i) if (a[i] % q != b[i] % q) return false;
  return a.size() == b.size();
}
void SameMat(const PolyMatrixRaw& a, const PolyMatrixRaw& b, uint64_t q, const char* what) {
  REQUIRE(a.Rows() == b.Rows() && a.Cols() == b.Cols(), std::string(what) + ": wrong shape");
  for (size_t i = 0; i < a.Rows(); ++i) for (size_t j = 0; j < a.Cols(); ++j)
    REQUIRE(SamePoly(a.Poly(i, j), Vec(b.Poly(i, j)), q), std::string(what) + ": wrong polynomial at " + std::to_string(i) + "," + std::to_string(j));
  for (auto x : a.Data()) REQUIRE(x <= q, std::string(what) + ": coefficient above the modulus");
}
bool Sparse(const U64s& v) { size_t n = 0; for (auto x : v) n += x != 0; return n <= 8; }
}  // namespace

PROP(arith, 30) {
  // ---- scalar arithmetic against 128-bit integers
  for (int k = 0; k < 8; ++k) {
    uint64_t m = AnyModulus(c), a = Edge(c, m), b = Edge(c, m);
    c.note() << "m=" << m << " a=" << a << " b=" << b << "; ";
    c.nontrivial(a > 1 && b > 1);
    auto [cr0, cr1] = ar::GetBarrettCrs(m);
    // floor(2^128/m)
    u128 qt = ~(u128)0 / m;
    if (~(u128)0 % m == m - 1) ++qt;
    REQUIRE(cr0 == (uint64_t)qt && cr1 == (uint64_t)(qt >> 64), "GetBarrettCrs is not 2^128/m");
    auto bs = ar::GetBarrett({m, 12289});
    REQUIRE(bs.first[0] == cr0 && bs.second[0] == cr1, "GetBarrett differs from GetBarrettCrs");
    uint64_t x = c.flip() ? c.u64() : Edge(c, ~uint64_t{0});
    REQUIRE(ar::BarrettRawU64(x, cr1, m) == x % m, "BarrettRawU64 of " + std::to_string(x));
    u128 w = c.flip() ? ((u128)c.u64() << 64 | c.u64()) >> c.below(128) : (u128)a * b;
    if (c.chance(1, 4)) w = ~(u128)0 - c.below(3);
    uint128_t wy = yacl::MakeUint128((uint64_t)(w >> 64), (uint64_t)w);
    REQUIRE(ar::BarrettReductionU128Raw(wy, cr0, cr1, m) == (uint64_t)(w % m), "BarrettReductionU128Raw");
    REQUIRE(ar::MultiplyUintMod(a, b, m) == (uint64_t)((u128)a * b % m), "MultiplyUintMod");
    REQUIRE(ar::MultiplyUintMod(a, b, seal::Modulus(m)) == (uint64_t)((u128)a * b % m), "MultiplyUintMod of a modulus");
    REQUIRE(ar::MultiplyUintMod(a, b, m, cr0, cr1) == (uint64_t)((u128)a * b % m), "MultiplyUintMod with Barrett constants");
    uint64_t e = c.u64() >> c.below(64);
    REQUIRE(ar::ExponentitateUintMod(a, e, m) == PowMod(a, e, m), "ExponentitateUintMod");
    if (m & 1) { uint64_t h = ar::Div2UintMod(a, m); REQUIRE(h < m && (u128)h * 2 % m == a, "Div2UintMod"); }
    // recentring between moduli
    uint64_t m2 = AnyModulus(c), lo = std::min(m, m2), hi = std::max(m, m2);
    uint64_t v = Edge(c, hi);
    REQUIRE(ar::Recenter(v, hi, lo) == PMod(Centered(v, hi), lo), "Recenter of " + std::to_string(v) + " from " + std::to_string(hi) + " to " + std::to_string(lo));
    v = Edge(c, lo);
    { i128 want = v > lo / 2 ? (i128)v - (i128)lo : (i128)v;
      if (want < 0) want += hi;
      REQUIRE(ar::RecenertMod(v, lo, hi) == (uint64_t)want, "RecenertMod of " + std::to_string(v)); }
    // rescaling rounds to the nearest
    { v = Edge(c, m);
      uint64_t got = ar::Rescale(v, m, m2);
      REQUIRE(got < m2, "Rescale is not reduced");
      i128 num = Centered(v, m) * (i128)m2;  // got = round(num/m) mod m2
      i128 f = num / (i128)m;
      bool ok = false;
      for (i128 r = f - 2; r <= f + 2; ++r) {
        i128 d = r * (i128)m - num;
        if (d < 0) d = -d;
        if (d <= (i128)(m / 2) + (m & 1 ? 0 : 0) && PMod(r, m2) == got) ok = true;
      }
      REQUIRE(ok, "Rescale of " + std::to_string(v) + " from " + std::to_string(m) + " to " + std::to_string(m2) + " gives " + std::to_string(got)); }
    uint64_t z = c.u64() >> c.below(64);
    if (z) {
      uint64_t l = 63 - __builtin_clzll(z);
      REQUIRE(ar::Log2(z) == l, "Log2");
      REQUIRE(z >> 63 || ar::Log2Ceil(z) == l + ((z & (z - 1)) != 0), "Log2Ceil of " + std::to_string(z));
      REQUIRE(ar::UintNum(z >> 8, 1 + b % 1000) == ((z >> 8) + (b % 1000)) / (1 + b % 1000), "UintNum");
    }
    int bits = (int)c.below(33);
    uint64_t y = bits ? c.u64() & ((uint64_t{1} << bits) - 1) : 0, rev = 0;
    for (int i = 0; i < bits; ++i) rev |= (y >> i & 1) << (bits - 1 - i);
    REQUIRE(ar::ReverseBits(y, bits) == rev, "ReverseBits");
  }
  // ---- primes: inverses, roots
  static const U64s primes{kM0, kM1, 12289, 61441, 65537, 520193, 786433};
  uint64_t p = c.pick(primes), a = 1 + Edge(c, p - 1);
  REQUIRE((u128)ar::InvertUintMod(a, p) * a % p == 1, "InvertUintMod");
  REQUIRE((u128)ar::InvertUintMod(a, seal::Modulus(p)) * a % p == 1, "InvertUintMod");
  uint64_t deg = uint64_t{1} << (1 + c.below(12));
  uint64_t root = ar::GetPrimitiveRoot(deg, p);
  REQUIRE(PowMod(root, deg / 2, p) == p - 1 && ar::IsPrimitiveRoot(root, deg, p), "GetPrimitiveRoot");
  uint64_t mr = ar::GetMinimalPrimitiveRoot(deg, p), g = root, best = root;
  u128 sq = (u128)root * root % p;
  for (uint64_t i = 1; i < deg; i += 2, g = (uint64_t)(g * sq % p)) best = std::min(best, g);
  REQUIRE(mr == best, "GetMinimalPrimitiveRoot is not the smallest one");
  REQUIRE(!ar::IsPrimitiveRoot(0, deg, p), "0 is no root");
  if (deg > 2) REQUIRE(!ar::IsPrimitiveRoot((uint64_t)sq, deg, p), "a square is no primitive root");
}

PROP(ring, 60) {
  auto p = AnyRing(c, 8);
  size_t n = p.PolyLen();
  uint64_t q = p.Modulus();
  c.note() << "len=" << n << " q=" << q << " ";
  // CRT
  if (p.CrtCount() == 2)
    for (int i = 0; i < 4; ++i) {
      uint64_t x = Edge(c, q);
      REQUIRE(p.CrtCompose2(x % p.Moduli(0), x % p.Moduli(1)) == x, "CrtCompose2 of " + std::to_string(x));
    }
  size_t r = 1 + c.below(3), k = 1 + c.below(3), k2 = 1 + c.below(3);
  auto a = AnyMat(c, p, r, k), b = AnyMat(c, p, r, k), d = AnyMat(c, p, k, k2);
  c.note() << r << "x" << k << " * " << k << "x" << k2;
  c.nontrivial(!Sparse(Vec(a.Data())) && !Sparse(Vec(d.Data())));
  // round trip
  auto an = ToNtt(p, a);
  SameMat(FromNtt(p, an), a, q, "FromNtt(ToNtt(a))");
  { auto back = FromNtt(p, an); for (auto x : back.Data()) REQUIRE(x < q, "FromNtt is not reduced"); }
  { auto an2 = PolyMatrixNtt::Zero(p.CrtCount(), n, r, k); ToNtt(p, an2, a); auto raw = PolyMatrixRaw::Zero(n, r, k); FromNtt(p, raw, an2); SameMat(raw, a, q, "FromNtt(ToNtt(a)) in place"); }
  if (p.CrtCount() == 2) {  // small values need no reduction (written for two moduli)
    auto small = a;
    for (auto& x : small.Data()) x %= 256;
    auto sn = PolyMatrixNtt::Zero(p.CrtCount(), n, r, k);
    ToNttNoReduce(p, sn, small);
    SameMat(FromNtt(p, sn), small, q, "ToNttNoReduce");
  }
  // product
  auto dn = ToNtt(p, d);
  auto prod = FromNtt(p, Multiply(p, an, dn));
  auto want = PolyMatrixRaw::Zero(n, r, k2);
  for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < k2; ++j) {
    U64s acc(n);
    for (size_t l = 0; l < k; ++l) { auto m = MulPoly(Vec(a.Poly(i, l)), Vec(d.Poly(l, j)), q); for (size_t z = 0; z < n; ++z) acc[z] = (acc[z] + m[z]) % q; }
    std::copy(acc.begin(), acc.end(), want.Poly(i, j).begin());
  }
  SameMat(prod, want, q, "product");
  { auto s = AnyMat(c, p, 1, 1);
    auto got = FromNtt(p, ScalarMultiply(p, ToNtt(p, s), an));
    auto w = PolyMatrixRaw::Zero(n, r, k);
    for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < k; ++j) { auto m = MulPoly(Vec(s.Poly(0, 0)), Vec(a.Poly(i, j)), q); std::copy(m.begin(), m.end(), w.Poly(i, j).begin()); }
    SameMat(got, w, q, "scalar product"); }
  // sums, negation
  auto bn = ToNtt(p, b);
  auto sum = a;
  for (size_t i = 0; i < sum.Data().size(); ++i) sum.Data()[i] = (a.Data()[i] + b.Data()[i]) % q;
  SameMat(FromNtt(p, Add(p, an, bn)), sum, q, "sum");
  { auto t = an; AddInto(p, t, bn); SameMat(FromNtt(p, t), sum, q, "AddInto"); }
  { auto big = AnyMat(c, p, r + 1, k + 1); size_t tr = c.below(2), tc = c.below(2);
    auto t = ToNtt(p, big);
    AddIntoAt(p, t, an, tr, tc);
    auto w = big;
    for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < k; ++j) for (size_t z = 0; z < n; ++z) w.Poly(tr + i, tc + j)[z] = (w.Poly(tr + i, tc + j)[z] + a.Poly(i, j)[z]) % q;
    SameMat(FromNtt(p, t), w, q, "AddIntoAt"); }
  { auto neg = a; for (auto& x : neg.Data()) x = (q - x) % q; SameMat(Invert(p, a), neg, q, "negation");
    SameMat(FromNtt(p, Add(p, an, ToNtt(p, Invert(p, a)))), PolyMatrixRaw::Zero(n, r, k), q, "a + (-a)"); }
  // automorphism x -> x^t, t odd
  { size_t t = 1 + 2 * c.below(n);
    auto got = Automorphism(p, a, t);
    for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < k; ++j) {
      U64s w(n);
      for (size_t z = 0; z < n; ++z) { size_t e = z * t % (2 * n); uint64_t x = a.Poly(i, j)[z] % q; if (e < n) w[e] = x; else w[e - n] = (q - x) % q; }
      REQUIRE(SamePoly(got.Poly(i, j), w, q), "automorphism x^" + std::to_string(t));
    }
    auto t2 = 1 + 2 * c.below(n);
    SameMat(Automorphism(p, got, t2), Automorphism(p, a, t * t2 % (2 * n)), q, "composed automorphisms"); }
  // structure
  { auto st = Stack(a, b);
    SameMat(st.SubMatrix(0, 0, r, k), a, q, "Stack top"); SameMat(st.SubMatrix(r, 0, r, k), b, q, "Stack bottom");
    auto sn = StackNtt(an, bn);
    REQUIRE(sn.SubMatrix(0, 0, r, k) == an && sn.SubMatrix(r, 0, r, k) == bn, "StackNtt");
    size_t pr = c.below(3);
    auto pt = a; auto padded = pt.PadTop(pr);
    REQUIRE(padded.Rows() == r + pr, "PadTop rows"); SameMat(padded.SubMatrix(pr, 0, r, k), a, q, "PadTop");
    if (pr) SameMat(padded.SubMatrix(0, 0, pr, k), PolyMatrixRaw::Zero(n, pr, k), q, "PadTop zeros");
    auto ant = an; auto pn = ant.PadTop(pr);
    REQUIRE(pn.SubMatrix(pr, 0, r, k) == an, "PadTop of NTT form");
    auto sh = ShiftRowsByOne(an);
    for (size_t i = 0; i < r; ++i) REQUIRE(sh.SubMatrix((i + 1) % r, 0, 1, k) == an.SubMatrix(i, 0, 1, k), "ShiftRowsByOne");
    auto col = AnyMat(c, p, r, 1), mi = MatrixWithIdentity(col);
    SameMat(mi.SubMatrix(0, 0, r, 1), col, q, "MatrixWithIdentity left"); SameMat(mi.SubMatrix(0, 1, r, r), PolyMatrixRaw::Identity(n, r, r), q, "MatrixWithIdentity right");
    SameMat(FromNtt(p, Multiply(p, ToNtt(p, PolyMatrixRaw::Identity(n, r, r)), an)), a, q, "identity * a");
    uint64_t v = Edge(c, q);
    auto w = a; for (auto& x : w.Data()) x = (uint64_t)((u128)x * v % q);
    SameMat(FromNtt(p, ScalarMultiply(p, ToNtt(p, PolyMatrixRaw::SingleValue(n, v)), an)), w, q, "SingleValue * a"); }
  // rescale, reduce
  { auto t = a; uint64_t out = c.pick(U64s{1024, 12289, 786433, 4 * 256}); size_t s = c.below(r), e = s + 1 + c.below(r - s);
    t.Rescale(s, e, q, out);
    for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < k; ++j) for (size_t z = 0; z < n; ++z)
      REQUIRE(t.Poly(i, j)[z] == (i >= s && i < e ? ar::Rescale(a.Poly(i, j)[z], q, out) : a.Poly(i, j)[z]), "Rescale of rows");
    auto t2 = a; t2.ReduceMod(out); auto t3 = a; t3.ReduceMod(seal::Modulus(out));
    for (size_t i = 0; i < t2.Data().size(); ++i) REQUIRE(t2.Data()[i] == a.Data()[i] % out && t3.Data()[i] == a.Data()[i] % out, "ReduceMod"); }
}

PROP(ntt_big, 60) {  // production ring sizes
  auto p = MakeParams(size_t{256} << c.below(4), {kM0, kM1});
  uint64_t q = p.Modulus();
  auto a = AnyMat(c, p, 1, 1), b = AnyMat(c, p, 1, 1);
  if (c.flip()) { std::fill(b.Data().begin(), b.Data().end(), 0); for (size_t i = 1 + c.below(5); i--;) b.Data()[c.below(p.PolyLen())] = Edge(c, q); }
  c.note() << "len=" << p.PolyLen();
  c.nontrivial(!Sparse(Vec(a.Data())));
  auto an = ToNtt(p, a);
  SameMat(FromNtt(p, an), a, q, "round trip");
  SameMat(FromNtt(p, Multiply(p, an, ToNtt(p, b))), PolyMatrixRaw(p.PolyLen(), 1, 1, MulPoly(Vec(a.Data()), Vec(b.Data()), q)), q, "product");
}

PROP(gadget, 30) {
  auto p = AnyRing(c, 6);
  size_t n = p.PolyLen(), r = 1 + c.below(3), k = 1 + c.below(3), t = 1 + c.below(60);
  uint64_t q = p.Modulus();
  auto in = AnyMat(c, p, r, k);
  c.note() << "len=" << n << " " << r << "x" << k << " t=" << t;
  c.nontrivial(!Sparse(Vec(in.Data())) && t > 1);
  auto g = util::BuildGadget(p, r, r * t);
  auto inv = PolyMatrixRaw::Zero(n, r * t, k);
  util::GadgetInvert(p, inv, in);
  size_t bits = util::GetBitsPer(p, t);
  REQUIRE(bits * t >= p.ModulusLog2() || t == p.ModulusLog2(), "digits do not cover the modulus");
  for (auto x : inv.Data()) REQUIRE(x >> bits == 0, "a digit is not small");
  // G * digits == in
  SameMat(FromNtt(p, Multiply(p, ToNtt(p, g), ToNtt(p, inv))), in, q, "G*GadgetInvert(x)");
  // only the first rows
  size_t rd = 1 + c.below(r);
  auto g2 = util::BuildGadget(p, rd, rd * t);
  auto inv2 = PolyMatrixRaw::Zero(n, rd * t, k);
  util::GadgetInvertRdim(p, inv2, in, rd);
  SameMat(FromNtt(p, Multiply(p, ToNtt(p, g2), ToNtt(p, inv2))), in.SubMatrix(0, 0, rd, k), q, "G*GadgetInvertRdim(x)");
}

PROP(gauss, 30) {
  double width = c.pick(std::vector<double>{6.4, 1.0, 3.2, 2.0 + (double)c.below(10) / 3});
  DiscreteGaussian dg(width);
  size_t len = 2 * dg.max_val_ + 1;
  REQUIRE(dg.max_val_ == (int64_t)std::ceil(width * 4), "support");
  REQUIRE(dg.cdf_table_.size() == len, "table size");
  long double tot = 0, cum = 0;
  for (int64_t i = -dg.max_val_; i <= dg.max_val_; ++i) tot += expl(-PI * (long double)(i * i) / ((long double)width * width));
  for (size_t i = 0; i < len; ++i) {
    long double x = (long double)i - dg.max_val_;
    cum += expl(-PI * x * x / ((long double)width * width));
    long double want = cum / tot;
    REQUIRE(fabsl((long double)dg.cdf_table_[i] / 18446744073709551616.0L - want) < 1e-13L, "cumulative probability of entry " + std::to_string(i));
    if (i) REQUIRE(dg.cdf_table_[i] >= dg.cdf_table_[i - 1], "table is not monotonic");
  }
  auto p = AnyRing(c, 10);
  uint64_t q = p.Modulus();
  uint128_t seed = yacl::MakeUint128(c.u64(), c.u64());
  yacl::crypto::Prg<uint64_t> prg(seed), twin(seed);
  auto m = Noise(p, 1 + c.below(2), 1 + c.below(2), dg, prg);
  c.note() << "width=" << width << " samples=" << m.Data().size();
  c.nontrivial(m.Data().size() > 64);
  double s = 0, s2 = 0;
  for (auto got : m.Data()) {
    uint64_t u = twin();
    size_t i = 0;
    while (i + 1 < len && dg.cdf_table_[i] < u) ++i;
    int64_t v = (int64_t)i - dg.max_val_;
    REQUIRE(got == (v < 0 ? q + v : (uint64_t)v), "sample of " + std::to_string(u));
    s += v; s2 += (double)v * v;
  }
  long double var = 0;
  for (int64_t i = -dg.max_val_; i <= dg.max_val_; ++i) var += i * i * expl(-PI * (long double)(i * i) / ((long double)width * width)) / tot;
  double N = m.Data().size(), sd = std::sqrt((double)var);
  REQUIRE(std::fabs(s / N) < 7 * sd / std::sqrt(N) + 1e-9, "mean of the noise is " + std::to_string(s / N));
  if (N >= 512) REQUIRE(std::fabs(s2 / N / (sd * sd) - 1) < (width < 2 ? 40 : 12) * std::sqrt(2 / N) + 0.02, "variance of the noise is " + std::to_string(s2 / N));
}

PROP(ternary, 60) {
  // secret keys: exact weights, and as many different keys as seeds
  auto p = MakeParams(64, {kM0, kM1});
  uint64_t q = p.Modulus();
  size_t rows = 1 + c.below(3), h = 1 + c.below(32);
  c.note() << "rows=" << rows << " h=" << h;
  c.nontrivial(rows > 1);
  auto m = PolyMatrixRaw::Zero(64, rows, 1);
  yacl::crypto::Prg<uint64_t> prg(yacl::MakeUint128(c.u64(), c.u64()));
  GenTernaryMatrix(p, m, h, prg);
  std::set<U64s> polys;
  for (size_t i = 0; i < rows; ++i) {
    size_t one = 0, neg = 0, zero = 0;
    for (auto x : m.Poly(i, 0)) { one += x == 1; neg += x == q - 1; zero += x == 0; }
    REQUIRE(one == h && neg == h && zero == 64 - 2 * h, "Hamming weight of the key");
    polys.insert(Vec(m.Poly(i, 0)));
  }
  if (h >= 8 && h <= 24) REQUIRE(polys.size() == rows, "two rows of a key are equal");
}

PROP(key_entropy, 120) {
  // 200000 seeds over a space of 2^90 keys: two equal keys mean that most of
  // the seed is not used.
  auto p = MakeParams(64, {kM0, kM1});
  size_t n = 200000;
  uint64_t s = c.u64();
  c.note() << n << " keys";
  c.nontrivial();
  std::vector<std::pair<uint64_t, uint64_t>> hs;
  hs.reserve(n);
  std::vector<uint64_t> pos(64);
  auto m = PolyMatrixRaw::Zero(64, 1, 1);
  for (size_t i = 0; i < n; ++i) {
    yacl::crypto::Prg<uint64_t> prg(yacl::MakeUint128(mix(s + 2 * i), mix(s + 2 * i + 1)));
    std::fill(m.Data().begin(), m.Data().end(), 0);
    GenTernaryMatrix(p, m, 16, prg);
    uint64_t a = 0, b = 0;
    for (size_t z = 0; z < 64; ++z) { a |= (uint64_t)(m.Data()[z] == 1) << z; b |= (uint64_t)(m.Data()[z] > 1) << z; }
    hs.emplace_back(a, b);
  }
  for (size_t z = 0; z < 64; ++z) { size_t k = 0; for (auto& x : hs) k += x.first >> z & 1; REQUIRE(std::fabs((double)k / n - 0.25) < 0.01, "position " + std::to_string(z) + " is 1 in " + std::to_string(k) + " of the keys"); }
  std::sort(hs.begin(), hs.end());
  size_t dup = 0;
  for (size_t i = 1; i < n; ++i) dup += hs[i] == hs[i - 1];
  REQUIRE(dup == 0, std::to_string(dup) + " of " + std::to_string(n) + " secret keys from different 128-bit seeds are equal");
}

PROP(convert, 30) {
  size_t logt = 1 + c.below(c.chance(1, 4) ? 30 : 8), size = 1 + c.skewed(0, 300), off = c.below(20);
  auto raw = c.bulk(size + off + c.below(5));
  if (c.chance(1, 5)) std::fill(raw.begin(), raw.end(), '\xff');
  Bytes in(raw.begin(), raw.end());
  c.note() << "logt=" << logt << " size=" << size << " offset=" << off;
  c.nontrivial(size > 1 && 8 % logt != 0);
  auto bit = [&](size_t k) { return k < 8 * size ? in[off + k / 8] >> (7 - k % 8) & 1 : 0; };
  auto co = util::ConvertBytesToCoeffs(logt, off, size, in);
  REQUIRE(co.size() == (8 * size + logt - 1) / logt, "number of coefficients");
  for (size_t i = 0; i < co.size(); ++i) {
    uint64_t w = 0;
    for (size_t k = 0; k < logt; ++k) w = w << 1 | bit(i * logt + k);
    REQUIRE(co[i] == w, "coefficient " + std::to_string(i) + " is " + std::to_string(co[i]) + " instead of " + std::to_string(w));
  }
  if (logt <= 8) {
    auto c8 = util::ConvertBytesToU8Coeffs(logt, off, size, in);
    REQUIRE(U64s(c8.begin(), c8.end()) == co, "8-bit coefficients differ");
  }
  auto back = util::ConvertCoeffsToBytes(co, logt);
  REQUIRE(back.size() >= size && std::equal(back.begin(), back.begin() + size, in.begin() + off), "bytes -> coefficients -> bytes");
  auto back2 = util::ConvertCoeffsToBytes(absl::MakeSpan(co), logt);
  REQUIRE(back2 == back, "the two forms of ConvertCoeffsToBytes differ");
  // CalcIndex is row-major
  U64s len, idx;
  size_t want = 0;
  for (size_t i = 1 + c.below(4); i--;) { len.push_back(1 + c.below(50)); idx.push_back(c.below(len.back())); want = want * len.back() + idx.back(); }
  REQUIRE(util::CalcIndex(idx, len) == want, "CalcIndex");
}

PROP(raw_db, 30) {
  using psi::pir::RawDatabase;
  size_t rows = 1 + c.skewed(0, 40), len = 1 + c.skewed(0, 200), part = 1 + c.skewed(0, 220);
  std::vector<Bytes> d(rows);
  for (auto& r : d) { auto s = c.bulk(len); r.assign(s.begin(), s.end()); }
  c.note() << rows << "x" << len << " part=" << part;
  c.nontrivial(rows > 1 && part < len);
  RawDatabase db = c.flip() ? RawDatabase(d) : RawDatabase(rows, len, d);
  REQUIRE(db.Rows() == rows && db.RowByteLen() == len, "shape");
  auto ps = db.Partition(part);
  REQUIRE(ps.size() == (len + part - 1) / part, "number of partitions");
  for (size_t i = 0; i < rows; ++i) {
    REQUIRE(db.At(i) == d[i], "At");
    std::vector<Bytes> pieces;
    for (auto& x : ps) { REQUIRE(x.Rows() == rows && x.RowByteLen() == (part < len ? part : len), "shape of a partition"); pieces.push_back(x.At(i)); REQUIRE(pieces.back().size() == x.RowByteLen(), "row length of a partition"); }
    REQUIRE(RawDatabase::Combine(pieces, len) == d[i], "Combine(Partition(row)) differs");
    for (size_t k = 0; k < ps.size(); ++k) REQUIRE(std::equal(pieces[k].begin(), pieces[k].begin() + std::min(part, len - k * part), d[i].begin() + k * part), "a partition holds other bytes");
  }
  if (rows > 1) {  // rows of different lengths are refused
    auto bad = d;
    bad[c.below(rows)].push_back(1);
    bool threw = false;
    try { if (c.flip()) RawDatabase x(bad); else RawDatabase x(rows, len, bad); } catch (const std::exception&) { threw = true; }
    REQUIRE(threw, "rows of different lengths are accepted");
  }
  auto rd = RawDatabase::Random(rows, len);
  REQUIRE(rd.Rows() == rows && rd.Db().size() == rows && rd.RowByteLen() == len, "Random");
  for (auto& r : rd.Db()) REQUIRE(r.size() == len, "Random row");
}

PROP(wire, 60) {
  auto p = AnyRing(c, 6);
  size_t n = p.PolyLen(), r = 1 + c.below(3), k = 1 + c.below(3);
  uint64_t q = p.Modulus();
  auto a = AnyMat(c, p, r, k);
  c.note() << "len=" << n << " " << r << "x" << k;
  c.nontrivial(!Sparse(Vec(a.Data())));
  REQUIRE(DeserializePolyMatrixRaw(p, SerializePolyMatrixRaw(a)) == a, "matrix");
  REQUIRE(DeserializePolyMatrixRaw(p, SerializePolyMatrixRawToStr(a)) == a, "matrix as string");
  REQUIRE(PolyMatrixRaw::FromProto(a.ToProto(), p) == a, "matrix as proto");
  // the first row comes from a seed
  uint128_t seed = yacl::MakeUint128(c.u64(), c.u64());
  { yacl::crypto::Prg<uint64_t> g(seed);
    auto b = AnyMat(c, p, r + 1, k);
    for (size_t j = 0; j < k; ++j) for (auto& x : b.Poly(0, j)) x = q - g() % q;
    auto rng = [&] { return yacl::crypto::Prg<uint64_t>(seed); };
    REQUIRE(DeserializePolyMatrixRawRng(SerializePolyMatrixRawRng(b, p), p, rng()) == b, "seeded matrix");
    REQUIRE(DeserializePolyMatrixRawRng(SerializePolyMatrixRawRngToStr(b, p), p, rng()) == b, "seeded matrix as string");
    auto r1 = rng();
    REQUIRE(PolyMatrixRaw::FromProtoRng(b.ToProtoRng(), p, r1) == b, "seeded matrix as proto");
    // a query
    SpiralQuery sq; sq.ct_ = b; sq.seed_ = seed;
    REQUIRE(SpiralQuery::Deserialize(p, sq.Serialize()) .ct_ == b, "query");
    REQUIRE(SpiralQuery::Deserialize(p, sq.SerializeToStr()).ct_ == b, "query as string");
    REQUIRE(SpiralQuery::DeserializeRng(p, sq.SerializeRng()) == sq, "seeded query");
    REQUIRE(SpiralQuery::DeserializeRng(p, sq.SerializeRngToStr()) == sq, "seeded query as string"); }
  std::vector<PolyMatrixRaw> resp;
  for (size_t i = c.below(4); i--;) resp.push_back(AnyMat(c, p, 1 + c.below(3), 1 + c.below(3)));
  REQUIRE(DeserializeResponse(p, SerializeResponse(resp)) == resp, "response");
  REQUIRE(DeserializeResponse(p, SerializeResponseToStr(resp)) == resp, "response as string");
  PublicKeys pk;
  auto some = [&](std::vector<PolyMatrixNtt>& v) { for (size_t i = c.below(3); i--;) v.push_back(ToNtt(p, AnyMat(c, p, 1 + c.below(2), 1 + c.below(3)))); };
  some(pk.v_packing_); some(pk.v_expansion_left_); some(pk.v_expansion_right_); some(pk.v_conversion_);
  auto same = [&](const PublicKeys& x) {
    auto eq = [&](const std::vector<PolyMatrixNtt>& u, const std::vector<PolyMatrixNtt>& v) { if (u.size() != v.size()) return false; for (size_t i = 0; i < u.size(); ++i) if (!(FromNtt(p, u[i]) == FromNtt(p, v[i]))) return false; return true; };
    return eq(x.v_packing_, pk.v_packing_) && eq(x.v_expansion_left_, pk.v_expansion_left_) && eq(x.v_expansion_right_, pk.v_expansion_right_) && eq(x.v_conversion_, pk.v_conversion_);
  };
  REQUIRE(same(DeserializePublicKeys(p, SerializePublicKeys(p, pk))), "public keys");
  REQUIRE(same(DeserializePublicKeys(p, SerializePublicKeysToStr(p, pk))), "public keys as string");
  // a message that holds another number of coefficients than its shape is refused
  auto pr = a.ToProto();
  if (c.flip()) pr.set_rows(pr.rows() + 1 + c.below(3)); else pr.mutable_data()->RemoveLast();
  auto bad = pr.SerializeAsString();
  auto threw = [&](auto f) { try { f(); } catch (const std::exception&) { return true; } return false; };
  REQUIRE(threw([&] { DeserializePolyMatrixRaw(p, bad); }), "a matrix of the wrong size is accepted");
  REQUIRE(threw([&] { PolyMatrixRaw::FromProto(pr, p); }), "a matrix of the wrong size is accepted");
  REQUIRE(threw([&] { DeserializePolyMatrixRawRng(bad, p, yacl::crypto::Prg<uint64_t>(seed)); }), "a seeded matrix of the wrong size is accepted");
}

PROP(sizing, 30) {
  // every database size is given parameters that hold it
  auto p = c.flip() ? util::GetDefaultParam() : util::GetFastExpansionTestingParam();
  size_t row = 1 + c.skewed(0, c.flip() ? 40000 : 600);
  size_t per = p.ElementSizeOfPt(std::min(row, p.MaxByteLenOfPt()));
  // number of plaintexts: all small ones, and around powers of two
  size_t pts = c.flip() ? 1 + c.below(130) : (size_t{1} << c.below(15)) + c.range(-1, 1);
  if (pts == 0) pts = 1;
  size_t rows = pts * per - c.below(per);
  c.note() << "rows=" << rows << " bytes=" << row << " plaintexts=" << pts;
  c.nontrivial(pts > 4);
  size_t got;
  try {
    got = p.UpdateByDatabaseInfo(DatabaseMetaInfo(rows, row));
  } catch (const std::exception& e) {
    c.fail("no parameters for " + std::to_string(rows) + " rows of " + std::to_string(row) + " bytes (" + std::to_string(pts) + " plaintexts): " + std::string(e.what()).substr(0, 120));
  }
  REQUIRE(got == pts, "number of plaintexts is " + std::to_string(got));
  REQUIRE(p.NumItems() >= pts, "dimensions do not hold the database");
  REQUIRE(per * std::min(row, p.MaxByteLenOfPt()) <= p.MaxByteLenOfPt(), "a plaintext does not hold its rows");
  REQUIRE((size_t{1} << p.G()) >= p.NumExpanded() + p.TGsw() * p.DbDim2() && p.G() <= p.PolyLenLog2(), "the query does not hold its bits");
}

PROP(e2e, 300) {
  using psi::pir::RawDatabase;
  // Whole queries. Smaller rings are as good as the production one (2048)
  // for everything but time; the noise is smaller.
  bool prod = c.chance(1, 12);
  size_t len = prod ? 2048 : 512 << c.below(2);
  size_t p_mod = c.chance(1, 4) ? c.pick(std::vector<size_t>{4, 16, 64, 128, 2}) : 256;
  size_t q2 = c.chance(1, 2) ? 21 : 16 + c.below(13);
  size_t tgsw = c.pick(std::vector<size_t>{6, 4, 8, 7}), tconv = 4, tl = 8, tr = c.chance(1, 6) ? 56 : 8;
  int path = prod ? c.below(3) : 0;  // 0 reorient directly, 1 dump and load, 2 simple hash table
  if (path == 1 || path == 2) p_mod = 256;
  Params base = path == 1 || path == 2 ? util::GetDefaultParam() : MakeParams(len, {kM0, kM1}, PolyMatrixParams(2, p_mod, q2, tconv, tl, tr, tgsw), QueryParams(9, 6, 1));
  if (path == 1 || path == 2) { len = 2048; q2 = 21; tgsw = 6; }
  size_t cap = base.MaxByteLenOfPt();
  size_t row = 1 + (c.chance(1, 5) ? cap - 2 + c.below(5) : c.chance(1, 6) ? cap + c.below(2 * cap) : c.skewed(0, 700));
  size_t per = base.ElementSizeOfPt(std::min(row, cap));
  size_t max_pts = len == 512 ? 70 : 40;
  size_t pts = 1 + c.skewed(0, max_pts - 1);
  size_t rows = pts * per - c.below(per);
  c.note() << "len=" << len << " p=" << p_mod << " q2=" << q2 << " tgsw=" << tgsw << " rows=" << rows << " bytes=" << row << " plaintexts=" << pts << " path=" << path;
  c.label("path " + std::to_string(path));
  c.nontrivial(rows > 1);
  std::vector<Bytes> d(rows);
  uint64_t s = c.u64();
  for (size_t i = 0; i < rows; ++i) { d[i].resize(row); for (size_t j = 0; j < row; ++j) { if (j % 8 == 0) s = mix(s); d[i][j] = (uint8_t)(s >> (8 * (j % 8))); } }
  if (c.chance(1, 6)) for (auto& r : d) std::fill(r.begin(), r.end(), 0xff);
  RawDatabase db(d);
  DatabaseMetaInfo info(rows, row);
  yacl::shim::SeedRand(c.u64());
  Params pc = base;
  try {
    REQUIRE(pc.UpdateByDatabaseInfo(info) == pts, "number of plaintexts");
  } catch (const yacl::EnforceNotMet& e) {
    // small rings cannot hold every query
    if (len == 2048) c.fail(std::string("no parameters: ") + std::string(e.what()).substr(0, 200));
    c.label("ring too small for this database");
    throw Discard{};
  }
  std::unique_ptr<SpiralServer> server;
  std::unique_ptr<SpiralServer> made = std::make_unique<SpiralServer>(Params(pc), info);
  if (path == 0) { made->GenerateFromRawDataAndReorient(db); server = std::move(made); }
  else {
    if (path == 1) made->GenerateFromRawData(db); else made->GenerateFromSimpleHashTable(db);
    REQUIRE(made->DbSeted(), "DbSeted");
    std::string f = c.scratch + "/db.bin";
    { std::ofstream out(f, std::ios::binary); made->Dump(out); }
    int fd = open(f.c_str(), O_RDONLY);
    { google::protobuf::io::FileInputStream in(fd); server = SpiralServer::Load(in); }
    close(fd);
    REQUIRE(server->GetParams() == made->GetParams(), "the loaded server has other parameters");
    pc = server->GetParams();
  }
  REQUIRE(server->DbSeted(), "DbSeted");
  REQUIRE(server->MaxElementsOfOnePt() == std::max<size_t>(1, server->GetParams().ElementSizeOfPt(row)), "MaxElementsOfOnePt");
  size_t clients = 1 + (c.chance(1, 4) ? 1 : 0);
  std::set<std::string> seen_q, seen_k;
  for (size_t cl = 0; cl < clients; ++cl) {
    SpiralClient client(pc, info);
    auto k = Vec(client.GetSkRegev().Data());
    REQUIRE(seen_k.insert(std::string((char*)k.data(), 8 * k.size())).second, "two clients have the same secret key");
    bool str = c.flip(), raw = c.chance(1, 4);
    PublicKeys pk; yacl::Buffer pkb; std::string pks;
    if (raw) pk = client.GenPublicKeys(); else if (str) pks = client.GeneratePksString(); else pkb = client.GeneratePksBuffer();
    size_t queries = 1 + c.below(3);
    for (size_t t = 0; t < queries; ++t) {
      size_t i = c.chance(1, 3) ? rows - 1 : c.chance(1, 4) ? 0 : c.below(rows);
      Bytes got;
      if (raw) { auto q = client.GenQuery(i); REQUIRE(seen_q.insert(std::string((char*)&q.seed_, 16)).second, "two queries have the same seed"); got = client.DecodeResponse(server->ProcessQuery(q, pk), i); }
      else if (str) { auto q = client.GenerateIndexQueryStr(i); REQUIRE(seen_q.insert(q).second, "two queries are equal"); auto r = server->Response(q, pks); got = client.DecodeIndexResponse(r, i); }
      else { auto q = client.GenerateIndexQuery(i); REQUIRE(seen_q.insert(std::string((char*)q.data(), q.size())).second, "two queries are equal"); auto r = server->Response(q, pkb); got = client.DecodeIndexResponse(r, i); }
      size_t bad = 0, first = 0;
      REQUIRE(got.size() == row, "length of the row");
      for (size_t z = row; z--;) if (got[z] != d[i][z]) { ++bad; first = z; }
      REQUIRE(bad == 0, "row " + std::to_string(i) + ": " + std::to_string(bad) + " of " + std::to_string(row) + " bytes differ, first at " + std::to_string(first));
      c.metric("queries", 1);
    }
    bool threw = false;
    try { client.GenQuery(rows + c.below(3)); } catch (const std::exception&) { threw = true; }
    REQUIRE(threw, "a query for a row after the last one is accepted");
  }
}

// ---------------------------------------------------------------- damaged messages
// A query, a key or a response that is not what the peer should have sent is
// refused or gives some result: no access outside the buffers.
static void Reshape(pbt::Ctx& c, PolyMatrixProto& m, size_t len) {
  switch (c.below(5)) {
    case 0: { auto r = m.rows(); m.set_rows(m.cols()); m.set_cols(r); break; }
    case 1: m.Clear(); break;
    default: {
      size_t r = c.below(4), k = c.below(5), n = r * k * len;
      m.set_rows(r); m.set_cols(k);
      m.clear_data();
      for (size_t i = 0; i < n; ++i) m.add_data(i * 77);
    }
  }
  if (c.chance(1, 4) && m.data_size()) m.set_data(c.below(m.data_size()), c.u64());
}
static void damaged_spiral(pbt::Ctx& c) {
  size_t len = 512, row = 1 + c.below(300);
  Params pc = MakeParams(len, {kM0, kM1}, PolyMatrixParams(2, 256, 21, 4, 8, 8, 6), QueryParams(9, 6, 1));
  size_t per = pc.ElementSizeOfPt(row), pts = 1 + c.below(12), rows = pts * per;
  std::vector<Bytes> d(rows, Bytes(row, 7));
  psi::pir::RawDatabase db(d);
  DatabaseMetaInfo info(rows, row);
  yacl::shim::SeedRand(c.u64());
  pc.UpdateByDatabaseInfo(info);
  SpiralServer server(Params(pc), info);
  server.GenerateFromRawDataAndReorient(db);
  SpiralClient client(pc, info);
  size_t i = c.below(rows);
  auto q = client.GenerateIndexQueryStr(i);
  auto pks = client.GeneratePksString();
  auto damage = [&](std::string& s, auto proto, auto fields) {
    if (c.chance(1, 3)) { wire::Apply({0, c.below(8), c.u64(), c.u64()}, s); return; }
    proto.ParseFromString(s);
    fields(proto);
    s = proto.SerializeAsString();
  };
  int what = c.below(3);
  c.note() << "rows=" << rows << " bytes=" << row << " damaged: " << (what == 0 ? "query" : what == 1 ? "keys" : "response");
  c.label(what == 0 ? "query" : what == 1 ? "keys" : "response");
  c.nontrivial(true);
  if (what == 0) damage(q, SpiralQueryProto(), [&](SpiralQueryProto& m) {
    if (c.flip()) Reshape(c, *m.mutable_ct(), len);
    else m.set_seed(c.bulk(c.below(40)));
  });
  if (what == 1) damage(pks, PublicKeysProto(), [&](PublicKeysProto& m) {
    auto* f = c.pick(std::vector<google::protobuf::RepeatedPtrField<PolyMatrixProto>*>{m.mutable_v_packing(), m.mutable_v_expansion_left(), m.mutable_v_expansion_right(), m.mutable_v_conversion()});
    if (f->empty()) return;
    switch (c.below(4)) {
      case 0: f->RemoveLast(); break;
      case 1: f->Clear(); break;
      default: Reshape(c, *f->Mutable(c.below(f->size())), len);
    }
  });
  std::string how = "some result";
  try {
    auto r = server.Response(q, pks);
    if (what == 2) damage(r, SpiralResponseProto(), [&](SpiralResponseProto& m) {
      if (c.chance(1, 3) || !m.ct_size()) { if (c.flip() && m.ct_size()) m.mutable_ct()->RemoveLast(); else m.add_ct(); }
      else Reshape(c, *m.mutable_ct(c.below(m.ct_size())), len);
    });
    // Coefficients far outside the ring only overflow arithmetic, which is not the point here.
    SpiralResponseProto m;
    if (what == 2 && m.ParseFromString(r)) {
      for (auto& ct : *m.mutable_ct()) for (auto& x : *ct.mutable_data()) x &= 0xfffff;
      r = m.SerializeAsString();
    }
    client.DecodeIndexResponse(r, i);
  } catch (const std::exception& e) {
    how = std::string("refused: ") + e.what();
  }
  c.note() << ": " << how.substr(0, 200);
  c.label(how.substr(0, 7));
}
static pbt::Reg reg_damaged_spiral("spiral_damaged", damaged_spiral, 30, /*slow_ok=*/true);
