// Test double for the part of Microsoft SEAL that psi/algorithm/sealpir uses.
//
// The ciphertexts are genuine BFV ciphertexts (two polynomials in RNS form, a
// uniform mask, a small error), so code that works on their coefficients sees
// what it would see with SEAL. What is not genuine is key switching: Galois
// keys carry the secret key and the switch is computed with it, without noise.
//
// For APSI a Ciphertext can also be in "slot" form: it then only holds the
// batched plaintext values, and keeps track of its level and NTT form. That is
// enough to follow an evaluation, and hides nothing.
#pragma once
#include <algorithm>
#include <array>
#include <cstring>
#include <istream>
#include <map>
#include <memory>
#include <mutex>
#include <numeric>
#include <ostream>
#include <set>
#include <string>
#include <vector>

#include "gsl/span"
#include "seal/memorymanager.h"
#include "seal/modulus.h"
#include "seal/util/numth.h"

namespace seal {
enum class seal_byte : unsigned char {};
enum class scheme_type : std::uint8_t { none = 0, bfv = 1, ckks = 2, bgv = 3 };
using parms_id_type = std::array<std::uint64_t, 4>;
constexpr parms_id_type parms_id_zero{0, 0, 0, 0};

namespace util {
inline std::uint64_t exponentiate_uint(std::uint64_t b, std::uint64_t e) {
  std::uint64_t r = 1;
  while (e--) r *= b;
  return r;
}
inline int get_power_of_two(std::uint64_t v) {
  if (v == 0 || (v & (v - 1))) return -1;
  return __builtin_ctzll(v);
}
inline void set_uint(const std::uint64_t* src, std::size_t n, std::uint64_t* dst) { std::copy_n(src, n, dst); }
inline bool try_invert_uint_mod(std::uint64_t v, std::uint64_t m, std::uint64_t& r) {
  return try_invert_uint_mod(v, Modulus(m), r);
}
inline void negacyclic_shift_poly_coeffmod(const std::uint64_t* p, std::size_t n, std::size_t shift, const Modulus& m,
                                           std::uint64_t* out) {
  if (shift >= n) throw std::invalid_argument("shift");
  for (std::size_t i = 0; i < n; ++i) {
    std::size_t raw = i + shift;
    std::uint64_t v = p[i] % m.value();
    out[raw & (n - 1)] = (raw & n) && v ? m.value() - v : v;
  }
}
inline std::uint64_t mul_fast(std::uint64_t a, std::uint64_t b, std::uint64_t q) {
  std::uint64_t est = (std::uint64_t)((long double)a * b / q);
  std::int64_t r = (std::int64_t)(a * b - est * q);
  while (r < 0) r += q;
  while (r >= (std::int64_t)q) r -= q;
  return (std::uint64_t)r;
}
// Negacyclic transform of length n modulo q, q = 1 mod 2n.
class Ntt {
 public:
  static const Ntt& Get(std::size_t n, std::uint64_t q) {
    static std::mutex m;
    static std::map<std::pair<std::size_t, std::uint64_t>, std::unique_ptr<Ntt>> all;
    std::lock_guard<std::mutex> l(m);
    auto& p = all[{n, q}];
    if (!p) p.reset(new Ntt(n, q));
    return *p;
  }
  void Forward(std::uint64_t* a) const {
    std::size_t t = n_;
    for (std::size_t m = 1; m < n_; m <<= 1) {
      t >>= 1;
      for (std::size_t i = 0; i < m; ++i) {
        std::uint64_t w = w_[m + i], ws = ws_[m + i];
        for (std::size_t j = 2 * i * t; j < 2 * i * t + t; ++j) {
          std::uint64_t u = a[j], v = Shoup(a[j + t], w, ws);
          a[j] = u + v >= q_ ? u + v - q_ : u + v;
          a[j + t] = u >= v ? u - v : u + q_ - v;
        }
      }
    }
  }
  void Inverse(std::uint64_t* a) const {
    std::size_t t = 1;
    for (std::size_t m = n_; m > 1; m >>= 1) {
      std::size_t j1 = 0, h = m >> 1;
      for (std::size_t i = 0; i < h; ++i) {
        std::uint64_t w = v_[h + i], ws = vs_[h + i];
        for (std::size_t j = j1; j < j1 + t; ++j) {
          std::uint64_t u = a[j], v = a[j + t];
          a[j] = u + v >= q_ ? u + v - q_ : u + v;
          a[j + t] = Shoup(u >= v ? u - v : u + q_ - v, w, ws);
        }
        j1 += 2 * t;
      }
      t <<= 1;
    }
    for (std::size_t i = 0; i < n_; ++i) a[i] = Shoup(a[i], inv_, invs_);
  }

 private:
  Ntt(std::size_t n, std::uint64_t q) : n_(n), q_(q), w_(n), ws_(n), v_(n), vs_(n) {
    Modulus m(q);
    std::uint64_t root;
    if (!try_primitive_root(2 * n, m, root)) throw std::invalid_argument("invalid modulus");
    std::uint64_t iroot;
    try_invert_uint_mod(root, m, iroot);
    int lg = __builtin_ctzll(n);
    std::uint64_t p = 1, ip = 1;
    for (std::size_t i = 0; i < n; ++i) {
      std::size_t r = 0;
      for (int b = 0; b < lg; ++b) r |= ((i >> b) & 1) << (lg - 1 - b);
      w_[r] = p;
      v_[r] = ip;
      p = multiply_uint_mod(p, root, m);
      ip = multiply_uint_mod(ip, iroot, m);
    }
    for (std::size_t i = 0; i < n; ++i) ws_[i] = Scale(w_[i]), vs_[i] = Scale(v_[i]);
    try_invert_uint_mod(n, m, inv_);
    invs_ = Scale(inv_);
  }
  std::uint64_t Scale(std::uint64_t w) const { return (std::uint64_t)(((unsigned __int128)w << 64) / q_); }
  std::uint64_t Shoup(std::uint64_t x, std::uint64_t w, std::uint64_t ws) const {
    std::uint64_t h = (std::uint64_t)(((unsigned __int128)ws * x) >> 64);
    std::uint64_t r = w * x - h * q_;
    return r >= q_ ? r - q_ : r;
  }
  std::size_t n_;
  std::uint64_t q_, inv_ = 0, invs_ = 0;
  std::vector<std::uint64_t> w_, ws_, v_, vs_;
};
inline bool is_prime_slow(std::uint64_t n) {
  if (n < 2) return false;
  for (std::uint64_t p : {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37}) {
    if (n == p) return true;
    if (n % p == 0) return false;
  }
  Modulus m(n);
  std::uint64_t d = n - 1;
  int s = __builtin_ctzll(d);
  d >>= s;
  for (std::uint64_t a : {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37}) {
    std::uint64_t x = exponentiate_uint_mod(a, d, m);
    if (x == 1 || x == n - 1) continue;
    bool ok = false;
    for (int i = 1; i < s && !ok; ++i) {
      x = multiply_uint_mod(x, x, m);
      ok = x == n - 1;
    }
    if (!ok) return false;
  }
  return true;
}
inline void put(std::ostream& o, const void* p, std::size_t n) { o.write((const char*)p, n); }
template <typename T>
inline void put(std::ostream& o, const T& v) { put(o, &v, sizeof v); }
inline void put_vec(std::ostream& o, const std::vector<std::uint64_t>& v) {
  put<std::uint64_t>(o, v.size());
  put(o, v.data(), v.size() * 8);
}
struct Reader {
  const unsigned char* p;
  std::size_t n;
  void take(void* d, std::size_t k) {
    if (k > n) throw std::runtime_error("I/O error");
    if (k) std::memcpy(d, p, k);
    p += k;
    n -= k;
  }
  template <typename T>
  T get() { T v; take(&v, sizeof v); return v; }
  std::vector<std::uint64_t> vec() {
    auto c = get<std::uint64_t>();
    if (c > n / 8) throw std::logic_error("invalid size");
    std::vector<std::uint64_t> v(c);
    take(v.data(), c * 8);
    return v;
  }
};
std::uint64_t bfv_rand();  // from the stand-in's random source
}  // namespace util

struct CoeffModulus {
  static std::vector<Modulus> Create(std::size_t n, const std::vector<int>& bits) {
    std::vector<Modulus> r;
    std::set<std::uint64_t> used;
    for (int b : bits) {
      std::uint64_t step = 2 * n, c = ((1ULL << b) / step) * step + 1;
      if (b < 2 || b > 60) throw std::invalid_argument("bit_sizes is invalid");
      while (c >= (1ULL << b) || used.count(c) || !util::is_prime_slow(c)) {
        if (c < step || c < (1ULL << (b - 1))) throw std::logic_error("failed to find enough qualifying primes");
        c -= step;
      }
      used.insert(c);
      r.emplace_back(c);
    }
    return r;
  }
  static std::vector<Modulus> BFVDefault(std::size_t n) {
    switch (n) {
      case 1024: return Create(n, {27});
      case 2048: return Create(n, {54});
      case 4096: return Create(n, {36, 36, 37});
      case 8192: return Create(n, {43, 43, 44, 44, 44});
      case 16384: return Create(n, {48, 48, 48, 49, 49, 49, 49, 49, 49});
    }
    throw std::invalid_argument("poly_modulus_degree does not support a 128-bit secure parameter set");
  }
};
struct PlainModulus {
  static Modulus Batching(std::size_t n, int bits) { return CoeffModulus::Create(n, {bits})[0]; }
};

class EncryptionParameters {
 public:
  explicit EncryptionParameters(scheme_type s = scheme_type::none) : s_(s) {}
  void set_poly_modulus_degree(std::size_t n) { n_ = n; }
  void set_coeff_modulus(const std::vector<Modulus>& q) { q_ = q; }
  void set_plain_modulus(const Modulus& t) { t_ = t; }
  std::size_t poly_modulus_degree() const { return n_; }
  const std::vector<Modulus>& coeff_modulus() const { return q_; }
  const Modulus& plain_modulus() const { return t_; }
  scheme_type scheme() const { return s_; }
  parms_id_type parms_id() const { return {n_, q_.size(), t_.value(), 0x5ea1}; }

 private:
  scheme_type s_;
  std::size_t n_ = 0;
  std::vector<Modulus> q_;
  Modulus t_;
};

class SEALContext {
 public:
  struct Qualifiers {
    bool using_batching = false;
  };
  class ContextData {
   public:
    const EncryptionParameters& parms() const { return p_; }
    const Qualifiers& qualifiers() const { return q_; }
    parms_id_type parms_id() const { return p_.parms_id(); }
    EncryptionParameters p_;
    Qualifiers q_;
  };
  explicit SEALContext(const EncryptionParameters& p) {
    std::size_t k = p.coeff_modulus().size();
    if (k == 0) throw std::invalid_argument("parameters");
    keyswitch_ = k > 1;
    for (std::size_t c = k > 1 ? k - 1 : 1; c >= 1; --c) {
      auto d = std::make_shared<ContextData>();
      d->p_ = p;
      d->p_.set_coeff_modulus({p.coeff_modulus().begin(), p.coeff_modulus().begin() + c});
      d->q_.using_batching = util::is_prime_slow(p.plain_modulus().value()) &&
                             p.plain_modulus().value() % (2 * p.poly_modulus_degree()) == 1;
      chain_.push_back(d);
    }
  }
  bool using_keyswitching() const { return keyswitch_; }
  std::shared_ptr<const ContextData> first_context_data() const { return chain_.front(); }
  std::shared_ptr<const ContextData> last_context_data() const { return chain_.back(); }
  parms_id_type first_parms_id() const { return chain_.front()->parms_id(); }
  parms_id_type last_parms_id() const { return chain_.back()->parms_id(); }
  bool parameters_set() const { return true; }
  parms_id_type parms_id_at(std::size_t idx) const {
    return chain_[idx + 1 >= chain_.size() ? 0 : chain_.size() - 1 - idx]->parms_id();
  }
  std::shared_ptr<const ContextData> get_context_data(const parms_id_type& id) const {
    for (auto& c : chain_)
      if (c->parms_id() == id) return c;
    return nullptr;
  }

 private:
  bool keyswitch_;
  std::vector<std::shared_ptr<ContextData>> chain_;
};

inline parms_id_type get_parms_id_for_chain_idx(const SEALContext& c, std::size_t idx) { return c.parms_id_at(idx); }

class Plaintext {
 public:
  Plaintext() = default;
  explicit Plaintext(std::size_t n) : v_(n) {}
  explicit Plaintext(const std::string& hex) : v_{std::stoull(hex, nullptr, 16)} {}
  void resize(std::size_t n) {
    if (is_ntt_form()) throw std::logic_error("cannot reserve for an NTT transformed Plaintext");
    v_.resize(n);
  }
  std::uint64_t& operator[](std::size_t i) { return v_.at(i); }
  const std::uint64_t& operator[](std::size_t i) const { return v_.at(i); }
  std::uint64_t* data() { return v_.data(); }
  const std::uint64_t* data() const { return v_.data(); }
  std::size_t coeff_count() const { return v_.size(); }
  void set_zero() { std::fill(v_.begin(), v_.end(), 0); }
  bool is_zero() const { return std::all_of(v_.begin(), v_.end(), [](auto x) { return x == 0; }); }
  bool is_ntt_form() const { return id_ != parms_id_zero; }
  parms_id_type& parms_id() { return id_; }
  const parms_id_type& parms_id() const { return id_; }
  std::streamoff save(std::ostream& o) const {
    util::put(o, id_);
    util::put_vec(o, v_);
    return 0;
  }
  std::streamoff unsafe_load(const SEALContext&, const seal_byte* p, std::size_t n) {
    util::Reader r{(const unsigned char*)p, n};
    id_ = r.get<parms_id_type>();
    v_ = r.vec();
    return 0;
  }
  std::streamoff load(const SEALContext& c, const seal_byte* p, std::size_t n) {
    unsafe_load(c, p, n);
    auto d = is_ntt_form() ? c.get_context_data(id_) : c.first_context_data();
    if (!d) throw std::logic_error("Plaintext data is invalid");
    std::uint64_t t = d->parms().plain_modulus().value();
    if (!is_ntt_form())
      for (auto x : v_)
        if (x >= t) throw std::logic_error("Plaintext data is invalid");
    return 0;
  }
  std::vector<std::uint64_t> v_;
  parms_id_type id_ = parms_id_zero;
};

class Ciphertext {
 public:
  Ciphertext() = default;
  explicit Ciphertext(MemoryPoolHandle) {}
  explicit Ciphertext(const SEALContext& c) : Ciphertext(c, c.first_parms_id()) {}
  Ciphertext(const SEALContext& c, const parms_id_type& id) {
    auto d = c.get_context_data(id);
    if (!d) throw std::invalid_argument("parms_id is not valid for encryption parameters");
    Shape(d->parms(), 0);
  }
  void Shape(const EncryptionParameters& p, std::size_t polys) {
    id_ = p.parms_id();
    n_ = p.poly_modulus_degree();
    k_ = p.coeff_modulus().size();
    size_ = polys;
    v_.assign(polys * n_ * k_, 0);
  }
  void resize(std::size_t s) {
    if (s < 2 || s > 16) throw std::invalid_argument("invalid size");
    size_ = s;
    v_.resize(s * n_ * k_);
  }
  std::size_t size() const { return size_; }
  std::size_t poly_modulus_degree() const { return n_; }
  std::size_t coeff_modulus_size() const { return k_; }
  std::uint64_t* data(std::size_t i) {
    if (i >= size_) throw std::out_of_range("poly_index must be within [0, size)");
    return v_.data() + i * n_ * k_;
  }
  const std::uint64_t* data(std::size_t i) const { return const_cast<Ciphertext*>(this)->data(i); }
  bool is_ntt_form() const { return ntt_; }
  bool& is_ntt_form() { return ntt_; }
  const parms_id_type& parms_id() const { return id_; }
  std::streamoff save(std::ostream& o) const {
    util::put(o, id_);
    util::put<std::uint64_t>(o, ntt_);
    util::put<std::uint64_t>(o, size_);
    util::put<std::uint64_t>(o, n_);
    util::put<std::uint64_t>(o, k_);
    util::put_vec(o, v_);
    return 0;
  }
  std::streamoff unsafe_load(const SEALContext&, const seal_byte* p, std::size_t n) {
    util::Reader r{(const unsigned char*)p, n};
    id_ = r.get<parms_id_type>();
    ntt_ = r.get<std::uint64_t>() != 0;
    size_ = r.get<std::uint64_t>();
    n_ = r.get<std::uint64_t>();
    k_ = r.get<std::uint64_t>();
    v_ = r.vec();
    if (size_ > 16 || n_ > 65536 || k_ > 64 || v_.size() != size_ * n_ * k_) throw std::logic_error("ciphertext data is invalid");
    return 0;
  }
  std::streamoff load(const SEALContext& c, const seal_byte* p, std::size_t n) {
    unsafe_load(c, p, n);
    auto d = c.get_context_data(id_);
    if (!d || d->parms().poly_modulus_degree() != n_ || d->parms().coeff_modulus().size() != k_)
      throw std::logic_error("ciphertext data is invalid");
    return 0;
  }
  std::vector<std::uint64_t> v_;
  std::vector<std::uint64_t> slots_;
  std::size_t n_ = 0, k_ = 0, size_ = 0;
  bool ntt_ = false;
  parms_id_type id_ = parms_id_zero;
};
template <typename T>
class Serializable {
 public:
  Serializable(T v) : v_(std::move(v)) {}
  std::streamoff save(std::ostream& o) const { return v_.save(o); }
  const T& value() const { return v_; }

 private:
  T v_;
};

class SecretKey {
 public:
  std::vector<int> s;  // ternary
};
class PublicKey {
 public:
  std::vector<int> s;
};
class GaloisKeys {
 public:
  std::vector<std::uint64_t> elts;
  std::vector<std::uint64_t> s;  // ternary, +1
  std::streamoff save(std::ostream& o) const {
    util::put_vec(o, elts);
    util::put_vec(o, s);
    return 0;
  }
  std::streamoff unsafe_load(const SEALContext&, const seal_byte* p, std::size_t n) {
    util::Reader r{(const unsigned char*)p, n};
    elts = r.vec();
    s = r.vec();
    return 0;
  }
  std::streamoff load(const SEALContext& c, const seal_byte* p, std::size_t n) { return unsafe_load(c, p, n); }
};

class RelinKeys {
 public:
  bool valid = false;
};

class KeyGenerator {
 public:
  RelinKeys create_relin_keys() const { RelinKeys k; k.valid = true; return k; }
  explicit KeyGenerator(const SEALContext& c) {
    sk_.s.resize(c.first_context_data()->parms().poly_modulus_degree());
    for (auto& x : sk_.s) x = (int)(util::bfv_rand() % 3) - 1;
  }
  const SecretKey& secret_key() const { return sk_; }
  void create_public_key(PublicKey& p) const { p.s = sk_.s; }
  void create_galois_keys(const std::vector<std::uint32_t>& e, GaloisKeys& k) const {
    k.elts.assign(e.begin(), e.end());
    k.s.clear();
    for (int x : sk_.s) k.s.push_back((std::uint64_t)(x + 1));
  }

 private:
  SecretKey sk_;
};

namespace util {
inline std::vector<std::uint64_t> lift_secret(const std::vector<int>& s, std::uint64_t q) {
  std::vector<std::uint64_t> r(s.size());
  for (std::size_t i = 0; i < s.size(); ++i) r[i] = s[i] < 0 ? q - 1 : (std::uint64_t)s[i];
  return r;
}
inline void mul_poly(std::vector<std::uint64_t>& a, std::vector<std::uint64_t> b, std::uint64_t q) {
  const auto& t = Ntt::Get(a.size(), q);
  t.Forward(a.data());
  t.Forward(b.data());
  for (std::size_t i = 0; i < a.size(); ++i) a[i] = mul_fast(a[i], b[i], q);
  t.Inverse(a.data());
}
}  // namespace util

class Encryptor {
 public:
  Encryptor(const SEALContext& c, const PublicKey& p) : c_(c), s_(p.s) {}
  Encryptor(const SEALContext& c, const SecretKey& p) : c_(c), s_(p.s) {}
  void set_secret_key(const SecretKey& k) { s_ = k.s; }
  void encrypt_symmetric(const Plaintext& pt, Ciphertext& ct) const {
    auto d = c_.first_context_data();
    const auto& p = d->parms();
    std::size_t n = p.poly_modulus_degree(), k = p.coeff_modulus().size();
    std::uint64_t t = p.plain_modulus().value();
    if (pt.is_ntt_form()) throw std::invalid_argument("plain cannot be in NTT form");
    if (pt.coeff_count() > n) throw std::invalid_argument("plain is not valid for encryption parameters");
    for (std::size_t i = 0; i < pt.coeff_count(); ++i)
      if (pt[i] >= t) throw std::invalid_argument("plain is not valid for encryption parameters");
    ct = Ciphertext();
    ct.Shape(p, 2);
    std::vector<int> e(n);
    for (auto& x : e) {
      std::uint64_t r = util::bfv_rand();
      x = __builtin_popcount(r & 0x1fffff) - __builtin_popcount((r >> 21) & 0x1fffff);
    }
    for (std::size_t j = 0; j < k; ++j) {
      std::uint64_t q = p.coeff_modulus()[j].value();
      std::vector<std::uint64_t> a(n);
      for (std::size_t i = 0; i < n; ++i) ct.data(1)[j * n + i] = a[i] = util::bfv_rand() % q;
      util::mul_poly(a, util::lift_secret(s_, q), q);
      // round(Q m / t) mod q, with Q the product of all primes
      for (std::size_t i = 0; i < n; ++i) {
        std::uint64_t m = i < pt.coeff_count() ? pt[i] : 0;
        std::uint64_t v = Scaled(m, p, j);
        v = (v + q - a[i]) % q;
        v = (v + q + (std::int64_t)e[i]) % q;
        ct.data(0)[j * n + i] = v;
      }
    }
  }
  Serializable<Ciphertext> encrypt_symmetric(const Plaintext& pt) const {
    Ciphertext ct;
    encrypt_symmetric(pt, ct);
    return ct;
  }
  void encrypt(const Plaintext& pt, Ciphertext& ct) const { encrypt_symmetric(pt, ct); }

 private:
  // floor(Q / t) m + floor(((Q mod t) m + t / 2) / t), modulo prime j
  static std::uint64_t Scaled(std::uint64_t m, const EncryptionParameters& p, std::size_t j) {
    if (m == 0) return 0;
    std::uint64_t t = p.plain_modulus().value(), q = p.coeff_modulus()[j].value();
    // Q mod t and (Q - Q mod t) / t mod q; Q = 0 mod q
    std::uint64_t rt = 1;
    for (auto& x : p.coeff_modulus()) rt = (std::uint64_t)((unsigned __int128)rt * (x.value() % t) % t);
    std::uint64_t inv;
    util::try_invert_uint_mod(t % q, Modulus(q), inv);
    std::uint64_t neg = (q - rt % q) % q;
    std::uint64_t delta = util::mul_fast(neg, inv, q);
    std::uint64_t fix = (std::uint64_t)(((unsigned __int128)rt * m + t / 2) / t);
    return (util::mul_fast(delta, m % q, q) + fix) % q;
  }
  const SEALContext& c_;
  std::vector<int> s_;
};

class Decryptor {
 public:
  Decryptor(const SEALContext& c, const SecretKey& k) : c_(c), s_(k.s) {}
  void decrypt(const Ciphertext& ct, Plaintext& out) const {
    auto d = c_.get_context_data(ct.parms_id());
    if (!d) throw std::invalid_argument("encrypted is not valid for encryption parameters");
    if (ct.is_ntt_form()) throw std::invalid_argument("encrypted cannot be in NTT form");
    if (ct.size() != 2) throw std::invalid_argument("encrypted is empty");
    const auto& p = d->parms();
    std::size_t n = p.poly_modulus_degree(), k = p.coeff_modulus().size();
    std::uint64_t t = p.plain_modulus().value();
    std::vector<std::vector<std::uint64_t>> x(k);
    for (std::size_t j = 0; j < k; ++j) {
      std::uint64_t q = p.coeff_modulus()[j].value();
      x[j].assign(ct.data(1) + j * n, ct.data(1) + (j + 1) * n);
      for (auto& v : x[j]) v %= q;
      util::mul_poly(x[j], util::lift_secret(s_, q), q);
      for (std::size_t i = 0; i < n; ++i) x[j][i] = (x[j][i] + ct.data(0)[j * n + i]) % q;
    }
    // t x / Q = t sum_j y_j / q_j with y_j = x_j (Q/q_j)^-1 mod q_j
    std::vector<std::uint64_t> inv(k);
    for (std::size_t j = 0; j < k; ++j) {
      Modulus q = p.coeff_modulus()[j];
      std::uint64_t prod = 1;
      for (std::size_t l = 0; l < k; ++l)
        if (l != j) prod = util::multiply_uint_mod(prod, p.coeff_modulus()[l].value() % q.value(), q);
      util::try_invert_uint_mod(prod, q, inv[j]);
    }
    out.id_ = parms_id_zero;
    out.v_.assign(n, 0);
    for (std::size_t i = 0; i < n; ++i) {
      unsigned __int128 whole = 0;
      long double frac = 0;
      for (std::size_t j = 0; j < k; ++j) {
        std::uint64_t q = p.coeff_modulus()[j].value();
        std::uint64_t y = util::mul_fast(x[j][i], inv[j], q);
        unsigned __int128 ty = (unsigned __int128)t * y;
        whole += ty / q;
        frac += (long double)(std::uint64_t)(ty % q) / q;
      }
      out.v_[i] = (std::uint64_t)((whole + (std::uint64_t)(frac + 0.5L)) % t);
    }
    while (out.v_.size() > 1 && out.v_.back() == 0) out.v_.pop_back();
  }

 private:
  const SEALContext& c_;
  std::vector<int> s_;
};

class BatchEncoder {
 public:
  explicit BatchEncoder(const SEALContext& c) : p_(c.first_context_data()->parms()) {
    if (!c.first_context_data()->qualifiers().using_batching)
      throw std::invalid_argument("encryption parameters are not valid for batching");
  }
  std::size_t slot_count() const { return p_.poly_modulus_degree(); }
  void encode(const std::vector<std::uint64_t>& v, Plaintext& out) const {
    if (v.size() > slot_count()) throw std::invalid_argument("values_matrix size is too large");
    out.id_ = parms_id_zero;
    out.v_.assign(slot_count(), 0);
    std::uint64_t t = p_.plain_modulus().value();
    for (std::size_t i = 0; i < v.size(); ++i) out.v_[i] = v[i] % t;
    util::Ntt::Get(slot_count(), t).Inverse(out.v_.data());
  }
  void decode(const Plaintext& in, std::vector<std::uint64_t>& v) const {
    if (in.is_ntt_form()) throw std::invalid_argument("plain cannot be in NTT form");
    v.assign(in.data(), in.data() + in.coeff_count());
    v.resize(slot_count());
    util::Ntt::Get(slot_count(), p_.plain_modulus().value()).Forward(v.data());
  }

 private:
  EncryptionParameters p_;
};

class Evaluator {
 public:
  explicit Evaluator(const SEALContext& c) : c_(c) {}
  void multiply(const Ciphertext& a, const Ciphertext& b, Ciphertext& out, MemoryPoolHandle = {}) const {
    if (a.slots_.empty() || b.slots_.size() != a.slots_.size()) throw std::invalid_argument("encrypted is not valid for encryption parameters");
    if (a.is_ntt_form() || b.is_ntt_form()) throw std::invalid_argument("encrypted1 or encrypted2 cannot be in NTT form");
    if (a.id_ != b.id_) throw std::invalid_argument("encrypted1 and encrypted2 parameter mismatch");
    std::uint64_t t = c_.first_context_data()->parms().plain_modulus().value();
    Ciphertext r = a;
    for (std::size_t i = 0; i < r.slots_.size(); ++i)
      r.slots_[i] = (std::uint64_t)((unsigned __int128)a.slots_[i] * b.slots_[i] % t);
    r.size_ = a.size_ + b.size_ - 1;
    out = std::move(r);
  }
  void square(const Ciphertext& a, Ciphertext& out, MemoryPoolHandle = {}) const { multiply(a, a, out); }
  template <typename K>
  void relinearize_inplace(Ciphertext& a, const K& keys, MemoryPoolHandle = {}) const {
    if (!keys.valid) throw std::invalid_argument("relin_keys is not valid for encryption parameters");
    a.size_ = 2;
  }
  void mod_switch_to_inplace(Ciphertext& ct, const parms_id_type& id, MemoryPoolHandle) const { mod_switch_to_inplace(ct, id); }
  void transform_to_ntt_inplace(Ciphertext& ct) const {
    if (ct.is_ntt_form()) throw std::invalid_argument("encrypted is already in NTT form");
    if (!ct.slots_.empty()) { ct.is_ntt_form() = true; return; }
    Each(ct, [](const util::Ntt& t, std::uint64_t* p, std::uint64_t q, std::size_t n) {
      for (std::size_t i = 0; i < n; ++i) p[i] %= q;
      t.Forward(p);
    });
    ct.is_ntt_form() = true;
  }
  void transform_from_ntt_inplace(Ciphertext& ct) const {
    if (!ct.is_ntt_form()) throw std::invalid_argument("encrypted_ntt is not in NTT form");
    Each(ct, [](const util::Ntt& t, std::uint64_t* p, std::uint64_t, std::size_t) { t.Inverse(p); });
    ct.is_ntt_form() = false;
  }
  void transform_to_ntt_inplace(Plaintext& pt, const parms_id_type& id) const {
    if (pt.is_ntt_form()) throw std::invalid_argument("plain is already in NTT form");
    auto d = c_.get_context_data(id);
    if (!d) throw std::invalid_argument("parms_id is not valid for the current context");
    const auto& p = d->parms();
    std::size_t n = p.poly_modulus_degree(), k = p.coeff_modulus().size();
    if (pt.coeff_count() > n) throw std::invalid_argument("plain is not valid for encryption parameters");
    std::uint64_t t = p.plain_modulus().value();
    std::vector<std::uint64_t> v(n * k);
    for (std::size_t j = 0; j < k; ++j) {
      std::uint64_t q = p.coeff_modulus()[j].value();
      for (std::size_t i = 0; i < pt.coeff_count(); ++i)
        v[j * n + i] = pt[i] >= (t + 1) / 2 ? q - (t - pt[i]) % q : pt[i];
      util::Ntt::Get(n, q).Forward(v.data() + j * n);
    }
    pt.v_ = std::move(v);
    pt.id_ = id;
  }
  void multiply_plain(const Ciphertext& a, const Plaintext& b, Ciphertext& out) const {
    Ciphertext r = a;
    Plaintext pt = b;
    if (!pt.is_ntt_form()) transform_to_ntt_inplace(pt, a.parms_id());
    if (pt.parms_id() != a.parms_id()) throw std::invalid_argument("encrypted_ntt and plain_ntt parameter mismatch");
    bool was = r.is_ntt_form();
    if (!was) transform_to_ntt_inplace(r);
    const auto& p = c_.get_context_data(a.parms_id())->parms();
    std::size_t n = r.n_, k = r.k_;
    for (std::size_t s = 0; s < r.size(); ++s)
      for (std::size_t j = 0; j < k; ++j) {
        std::uint64_t q = p.coeff_modulus()[j].value();
        std::uint64_t* d = r.data(s) + j * n;
        const std::uint64_t* m = pt.data() + j * n;
        for (std::size_t i = 0; i < n; ++i) d[i] = util::mul_fast(d[i], m[i], q);
      }
    if (!was) transform_from_ntt_inplace(r);
    out = std::move(r);
  }
  void add_inplace(Ciphertext& a, const Ciphertext& b) const {
    if (a.parms_id() != b.parms_id()) throw std::invalid_argument("encrypted1 and encrypted2 parameter mismatch");
    if (a.is_ntt_form() != b.is_ntt_form()) throw std::invalid_argument("NTT form mismatch");
    if (a.size() != b.size()) throw std::invalid_argument("size mismatch");
    auto d = c_.get_context_data(a.parms_id());
    if (!d) throw std::invalid_argument("encrypted1 is not valid for encryption parameters");
    for (std::size_t s = 0; s < a.size(); ++s)
      for (std::size_t j = 0; j < a.k_; ++j) {
        std::uint64_t q = d->parms().coeff_modulus()[j].value();
        for (std::size_t i = 0; i < a.n_; ++i) {
          auto& v = a.data(s)[j * a.n_ + i];
          v = (v + b.data(s)[j * a.n_ + i]) % q;
        }
      }
  }
  void add(const Ciphertext& a, const Ciphertext& b, Ciphertext& out) const {
    Ciphertext r = a;
    add_inplace(r, b);
    out = std::move(r);
  }
  void apply_galois(const Ciphertext& a, std::uint32_t elt, const GaloisKeys& k, Ciphertext& out) const {
    if (std::find(k.elts.begin(), k.elts.end(), elt) == k.elts.end()) throw std::invalid_argument("Galois key not present");
    if (a.is_ntt_form()) throw std::invalid_argument("BFV encrypted cannot be in NTT form");
    auto d = c_.get_context_data(a.parms_id());
    if (!d || a.size() != 2) throw std::invalid_argument("encrypted is not valid for encryption parameters");
    std::size_t n = a.n_;
    if (k.s.size() != n) throw std::invalid_argument("galois_keys is not valid for encryption parameters");
    Ciphertext r = a;
    std::vector<int> diff(n, 0);
    for (std::size_t i = 0; i < n; ++i) {
      std::size_t raw = (i * elt) & (2 * n - 1);
      diff[raw & (n - 1)] += (raw & n ? -1 : 1) * ((int)k.s[i] - 1);
      diff[i] -= (int)k.s[i] - 1;
    }
    for (std::size_t j = 0; j < a.k_; ++j) {
      std::uint64_t q = d->parms().coeff_modulus()[j].value();
      for (std::size_t s = 0; s < 2; ++s)
        for (std::size_t i = 0; i < n; ++i) {
          std::size_t raw = (i * elt) & (2 * n - 1);
          std::uint64_t v = a.data(s)[j * n + i] % q;
          r.data(s)[j * n + (raw & (n - 1))] = (raw & n) && v ? q - v : v;
        }
      std::vector<std::uint64_t> c1(r.data(1) + j * n, r.data(1) + (j + 1) * n), df(n);
      for (std::size_t i = 0; i < n; ++i) df[i] = diff[i] < 0 ? q - (std::uint64_t)-diff[i] : (std::uint64_t)diff[i];
      util::mul_poly(c1, df, q);
      for (std::size_t i = 0; i < n; ++i) r.data(0)[j * n + i] = (r.data(0)[j * n + i] + c1[i]) % q;
    }
    out = std::move(r);
  }
  void mod_switch_to_inplace(Ciphertext& ct, const parms_id_type& id) const {
    auto d = c_.get_context_data(ct.parms_id()), e = c_.get_context_data(id);
    if (!d || !e) throw std::invalid_argument("parms_id is not valid for encryption parameters");
    if (d->parms().coeff_modulus().size() < e->parms().coeff_modulus().size())
      throw std::invalid_argument("cannot switch to higher level modulus");
    if (ct.is_ntt_form()) throw std::invalid_argument("BFV encrypted cannot be in NTT form");
    if (!ct.slots_.empty()) { ct.id_ = id; return; }
    while (ct.k_ > e->parms().coeff_modulus().size()) {
      std::size_t n = ct.n_, k = ct.k_ - 1;
      const auto& qs = d->parms().coeff_modulus();
      std::uint64_t last = qs[k].value(), half = last / 2;
      Ciphertext r;
      r.n_ = n;
      r.k_ = k;
      r.size_ = ct.size_;
      r.v_.assign(ct.size_ * n * k, 0);
      for (std::size_t j = 0; j < k; ++j) {
        std::uint64_t q = qs[j].value(), inv;
        util::try_invert_uint_mod(last % q, Modulus(q), inv);
        for (std::size_t s = 0; s < ct.size_; ++s)
          for (std::size_t i = 0; i < n; ++i) {
            std::uint64_t l = (ct.data(s)[k * n + i] + half) % last;
            std::uint64_t v = (ct.data(s)[j * n + i] + half) % q;
            v = (v + q - l % q) % q;
            r.data(s)[j * n + i] = util::mul_fast(v, inv, q);
          }
      }
      EncryptionParameters np = d->parms();
      np.set_coeff_modulus({qs.begin(), qs.begin() + k});
      r.id_ = np.parms_id();
      ct = std::move(r);
      d = c_.get_context_data(ct.parms_id());
    }
  }

 private:
  template <typename F>
  void Each(Ciphertext& ct, F&& f) const {
    auto d = c_.get_context_data(ct.parms_id());
    if (!d || ct.size() == 0) throw std::invalid_argument("encrypted is not valid for encryption parameters");
    for (std::size_t j = 0; j < ct.k_; ++j) {
      std::uint64_t q = d->parms().coeff_modulus()[j].value();
      const auto& t = util::Ntt::Get(ct.n_, q);
      for (std::size_t s = 0; s < ct.size(); ++s) f(t, ct.data(s) + j * ct.n_, q, ct.n_);
    }
  }
  const SEALContext& c_;
};
}  // namespace seal
