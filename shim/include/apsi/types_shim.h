// Functional double of microsoft/APSI, as far as psi/wrapper/apsi and
// psi/algorithm/dkpir use it. The structure is APSI's: OPRF, Kuku cuckoo table,
// bins, bin bundles, matching and interpolation polynomials over the plaintext
// field, powers DAG, Paterson-Stockmeyer evaluation, one result package per bin
// bundle, label encryption. Ciphertexts are "slot form" seal::Ciphertexts (see
// seal/bfv.h), which keep level and NTT form but hide nothing, and the OPRF
// group is the multiplicative group modulo 2^61-1.
#pragma once
#include <algorithm>
#include <array>
#include <chrono>
#include <cmath>
#include <cstdint>
#include <functional>
#include <future>
#include <map>
#include <memory>
#include <mutex>
#include <numeric>
#include <optional>
#include <set>
#include <shared_mutex>
#include <sstream>
#include <string>
#include <thread>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>

#include "apsi/item.h"
#include "apsi/match_record.h"
#include "apsi/psi_params.h"
#include "gsl/span"
#include "seal/bfv.h"
#include "seal/dynarray.h"
#include "seal/memorymanager.h"
#include "seal/util/common.h"

#define STOPWATCH(sw, name) \
  do {                      \
  } while (0)

namespace apsi {
constexpr std::uint32_t apsi_serialization_version = 1;
inline bool same_serialization_version(std::uint32_t v) { return v == apsi_serialization_version; }

class ThreadPoolMgr {
 public:
  struct Pool {
    template <typename F, typename... A>
    auto enqueue(F&& f, A&&... a) { return std::async(std::launch::async, std::forward<F>(f), std::forward<A>(a)...); }
  };
  Pool& thread_pool() const { static Pool p; return p; }
  static void SetThreadCount(std::size_t n) { Count() = n; }
  static std::size_t GetThreadCount() { return Count() ? Count() : 4; }

 private:
  static std::size_t& Count() { static std::size_t n = 0; return n; }
};

namespace shim {
inline std::uint64_t Mix(std::uint64_t x) {
  x ^= x >> 30; x *= 0xbf58476d1ce4e5b9ULL;
  x ^= x >> 27; x *= 0x94d049bb133111ebULL;
  return x ^ (x >> 31);
}
inline std::vector<unsigned char> Prf(const void* p, std::size_t n, std::uint64_t tag, std::size_t out) {
  std::uint64_t a = Mix(tag + 1), b = Mix(n + 0x9e3779b97f4a7c15ULL);
  for (std::size_t i = 0; i < n; i += 8) {
    std::uint64_t w = 0;
    std::memcpy(&w, (const char*)p + i, std::min<std::size_t>(8, n - i));
    a = Mix(a ^ w) + b;
    b = Mix(b + w) ^ (a << 7 | a >> 57);
  }
  std::vector<unsigned char> r(out);
  for (std::size_t i = 0; i < out; i += 8) {
    std::uint64_t w = Mix(a + Mix(b + i));
    std::memcpy(r.data() + i, &w, std::min<std::size_t>(8, out - i));
  }
  return r;
}
template <typename T>
inline void Put(std::ostream& o, T v) { o.write((const char*)&v, sizeof v); }
inline void PutBytes(std::ostream& o, const void* p, std::size_t n) { Put<std::uint64_t>(o, n); o.write((const char*)p, n); }
inline void PutStr(std::ostream& o, const std::string& s) { PutBytes(o, s.data(), s.size()); }
template <typename T>
inline T Get(std::istream& i) {
  T v{};
  if (!i.read((char*)&v, sizeof v)) throw std::runtime_error("I/O error");
  return v;
}
inline std::string GetStr(std::istream& i) {
  auto n = Get<std::uint64_t>(i);
  std::string s;
  while (n) {
    std::size_t k = std::min<std::uint64_t>(n, 1 << 16), o = s.size();
    s.resize(o + k);
    if (!i.read(s.data() + o, k)) throw std::runtime_error("I/O error");
    n -= k;
  }
  return s;
}
inline void PutWords(std::ostream& o, const std::vector<std::uint64_t>& v) { PutBytes(o, v.data(), v.size() * 8); }
inline std::vector<std::uint64_t> GetWords(std::istream& i) {
  std::string s = GetStr(i);
  if (s.size() % 8) throw std::runtime_error("invalid data");
  std::vector<std::uint64_t> v(s.size() / 8);
  if (!v.empty()) std::memcpy(v.data(), s.data(), s.size());
  return v;
}
// A frame with its length in front, so that a reader takes exactly its part.
template <typename F>
inline std::size_t SaveFrame(std::ostream& o, F&& f) {
  std::ostringstream s;
  f(s);
  PutStr(o, s.str());
  return s.str().size() + 8;
}
template <typename F>
inline std::size_t LoadFrame(std::istream& i, F&& f) {
  std::istringstream s(GetStr(i));
  std::size_t n = s.str().size() + 8;
  f(s);
  if (s.peek() != EOF) throw std::runtime_error("trailing data");
  return n;
}
inline void PutCt(std::ostream& o, const seal::Ciphertext& c) {
  Put<std::uint8_t>(o, c.ntt_);
  Put<std::uint64_t>(o, c.size_);
  for (auto x : c.id_) Put(o, x);
  PutWords(o, c.slots_);
}
inline seal::Ciphertext GetCt(std::istream& i, const seal::SEALContext& ctx) {
  seal::Ciphertext c;
  c.ntt_ = Get<std::uint8_t>(i) != 0;
  c.size_ = Get<std::uint64_t>(i);
  for (auto& x : c.id_) x = Get<std::uint64_t>(i);
  c.slots_ = GetWords(i);
  auto d = ctx.get_context_data(c.id_);
  if (!d || c.slots_.size() != d->parms().poly_modulus_degree() || c.size_ < 2 || c.size_ > 16)
    throw std::runtime_error("ciphertext data is invalid");
  for (auto x : c.slots_)
    if (x >= d->parms().plain_modulus().value()) throw std::runtime_error("ciphertext data is invalid");
  return c;
}
}  // namespace shim

inline void Item::hash_to_value(const void* p, std::size_t n) {
  auto h = shim::Prf(p, n, 3, 16);
  std::memcpy(v_.data(), h.data(), 16);
}

template <typename T>
class BitstringView {
 public:
  BitstringView(gsl::span<T> d, std::uint32_t bits) : d_(d), bits_(bits) {
    if (bits == 0 || d.size() * 8 < bits) throw std::invalid_argument("bit_count is invalid");
  }
  gsl::span<T> data() const { return d_; }
  std::uint32_t bit_count() const { return bits_; }

 private:
  gsl::span<T> d_;
  std::uint32_t bits_;
};

namespace util {
class Stopwatch {
 public:
  using time_unit = std::chrono::steady_clock::time_point;
  struct TimespanSummary {
    std::string event_name;
    int event_count;
    double avg;
    std::uint64_t min, max;
  };
  struct Timepoint {
    std::string event_name;
    time_unit time_point;
  };
  static inline const time_unit start_time = std::chrono::steady_clock::now();
  void get_timespans(std::vector<TimespanSummary>&) const {}
  void get_events(std::vector<Timepoint>&) const {}
  int get_max_timespan_event_name_length() const { return 0; }
  int get_max_event_name_length() const { return 0; }
};
inline Stopwatch recv_stopwatch, sender_stopwatch;

using felt_t = std::uint64_t;
using AlgLabel = std::vector<felt_t>;
inline std::uint32_t BitsPerFelt(std::uint64_t t) { return 63 - __builtin_clzll(t); }
inline std::vector<felt_t> BitsToFelts(const unsigned char* p, std::size_t bits, std::uint64_t t) {
  std::uint32_t per = BitsPerFelt(t);
  std::vector<felt_t> r((bits + per - 1) / per, 0);
  for (std::size_t i = 0; i < bits; ++i)
    if (p[i / 8] >> (i % 8) & 1) r[i / per] |= 1ULL << (i % per);
  return r;
}
inline std::vector<std::uint64_t> bits_to_field_elts(BitstringView<const unsigned char> b, const seal::Modulus& t) {
  return BitsToFelts(b.data().data(), b.bit_count(), t.value());
}
inline std::vector<unsigned char> dealgebraize_label(const AlgLabel& l, std::size_t bits, const seal::Modulus& t) {
  std::uint32_t per = BitsPerFelt(t.value());
  if (l.size() * per < bits) throw std::invalid_argument("bit_count is too large");
  std::vector<unsigned char> r((bits + 7) / 8, 0);
  for (std::size_t i = 0; i < bits; ++i)
    if (l[i / per] >> (i % per) & 1) r[i / 8] |= 1 << (i % 8);
  return r;
}
inline void LabelStream(std::vector<unsigned char>& d, std::size_t off, const LabelKey& key, const unsigned char* nonce, std::size_t nn) {
  std::vector<unsigned char> k(key.begin(), key.end());
  k.insert(k.end(), nonce, nonce + nn);
  auto s = shim::Prf(k.data(), k.size(), 77, d.size() - off);
  for (std::size_t i = off; i < d.size(); ++i) d[i] ^= s[i - off];
}
inline EncryptedLabel encrypt_label(const Label& l, const LabelKey& key, std::size_t bytes, std::size_t nonce) {
  if (l.size() > bytes) throw std::invalid_argument("label is too large");
  EncryptedLabel r(nonce + bytes, 0);
  for (std::size_t i = 0; i < nonce; ++i) r[i] = (unsigned char)seal::util::bfv_rand();
  std::copy(l.begin(), l.end(), r.begin() + nonce);
  LabelStream(r, nonce, key, r.data(), nonce);
  return r;
}
inline Label decrypt_label(const EncryptedLabel& e, const LabelKey& key, std::size_t nonce) {
  if (e.size() < nonce) throw std::invalid_argument("nonce_byte_count is too large");
  EncryptedLabel r = e;
  LabelStream(r, nonce, key, e.data(), nonce);
  return Label(r.begin() + nonce, r.end());
}
inline void copy_bytes(const void* s, std::size_t n, void* d) { if (n) std::memcpy(d, s, n); }
inline std::set<std::uint32_t> create_powers_set(std::uint32_t low, std::uint32_t target) {
  if (low > target) throw std::invalid_argument("ps_low_degree cannot be larger than target_degree");
  std::set<std::uint32_t> r;
  if (low > 1) {
    for (std::uint32_t i = 1; i <= low; ++i) r.insert(i);
    for (std::uint32_t i = low + 1; i <= target; i += low + 1) r.insert(i);
  } else {
    for (std::uint32_t i = 1; i <= target; ++i) r.insert(i);
  }
  return r;
}
inline std::string to_string(const std::set<std::uint32_t>& s) {
  std::ostringstream o;
  for (auto x : s) o << x << ' ';
  return o.str();
}
}  // namespace util

class CryptoContext {
 public:
  CryptoContext() = default;
  explicit CryptoContext(const PSIParams& p) : ctx_(std::make_shared<seal::SEALContext>(p.seal_params())) {}
  void set_secret(const seal::SecretKey&) { secret_ = true; }
  void set_evaluator() { ev_ = std::make_shared<seal::Evaluator>(*ctx_); }
  void set_evaluator(seal::RelinKeys k) { relin_ = std::make_shared<seal::RelinKeys>(k); set_evaluator(); }
  std::shared_ptr<seal::SEALContext> seal_context() const { return ctx_; }
  std::shared_ptr<seal::RelinKeys> relin_keys() const { return relin_; }
  std::shared_ptr<seal::Evaluator> evaluator() const { return ev_; }
  bool has_secret() const { return secret_; }
  explicit operator bool() const { return ctx_ != nullptr; }

 private:
  std::shared_ptr<seal::SEALContext> ctx_;
  std::shared_ptr<seal::RelinKeys> relin_;
  std::shared_ptr<seal::Evaluator> ev_;
  bool secret_ = false;
};

class PowersDag {
 public:
  struct PowersNode {
    std::uint32_t power = 0, depth = 0;
    std::pair<std::uint32_t, std::uint32_t> parents{0, 0};
    bool is_source() const { return parents.first == 0 && parents.second == 0; }
  };
  bool configure(const std::set<std::uint32_t>& sources, const std::set<std::uint32_t>& targets) {
    nodes_.clear();
    ok_ = false;
    if (sources.empty() || !sources.count(1) || !targets.count(1)) return false;
    for (auto s : sources)
      if (!targets.count(s)) return false;
    for (auto t : targets) {
      PowersNode n;
      n.power = t;
      if (!sources.count(t)) {
        n.depth = ~0u;
        for (auto& [a, na] : nodes_) {
          auto b = nodes_.find(t - a);
          if (b == nodes_.end()) continue;
          std::uint32_t d = 1 + std::max(na.depth, b->second.depth);
          if (d < n.depth) n.depth = d, n.parents = {a, t - a};
        }
        if (n.is_source()) { nodes_.clear(); return false; }
      }
      nodes_[t] = n;
    }
    targets_ = targets;
    return ok_ = true;
  }
  bool is_configured() const { return ok_; }
  std::uint32_t depth() const {
    if (!ok_) throw std::logic_error("PowersDag has not been configured");
    std::uint32_t d = 0;
    for (auto& n : nodes_) d = std::max(d, n.second.depth);
    return d;
  }
  std::set<std::uint32_t> target_powers() const { return targets_; }
  std::vector<PowersNode> source_nodes() const {
    std::vector<PowersNode> r;
    for (auto& n : nodes_) if (n.second.is_source()) r.push_back(n.second);
    return r;
  }
  template <typename F>
  void parallel_apply(F&& f) const {
    if (!ok_) throw std::logic_error("PowersDag has not been configured");
    for (auto& n : nodes_) f(n.second);
  }

 private:
  bool ok_ = false;
  std::map<std::uint32_t, PowersNode> nodes_;
  std::set<std::uint32_t> targets_;
};

template <typename T>
class SEALObject {
 public:
  SEALObject() = default;
  SEALObject(T v) : v_(std::move(v)) {}
  SEALObject(seal::Serializable<T> v) : v_(v.value()) {}
  void clear() { v_.reset(); }
  void set(T v) { v_ = std::move(v); }
  void set(seal::Serializable<T> v) { v_ = v.value(); }
  bool has() const { return v_.has_value(); }
  const T& get() const { if (!v_) throw std::logic_error("object is not set"); return *v_; }
  T extract(std::shared_ptr<seal::SEALContext> = nullptr) { T r = get(); v_.reset(); return r; }

 private:
  std::optional<T> v_;
};

namespace receiver {
class PlaintextPowers {
 public:
  PlaintextPowers(std::vector<std::uint64_t> v, const PSIParams& p, const PowersDag& pd) {
    std::uint64_t t = p.seal_params().plain_modulus().value();
    v.resize(p.seal_params().poly_modulus_degree(), 0);
    for (auto x : v) if (x >= t) throw std::invalid_argument("value is not a field element");
    for (auto& n : pd.source_nodes()) {
      std::vector<std::uint64_t> w(v.size(), 1);
      for (std::size_t i = 0; i < v.size(); ++i)
        w[i] = seal::util::exponentiate_uint_mod(v[i], n.power, p.seal_params().plain_modulus());
      powers_[n.power] = std::move(w);
    }
  }
  std::unordered_map<std::uint32_t, SEALObject<seal::Ciphertext>> encrypt(const CryptoContext& c) {
    if (!c.has_secret()) throw std::invalid_argument("encryptor is not set in crypto_context");
    std::unordered_map<std::uint32_t, SEALObject<seal::Ciphertext>> r;
    for (auto& [p, v] : powers_) {
      seal::Ciphertext ct;
      ct.slots_ = v;
      ct.size_ = 2;
      ct.id_ = c.seal_context()->first_parms_id();
      r.emplace(p, std::move(ct));
    }
    return r;
  }

 private:
  std::map<std::uint32_t, std::vector<std::uint64_t>> powers_;
};
class IndexTranslationTable {
 public:
  std::size_t find_item_idx(std::size_t t) const {
    auto i = table_idx_to_item_idx_.find(t);
    return i == table_idx_to_item_idx_.end() ? item_count_ : i->second;
  }
  std::size_t item_count() const { return item_count_; }
  std::unordered_map<std::size_t, std::size_t> table_idx_to_item_idx_;
  std::size_t item_count_ = 0;
};
}  // namespace receiver

namespace oprf {
constexpr std::size_t oprf_query_size = 32, oprf_response_size = 32, oprf_hash_size = 16, oprf_key_size = 32;
class ECPoint {
 public:
  static constexpr std::size_t order_size = 32, hash_size = 48, save_size = 32;
  static constexpr std::uint64_t P = (1ULL << 61) - 1;
  using scalar_type = std::array<unsigned char, order_size>;
  using scalar_span_type = gsl::span<unsigned char>;
  using scalar_span_const_type = gsl::span<const unsigned char>;
  using point_save_span_type = gsl::span<unsigned char>;
  using point_save_span_const_type = gsl::span<const unsigned char>;
  using hash_span_type = gsl::span<unsigned char>;
  ECPoint() = default;
  explicit ECPoint(gsl::span<const unsigned char> d) {
    auto h = shim::Prf(d.data(), d.size(), 5, 8);
    std::memcpy(&v_, h.data(), 8);
    v_ = v_ % (P - 2) + 2;
  }
  static std::uint64_t Mul(std::uint64_t a, std::uint64_t b, std::uint64_t m) { return (std::uint64_t)((unsigned __int128)a * b % m); }
  static std::uint64_t Scalar(scalar_span_const_type s) {
    if (s.size() != order_size) throw std::invalid_argument("scalar size");
    std::uint64_t e;
    std::memcpy(&e, s.data(), 8);
    return e;
  }
  static void MakeRandomNonzeroScalar(scalar_span_type out) {
    std::uint64_t e;
    do { e = seal::util::bfv_rand() % (P - 1); } while (std::gcd(e, P - 1) != 1 || e == 1);
    std::fill(out.begin(), out.end(), 0);
    std::memcpy(out.data(), &e, 8);
  }
  static void InvertScalar(scalar_span_const_type in, scalar_span_type out) {
    std::uint64_t e = Scalar(in);
    __int128 a = e, b = P - 1, x = 1, y = 0;
    while (b) { __int128 q = a / b, t = a - q * b; a = b; b = t; t = x - q * y; x = y; y = t; }
    if (a != 1) throw std::logic_error("scalar is not invertible");
    std::uint64_t r = (std::uint64_t)((x % (__int128)(P - 1) + (P - 1)) % (P - 1));
    std::fill(out.begin(), out.end(), 0);
    std::memcpy(out.data(), &r, 8);
  }
  bool scalar_multiply(scalar_span_const_type s, bool) {
    std::uint64_t e = Scalar(s), b = v_, r = 1;
    for (; e; e >>= 1, b = Mul(b, b, P)) if (e & 1) r = Mul(r, b, P);
    v_ = r;
    return v_ > 1;
  }
  void save(point_save_span_type o) const {
    if (o.size() != save_size) throw std::invalid_argument("size");
    std::fill(o.begin(), o.end(), 0);
    std::memcpy(o.data(), &v_, 8);
  }
  void load(point_save_span_const_type i) {
    if (i.size() != save_size) throw std::invalid_argument("size");
    std::memcpy(&v_, i.data(), 8);
    for (std::size_t k = 8; k < save_size; ++k) if (i[k]) v_ = 0;
    if (v_ == 0 || v_ >= P) throw std::logic_error("failed to load point");
  }
  void extract_hash(hash_span_type o) const {
    if (o.size() != hash_size) throw std::invalid_argument("size");
    auto h = shim::Prf(&v_, 8, 9, hash_size);
    std::copy(h.begin(), h.end(), o.begin());
  }

 private:
  std::uint64_t v_ = 1;
};
class OPRFKey {
 public:
  OPRFKey() { ECPoint::MakeRandomNonzeroScalar(k_); }
  bool operator==(const OPRFKey& o) const { return k_ == o.k_; }
  bool operator!=(const OPRFKey& o) const { return !(*this == o); }
  void create() { ECPoint::MakeRandomNonzeroScalar(k_); }
  void clear() { k_.fill(0); }
  void save(std::ostream& o) const { o.write((const char*)k_.data(), k_.size()); }
  void load(std::istream& i) { if (!i.read((char*)k_.data(), k_.size())) throw std::runtime_error("I/O error"); }
  gsl::span<const unsigned char> key_span() const { return {k_.data(), k_.size()}; }

 private:
  ECPoint::scalar_type k_{};
};
inline void SplitHash(const ECPoint& p, HashedItem& h, LabelKey& k) {
  std::array<unsigned char, ECPoint::hash_size> d;
  p.extract_hash(d);
  std::memcpy(h.value().data(), d.data(), oprf_hash_size);
  std::memcpy(k.data(), d.data() + oprf_hash_size, label_key_byte_count);
}
class OPRFReceiver {
 public:
  explicit OPRFReceiver(gsl::span<const Item> items) : q_(items.size() * oprf_query_size), inv_(items.size()) {
    for (std::size_t i = 0; i < items.size(); ++i) {
      ECPoint p(items[i].get_as<const unsigned char>());
      ECPoint::scalar_type s;
      ECPoint::MakeRandomNonzeroScalar(s);
      ECPoint::InvertScalar(s, inv_[i]);
      p.scalar_multiply(s, false);
      p.save({q_.data() + i * oprf_query_size, oprf_query_size});
    }
  }
  std::size_t item_count() const { return inv_.size(); }
  std::vector<unsigned char> query_data() const { return q_; }
  void process_responses(gsl::span<const unsigned char> r, gsl::span<HashedItem> h, gsl::span<LabelKey> k) const {
    if (h.size() != item_count() || k.size() != item_count() || r.size() != item_count() * oprf_response_size)
      throw std::invalid_argument("oprf_responses size is incompatible");
    for (std::size_t i = 0; i < item_count(); ++i) {
      ECPoint p;
      p.load({r.data() + i * oprf_response_size, oprf_response_size});
      p.scalar_multiply(inv_[i], false);
      SplitHash(p, h[i], k[i]);
    }
  }

 private:
  std::vector<unsigned char> q_;
  std::vector<ECPoint::scalar_type> inv_;
};
struct OPRFSender {
  static std::vector<unsigned char> ProcessQueries(gsl::span<const unsigned char> q, const OPRFKey& key) {
    if (q.size() % oprf_query_size) throw std::invalid_argument("oprf_queries has invalid size");
    std::vector<unsigned char> r(q.size());
    for (std::size_t i = 0; i < q.size(); i += oprf_query_size) {
      ECPoint p;
      p.load({q.data() + i, oprf_query_size});
      if (!p.scalar_multiply(key.key_span(), true)) throw std::logic_error("scalar multiplication failed");
      p.save({r.data() + i, oprf_response_size});
    }
    return r;
  }
  static std::pair<HashedItem, LabelKey> Hash(const Item& i, const OPRFKey& key) {
    ECPoint p(i.get_as<const unsigned char>());
    p.scalar_multiply(key.key_span(), false);
    std::pair<HashedItem, LabelKey> r;
    SplitHash(p, r.first, r.second);
    return r;
  }
};
}  // namespace oprf

namespace network {
enum class SenderOperationType : std::uint32_t { sop_unknown = 0, sop_parms = 1, sop_oprf = 2, sop_query = 3 };
inline const char* sender_operation_type_str(SenderOperationType t) {
  switch (t) {
    case SenderOperationType::sop_parms: return "sop_parms";
    case SenderOperationType::sop_oprf: return "sop_oprf";
    case SenderOperationType::sop_query: return "sop_query";
    default: return "sop_unknown";
  }
}
struct SenderOperationHeader {
  std::uint32_t version = apsi_serialization_version;
  SenderOperationType type = SenderOperationType::sop_unknown;
  std::size_t save(std::ostream& o) const {
    return shim::SaveFrame(o, [&](std::ostream& s) { shim::Put(s, version); shim::Put(s, (std::uint32_t)type); });
  }
  std::size_t load(std::istream& i) {
    return shim::LoadFrame(i, [&](std::istream& s) {
      version = shim::Get<std::uint32_t>(s);
      type = (SenderOperationType)shim::Get<std::uint32_t>(s);
    });
  }
};
class SenderOperation {
 public:
  virtual ~SenderOperation() = default;
  virtual SenderOperationType type() const = 0;
  virtual std::size_t save(std::ostream&) const = 0;
  virtual std::size_t load(std::istream&, std::shared_ptr<seal::SEALContext> = nullptr) = 0;
};
class SenderOperationParms : public SenderOperation {
 public:
  SenderOperationType type() const override { return SenderOperationType::sop_parms; }
  std::size_t save(std::ostream& o) const override { return shim::SaveFrame(o, [](std::ostream&) {}); }
  std::size_t load(std::istream& i, std::shared_ptr<seal::SEALContext> = nullptr) override { return shim::LoadFrame(i, [](std::istream&) {}); }
};
class SenderOperationOPRF : public SenderOperation {
 public:
  SenderOperationType type() const override { return SenderOperationType::sop_oprf; }
  std::size_t save(std::ostream& o) const override {
    return shim::SaveFrame(o, [&](std::ostream& s) { shim::Put(s, bucket_idx); shim::PutBytes(s, data.data(), data.size()); });
  }
  std::size_t load(std::istream& i, std::shared_ptr<seal::SEALContext> = nullptr) override {
    return shim::LoadFrame(i, [&](std::istream& s) {
      bucket_idx = shim::Get<std::uint32_t>(s);
      std::string d = shim::GetStr(s);
      data.assign(d.begin(), d.end());
    });
  }
  std::vector<unsigned char> data;
  std::uint32_t bucket_idx = 0;
};
class SenderOperationQuery : public SenderOperation {
 public:
  SenderOperationType type() const override { return SenderOperationType::sop_query; }
  std::size_t save(std::ostream& o) const override {
    return shim::SaveFrame(o, [&](std::ostream& s) {
      shim::Put(s, bucket_idx);
      shim::Put<std::uint8_t>(s, (std::uint8_t)compr_mode);
      shim::Put<std::uint8_t>(s, relin_keys.has());
      shim::Put<std::uint64_t>(s, data.size());
      for (auto& [p, v] : data) {
        shim::Put(s, p);
        shim::Put<std::uint64_t>(s, v.size());
        for (auto& c : v) shim::PutCt(s, c.get());
      }
    });
  }
  std::size_t load(std::istream& i, std::shared_ptr<seal::SEALContext> ctx = nullptr) override {
    if (!ctx) throw std::invalid_argument("context cannot be null");
    return shim::LoadFrame(i, [&](std::istream& s) {
      bucket_idx = shim::Get<std::uint32_t>(s);
      compr_mode = (seal::compr_mode_type)shim::Get<std::uint8_t>(s);
      relin_keys.clear();
      if (shim::Get<std::uint8_t>(s)) { seal::RelinKeys k; k.valid = true; relin_keys.set(k); }
      data.clear();
      auto n = shim::Get<std::uint64_t>(s);
      while (n--) {
        auto p = shim::Get<std::uint32_t>(s);
        auto k = shim::Get<std::uint64_t>(s);
        auto& v = data[p];
        while (k--) v.emplace_back(shim::GetCt(s, *ctx));
      }
    });
  }
  seal::compr_mode_type compr_mode = seal::Serialization::compr_mode_default;
  SEALObject<seal::RelinKeys> relin_keys;
  std::unordered_map<std::uint32_t, std::vector<SEALObject<seal::Ciphertext>>> data;
  std::uint32_t bucket_idx = 0;
};
class SenderOperationResponse {
 public:
  virtual ~SenderOperationResponse() = default;
  virtual SenderOperationType type() const = 0;
  virtual std::size_t save(std::ostream&) const = 0;
  virtual std::size_t load(std::istream&) = 0;
};
class SenderOperationResponseParms : public SenderOperationResponse {
 public:
  SenderOperationType type() const override { return SenderOperationType::sop_parms; }
  std::size_t save(std::ostream& o) const override {
    if (!params) throw std::logic_error("parameters are not set");
    return shim::SaveFrame(o, [&](std::ostream& s) { shim::PutStr(s, params->to_string()); });
  }
  std::size_t load(std::istream& i) override {
    return shim::LoadFrame(i, [&](std::istream& s) { params = std::make_unique<PSIParams>(PSIParams::Load(shim::GetStr(s))); });
  }
  std::unique_ptr<PSIParams> params;
};
class SenderOperationResponseOPRF : public SenderOperationResponse {
 public:
  SenderOperationType type() const override { return SenderOperationType::sop_oprf; }
  std::size_t save(std::ostream& o) const override {
    return shim::SaveFrame(o, [&](std::ostream& s) { shim::PutBytes(s, data.data(), data.size()); });
  }
  std::size_t load(std::istream& i) override {
    return shim::LoadFrame(i, [&](std::istream& s) { std::string d = shim::GetStr(s); data.assign(d.begin(), d.end()); });
  }
  std::vector<unsigned char> data;
};
class SenderOperationResponseQuery : public SenderOperationResponse {
 public:
  SenderOperationType type() const override { return SenderOperationType::sop_query; }
  std::size_t save(std::ostream& o) const override { return shim::SaveFrame(o, [&](std::ostream& s) { shim::Put(s, package_count); }); }
  std::size_t load(std::istream& i) override { return shim::LoadFrame(i, [&](std::istream& s) { package_count = shim::Get<std::uint32_t>(s); }); }
  std::uint32_t package_count = 0;
};
struct PlainResultPackage {
  std::uint32_t bundle_idx = 0, label_byte_count = 0, nonce_byte_count = 0;
  std::vector<std::uint64_t> psi_result;
  std::vector<std::vector<std::uint64_t>> label_result;
};
class ResultPackage {
 public:
  std::size_t save(std::ostream& o) const {
    return shim::SaveFrame(o, [&](std::ostream& s) {
      shim::Put(s, bundle_idx);
      shim::Put(s, label_byte_count);
      shim::Put(s, nonce_byte_count);
      shim::PutCt(s, psi_result.get());
      shim::Put<std::uint64_t>(s, label_result.size());
      for (auto& l : label_result) shim::PutCt(s, l.get());
    });
  }
  std::size_t load(std::istream& i, std::shared_ptr<seal::SEALContext> ctx) {
    if (!ctx) throw std::invalid_argument("context cannot be null");
    return shim::LoadFrame(i, [&](std::istream& s) {
      bundle_idx = shim::Get<std::uint32_t>(s);
      label_byte_count = shim::Get<std::uint32_t>(s);
      nonce_byte_count = shim::Get<std::uint32_t>(s);
      psi_result.set(shim::GetCt(s, *ctx));
      label_result.clear();
      auto n = shim::Get<std::uint64_t>(s);
      while (n--) label_result.emplace_back(shim::GetCt(s, *ctx));
    });
  }
  PlainResultPackage extract(const CryptoContext& c) {
    if (!c.has_secret()) throw std::invalid_argument("decryptor is not set in crypto_context");
    PlainResultPackage r;
    r.bundle_idx = bundle_idx;
    r.label_byte_count = label_byte_count;
    r.nonce_byte_count = nonce_byte_count;
    r.psi_result = psi_result.extract().slots_;
    for (auto& l : label_result) r.label_result.push_back(l.extract().slots_);
    return r;
  }
  std::uint32_t bundle_idx = 0, label_byte_count = 0, nonce_byte_count = 0;
  seal::compr_mode_type compr_mode = seal::Serialization::compr_mode_default;
  SEALObject<seal::Ciphertext> psi_result;
  std::vector<SEALObject<seal::Ciphertext>> label_result;
};
class Channel {
 public:
  virtual ~Channel() = default;
  virtual void send(std::unique_ptr<SenderOperation>) = 0;
  virtual void send(std::unique_ptr<SenderOperationResponse>) = 0;
  virtual void send(std::unique_ptr<ResultPackage>) = 0;
  virtual std::unique_ptr<SenderOperation> receive_operation(std::shared_ptr<seal::SEALContext>, SenderOperationType = SenderOperationType::sop_unknown) = 0;
  virtual std::unique_ptr<SenderOperationResponse> receive_response(SenderOperationType = SenderOperationType::sop_unknown) = 0;
  virtual std::unique_ptr<ResultPackage> receive_result(std::shared_ptr<seal::SEALContext>) = 0;
  std::uint64_t bytes_sent() const { return bytes_sent_; }
  std::uint64_t bytes_received() const { return bytes_received_; }

 protected:
  std::atomic<std::uint64_t> bytes_sent_{0}, bytes_received_{0};
};
class NetworkChannel : public Channel {};
class StreamChannel : public Channel {
 public:
  explicit StreamChannel(std::iostream& s) : s_(s) {}
  void send(std::unique_ptr<SenderOperation> o) override { o->save(s_); }
  void send(std::unique_ptr<SenderOperationResponse> o) override { o->save(s_); }
  void send(std::unique_ptr<ResultPackage> o) override { o->save(s_); }
  std::unique_ptr<SenderOperation> receive_operation(std::shared_ptr<seal::SEALContext>, SenderOperationType) override { return nullptr; }
  std::unique_ptr<SenderOperationResponse> receive_response(SenderOperationType) override { return nullptr; }
  std::unique_ptr<ResultPackage> receive_result(std::shared_ptr<seal::SEALContext>) override { return nullptr; }

 private:
  std::iostream& s_;
};
// ZeroMQ is not available: these only make the code compile.
struct ZMQSenderOperation { std::unique_ptr<SenderOperation> sop; std::vector<unsigned char> client_id; };
struct ZMQSenderOperationResponse { std::unique_ptr<SenderOperationResponse> sop_response; std::vector<unsigned char> client_id; };
struct ZMQResultPackage { std::unique_ptr<ResultPackage> rp; std::vector<unsigned char> client_id; };
class ZMQChannel : public NetworkChannel {
 public:
  [[noreturn]] static void No() { throw std::runtime_error("ZeroMQ is not available"); }
  void bind(const std::string&) { No(); }
  void connect(const std::string&) { No(); }
  bool is_connected() const { return false; }
  void send(std::unique_ptr<SenderOperation>) override { No(); }
  void send(std::unique_ptr<SenderOperationResponse>) override { No(); }
  void send(std::unique_ptr<ResultPackage>) override { No(); }
  void send(std::unique_ptr<ZMQSenderOperationResponse>) { No(); }
  void send(std::unique_ptr<ZMQResultPackage>) { No(); }
  std::unique_ptr<SenderOperation> receive_operation(std::shared_ptr<seal::SEALContext>, SenderOperationType = SenderOperationType::sop_unknown) override { No(); }
  std::unique_ptr<SenderOperationResponse> receive_response(SenderOperationType = SenderOperationType::sop_unknown) override { No(); }
  std::unique_ptr<ResultPackage> receive_result(std::shared_ptr<seal::SEALContext>) override { No(); }
  std::unique_ptr<ZMQSenderOperation> receive_network_operation(std::shared_ptr<seal::SEALContext>, bool = false, SenderOperationType = SenderOperationType::sop_unknown) { No(); }
};
class ZMQSenderChannel : public ZMQChannel {};
class ZMQReceiverChannel : public ZMQChannel {};
}  // namespace network

using Request = std::unique_ptr<network::SenderOperation>;
using ParamsRequest = std::unique_ptr<network::SenderOperationParms>;
using OPRFRequest = std::unique_ptr<network::SenderOperationOPRF>;
using QueryRequest = std::unique_ptr<network::SenderOperationQuery>;
using Response = std::unique_ptr<network::SenderOperationResponse>;
using ParamsResponse = std::unique_ptr<network::SenderOperationResponseParms>;
using OPRFResponse = std::unique_ptr<network::SenderOperationResponseOPRF>;
using QueryResponse = std::unique_ptr<network::SenderOperationResponseQuery>;
using ResultPart = std::unique_ptr<network::ResultPackage>;
namespace shim {
template <typename T, typename B>
inline std::unique_ptr<T> Cast(std::unique_ptr<B>& b) {
  if (!b) return nullptr;
  if (auto* t = dynamic_cast<T*>(b.get())) { b.release(); return std::unique_ptr<T>(t); }
  return nullptr;
}
}  // namespace shim
#define APSI_SHIM_TO(name, ptr, base)                                                       \
  inline ptr name(base& b) { return shim::Cast<typename ptr::element_type>(b); }            \
  inline ptr name(base&& b) { base t = std::move(b); return shim::Cast<typename ptr::element_type>(t); }
APSI_SHIM_TO(to_params_request, ParamsRequest, Request)
APSI_SHIM_TO(to_oprf_request, OPRFRequest, Request)
APSI_SHIM_TO(to_query_request, QueryRequest, Request)
APSI_SHIM_TO(to_params_response, ParamsResponse, Response)
APSI_SHIM_TO(to_oprf_response, OPRFResponse, Response)
APSI_SHIM_TO(to_query_response, QueryResponse, Response)
template <typename T>
inline Request to_request(std::unique_ptr<T> p) { return Request(std::move(p)); }
}  // namespace apsi

namespace kuku {
using item_type = std::array<unsigned char, 16>;
using location_type = std::uint32_t;
inline location_type Loc(const item_type& i, std::uint32_t f, std::uint32_t size) {
  auto h = apsi::shim::Prf(i.data(), i.size(), 100 + f, 8);
  std::uint64_t v;
  std::memcpy(&v, h.data(), 8);
  return (location_type)(v % size);
}
class QueryResult {
 public:
  QueryResult(location_type l, bool f) : l_(l), f_(f) {}
  location_type location() const { return l_; }
  bool found() const { return f_; }
  explicit operator bool() const { return f_; }

 private:
  location_type l_;
  bool f_;
};
class KukuTable {
 public:
  KukuTable(std::uint32_t size, std::uint32_t, std::uint32_t funcs, item_type, std::uint64_t probe, item_type empty)
      : funcs_(funcs), probe_(probe), empty_(empty), left_(empty), t_(size, empty) {}
  bool insert(item_type i) {
    left_ = empty_;
    if (i == empty_) throw std::invalid_argument("cannot insert the null item");
    if (query(i)) return false;
    std::uint64_t r = 1;
    for (std::uint64_t n = 0; n <= probe_; ++n) {
      for (std::uint32_t f = 0; f < funcs_; ++f) {
        auto& s = t_[Loc(i, f, t_.size())];
        if (s == empty_) { s = i; ++used_; return true; }
      }
      r = apsi::shim::Mix(r + n);
      std::swap(t_[Loc(i, r % funcs_, t_.size())], i);
    }
    left_ = i;
    return false;
  }
  QueryResult query(const item_type& i) const {
    for (std::uint32_t f = 0; f < funcs_; ++f)
      if (t_[Loc(i, f, t_.size())] == i) return {Loc(i, f, t_.size()), true};
    return {0, false};
  }
  const std::vector<item_type>& table() const { return t_; }
  std::uint32_t table_size() const { return t_.size(); }
  std::uint32_t loc_func_count() const { return funcs_; }
  const item_type& leftover_item() const { return left_; }
  bool is_empty_item(const item_type& i) const { return i == empty_; }
  double fill_rate() const { return double(used_) / t_.size(); }

 private:
  std::uint32_t funcs_;
  std::uint64_t probe_;
  item_type empty_, left_;
  std::size_t used_ = 0;
  std::vector<item_type> t_;
};
}  // namespace kuku

namespace apsi::sender {
class BatchedPlaintextPolyn {
 public:
  std::vector<std::vector<std::uint64_t>> batched_coeffs;  // [degree][slot]
  std::uint64_t t = 0;
  seal::Ciphertext eval(const std::vector<seal::Ciphertext>& p, seal::MemoryPoolHandle&) const {
    seal::Ciphertext r = Start();
    for (std::size_t i = 1; i < batched_coeffs.size(); ++i) {
      const auto& c = Use(p, i);
      if (!c.is_ntt_form()) throw std::invalid_argument("encrypted must be in NTT form");
      if (i > 1 && c.id_ != r.id_) throw std::invalid_argument("encrypted1 and encrypted2 parameter mismatch");
      r.id_ = c.id_;
      Add(r.slots_, c.slots_, batched_coeffs[i]);
    }
    if (batched_coeffs.size() == 1) r.id_ = Use(p, 1).id_;
    return r;
  }
  seal::Ciphertext eval_patstock(const CryptoContext& ctx, const std::vector<seal::Ciphertext>& p, std::size_t low,
                                 seal::MemoryPoolHandle&) const {
    if (low <= 1 || low >= batched_coeffs.size() - 1) throw std::invalid_argument("ps_low_degree");
    if (!ctx.evaluator()) throw std::invalid_argument("evaluator is not set");
    seal::Ciphertext r = Start();
    std::size_t h = low + 1;
    for (std::size_t i = 0; i < batched_coeffs.size(); i += h) {
      std::vector<std::uint64_t> inner = batched_coeffs[i];
      for (std::size_t j = 1; j < h && i + j < batched_coeffs.size(); ++j) {
        const auto& c = Use(p, j);
        if (!c.is_ntt_form()) throw std::invalid_argument("encrypted must be in NTT form");
        if (c.id_ != Use(p, 1).id_) throw std::invalid_argument("encrypted1 and encrypted2 parameter mismatch");
        Add(inner, c.slots_, batched_coeffs[i + j]);
      }
      if (i) {
        const auto& c = Use(p, i);
        if (c.is_ntt_form()) throw std::invalid_argument("encrypted1 or encrypted2 cannot be in NTT form");
        if (c.id_ != Use(p, h).id_) throw std::invalid_argument("encrypted1 and encrypted2 parameter mismatch");
        Add(r.slots_, c.slots_, inner);
      } else {
        r.slots_ = inner;
      }
    }
    r.id_ = ctx.seal_context()->last_parms_id();
    return r;
  }

 private:
  seal::Ciphertext Start() const {
    seal::Ciphertext r;
    r.slots_ = batched_coeffs.at(0);
    r.size_ = 2;
    return r;
  }
  const seal::Ciphertext& Use(const std::vector<seal::Ciphertext>& p, std::size_t i) const {
    if (i >= p.size() || p[i].slots_.size() != batched_coeffs[0].size()) throw std::invalid_argument("power is not available");
    return p[i];
  }
  void Add(std::vector<std::uint64_t>& a, const std::vector<std::uint64_t>& x, const std::vector<std::uint64_t>& c) const {
    for (std::size_t i = 0; i < a.size(); ++i) a[i] = (a[i] + (std::uint64_t)((unsigned __int128)x[i] * c[i] % t)) % t;
  }
};
class BinBundleCache {
 public:
  BatchedPlaintextPolyn batched_matching_polyn;
  std::vector<BatchedPlaintextPolyn> batched_interp_polyns;
};
struct BinBundle {
  std::vector<std::vector<std::uint64_t>> bins;                 // slot -> felts
  std::vector<std::vector<std::vector<std::uint64_t>>> labels;  // part -> slot -> felts
  BinBundleCache cache;
};
class SenderDB {
 public:
  SenderDB(PSIParams p, std::size_t label = 0, std::size_t nonce = 16, bool compress = true)
      : p_(std::move(p)), label_(label), nonce_(label ? nonce : 0), compress_(compress), ctx_(p_) {
    if (label_ > 1024) throw std::invalid_argument("label_byte_count is too large");
    if (nonce_ > 16) throw std::invalid_argument("nonce_byte_count is too large");
    ctx_.set_evaluator();
    bundles_.resize(p_.bundle_idx_count());
  }
  SenderDB(PSIParams p, oprf::OPRFKey key, std::size_t label = 0, std::size_t nonce = 16, bool compress = true)
      : SenderDB(std::move(p), label, nonce, compress) { key_ = key; }
  void set_data(const std::vector<Item>& d) {
    if (label_) throw std::logic_error("failed to insert data: SenderDB is labeled");
    std::vector<std::pair<Item, Label>> v;
    for (auto& i : d) v.emplace_back(i, Label());
    Set(v);
  }
  void set_data(const std::vector<std::pair<Item, Label>>& d) {
    if (!label_) throw std::logic_error("failed to insert data: SenderDB is unlabeled");
    Set(d);
  }
  oprf::OPRFKey strip() {
    if (stripped_) throw std::logic_error("SenderDB has already been stripped");
    stripped_ = true;
    oprf::OPRFKey k = key_;
    key_.clear();
    return k;
  }
  bool is_stripped() const { return stripped_; }
  bool is_compressed() const { return compress_; }
  bool is_labeled() const { return label_ != 0; }
  oprf::OPRFKey get_oprf_key() const {
    if (stripped_) throw std::logic_error("failed to return OPRF key: SenderDB has been stripped");
    return key_;
  }
  std::size_t get_item_count() const { return items_; }
  std::size_t get_label_byte_count() const { return label_; }
  std::size_t get_nonce_byte_count() const { return nonce_; }
  double get_packing_rate() const { return 0.5; }
  std::size_t get_bin_bundle_count() const {
    std::size_t n = 0;
    for (auto& b : bundles_) n += b.size();
    return n;
  }
  std::size_t get_bin_bundle_count(std::uint32_t i) const { return bundles_.at(i).size(); }
  std::vector<std::reference_wrapper<const BinBundleCache>> get_cache_at(std::uint32_t i) const {
    std::vector<std::reference_wrapper<const BinBundleCache>> r;
    for (auto& b : bundles_.at(i)) r.emplace_back(b.cache);
    return r;
  }
  struct Lock { ~Lock() {} };
  Lock get_reader_lock() const { return {}; }
  const PSIParams& get_params() const { return p_; }
  CryptoContext get_crypto_context() const { return ctx_; }
  std::shared_ptr<seal::SEALContext> get_seal_context() const { return ctx_.seal_context(); }
  std::size_t save(std::ostream& o) const {
    return shim::SaveFrame(o, [&](std::ostream& s) {
      shim::PutStr(s, p_.to_string());
      shim::Put<std::uint64_t>(s, label_);
      shim::Put<std::uint64_t>(s, nonce_);
      shim::Put<std::uint64_t>(s, items_);
      shim::Put<std::uint8_t>(s, compress_);
      shim::Put<std::uint8_t>(s, stripped_);
      key_.save(s);
      for (auto& v : bundles_) {
        shim::Put<std::uint64_t>(s, v.size());
        for (auto& b : v) {
          SavePoly(s, b.cache.batched_matching_polyn);
          shim::Put<std::uint64_t>(s, b.cache.batched_interp_polyns.size());
          for (auto& l : b.cache.batched_interp_polyns) SavePoly(s, l);
        }
      }
    });
  }
  static std::pair<SenderDB, std::size_t> Load(std::istream& i) {
    std::unique_ptr<SenderDB> d;
    std::size_t n = shim::LoadFrame(i, [&](std::istream& s) {
      auto p = PSIParams::Load(shim::GetStr(s));
      auto label = shim::Get<std::uint64_t>(s), nonce = shim::Get<std::uint64_t>(s), items = shim::Get<std::uint64_t>(s);
      bool c = shim::Get<std::uint8_t>(s);
      d = std::make_unique<SenderDB>(p, label, nonce, c);
      d->items_ = items;
      d->stripped_ = shim::Get<std::uint8_t>(s);
      d->key_.load(s);
      for (auto& v : d->bundles_) {
        auto k = shim::Get<std::uint64_t>(s);
        while (k--) {
          v.emplace_back();
          auto& ca = v.back().cache;
          ca.batched_matching_polyn = d->LoadPoly(s);
          auto l = shim::Get<std::uint64_t>(s);
          while (l--) ca.batched_interp_polyns.push_back(d->LoadPoly(s));
        }
      }
    });
    return {std::move(*d), n};
  }

 private:
  std::uint64_t T() const { return p_.seal_params().plain_modulus().value(); }
  static void SavePoly(std::ostream& s, const BatchedPlaintextPolyn& p) {
    shim::Put<std::uint64_t>(s, p.batched_coeffs.size());
    for (auto& c : p.batched_coeffs) shim::PutWords(s, c);
  }
  BatchedPlaintextPolyn LoadPoly(std::istream& s) const {
    BatchedPlaintextPolyn p;
    p.t = T();
    auto n = shim::Get<std::uint64_t>(s);
    if (n == 0) throw std::runtime_error("invalid data");
    while (n--) {
      p.batched_coeffs.push_back(shim::GetWords(s));
      if (p.batched_coeffs.back().size() != p_.seal_params().poly_modulus_degree()) throw std::runtime_error("invalid data");
    }
    return p;
  }
  std::uint64_t M(std::uint64_t a, std::uint64_t b) const { return (std::uint64_t)((unsigned __int128)a * b % T()); }
  BatchedPlaintextPolyn Batch(const std::vector<std::vector<std::uint64_t>>& polys) const {
    BatchedPlaintextPolyn r;
    r.t = T();
    std::size_t deg = 1;
    for (auto& p : polys) deg = std::max(deg, p.size());
    r.batched_coeffs.assign(deg, std::vector<std::uint64_t>(polys.size(), 0));
    for (std::size_t s = 0; s < polys.size(); ++s)
      for (std::size_t i = 0; i < polys[s].size(); ++i) r.batched_coeffs[i][s] = polys[s][i];
    return r;
  }
  void Set(const std::vector<std::pair<Item, Label>>& d) {
    if (stripped_) throw std::logic_error("failed to set data: SenderDB is stripped");
    for (auto& b : bundles_) b.clear();
    // equal items: the last label given counts
    std::map<Item::value_type, std::size_t> last;
    for (std::size_t i = 0; i < d.size(); ++i) last[d[i].first.value()] = i;
    items_ = last.size();
    std::uint32_t fpi = p_.item_params().felts_per_item, n = p_.seal_params().poly_modulus_degree();
    std::size_t cap = p_.table_params().max_items_per_bin;
    for (std::size_t i = 0; i < d.size(); ++i) {
      if (last[d[i].first.value()] != i) continue;
      auto [h, key] = oprf::OPRFSender::Hash(d[i].first, key_);
      auto felts = util::BitsToFelts(h.value().data(), p_.item_bit_count(), T());
      std::vector<std::vector<std::uint64_t>> parts;
      if (label_) {
        auto e = util::encrypt_label(d[i].second, key, label_, nonce_);
        std::size_t per = p_.item_bit_count(), np = (e.size() * 8 + per - 1) / per;
        auto all = [&] {
          std::vector<unsigned char> b = e;
          b.resize((np * per + 7) / 8, 0);
          return util::BitsToFelts(b.data(), np * per, T());
        }();
        for (std::size_t k = 0; k < np; ++k) parts.emplace_back(all.begin() + k * fpi, all.begin() + (k + 1) * fpi);
      }
      std::set<std::uint32_t> locs;
      kuku::item_type it = h.value();
      for (std::uint32_t f = 0; f < p_.table_params().hash_func_count; ++f) locs.insert(kuku::Loc(it, f, p_.table_params().table_size));
      for (auto loc : locs) {
        auto& v = bundles_[loc / p_.items_per_bundle()];
        std::uint32_t bin = loc % p_.items_per_bundle() * fpi;
        BinBundle* to = nullptr;
        for (auto& b : v) {
          bool fits = true;
          for (std::uint32_t k = 0; k < fpi && fits; ++k) {
            auto& s = b.bins[bin + k];
            fits = s.size() < cap && (!label_ || std::find(s.begin(), s.end(), felts[k]) == s.end());
          }
          if (fits) { to = &b; break; }
        }
        if (!to) {
          v.emplace_back();
          to = &v.back();
          to->bins.resize(n);
          to->labels.assign(parts.size(), std::vector<std::vector<std::uint64_t>>(n));
        }
        for (std::uint32_t k = 0; k < fpi; ++k) {
          to->bins[bin + k].push_back(felts[k]);
          for (std::size_t q = 0; q < parts.size(); ++q) to->labels[q][bin + k].push_back(parts[q][k]);
        }
      }
    }
    for (auto& v : bundles_)
      for (auto& b : v) {
        std::vector<std::vector<std::uint64_t>> m(n);
        for (std::size_t s = 0; s < n; ++s) {
          m[s] = {1};
          for (auto f : b.bins[s]) {
            std::vector<std::uint64_t> w(m[s].size() + 1, 0);
            for (std::size_t i = 0; i < m[s].size(); ++i) {
              w[i + 1] = (w[i + 1] + m[s][i]) % T();
              w[i] = (w[i] + M(m[s][i], (T() - f) % T())) % T();
            }
            m[s] = std::move(w);
          }
        }
        b.cache.batched_matching_polyn = Batch(m);
        for (auto& l : b.labels) {
          std::vector<std::vector<std::uint64_t>> ip(n);
          for (std::size_t s = 0; s < n; ++s) ip[s] = Interp(b.bins[s], l[s]);
          b.cache.batched_interp_polyns.push_back(Batch(ip));
        }
        b.bins.clear();
        b.labels.clear();
      }
  }
  std::vector<std::uint64_t> Interp(const std::vector<std::uint64_t>& x, const std::vector<std::uint64_t>& y) const {
    std::size_t k = x.size();
    if (!k) return {0};
    std::vector<std::uint64_t> d = y;
    for (std::size_t j = 1; j < k; ++j)
      for (std::size_t i = k - 1; i >= j; --i) {
        std::uint64_t inv;
        if (!seal::util::try_invert_uint_mod((x[i] + T() - x[i - j]) % T(), T(), inv)) throw std::logic_error("interpolation");
        d[i] = M((d[i] + T() - d[i - 1]) % T(), inv);
      }
    std::vector<std::uint64_t> r{d[k - 1]};
    for (std::size_t j = k - 1; j-- > 0;) {
      std::vector<std::uint64_t> w(r.size() + 1, 0);
      for (std::size_t i = 0; i < r.size(); ++i) {
        w[i + 1] = (w[i + 1] + r[i]) % T();
        w[i] = (w[i] + M(r[i], (T() - x[j]) % T())) % T();
      }
      w[0] = (w[0] + d[j]) % T();
      r = std::move(w);
    }
    return r;
  }
  PSIParams p_;
  std::size_t label_, nonce_, items_ = 0;
  bool compress_, stripped_ = false;
  CryptoContext ctx_;
  oprf::OPRFKey key_;
  std::vector<std::vector<BinBundle>> bundles_;
};
class Query {
 public:
  Query() = default;
  Query(QueryRequest r, std::shared_ptr<SenderDB> db) : db_(std::move(db)) {
    if (!db_) throw std::invalid_argument("sender_db cannot be null");
    if (!r) throw std::invalid_argument("query_request cannot be null");
    compr_ = r->compr_mode;
    auto ctx = db_->get_seal_context();
    if (ctx->using_keyswitching()) {
      if (!r->relin_keys.has()) throw std::runtime_error("relinearization keys are missing");
      relin_ = r->relin_keys.extract(ctx);
    }
    for (auto& [p, v] : r->data)
      for (auto& c : v) data_[p].push_back(c.extract(ctx));
    const auto& prm = db_->get_params();
    if (data_.size() != prm.query_params().query_powers.size()) return;
    for (auto p : prm.query_params().query_powers) {
      auto f = data_.find(p);
      if (f == data_.end() || f->second.size() != prm.bundle_idx_count()) return;
    }
    valid_ = pd_.configure(prm.query_params().query_powers,
                           util::create_powers_set(prm.query_params().ps_low_degree, prm.table_params().max_items_per_bin));
  }
  explicit operator bool() const { return valid_; }
  const seal::RelinKeys& relin_keys() const { return relin_; }
  auto& data() const { return data_; }
  const PowersDag& pd() const { return pd_; }
  seal::compr_mode_type compr_mode() const { return compr_; }
  std::shared_ptr<SenderDB> sender_db() const { return db_; }

 private:
  std::shared_ptr<SenderDB> db_;
  seal::RelinKeys relin_;
  seal::compr_mode_type compr_ = seal::Serialization::compr_mode_default;
  std::unordered_map<std::uint32_t, std::vector<seal::Ciphertext>> data_;
  PowersDag pd_;
  bool valid_ = false;
};
}  // namespace apsi::sender
