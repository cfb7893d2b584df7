// Test double for apsi::PSIParams, with APSI's JSON format and checks.
#pragma once
#include <cctype>
#include <set>
#include <sstream>
#include <stdexcept>
#include "apsi/item.h"
#include "seal/bfv.h"
namespace apsi {
class PSIParams {
 public:
  struct ItemParams { std::uint32_t felts_per_item = 0; };
  struct TableParams { std::uint32_t table_size = 0, max_items_per_bin = 0, hash_func_count = 0; };
  struct QueryParams { std::uint32_t ps_low_degree = 0; std::set<std::uint32_t> query_powers; };
  using SEALParams = seal::EncryptionParameters;
  static PSIParams Load(const std::string& j) {
    int depth = 0;
    for (char c : j) { depth += c == '{' || c == '['; depth -= c == '}' || c == ']'; if (depth < 0) throw std::runtime_error("failed to parse"); }
    if (depth || j.find('{') == std::string::npos) throw std::runtime_error("failed to parse");
    PSIParams p;
    p.t_.hash_func_count = Num(j, "hash_func_count");
    p.t_.table_size = Num(j, "table_size");
    p.t_.max_items_per_bin = Num(j, "max_items_per_bin");
    p.i_.felts_per_item = Num(j, "felts_per_item");
    p.q_.ps_low_degree = Num(j, "ps_low_degree");
    for (auto v : Array(j, "query_powers")) p.q_.query_powers.insert(v);
    std::uint64_t n = Num(j, "poly_modulus_degree");
    std::vector<int> bits;
    for (auto v : Array(j, "coeff_modulus_bits")) bits.push_back((int)v);
    p.s_ = seal::EncryptionParameters(seal::scheme_type::bfv);
    if (n < 16 || n > 32768 || (n & (n - 1))) throw std::invalid_argument("poly_modulus_degree is invalid");
    p.s_.set_poly_modulus_degree(n);
    p.s_.set_coeff_modulus(Moduli(n, bits));
    p.s_.set_plain_modulus(Has(j, "plain_modulus_bits") ? Moduli(n, {(int)Num(j, "plain_modulus_bits")})[0] : seal::Modulus(Num(j, "plain_modulus")));
    p.bits_ = bits;
    p.Check();
    return p;
  }
  std::string to_string() const {
    std::ostringstream o;
    o << "{\"table_params\":{\"hash_func_count\":" << t_.hash_func_count << ",\"table_size\":" << t_.table_size
      << ",\"max_items_per_bin\":" << t_.max_items_per_bin << "},\"item_params\":{\"felts_per_item\":" << i_.felts_per_item
      << "},\"query_params\":{\"ps_low_degree\":" << q_.ps_low_degree << ",\"query_powers\":[";
    const char* sep = "";
    for (auto v : q_.query_powers) { o << sep << v; sep = ","; }
    o << "]},\"seal_params\":{\"plain_modulus\":" << s_.plain_modulus().value() << ",\"poly_modulus_degree\":" << s_.poly_modulus_degree()
      << ",\"coeff_modulus_bits\":[";
    sep = "";
    for (auto v : bits_) { o << sep << v; sep = ","; }
    o << "]}}";
    return o.str();
  }
  const ItemParams& item_params() const { return i_; }
  const TableParams& table_params() const { return t_; }
  const QueryParams& query_params() const { return q_; }
  const SEALParams& seal_params() const { return s_; }
  std::uint32_t items_per_bundle() const { return (std::uint32_t)s_.poly_modulus_degree() / i_.felts_per_item; }
  std::uint32_t bins_per_bundle() const { return items_per_bundle() * i_.felts_per_item; }
  std::uint32_t bundle_idx_count() const { return (t_.table_size + items_per_bundle() - 1) / items_per_bundle(); }
  std::uint32_t item_bit_count_per_felt() const { return 63 - __builtin_clzll(s_.plain_modulus().value()); }
  std::uint32_t item_bit_count() const { return item_bit_count_per_felt() * i_.felts_per_item; }
  double log2_fpp() const { return -double(item_bit_count()); }

 private:
  static std::vector<seal::Modulus> Moduli(std::size_t n, const std::vector<int>& bits) {
    static std::mutex m;
    static std::map<std::pair<std::size_t, std::vector<int>>, std::vector<seal::Modulus>> all;
    std::lock_guard<std::mutex> l(m);
    auto& v = all[{n, bits}];
    if (v.empty()) v = seal::CoeffModulus::Create(n, bits);
    return v;
  }
  void Check() const {
    if (!t_.table_size || !t_.max_items_per_bin || t_.hash_func_count < 1 || t_.hash_func_count > 8) throw std::invalid_argument("table_params");
    if (i_.felts_per_item < 2 || i_.felts_per_item > 32) throw std::invalid_argument("felts_per_item");
    if (!q_.query_powers.count(1) || q_.query_powers.count(0) || *q_.query_powers.rbegin() > t_.max_items_per_bin) throw std::invalid_argument("query_powers");
    if (q_.ps_low_degree > t_.max_items_per_bin) throw std::invalid_argument("ps_low_degree");
    if (q_.ps_low_degree > 1)
      for (auto p : q_.query_powers)
        if (p > q_.ps_low_degree && p % (q_.ps_low_degree + 1)) throw std::invalid_argument("query_powers");
    auto t = s_.plain_modulus().value();
    if (t < 3 || !seal::util::is_prime_slow(t) || t % (2 * s_.poly_modulus_degree()) != 1) throw std::invalid_argument("plain_modulus");
    if (item_bit_count() < 80 || item_bit_count() > 128) throw std::invalid_argument("parameters result in too large or too small item_bit_count");
    if (!items_per_bundle() || t_.table_size % items_per_bundle()) throw std::invalid_argument("table_size must be a multiple of items_per_bundle");
  }
  static bool Has(const std::string& j, const std::string& k) { return j.find("\"" + k + "\"") != std::string::npos; }
  static std::size_t At(const std::string& j, const std::string& k) {
    auto p = j.find("\"" + k + "\"");
    if (p == std::string::npos) throw std::runtime_error(k + " is missing");
    p += k.size() + 2;
    while (p < j.size() && (std::isspace((unsigned char)j[p]) || j[p] == ':')) ++p;
    return p;
  }
  static std::uint64_t Num(const std::string& j, const std::string& k) {
    auto p = At(j, k);
    if (p >= j.size() || !std::isdigit((unsigned char)j[p])) throw std::runtime_error(k + " is not a number");
    return std::stoull(j.substr(p, 20));
  }
  static std::vector<std::uint64_t> Array(const std::string& j, const std::string& k) {
    auto p = At(j, k);
    if (p >= j.size() || j[p] != '[') throw std::runtime_error(k + " is not an array");
    auto e = j.find(']', p);
    std::vector<std::uint64_t> r;
    for (++p; p < e;) {
      if (std::isdigit((unsigned char)j[p])) {
        std::uint64_t v = 0;
        while (std::isdigit((unsigned char)j[p])) v = v * 10 + (j[p++] - '0');
        r.push_back(v);
      } else ++p;
    }
    return r;
  }
  ItemParams i_;
  TableParams t_;
  QueryParams q_;
  SEALParams s_;
  std::vector<int> bits_;
};
}  // namespace apsi
