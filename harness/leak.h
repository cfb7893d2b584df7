// Looks for secrets in recorded traffic.
#pragma once
#include <openssl/evp.h>
#include <cstring>
#include <set>
#include <string>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include <vector>

#include "parties.h"
#include "yacl/crypto/hash/blake3.h"
#include "yacl/crypto/hash/hash_utils.h"

namespace leak {
using Log = std::vector<std::tuple<size_t, size_t, std::string>>;

inline std::string Digest(const EVP_MD* md, const std::string& s) {
  unsigned char b[EVP_MAX_MD_SIZE];
  unsigned n = 0;
  EVP_Digest(s.data(), s.size(), b, &n, md, nullptr);
  return std::string((char*)b, n);
}
inline std::string Hex(const std::string& s) {
  static const char* d = "0123456789abcdef";
  std::string r;
  for (unsigned char c : s) r += d[c >> 4], r += d[c & 15];
  return r;
}
inline std::string Upper(std::string s) {
  for (auto& c : s) c = (char)toupper(c);
  return s;
}
inline std::string B64(const std::string& s) {
  static const char* d = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
  std::string r;
  for (size_t i = 0; i + 2 < s.size(); i += 3) {
    unsigned v = (unsigned char)s[i] << 16 | (unsigned char)s[i + 1] << 8 | (unsigned char)s[i + 2];
    for (int k = 18; k >= 0; k -= 6) r += d[v >> k & 63];
  }
  return r;
}
// Every form in which a receiver could read or look up the secret.
inline std::vector<std::pair<std::string, std::string>> Forms(const std::string& s) {
  std::vector<std::pair<std::string, std::string>> f = {{"plain", s}, {"hex", Hex(s)}, {"HEX", Upper(Hex(s))}, {"base64", B64(s)}};
  auto add = [&](const char* n, std::string d) {
    if (d.size() > 16) d.resize(16);
    f.push_back({n, d});
    f.push_back({std::string(n) + " in hex", Hex(d)});
    f.push_back({std::string(n) + " in HEX", Upper(Hex(d))});
    f.push_back({std::string(n) + " reversed", std::string(d.rbegin(), d.rend())});
  };
  add("sha256", Digest(EVP_sha256(), s));
  add("sha1", Digest(EVP_sha1(), s));
  add("sha512", Digest(EVP_sha512(), s));
  add("md5", Digest(EVP_md5(), s));
  add("sm3", Digest(EVP_sm3(), s));
  add("blake2b", Digest(EVP_blake2b512(), s));
  auto b3 = yacl::crypto::Blake3(s);
  add("blake3", std::string((const char*)b3.data(), b3.size()));
  auto b128 = yacl::crypto::Blake3_128(s);
  add("blake3_128", std::string((const char*)&b128, sizeof b128));
  f.erase(std::remove_if(f.begin(), f.end(), [](auto& p) { return p.second.size() < 9; }), f.end());
  return f;
}

class Finder {
 public:
  void Add(const std::string& secret, const std::string& what) {
    if (secret.size() < 12 || !seen_.insert(secret).second) return;
    for (auto& [n, b] : Forms(secret)) {
      uint64_t k;
      memcpy(&k, b.data(), 8);
      idx_[k].push_back(items_.size());
      items_.push_back({b, what + " " + secret + " as " + n});
    }
  }
  // "" or a description of the first secret found
  std::string Find(const std::string& hay) const {
    for (size_t i = 0; i + 8 <= hay.size(); ++i) {
      uint64_t k;
      memcpy(&k, hay.data() + i, 8);
      auto it = idx_.find(k);
      if (it == idx_.end()) continue;
      for (size_t j : it->second)
        if (i + items_[j].first.size() <= hay.size() && !memcmp(hay.data() + i, items_[j].first.data(), items_[j].first.size())) return items_[j].second;
    }
    return "";
  }
  size_t size() const { return seen_.size(); }

 private:
  std::set<std::string> seen_;
  std::vector<std::pair<std::string, std::string>> items_;
  std::unordered_map<uint64_t, std::vector<size_t>> idx_;
};

// windows that look like key material: several high bytes, many distinct ones
inline std::unordered_set<std::string> Windows(const Log& log, int src = -1, size_t len = 16) {
  std::unordered_set<std::string> w;
  for (auto& [s, d, m] : log) {
    if (src >= 0 && (int)s != src) continue;
    for (size_t i = 0; i + len <= m.size(); ++i) {
      int high = 0;
      std::set<char> dist;
      for (size_t k = 0; k < len; ++k) high += (m[i + k] & 0x80) != 0, dist.insert(m[i + k]);
      if (high >= 3 && dist.size() >= 8) w.insert(m.substr(i, len));
    }
  }
  return w;
}
inline std::string Common(const std::unordered_set<std::string>& a, const std::unordered_set<std::string>& b) {
  for (auto& x : a)
    if (b.count(x)) return Hex(x);
  return "";
}
}  // namespace leak
