// A small property-based testing engine.
//
// Every random decision of a case is one entry of a *choice sequence*
// (value, drawn below a bound).  A failing case is therefore a plain list of
// integers: it is shrunk by deleting/zeroing/lowering entries and re-running
// the property on the shorter list, and it is replayed from that list alone.
// Cases run in forked worker processes, so a crash, a sanitizer report or a
// hang of the code under test is a result and not the end of the run.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace pbt {

inline uint64_t mix(uint64_t x) {
  x += 0x9e3779b97f4a7c15ULL;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
  return x ^ (x >> 31);
}

struct Violation : std::runtime_error {
  std::string tag;
  explicit Violation(const std::string& m, std::string t = "") : std::runtime_error(m), tag(std::move(t)) {}
};
struct Discard {};

class Ctx {
 public:
  // generation mode
  explicit Ctx(uint64_t seed) : rng_(seed) {}
  // replay mode
  explicit Ctx(std::vector<uint64_t> choices) : replay_(true), in_(std::move(choices)) {}

  uint64_t below(uint64_t n) {  // [0,n)
    if (n <= 1) return 0;
    uint64_t v;
    if (replay_) {
      v = pos_ < in_.size() ? in_[pos_] : 0;
      if (v >= n) v = n - 1;
    } else {
      rng_ = mix(rng_);
      v = rng_ % n;
    }
    ++pos_;
    record(v);
    return v;
  }
  uint64_t u64() {
    uint64_t v;
    if (replay_) v = pos_ < in_.size() ? in_[pos_] : 0;
    else v = rng_ = mix(rng_);
    ++pos_;
    record(v);
    return v;
  }
  int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)below((uint64_t)(hi - lo) + 1); }
  // true with probability num/den; false is the simplest value.
  bool chance(unsigned num, unsigned den) { return below(den) >= den - num; }
  bool flip() { return below(2) == 1; }
  // skewed towards small values, still reaching hi.
  int64_t skewed(int64_t lo, int64_t hi) {
    uint64_t span = (uint64_t)(hi - lo) + 1;
    uint64_t k = below(4);
    uint64_t s = span;
    if (k == 0) s = span < 4 ? span : 4;
    else if (k == 1) s = span < 16 ? span : (span / 8 > 16 ? span / 8 : 16);
    else if (k == 2) s = span < 64 ? span : (span / 2 > 64 ? span / 2 : 64);
    return lo + (int64_t)below(s > span ? span : s);
  }
  template <class T>
  const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
  std::string bytes(size_t n) {
    std::string r(n, 0);
    for (auto& c : r) c = (char)below(256);
    return r;
  }
  // bulk pseudo-random bytes that cost one choice
  std::string bulk(size_t n) {
    uint64_t s = u64();
    std::string r(n, 0);
    for (size_t i = 0; i < n; i += 8) {
      s = mix(s);
      for (size_t j = i; j < n && j < i + 8; ++j) r[j] = (char)(s >> (8 * (j - i)));
    }
    return r;
  }

  void label(const std::string& l) { labels_.insert(l); }
  void nontrivial(bool b = true) { nontrivial_ = b; }
  std::ostream& note() { return desc_; }
  void metric(const std::string& k, int64_t v) { metrics_[k] += v; }
  [[noreturn]] void fail(const std::string& m, const std::string& tag = "") { throw Violation(m, tag); }

  std::string scratch;  // empty folder of this case, removed afterwards
  bool thorough = false;

  std::vector<uint64_t> choices_;
  std::set<std::string> labels_;
  std::map<std::string, int64_t> metrics_;
  std::ostringstream desc_;
  bool nontrivial_ = false;
  uint64_t* shared_ = nullptr;  // [0]=count, then values
  size_t shared_cap_ = 0;

 private:
  void record(uint64_t v) {
    choices_.push_back(v);
    if (shared_ && choices_.size() < shared_cap_) {
      shared_[choices_.size()] = v;
      shared_[0] = choices_.size();
    }
  }
  bool replay_ = false;
  uint64_t rng_ = 0;
  std::vector<uint64_t> in_;
  size_t pos_ = 0;
};

struct Prop {
  std::string name;
  std::function<void(Ctx&)> fn;
  double timeout_s;
  bool slow_ok = false;  // a case still running at the timeout is set aside, not judged
};
std::vector<Prop>& Props();
struct Reg {
  Reg(const char* n, std::function<void(Ctx&)> f, double t, bool slow_ok = false) { Props().push_back({n, std::move(f), t, slow_ok}); }
};

// hex / printable helpers for descriptions
inline std::string show(const std::string& s, size_t max = 80) {
  std::string r = "\"";
  for (size_t i = 0; i < s.size() && i < max; ++i) {
    unsigned char c = s[i];
    if (c >= 32 && c < 127 && c != '"' && c != '\\') r += (char)c;
    else { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); r += b; }
  }
  r += "\"";
  if (s.size() > max) r += "...";
  return r;
}
template <class V>
inline std::string showv(const V& v, size_t max = 30) {
  std::ostringstream o;
  o << "[";
  size_t i = 0;
  for (auto& x : v) {
    if (i++ == max) { o << "...(" << v.size() << ")"; break; }
    if (i > 1) o << ",";
    o << x;
  }
  o << "]";
  return o.str();
}
}  // namespace pbt

#define PROP(NAME, TIMEOUT)                                  \
  static void prop_##NAME(pbt::Ctx& c);                      \
  static pbt::Reg reg_##NAME(#NAME, prop_##NAME, TIMEOUT);   \
  static void prop_##NAME(pbt::Ctx& c)

#define EXPECT_THAT_(cond, msg)                                                    \
  do {                                                                             \
    if (!(cond)) {                                                                 \
      std::ostringstream o_;                                                       \
      o_ << "[" << #cond << "] " << msg;                                           \
      throw pbt::Violation(o_.str());                                              \
    }                                                                              \
  } while (0)
#define REQUIRE(cond, msg) EXPECT_THAT_(cond, msg)
