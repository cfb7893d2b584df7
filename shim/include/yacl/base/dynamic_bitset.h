#pragma once
#include <algorithm>
#include <cstddef>
#include <cstdint>
#include <ostream>
#include <stdexcept>
#include <string>
#include <string_view>
#include <vector>
#include "yacl/base/exception.h"
#include "yacl/base/int128.h"
namespace yacl {
template <typename Block = unsigned __int128, typename Allocator = std::allocator<Block>>
class dynamic_bitset {
 public:
  using block_type = Block;
  using size_type = size_t;
  static constexpr size_t bits_per_block = sizeof(Block) * 8;
  class reference {
   public:
    reference(Block& b, size_t p) : b_(b), m_(Block(1) << p) {}
    reference& operator=(bool v) { if (v) b_ |= m_; else b_ &= ~m_; return *this; }
    reference& operator=(const reference& o) { return *this = bool(o); }
    reference& operator|=(bool v) { if (v) b_ |= m_; return *this; }
    reference& operator&=(bool v) { if (!v) b_ &= ~m_; return *this; }
    reference& operator^=(bool v) { if (v) b_ ^= m_; return *this; }
    bool operator~() const { return (b_ & m_) == 0; }
    operator bool() const { return (b_ & m_) != 0; }
    reference& set(bool v = true) { return *this = v; }
    reference& reset() { return *this = false; }
    reference& flip() { b_ ^= m_; return *this; }
   private:
    Block& b_;
    Block m_;
  };
  dynamic_bitset() = default;
  explicit dynamic_bitset(size_t n, unsigned long long init = 0) {
    resize(n);
    for (size_t i = 0; i < n && i < 64; ++i) if ((init >> i) & 1) set(i);
  }
  explicit dynamic_bitset(const std::string& s) { FromStr(s); }
  explicit dynamic_bitset(std::string_view s) { FromStr(s); }
  explicit dynamic_bitset(const char* s) { FromStr(s); }
  void resize(size_t n, bool v = false) {
    size_t old = n_;
    b_.resize((n + bits_per_block - 1) / bits_per_block, Block(0));
    n_ = n;
    if (v) for (size_t i = old; i < n; ++i) set(i);
    Sanitize();
  }
  void reserve(size_t n) { b_.reserve((n + bits_per_block - 1) / bits_per_block); }
  void clear() { b_.clear(); n_ = 0; }
  void push_back(bool v) { resize(n_ + 1); set(n_ - 1, v); }
  void pop_back() { resize(n_ - 1); }
  void append(Block v) {
    size_t s = n_;
    resize(n_ + bits_per_block);
    for (size_t i = 0; i < bits_per_block; ++i) set(s + i, (v >> i) & 1);
  }
  size_t size() const { return n_; }
  bool empty() const { return n_ == 0; }
  size_t num_blocks() const { return b_.size(); }
  Block* data() { return b_.data(); }
  const Block* data() const { return b_.data(); }
  dynamic_bitset& set() { for (auto& x : b_) x = ~Block(0); Sanitize(); return *this; }
  dynamic_bitset& set(size_t i, bool v = true) {
    if (v) b_[i / bits_per_block] |= Block(1) << (i % bits_per_block);
    else b_[i / bits_per_block] &= ~(Block(1) << (i % bits_per_block));
    return *this;
  }
  dynamic_bitset& set(size_t pos, size_t len, bool v) { for (size_t i = 0; i < len; ++i) set(pos + i, v); return *this; }
  dynamic_bitset& reset() { for (auto& x : b_) x = 0; return *this; }
  dynamic_bitset& reset(size_t i) { return set(i, false); }
  dynamic_bitset& flip(size_t i) { return set(i, !test(i)); }
  dynamic_bitset& flip() { for (auto& x : b_) x = ~x; Sanitize(); return *this; }
  bool test(size_t i) const {
    YACL_ENFORCE(i < n_);
    return (b_[i / bits_per_block] >> (i % bits_per_block)) & 1;
  }
  bool operator[](size_t i) const { YACL_ENFORCE(i < n_); return test(i); }
  reference operator[](size_t i) {
    YACL_ENFORCE(i < n_);
    return reference(b_[i / bits_per_block], i % bits_per_block);
  }
  bool any() const { for (auto x : b_) if (x) return true; return false; }
  bool none() const { return !any(); }
  bool all() const { return count() == n_; }
  size_t count() const { size_t c = 0; for (size_t i = 0; i < n_; ++i) c += test(i); return c; }
  static constexpr size_t npos = static_cast<size_t>(-1);
  size_t find_first() const { for (size_t i = 0; i < n_; ++i) if (test(i)) return i; return npos; }
  size_t find_next(size_t p) const { for (size_t i = p + 1; i < n_; ++i) if (test(i)) return i; return npos; }
  std::string to_string(char z = '0', char o = '1') const {
    std::string s(n_, z);
    for (size_t i = 0; i < n_; ++i) if (test(i)) s[n_ - 1 - i] = o;
    return s;
  }
  dynamic_bitset& operator^=(const dynamic_bitset& o) { for (size_t i = 0; i < b_.size(); ++i) b_[i] ^= o.b_[i]; return *this; }
  dynamic_bitset& operator&=(const dynamic_bitset& o) { for (size_t i = 0; i < b_.size(); ++i) b_[i] &= o.b_[i]; return *this; }
  dynamic_bitset& operator|=(const dynamic_bitset& o) { for (size_t i = 0; i < b_.size(); ++i) b_[i] |= o.b_[i]; return *this; }
  friend dynamic_bitset operator^(dynamic_bitset a, const dynamic_bitset& b) { return a ^= b; }
  friend dynamic_bitset operator&(dynamic_bitset a, const dynamic_bitset& b) { return a &= b; }
  friend dynamic_bitset operator|(dynamic_bitset a, const dynamic_bitset& b) { return a |= b; }
  bool operator==(const dynamic_bitset& o) const { return n_ == o.n_ && b_ == o.b_; }
  bool operator!=(const dynamic_bitset& o) const { return !(*this == o); }
  friend std::ostream& operator<<(std::ostream& os, const dynamic_bitset& b) { return os << b.to_string(); }

 private:
  void FromStr(std::string_view s) {
    resize(s.size());
    for (size_t i = 0; i < s.size(); ++i) {
      YACL_ENFORCE(s[i] == '0' || s[i] == '1', "bad bitset string");
      set(s.size() - 1 - i, s[i] == '1');
    }
  }
  void Sanitize() {
    size_t r = n_ % bits_per_block;
    if (r && !b_.empty()) b_.back() &= (Block(1) << r) - 1;
  }
  std::vector<Block> b_;
  size_t n_ = 0;
};
}  // namespace yacl
