// Test double for microsoft/APSI: apsi::Item and friends.
#pragma once
#include <array>
#include <cstdint>
#include <cstring>
#include <memory>
#include <string>
#include <vector>
#include <unordered_map>
#include <unordered_set>
#include <iostream>
#include "apsi/shim_log.h"
#include "gsl/span"
#include "yacl/base/exception.h"
namespace apsi {
using Label = std::vector<unsigned char>;
using EncryptedLabel = std::vector<unsigned char>;
constexpr std::size_t label_key_byte_count = 32;
using LabelKey = std::array<unsigned char, label_key_byte_count>;
class Item {
 public:
  using value_type = std::array<unsigned char, 16>;
  Item() { v_.fill(0); }
  Item(const value_type& v) : v_(v) {}
  Item(std::uint64_t lw, std::uint64_t hw) { std::memcpy(v_.data(), &lw, 8); std::memcpy(v_.data() + 8, &hw, 8); }
  template <typename T>
  Item(const std::basic_string<T>& s) { hash_to_value(s.data(), s.size() * sizeof(T)); }
  bool operator==(const Item& o) const { return v_ == o.v_; }
  bool operator!=(const Item& o) const { return v_ != o.v_; }
  template <typename T>
  gsl::span<const T> get_as() const { return {reinterpret_cast<const T*>(v_.data()), 16 / sizeof(T)}; }
  const value_type& value() const { return v_; }
  value_type& value() { return v_; }
  std::string to_string() const { return std::string((const char*)v_.data(), 16); }

 private:
  void hash_to_value(const void* p, std::size_t n);
  value_type v_;
};
class HashedItem : public Item {
 public:
  using Item::Item;
};
}  // namespace apsi
namespace std {
template <>
struct hash<apsi::Item> {
  size_t operator()(const apsi::Item& i) const { size_t r; memcpy(&r, i.value().data(), sizeof r); return r; }
};
template <>
struct hash<apsi::HashedItem> {
  size_t operator()(const apsi::HashedItem& i) const { return hash<apsi::Item>()(i); }
};
}  // namespace std
