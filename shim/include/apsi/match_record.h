#pragma once
#include "apsi/item.h"
namespace apsi::receiver {
class LabelData {
 public:
  LabelData() = default;
  explicit LabelData(std::vector<unsigned char> d) : d_(std::move(d)), has_(true) {}
  void set(std::vector<unsigned char> d) { d_ = std::move(d); has_ = true; }
  bool has_data() const { return has_; }
  explicit operator bool() const { return has_; }
  template <typename T>
  gsl::span<std::add_const_t<T>> get_as() const { return {reinterpret_cast<std::add_const_t<T>*>(d_.data()), d_.size() / sizeof(T)}; }
  template <typename C>
  std::basic_string<C> to_string() const { return {reinterpret_cast<const C*>(d_.data()), d_.size() / sizeof(C)}; }
  std::string to_string() const { return to_string<char>(); }

 private:
  std::vector<unsigned char> d_;
  bool has_ = false;
};
class MatchRecord {
 public:
  bool found = false;
  LabelData label;
  explicit operator bool() const { return found; }
};
}  // namespace apsi::receiver
