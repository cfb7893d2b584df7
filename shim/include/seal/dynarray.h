#pragma once
#include <vector>
#include "gsl/span"
#include "seal/memorymanager.h"
namespace seal {
template <typename T>
class DynArray {
 public:
  explicit DynArray(MemoryPoolHandle = {}) {}
  DynArray(std::size_t n, MemoryPoolHandle = {}) : v_(n) {}
  void resize(std::size_t n, bool = true) { v_.resize(n); }
  std::size_t size() const { return v_.size(); }
  T* begin() { return v_.data(); }
  T* end() { return v_.data() + v_.size(); }
  const T* cbegin() const { return v_.data(); }
  const T* cend() const { return v_.data() + v_.size(); }
  gsl::span<T> span() { return {v_.data(), v_.size()}; }
  gsl::span<const T> span() const { return {v_.data(), v_.size()}; }

 private:
  std::vector<T> v_;
};
}  // namespace seal
