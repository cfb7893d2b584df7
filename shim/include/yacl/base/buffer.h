#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <functional>
#include <memory>
#include <ostream>
#include <fcntl.h>
#include <string>
#include <string_view>
#include <utility>
#include <vector>
#include "yacl/base/byte_container_view.h"
#include "yacl/base/exception.h"

namespace yacl {
class Buffer {
 public:
  Buffer() = default;
  explicit Buffer(int64_t size) : Buffer(size, size) {}
  explicit Buffer(int64_t size, int64_t cap) {
    (void)cap;
    YACL_ENFORCE(size >= 0);
    v_.resize(size);
  }
  template <typename T>
  Buffer(const T* d, size_t n) {
    v_.assign(reinterpret_cast<const uint8_t*>(d),
              reinterpret_cast<const uint8_t*>(d) + n);
  }
  Buffer(void* ptr, size_t n, const std::function<void(void*)>& deleter) {
    v_.assign(static_cast<uint8_t*>(ptr), static_cast<uint8_t*>(ptr) + n);
    if (deleter) deleter(ptr);
  }
  explicit Buffer(const std::string& s) : Buffer(s.data(), s.size()) {}
  explicit Buffer(std::string_view s) : Buffer(s.data(), s.size()) {}
  Buffer(ByteContainerView b) : Buffer(b.data(), b.size()) {}
  template <typename T,
            std::enable_if_t<sizeof(typename T::value_type) == 1 &&
                                 !std::is_same_v<T, Buffer>,
                             int> = 0>
  explicit Buffer(const T& c) : Buffer(c.data(), c.size()) {}

  template <typename T = void>
  T* data() {
    return reinterpret_cast<T*>(v_.data());
  }
  template <typename T = void>
  const T* data() const {
    return reinterpret_cast<const T*>(v_.data());
  }
  int64_t size() const { return static_cast<int64_t>(v_.size()); }
  int64_t capacity() const { return static_cast<int64_t>(v_.capacity()); }
  bool empty() const { return v_.empty(); }
  void resize(int64_t n) { v_.resize(n); }
  void reserve(int64_t n) { v_.reserve(n); }
  void reset() { v_.clear(); }
  bool operator==(const Buffer& o) const { return v_ == o.v_; }
  bool operator!=(const Buffer& o) const { return v_ != o.v_; }
  operator ByteContainerView() const {
    return ByteContainerView(v_.data(), v_.size());
  }
  explicit operator std::string() const { return ToString(); }
  operator std::string_view() const {
    return {reinterpret_cast<const char*>(v_.data()), v_.size()};
  }
  void* release() {
    auto* p = ::operator new(v_.size());
    std::memcpy(p, v_.data(), v_.size());
    v_.clear();
    return p;
  }
  friend std::ostream& operator<<(std::ostream& os, const Buffer& b) {
    return os << std::string_view(b);
  }

 private:
  std::string ToString() const {
    return std::string(reinterpret_cast<const char*>(v_.data()), v_.size());
  }
  std::vector<uint8_t> v_;
};
}  // namespace yacl
