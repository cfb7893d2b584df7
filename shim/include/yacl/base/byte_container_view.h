#pragma once
#include <array>
#include <cstdint>
#include <cstring>
#include <string>
#include <string_view>
#include <type_traits>
#include <vector>
#include <iterator>
#include "absl/types/span.h"

namespace yacl {
class ByteContainerView {
 public:
  using value_type = uint8_t;
  constexpr ByteContainerView() = default;
  constexpr ByteContainerView(std::nullptr_t) {}
  template <typename T, std::enable_if_t<std::is_trivially_copyable_v<T> || std::is_void_v<T>, int> = 0>
  ByteContainerView(const T* data, size_t len)
      : data_(reinterpret_cast<const uint8_t*>(data)), len_(len) {}
  ByteContainerView(const char* s) : data_(reinterpret_cast<const uint8_t*>(s)), len_(strlen(s)) {}
  template <typename C,
            typename P = std::remove_pointer_t<
                decltype(std::declval<const C&>().data())>,
            std::enable_if_t<sizeof(std::conditional_t<std::is_void_v<P>, char, P>) == 1, int> = 0>
  ByteContainerView(const C& c)
      : data_(reinterpret_cast<const uint8_t*>(c.data())),
        len_(static_cast<size_t>(c.size())) {}
  // 16-byte integers as bytes
  explicit ByteContainerView(const unsigned __int128& v)
      : data_(reinterpret_cast<const uint8_t*>(&v)), len_(16) {}

  const uint8_t* data() const { return data_; }
  size_t size() const { return len_; }
  size_t length() const { return len_; }
  bool empty() const { return len_ == 0; }
  const uint8_t* begin() const { return data_; }
  const uint8_t* end() const { return data_ + len_; }
  const uint8_t* cbegin() const { return data_; }
  const uint8_t* cend() const { return data_ + len_; }
  const uint8_t& operator[](size_t i) const { return data_[i]; }
  ByteContainerView subspan(size_t pos, size_t n = static_cast<size_t>(-1)) const {
    return ByteContainerView(data_ + pos, std::min(n, len_ - pos));
  }
  operator absl::Span<const uint8_t>() const { return {data_, len_}; }
  operator std::string_view() const {
    return {reinterpret_cast<const char*>(data_), len_};
  }
  operator std::string() const {
    return std::string(reinterpret_cast<const char*>(data_), len_);
  }
  bool operator==(const ByteContainerView& o) const {
    return len_ == o.len_ && (len_ == 0 || std::memcmp(data_, o.data_, len_) == 0);
  }
  bool operator!=(const ByteContainerView& o) const { return !(*this == o); }

 private:
  const uint8_t* data_ = nullptr;
  size_t len_ = 0;
};
}  // namespace yacl
