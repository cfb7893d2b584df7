#pragma once
#include <string>
#include <tuple>
#include <vector>
#include <map>
#include <type_traits>
#include <cstring>
#include "yacl/base/buffer.h"
#include "yacl/base/exception.h"
#include "yacl/base/int128.h"
namespace yacl {
namespace shim_ser {
inline void Put(std::string& o, const void* p, size_t n) { o.append(static_cast<const char*>(p), n); }
inline void Get(std::string_view& v, void* p, size_t n) {
  YACL_ENFORCE(v.size() >= n, "short serialized data");
  if (n) std::memcpy(p, v.data(), n);
  v.remove_prefix(n);
}
template <typename T, typename = void> struct IsByteC : std::false_type {};
template <typename T> struct IsByteC<T, std::enable_if_t<std::is_same_v<T, std::string> || std::is_same_v<T, Buffer>>> : std::true_type {};
template <typename T> struct IsVec : std::false_type {};
template <typename T, typename A> struct IsVec<std::vector<T, A>> : std::true_type {};
template <typename T> struct IsPair : std::false_type {};
template <typename A, typename B> struct IsPair<std::pair<A, B>> : std::true_type {};
template <typename T> struct IsMap : std::false_type {};
template <typename A, typename B, typename C, typename D> struct IsMap<std::map<A, B, C, D>> : std::true_type {};
template <typename T>
void Ser(std::string& o, const T& v) {
  if constexpr (IsByteC<T>::value) {
    uint64_t n = v.size();
    Put(o, &n, 8);
    Put(o, v.data(), n);
  } else if constexpr (IsVec<T>::value) {
    uint64_t n = v.size();
    Put(o, &n, 8);
    for (const auto& x : v) Ser(o, static_cast<const typename T::value_type&>(x));
  } else if constexpr (IsPair<T>::value) {
    Ser(o, v.first);
    Ser(o, v.second);
  } else if constexpr (IsMap<T>::value) {
    uint64_t n = v.size();
    Put(o, &n, 8);
    for (const auto& [a, b] : v) { Ser(o, a); Ser(o, b); }
  } else {
    static_assert(std::is_trivially_copyable_v<T>);
    Put(o, &v, sizeof(T));
  }
}
template <typename T>
void De(std::string_view& s, T& v) {
  if constexpr (IsByteC<T>::value) {
    uint64_t n;
    Get(s, &n, 8);
    YACL_ENFORCE(n <= s.size(), "short serialized data");
    v = T(s.data(), n);
    s.remove_prefix(n);
  } else if constexpr (IsVec<T>::value) {
    uint64_t n;
    Get(s, &n, 8);
    YACL_ENFORCE(n <= s.size() + 1, "short serialized data");
    v.clear();
    for (uint64_t i = 0; i < n; ++i) {
      typename T::value_type x{};
      De(s, x);
      v.push_back(std::move(x));
    }
  } else if constexpr (IsPair<T>::value) {
    De(s, v.first);
    De(s, v.second);
  } else if constexpr (IsMap<T>::value) {
    uint64_t n;
    Get(s, &n, 8);
    for (uint64_t i = 0; i < n; ++i) {
      typename T::key_type k{};
      typename T::mapped_type m{};
      De(s, k);
      De(s, m);
      v.emplace(std::move(k), std::move(m));
    }
  } else {
    Get(s, &v, sizeof(T));
  }
}
}  // namespace shim_ser
template <typename... Args>
Buffer SerializeVars(const Args&... args) {
  std::string o;
  (shim_ser::Ser(o, args), ...);
  return Buffer(o.data(), o.size());
}
template <typename T>
T DeserializeVars(ByteContainerView b) {
  std::string_view s(reinterpret_cast<const char*>(b.data()), b.size());
  T v{};
  shim_ser::De(s, v);
  return v;
}
template <typename T1, typename T2, typename... Ts>
std::tuple<T1, T2, Ts...> DeserializeVars(ByteContainerView b) {
  std::string_view s(reinterpret_cast<const char*>(b.data()), b.size());
  std::tuple<T1, T2, Ts...> t;
  std::apply([&](auto&... x) { (shim_ser::De(s, x), ...); }, t);
  return t;
}
template <typename... Ts>
void DeserializeVarsTo(ByteContainerView b, Ts*... outs) {
  std::string_view s(reinterpret_cast<const char*>(b.data()), b.size());
  (shim_ser::De(s, *outs), ...);
}
inline Buffer SerializeUint128(uint128_t v) { return Buffer(&v, 16); }
inline uint128_t DeserializeUint128(ByteContainerView b) {
  YACL_ENFORCE(b.size() == 16);
  uint128_t v;
  std::memcpy(&v, b.data(), 16);
  return v;
}
inline Buffer SerializeInt128(int128_t v) { return Buffer(&v, 16); }
inline int128_t DeserializeInt128(ByteContainerView b) {
  YACL_ENFORCE(b.size() == 16);
  int128_t v;
  std::memcpy(&v, b.data(), 16);
  return v;
}
}  // namespace yacl
