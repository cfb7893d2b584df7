#pragma once
#include <cstddef>
#include <cstdint>
#include <stdexcept>
#include <tuple>
#include <type_traits>
namespace seal::util {
template <typename T>
inline T reverse_bits(T operand, int bit_count) {
  T r = 0;
  for (int i = 0; i < bit_count; ++i) r |= ((operand >> i) & 1) << (bit_count - 1 - i);
  return r;
}
template <typename T, typename S>
inline T safe_cast(S v) {
  T r = static_cast<T>(v);
  if (static_cast<S>(r) != v || ((r < T(0)) != (v < S(0)))) throw std::logic_error("cast failed");
  return r;
}
template <typename T>
inline T mul_safe(T a, T b) {
  T r;
  if (__builtin_mul_overflow(a, b, &r)) throw std::logic_error("unsigned overflow");
  return r;
}
template <typename T>
inline T add_safe(T a, T b) {
  T r;
  if (__builtin_add_overflow(a, b, &r)) throw std::logic_error("unsigned overflow");
  return r;
}
template <typename P>
struct PtrIter {
  P p_;
  P ptr() const { return p_; }
};
template <typename P>
struct StrideIter {
  P p_;
  std::size_t stride_;
  StrideIter(P p, std::size_t s) : p_(p), stride_(s) {}
  PtrIter<P> at(std::size_t i) const { return {p_ + i * stride_}; }
};
struct SeqIter {
  std::size_t v;
  std::size_t at(std::size_t i) const { return v + i; }
};
template <typename C>
struct RefIter {
  C* c;
  decltype(auto) at(std::size_t i) const { return (*c)[i]; }
};
template <typename P>
inline StrideIter<P> wrap_iter(const StrideIter<P>& s) { return s; }
inline SeqIter wrap_iter(std::size_t s) { return {s}; }
template <typename C, typename = std::enable_if_t<!std::is_arithmetic_v<C>>, typename = decltype(std::declval<C&>().size())>
inline RefIter<C> wrap_iter(C& c) { return {&c}; }
template <typename... I>
struct IterTuple {
  std::tuple<I...> t;
  auto at(std::size_t i) const {
    return std::apply([&](auto&... x) { return std::tuple<decltype(x.at(i))...>(x.at(i)...); }, t);
  }
};
template <typename... A>
inline auto iter(A&&... a) { return IterTuple<decltype(wrap_iter(a))...>{{wrap_iter(a)...}}; }
template <typename It, typename F>
inline void seal_for_each_n(It it, std::size_t n, F&& f) {
  for (std::size_t i = 0; i < n; ++i) f(it.at(i));
}
}  // namespace seal::util
