// Test double for yacl/base/exception.h (same macros and exception types).
#pragma once
#include <cstddef>
#include <exception>
#include <sstream>
#include <stdexcept>
#include <string>
#include <variant>
#include <memory>
#include <utility>
#include "absl/strings/escaping.h"
#include "absl/strings/numbers.h"
#include "absl/strings/str_join.h"
#include "absl/types/span.h"
#include "absl/strings/str_split.h"
#include "fmt/format.h"
#include "fmt/ostream.h"
#include "fmt/ranges.h"

namespace yacl {

class Exception : public std::exception {
 public:
  Exception() = default;
  explicit Exception(std::string msg) : msg_(std::move(msg)) {}
  explicit Exception(const char* msg) : msg_(msg) {}
  explicit Exception(std::string msg, void**, int) : msg_(std::move(msg)) {}
  const char* what() const noexcept override { return msg_.c_str(); }
  const std::string& stack_trace() const noexcept { return stack_; }

 private:
  std::string msg_;
  std::string stack_;
};

#define YACL_SHIM_EXC(NAME, BASE) \
  class NAME : public BASE {      \
    using BASE::BASE;             \
  };
YACL_SHIM_EXC(RuntimeError, Exception)
YACL_SHIM_EXC(LogicError, Exception)
class EnforceNotMet : public Exception {
 public:
  EnforceNotMet(const char* file, int line, const char* cond,
                const std::string& msg)
      : Exception(fmt::format("[Enforce fail at {}:{}] {}. {}", file, line,
                              cond, msg)) {}
};
YACL_SHIM_EXC(IoError, RuntimeError)
YACL_SHIM_EXC(LinkAborted, IoError)
YACL_SHIM_EXC(NetworkError, RuntimeError)
YACL_SHIM_EXC(InvalidFormat, RuntimeError)
YACL_SHIM_EXC(NotImplementedError, RuntimeError)
YACL_SHIM_EXC(ArgumentError, LogicError)
#undef YACL_SHIM_EXC

namespace internal {
template <typename... Args>
inline std::string Format(Args&&...) {
  return "";
}
inline std::string Format() { return ""; }
template <typename S, typename... Args,
          std::enable_if_t<std::is_convertible_v<const S&, fmt::string_view>,
                           int> = 0>
inline std::string FormatS(const S& f, Args&&... args) {
  return fmt::format(fmt::runtime(fmt::string_view(f)),
                     std::forward<Args>(args)...);
}
inline std::string FormatS() { return ""; }
}  // namespace internal

#define YACL_SHIM_CAT_(a, b) a##b
#define YACL_THROW_HELPER(ExceptionName, ...) \
  throw ExceptionName(fmt::format("[{}:{}] {}", __FILE__, __LINE__, \
                                  ::yacl::internal::FormatS(__VA_ARGS__)))
#define YACL_THROW_WITH_STACK(...) \
  YACL_THROW_HELPER(::yacl::RuntimeError, ##__VA_ARGS__)
#define YACL_THROW(...) YACL_THROW_HELPER(::yacl::RuntimeError, ##__VA_ARGS__)
#define YACL_THROW_IO_ERROR(...) \
  YACL_THROW_HELPER(::yacl::IoError, ##__VA_ARGS__)
#define YACL_THROW_NETWORK_ERROR(...) \
  YACL_THROW_HELPER(::yacl::NetworkError, ##__VA_ARGS__)
#define YACL_THROW_LOGIC_ERROR(...) \
  YACL_THROW_HELPER(::yacl::LogicError, ##__VA_ARGS__)
#define YACL_THROW_INVALID_FORMAT(...) \
  YACL_THROW_HELPER(::yacl::InvalidFormat, ##__VA_ARGS__)
#define YACL_THROW_ARGUMENT_ERROR(...) \
  YACL_THROW_HELPER(::yacl::ArgumentError, ##__VA_ARGS__)
#define YACL_THROW_ARITHMETIC_ERROR(...) YACL_THROW(__VA_ARGS__)

#define YACL_ENFORCE(condition, ...)                                      \
  do {                                                                    \
    if (!(condition)) {                                                   \
      throw ::yacl::EnforceNotMet(__FILE__, __LINE__, #condition,         \
                                  ::yacl::internal::FormatS(__VA_ARGS__)); \
    }                                                                     \
  } while (false)

#define YACL_SHIM_ENFORCE_OP(a, op, b, ...)                               \
  do {                                                                    \
    auto&& yacl_a_ = (a);                                                 \
    auto&& yacl_b_ = (b);                                                 \
    if (!(yacl_a_ op yacl_b_)) {                                          \
      throw ::yacl::EnforceNotMet(__FILE__, __LINE__, #a " " #op " " #b,  \
                                  ::yacl::internal::FormatS(__VA_ARGS__)); \
    }                                                                     \
  } while (false)
#define YACL_ENFORCE_EQ(a, b, ...) YACL_SHIM_ENFORCE_OP(a, ==, b, ##__VA_ARGS__)
#define YACL_ENFORCE_NE(a, b, ...) YACL_SHIM_ENFORCE_OP(a, !=, b, ##__VA_ARGS__)
#define YACL_ENFORCE_GT(a, b, ...) YACL_SHIM_ENFORCE_OP(a, >, b, ##__VA_ARGS__)
#define YACL_ENFORCE_GE(a, b, ...) YACL_SHIM_ENFORCE_OP(a, >=, b, ##__VA_ARGS__)
#define YACL_ENFORCE_LT(a, b, ...) YACL_SHIM_ENFORCE_OP(a, <, b, ##__VA_ARGS__)
#define YACL_ENFORCE_LE(a, b, ...) YACL_SHIM_ENFORCE_OP(a, <=, b, ##__VA_ARGS__)

template <typename T>
T CheckNotNullImpl(const char*, int, T t) {
  if (t == nullptr) throw RuntimeError("Must be non-null");
  return t;
}
template <typename T>
decltype(auto) CheckNotNull(T&& t) {
  if (t == nullptr) throw RuntimeError("Must be non-null");
  return std::forward<T>(t);
}
}  // namespace yacl

// yacl: in release builds a WEAK_ENFORCE failure only logs; debug builds throw.
#define WEAK_ENFORCE(...) YACL_ENFORCE(__VA_ARGS__)
