#pragma once
#include <string>
namespace yacl {
struct ShimArg {
  std::string v;
};
struct ShimArgKey {
  ShimArg operator=(const char* s) const { return ShimArg{s}; }
  ShimArg operator=(const std::string& s) const { return ShimArg{s}; }
};
inline const ShimArgKey ArgLib{};
}  // namespace yacl
