#pragma once
#include <cstdint>
namespace yacl {
struct SecParam {
  using C = uint32_t;
  using S = uint32_t;
};
namespace crypto {}
}  // namespace yacl
#define YACL_MODULE_DECLARE(...)
#define YACL_PRINT_MODULE_SUMMARY() ((void)0)
