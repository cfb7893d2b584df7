// Test double for cpu_features. SHIM_NO_PCLMUL=1 in the environment hides
// pclmulqdq so that the portable code path can be exercised as well.
#pragma once
#include <cstdlib>
namespace cpu_features {
struct X86Features {
  int pclmulqdq = 0;
  int aes = 0, avx = 0, avx2 = 0, avx512ifma = 0, sse4_1 = 0, sse2 = 0;
};
struct X86Info {
  X86Features features;
};
inline X86Info GetX86Info() {
  X86Info i;
  i.features.pclmulqdq = __builtin_cpu_supports("pclmul") && getenv("SHIM_NO_PCLMUL") == nullptr;
  i.features.aes = __builtin_cpu_supports("aes");
  i.features.avx = __builtin_cpu_supports("avx");
  i.features.avx2 = __builtin_cpu_supports("avx2");
  i.features.avx512ifma = 0;
  i.features.sse4_1 = i.features.sse2 = 1;
  return i;
}
}  // namespace cpu_features
