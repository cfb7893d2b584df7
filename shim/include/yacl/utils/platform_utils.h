#pragma once
namespace yacl {
namespace shim { extern bool g_ifma; }
inline bool hasAVX2() { return __builtin_cpu_supports("avx2"); }
inline bool hasBMI2() { return __builtin_cpu_supports("bmi2"); }
inline bool hasAESNI() { return true; }
// The IPP crypto path is selected by this predicate; the harness chooses.
inline bool hasAVX512ifma() { return shim::g_ifma; }
}  // namespace yacl
