#pragma once
namespace seal {
class MemoryPoolHandle {};
enum class mm_prof_opt { mm_default, mm_force_new };
constexpr mm_prof_opt mm_force_new = mm_prof_opt::mm_force_new;
struct MemoryManager {
  template <typename... A>
  static MemoryPoolHandle GetPool(A...) { return {}; }
};
enum class compr_mode_type : unsigned char { none = 0, zlib = 1, zstd = 2 };
struct Serialization { static constexpr compr_mode_type compr_mode_default = compr_mode_type::zstd; };
}  // namespace seal
