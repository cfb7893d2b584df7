#include <filesystem>
#include "yacl/base/exception.h"
namespace psi::apsi_wrapper {
// Same contract as psi/wrapper/apsi/utils/common.cc, whose file needs APSI.
__attribute__((weak)) void throw_if_file_invalid(const std::string& f) {
  if (!std::filesystem::exists(f)) throw std::invalid_argument("file does not exist: " + f);
  if (!std::filesystem::is_regular_file(f)) throw std::invalid_argument("file does not exist: " + f);
}
}  // namespace psi::apsi_wrapper
