#pragma once
#include <sstream>
#include <string>
#define APSI_SHIM_LOG(x)                 \
  {                                      \
    if (::apsi::Log::enabled) {          \
      std::ostringstream apsi_shim_oss;  \
      apsi_shim_oss << x;                \
    }                                    \
  }
#define APSI_LOG_DEBUG(x) APSI_SHIM_LOG(x)
#define APSI_LOG_INFO(x) APSI_SHIM_LOG(x)
#define APSI_LOG_WARNING(x) APSI_SHIM_LOG(x)
#define APSI_LOG_ERROR(x) APSI_SHIM_LOG(x)
namespace apsi {
struct Log {
  static inline bool enabled = true;
  static void SetConsoleDisabled(bool) {}
  static void SetLogFile(const std::string&) {}
  static void SetLogLevel(const std::string&) {}
};
}  // namespace apsi
