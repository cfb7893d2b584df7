#pragma once
#include <string>
#define DEFINE_string(n, d, h) std::string FLAGS_##n = d
#define DEFINE_bool(n, d, h) bool FLAGS_##n = d
#define DEFINE_int32(n, d, h) int FLAGS_##n = d
namespace gflags { inline void SetVersionString(const std::string&) {} inline void AllowCommandLineReparsing() {} inline void ParseCommandLineFlags(int*, char***, bool) {} }
