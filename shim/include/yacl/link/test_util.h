#pragma once
#include <memory>
#include <string>
#include <vector>
#include "yacl/link/context.h"
#include "yacl/link/factory.h"
namespace yacl::link::test {
std::vector<std::shared_ptr<Context>> SetupWorld(const std::string& id, size_t world_size);
inline std::vector<std::shared_ptr<Context>> SetupWorld(size_t n) { return SetupWorld("shimworld", n); }
inline std::vector<std::shared_ptr<Context>> SetupBrpcWorld(const std::string& id, size_t n) { return SetupWorld(id, n); }
inline std::vector<std::shared_ptr<Context>> SetupBrpcWorld(size_t n) { return SetupWorld(n); }
}  // namespace yacl::link::test
