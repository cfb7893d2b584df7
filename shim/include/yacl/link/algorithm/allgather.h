#pragma once
#include "yacl/link/context.h"
namespace yacl::link {
std::vector<Buffer> AllGather(const std::shared_ptr<Context>& ctx, ByteContainerView input, std::string_view tag);
std::vector<std::vector<Buffer>> AllGather(const std::shared_ptr<Context>& ctx, const std::vector<ByteContainerView>& inputs, std::string_view tag);
}
