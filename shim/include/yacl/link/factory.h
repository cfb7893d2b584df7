#pragma once
#include "yacl/link/context.h"
namespace yacl::link {
// Every "factory" joins the process-wide in-memory mesh named by desc.id.
class ILinkFactory {
 public:
  virtual ~ILinkFactory() = default;
  virtual std::shared_ptr<Context> CreateContext(const ContextDesc& desc, size_t self_rank);
};
class FactoryMem : public ILinkFactory {};
class FactoryBrpc : public ILinkFactory {};
}  // namespace yacl::link
