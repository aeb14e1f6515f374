#pragma once
#include "yacl/link/algorithm/allgather.h"
#include "yacl/link/algorithm/barrier.h"
#include "yacl/link/algorithm/broadcast.h"
#include "yacl/link/algorithm/gather.h"
#include "yacl/link/algorithm/scatter.h"
#include "yacl/link/context.h"
#include "yacl/link/trace.h"
namespace yacl::link {
class FactoryMem {
 public:
  std::shared_ptr<Context> CreateContext(const ContextDesc& desc, size_t self_rank);
};
using FactoryBrpc = FactoryMem;
}  // namespace yacl::link
