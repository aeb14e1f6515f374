#pragma once
#include "yacl/link/context.h"
namespace yacl::link {
std::vector<Buffer> Gather(const std::shared_ptr<Context>& ctx, ByteContainerView in, size_t root, std::string_view tag);
}
