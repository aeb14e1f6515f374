#pragma once
#include "yacl/link/context.h"
namespace yacl::link {
Buffer Scatter(const std::shared_ptr<Context>& ctx, const std::vector<ByteContainerView>& in, size_t root, std::string_view tag);
}
