#pragma once
#include "yacl/link/context.h"
namespace yacl::link {
std::vector<Buffer> AllGather(const std::shared_ptr<Context>& ctx, ByteContainerView in, std::string_view tag);
std::vector<std::vector<Buffer>> AllGather(const std::shared_ptr<Context>& ctx, const std::vector<ByteContainerView>& in, std::string_view tag);
}  // namespace yacl::link
