#pragma once
#include "yacl/link/context.h"
namespace yacl::link {
void Barrier(const std::shared_ptr<Context>& ctx, std::string_view tag);
}
