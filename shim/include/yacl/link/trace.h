#pragma once
#include <memory>
#include <string_view>
#include "spdlog/sinks/stdout_color_sinks.h"
#include "spdlog/spdlog.h"

#include "yacl/base/byte_container_view.h"
namespace yacl::link {
class TraceLogger {
 public:
  virtual ~TraceLogger() = default;
  static void SetLogger(std::shared_ptr<TraceLogger>) {}
  static void LinkTrace(std::string_view, std::string_view, ByteContainerView) {}
 protected:
  virtual void LinkTraceImpl(std::string_view, std::string_view, std::string_view) {}
};
}  // namespace yacl::link
