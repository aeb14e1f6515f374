#pragma once
#include <string_view>
namespace butil { using StringPiece = std::string_view; }
namespace logging {
enum { BLOG_INFO = 0, BLOG_NOTICE, BLOG_WARNING, BLOG_ERROR, BLOG_FATAL };
class LogSink {
 public:
  virtual ~LogSink() = default;
  virtual bool OnLogMessage(int severity, const char* file, int line, const butil::StringPiece& c) = 0;
};
inline LogSink* SetLogSink(LogSink*) { return nullptr; }
inline void SetMinLogLevel(int) {}
}  // namespace logging
