// Verification stand-in for yacl (not available offline): exceptions and
// enforcement macros with the semantics libspu relies on.
#pragma once
#include <cstdint>
#include <cstring>
#include <memory>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>
#include <array>
#include <map>
#include <unordered_map>
#include <optional>
#include <functional>
#include <algorithm>
#include <numeric>
#include <mutex>
#include "fmt/format.h"
#include "fmt/ostream.h"
#include "fmt/ranges.h"
#include "spdlog/spdlog.h"
#include "spdlog/sinks/ansicolor_sink.h"
#include "spdlog/sinks/stdout_color_sinks.h"

namespace yacl {
class Exception : public std::exception {
 public:
  Exception() = default;
  explicit Exception(std::string msg) : msg_(std::move(msg)) {}
  explicit Exception(const char* msg) : msg_(msg) {}
  // (msg, stack, depth, append_stack) compatible ctor
  Exception(std::string msg, void**, int, bool = false) : msg_(std::move(msg)) {}
  const char* what() const noexcept override { return msg_.c_str(); }
  const std::string& stack_trace() const noexcept { return stack_; }

 private:
  std::string msg_;
  std::string stack_;
};
class RuntimeError : public Exception { using Exception::Exception; };
class LogicError : public Exception { using Exception::Exception; };
class NotImplementedError : public Exception { using Exception::Exception; };
class IoError : public RuntimeError { using RuntimeError::RuntimeError; };
class NetworkError : public IoError { using IoError::IoError; };
class LinkAborted : public NetworkError { using NetworkError::NetworkError; };
class InvalidFormat : public RuntimeError { using RuntimeError::RuntimeError; };
class ArgumentError : public RuntimeError { using RuntimeError::RuntimeError; };
class EnforceNotMet : public Exception {
 public:
  EnforceNotMet(const char* file, int line, const char* cond,
                const std::string& msg)
      : Exception(fmt::format("[Enforce fail at {}:{}] {}. {}", file, line,
                              cond, msg)) {}
  EnforceNotMet(const char* file, int line, const char* cond,
                const std::string& msg, void**, int)
      : EnforceNotMet(file, line, cond, msg) {}
};

namespace internal {
inline std::string Format() { return {}; }
template <typename... Args>
std::string Format(fmt::format_string<Args...> f, Args&&... args) {
  return fmt::format(f, std::forward<Args>(args)...);
}
}  // namespace internal

template <typename T>
T CheckNotNull(const char* file, int line, const char* name, T&& t) {
  if (t == nullptr) {
    throw EnforceNotMet(file, line, name, "must be non-null");
  }
  return std::forward<T>(t);
}
template <typename T>
decltype(auto) CheckNotNull(T&& t) {
  if (t == nullptr) {
    throw EnforceNotMet("", 0, "CheckNotNull", "must be non-null");
  }
  return std::forward<T>(t);
}
}  // namespace yacl

#define YACL_PREDICT_FALSE(x) (__builtin_expect((x), 0))
#define YACL_THROW_HELPER(ExceptionName, ...) \
  throw ExceptionName(                        \
      fmt::format("[{}:{}] {}", __FILE__, __LINE__, fmt::format(__VA_ARGS__)))
#define YACL_THROW(...) YACL_THROW_HELPER(::yacl::RuntimeError, __VA_ARGS__)
#define YACL_THROW_LOGIC_ERROR(...) \
  YACL_THROW_HELPER(::yacl::LogicError, __VA_ARGS__)
#define YACL_THROW_IO_ERROR(...) YACL_THROW_HELPER(::yacl::IoError, __VA_ARGS__)
#define YACL_THROW_NETWORK_ERROR(...) \
  YACL_THROW_HELPER(::yacl::NetworkError, __VA_ARGS__)
#define YACL_THROW_INVALID_FORMAT(...) \
  YACL_THROW_HELPER(::yacl::InvalidFormat, __VA_ARGS__)
#define YACL_THROW_ARGUMENT_ERROR(...) \
  YACL_THROW_HELPER(::yacl::ArgumentError, __VA_ARGS__)

#define YACL_ENFORCE(condition, ...)                                     \
  do {                                                                   \
    if (!(condition)) {                                                  \
      throw ::yacl::EnforceNotMet(__FILE__, __LINE__, #condition,        \
                                  ::yacl::internal::Format(__VA_ARGS__)); \
    }                                                                    \
  } while (false)

#define YACL_ENFORCE_THAT_IMPL(op, x, y, ...)                                 \
  do {                                                                        \
    const auto& yacl_lhs_ = (x);                                              \
    const auto& yacl_rhs_ = (y);                                              \
    if (!(yacl_lhs_ op yacl_rhs_)) {                                          \
      throw ::yacl::EnforceNotMet(                                            \
          __FILE__, __LINE__, #x " " #op " " #y,                              \
          fmt::format("{} vs {}. ", yacl_lhs_, yacl_rhs_) +                   \
              ::yacl::internal::Format(__VA_ARGS__));                         \
    }                                                                         \
  } while (false)
#define YACL_ENFORCE_EQ(x, y, ...) YACL_ENFORCE_THAT_IMPL(==, x, y, ##__VA_ARGS__)
#define YACL_ENFORCE_NE(x, y, ...) YACL_ENFORCE_THAT_IMPL(!=, x, y, ##__VA_ARGS__)
#define YACL_ENFORCE_LE(x, y, ...) YACL_ENFORCE_THAT_IMPL(<=, x, y, ##__VA_ARGS__)
#define YACL_ENFORCE_LT(x, y, ...) YACL_ENFORCE_THAT_IMPL(<, x, y, ##__VA_ARGS__)
#define YACL_ENFORCE_GE(x, y, ...) YACL_ENFORCE_THAT_IMPL(>=, x, y, ##__VA_ARGS__)
#define YACL_ENFORCE_GT(x, y, ...) YACL_ENFORCE_THAT_IMPL(>, x, y, ##__VA_ARGS__)
