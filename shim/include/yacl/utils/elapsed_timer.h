#pragma once
#include <chrono>
namespace yacl {
class ElapsedTimer {
  std::chrono::steady_clock::time_point t_{std::chrono::steady_clock::now()};
  double acc_{0};
  bool run_{true};
 public:
  explicit ElapsedTimer(bool start = true) : run_(start) {}
  void Restart() { acc_ = 0; run_ = true; t_ = std::chrono::steady_clock::now(); }
  void Pause() { acc_ = CountMs(); run_ = false; }
  void Resume() { run_ = true; t_ = std::chrono::steady_clock::now(); }
  double CountMs() const {
    return acc_ + (run_ ? std::chrono::duration<double, std::milli>(std::chrono::steady_clock::now() - t_).count() : 0);
  }
  double CountSec() const { return CountMs() / 1e3; }
};
}  // namespace yacl
