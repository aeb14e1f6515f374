#pragma once
// The simulated network: parties are threads of one process, every message
// goes through here, and can be recorded, altered or cut.
#include <condition_variable>
#include <cstdint>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <string>
#include <vector>
#include "yacl/link/link.h"
namespace sim {
struct Msg {
  std::string ctx, tag;
  size_t src = 0, dst = 0;
  bool coll = false;
  std::string data;
  int64_t epoch = -1;  // sim::epoch of the sender
  std::string event;   // yacl's key of a collective round; empty: point to point
};
class World : public std::enable_shared_from_this<World> {
 public:
  explicit World(size_t n) : n_(n) {}
  size_t size() const { return n_; }
  std::shared_ptr<yacl::link::Context> ctx(size_t rank);
  void Send(Msg m);
  std::string Recv(const std::string& ctx, size_t src, size_t dst, const std::string& event);
  // Wakes up everybody with an error.
  void Abort(const std::string& why);
  bool aborted();
  size_t leftover();
  // Harness options (set before the parties start).
  bool record = false;
  std::function<void(Msg&)> tamper;  // called under the lock, in send order per link
  double stall_timeout_s = 40;
  std::vector<Msg> log;
  size_t messages = 0, bytes = 0;
 private:
  size_t n_;
  std::mutex mu_;
  std::condition_variable cv_;
  std::map<std::tuple<std::string, size_t, size_t, std::string>, std::deque<std::string>> q_;
  bool aborted_ = false;
  std::string why_;
  uint64_t activity_ = 0;
};
// Thread-unsafe setting: seed for threads that never called SeedThread.
void SetFallbackSeed(uint64_t s);
}  // namespace sim
