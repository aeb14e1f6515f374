#pragma once
// In-memory, FIFO-per-peer link with the semantics of yacl::link::Context.
#include <atomic>
#include <cstdint>
#include <functional>
#include <memory>
#include <string>
#include <string_view>
#include <vector>
#include "yacl/base/buffer.h"
#include "yacl/base/byte_container_view.h"
#include "yacl/base/exception.h"

namespace sim {
class World;
struct LinkEvent {
  size_t src, dst;
  bool collective;
  std::string tag;
};
}  // namespace sim

namespace yacl::link {
inline constexpr size_t kAllRank = static_cast<size_t>(-1);

struct Statistics {
  std::atomic<size_t> sent_bytes = 0U;
  std::atomic<size_t> sent_actions = 0U;
  std::atomic<size_t> recv_bytes = 0U;
  std::atomic<size_t> recv_actions = 0U;
};

struct ContextDesc {
  static constexpr uint32_t kDefaultRecvTimeoutMs = 30 * 1000;
  struct Party { std::string id; std::string host; };
  std::string id = "root";
  std::vector<Party> parties;
  uint32_t connect_retry_times = 10;
  uint32_t recv_timeout_ms = kDefaultRecvTimeoutMs;
  uint32_t http_max_payload_size = 0;
  uint32_t http_timeout_ms = 0;
};

class Context {
 public:
  Context(std::shared_ptr<sim::World> world, std::string id, size_t rank)
      : world_(std::move(world)), id_(std::move(id)), rank_(rank),
        stats_(std::make_shared<Statistics>()) {}
  std::string Id() const { return id_; }
  size_t WorldSize() const;
  size_t Rank() const { return rank_; }
  size_t NextRank(size_t stride = 1) const { return (rank_ + stride) % WorldSize(); }
  size_t PrevRank(size_t stride = 1) const {
    return (rank_ + WorldSize() - stride % WorldSize()) % WorldSize();
  }
  void ConnectToMesh() {}
  void SetThrottleWindowSize(size_t) {}
  void SetRecvTimeout(uint64_t) {}
  uint64_t GetRecvTimeout() const { return 0; }
  void SendAsync(size_t dst, ByteContainerView v, std::string_view tag);
  void SendAsync(size_t dst, Buffer&& v, std::string_view tag) {
    SendAsync(dst, ByteContainerView(v), tag);
  }
  void SendAsyncThrottled(size_t dst, ByteContainerView v, std::string_view tag) { SendAsync(dst, v, tag); }
  void SendAsyncThrottled(size_t dst, Buffer&& v, std::string_view tag) { SendAsync(dst, ByteContainerView(v), tag); }
  void Send(size_t dst, ByteContainerView v, std::string_view tag) { SendAsync(dst, v, tag); }
  Buffer Recv(size_t src, std::string_view tag);
  std::unique_ptr<Context> Spawn(const std::string& id = "");
  std::shared_ptr<const Statistics> GetStats() const { return stats_; }
  void PrintStats() {}
  void WaitLinkTaskFinish() {}
  void AbortLink();

  // Collective channel (used by the algorithm/ stand-ins).
  // event: counter and kind of the collective call, empty for point to point
  std::string NextEvent(const char* kind) { return std::to_string(++event_counter_) + ":" + kind; }
  void SendInternal(size_t dst, ByteContainerView v, const std::string& event, std::string_view tag);
  Buffer RecvInternal(size_t src, const std::string& event, std::string_view tag);
  const std::shared_ptr<sim::World>& world() const { return world_; }

 private:
  std::shared_ptr<sim::World> world_;
  std::string id_;
  size_t rank_;
  std::shared_ptr<Statistics> stats_;
  size_t child_counter_{0};
  size_t event_counter_{0};
};
}  // namespace yacl::link
