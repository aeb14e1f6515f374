#pragma once
// Deterministic stand-in for yacl's thread pool.  The contract of
// parallel_for(begin, end, grain, f) is that f may be called on any partition
// of [begin, end) in any order; the harness exploits that: with
// sim::parallel_chaos enabled the range is cut at pseudo-random points and the
// pieces run in a pseudo-random order, so code that only works when it sees
// the whole range at once is exposed.
#include <algorithm>
#include <cstdint>
#include <functional>
#include <vector>
namespace sim {
// 0 = run as one piece. Otherwise a seed for the partition.
extern thread_local uint64_t parallel_chaos;
// Advances the chaos state and returns the partition, in execution order.
std::vector<std::pair<int64_t, int64_t>> ParallelPartition(int64_t b, int64_t e);
// Set: the pieces of a partitioned loop run in threads of their own.
extern bool parallel_threads;
void RunThreads(const std::vector<std::pair<int64_t, int64_t>>& parts, const std::function<void(int64_t, int64_t)>& f);
}  // namespace sim
namespace yacl {
int get_num_threads();
void set_num_threads(int);
inline bool in_parallel_region() { return false; }
template <typename F>
void parallel_for(int64_t begin, int64_t end, int64_t /*grain*/, const F& f) {
  if (begin >= end) return;
  if (sim::parallel_chaos == 0) {
    f(begin, end);
    return;
  }
  auto parts = sim::ParallelPartition(begin, end);
  if (sim::parallel_threads && parts.size() > 1) {
    sim::RunThreads(parts, f);
    return;
  }
  for (const auto& [b, e] : parts) f(b, e);
}
template <typename F>
void parallel_for(int64_t begin, int64_t end, const F& f) {
  parallel_for(begin, end, 1, f);
}
template <typename T, typename F, typename SF>
T parallel_reduce(int64_t begin, int64_t end, int64_t /*grain*/, const F& f, const SF& sf) {
  if (sim::parallel_chaos == 0 || begin >= end) return f(begin, end);
  auto parts = sim::ParallelPartition(begin, end);
  std::sort(parts.begin(), parts.end());
  bool first = true;
  T acc{};
  for (const auto& [b, e] : parts) {
    T v = f(b, e);
    acc = first ? v : sf(acc, v);
    first = false;
  }
  return acc;
}
}  // namespace yacl
