// Runs the parties of one simulated deployment as threads.
#pragma once
#include <exception>
#include <memory>
#include <mutex>
#include <optional>
#include <thread>
#include <vector>
#include "pbt.h"
#include "sim.h"
#include "sim_world.h"
#include "libspu/core/config.h"
#include "libspu/core/context.h"
#include "libspu/mpc/factory.h"
#include "yacl/link/link.h"

namespace hz {
using Lctx = std::shared_ptr<yacl::link::Context>;

template <class R>
struct Run {
  std::vector<std::optional<R>> out;
  std::vector<std::string> err;  // per party, empty if fine
  std::string first;             // the first error in time
  bool ok() const { return first.empty(); }
};

template <class R, class F>
Run<R> parties_raw(const std::shared_ptr<sim::World>& w, uint64_t seed, F&& fn) {
  size_t n = w->size();
  Run<R> r;
  r.out.resize(n);
  r.err.resize(n);
  std::mutex mu;
  sim::SetFallbackSeed(seed);
  uint64_t chaos = sim::parallel_chaos;
  std::vector<std::thread> ts;
  for (size_t i = 0; i < n; ++i) {
    ts.emplace_back([&, i] {
      sim::SeedThread(seed, i + 1);
      sim::parallel_chaos = chaos;
      std::string e;
      try {
        r.out[i] = fn(i, w->ctx(i));
        return;
      } catch (const std::exception& x) {
        e = x.what();
      } catch (...) {
        e = "unknown exception";
      }
      if (e.empty()) e = "exception";
      {
        std::lock_guard<std::mutex> lk(mu);
        r.err[i] = e;
        if (r.first.empty()) r.first = fmt::format("party {}: {}", i, e);
      }
      w->Abort(e);
    });
  }
  for (auto& t : ts) t.join();
  return r;
}

// All parties must finish without an error and without unread messages.
template <class R, class F>
std::vector<R> parties(const std::shared_ptr<sim::World>& w, uint64_t seed, F&& fn) {
  auto r = parties_raw<R>(w, seed, std::forward<F>(fn));
  if (!r.ok()) throw pbt::Violation("protocol run failed: " + r.first);
  std::vector<R> o;
  for (auto& x : r.out) o.push_back(std::move(*x));
  return o;
}
template <class R, class F>
std::vector<R> parties(size_t n, uint64_t seed, F&& fn) {
  return parties<R>(std::make_shared<sim::World>(n), seed, std::forward<F>(fn));
}
}  // namespace hz
