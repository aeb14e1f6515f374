// Scheduling: the generators and oracles of the functional checks under forced
// task sizes, loop partitions, threads, delays and concurrency limits, and
// programs running at the same time on forked contexts.
#include <atomic>
#include "libspu/core/trace.h"
#include "prog.h"
namespace spu::mpc::cheetah { extern size_t kOTMinWorkSize; }
using namespace prog;
namespace {
struct Pick { const char *prop, *name; int w; };
const std::vector<Pick> kPicks = {
    {"C14", "chains", 12}, {"C15", "programs", 16}, {"C16", "programs", 20}, {"C17", "secrets", 10}, {"C17", "exact", 6}, {"C18", "random", 3}, {"C18", "given", 3},
    {"C24", "programs", 14}, {"C24", "products", 4}, {"C25", "linear", 3}, {"C25", "multiply", 6}, {"C25", "divide", 4}, {"C26", "unary", 5}, {"C26", "rounding", 2},
    {"C26", "angle", 1}, {"C26", "power", 1}, {"C27", "programs", 5}, {"C28", "reduce", 3}, {"C28", "maxpool", 3}, {"C28", "conv", 2}, {"C29", "sort", 2}, {"C29", "topk", 2},
    {"C30", "permute", 2}, {"C30", "groupby", 1}, {"C31", "nest", 4}, {"C32", "chain", 4}, {"C33", "uniform", 3}, {"C34", "client", 4},
};
struct Forced {
  explicit Forced(Gen& g) {
    sched.on = true;
    sched.intra = g.p(0.8);
    sched.tile = g.p(0.8) ? 1 + static_cast<int64_t>(g.u(11)) : 1 + static_cast<int64_t>(g.u(60));
    sched.ot_work = 6 + g.u(10);
    sched.chaos = g.p(0.6) ? 1 + g.u(1000) : 0;
    sched.threads = sched.chaos != 0 && g.p(0.3);
    sched.jitter = g.p(0.4) ? 1 + g.u(1000) : 0;
    sched.conc = g.p(0.7) ? 1 + g.u(1000) : 0;
    g.say("[tile {} ot {} intra {} chaos {} threads {} delays {} limits {}]", sched.tile, sched.ot_work, sched.intra, sched.chaos, sched.threads, sched.jitter, sched.conc);
    if (sched.intra) g.tag("tiled");
    if (sched.threads) g.tag("loop pieces in threads");
    if (sched.jitter) g.tag("delays");
    spu::kMinTaskSize = sched.tile;
    spu::mpc::cheetah::kOTMinWorkSize = sched.ot_work;
    sim::parallel_threads = sched.threads;
    sim::jitter = sched.jitter;
  }
  ~Forced() {
    sched = Sched();
    spu::kMinTaskSize = 50000;
    spu::mpc::cheetah::kOTMinWorkSize = 2048;
    sim::parallel_threads = false;
    sim::jitter = 0;
  }
};
#ifdef __SANITIZE_THREAD__
std::atomic<int> g_races{0};
#endif
void schedules(Gen& g) {
  Forced f(g);
  std::vector<Pick> picks;  // those linked into this binary
  for (auto& p : kPicks)
    for (auto& s : registry()) if (s.prop == p.prop && s.name == p.name) picks.push_back(p);
  int tot = 0;
  for (auto& p : picks) tot += p.w;
  int r = static_cast<int>(g.u(tot - 1));
  size_t j = 0;
  while (r >= picks[j].w) r -= picks[j++].w;
  g.say("{} {}:", picks[j].prop, picks[j].name);
  g.tag(fmt::format("{} {}", picks[j].prop, picks[j].name));
  for (auto& s : registry())
    if (s.prop == picks[j].prop && s.name == picks[j].name) return s.fn(g);
  throw Violation("internal: unknown check");
}
// Independent programs on forked contexts, started in different orders by the
// parties, while the parent context goes on computing.
void forks(Gen& g) {
  Forced f(g);
  auto e = genv(g, {kSemi2k, kSemi2k, kAby3, kAby3, kSecurenn, kRef2k});
  Options o;
  o.weights = {{ADD, 3}, {SUB, 2}, {MUL, 9}, {SQUARE, 2}, {MMUL, 4}, {AND, 3}, {XOR, 2}, {RSHIFT, 2}, {ARSHIFT, 2}, {MSB, 4}, {EQUAL, 3}, {MUX, 2}, {TO_S, 1}, {PREFER_A, 3}, {PREFER_B, 3}, {CONCAT, 1}};
  o.max_ops = 5;
  if (e.proto == kSecurenn) o.weights = {{ADD, 3}, {SUB, 2}, {MUL, 9}, {SQUARE, 2}, {MMUL, 4}, {AND, 3}, {XOR, 2}, {PREFER_A, 3}, {PREFER_B, 3}, {TO_S, 1}, {CONCAT, 1}};
  size_t np = 2 + g.u(2);
  bool sequential = g.p(0.25), nested = g.p(0.4);
  std::vector<std::unique_ptr<Program>> ps;
  size_t sec = 0;
  for (size_t i = 0; i < np; ++i) {
    ps.push_back(std::make_unique<Program>(g, e, o));
    sec += ps.back()->has_secret();
    g.say("|");
  }
  std::vector<std::vector<int64_t>> order;
  for (size_t p = 0; p < e.n; ++p) order.push_back(g.perm(np));
  g.nontrivial(sec >= 2 && e.proto != kRef2k);
  g.tag(sequential ? "one after the other" : "at the same time");
  struct Out { std::vector<Program::Out> o; };
  auto out = run<Out>(e, [&](size_t me, SPUContext* ctx) {
    std::vector<std::unique_ptr<SPUContext>> subs;
    std::vector<SPUContext*> cx(np);
    // program 0 runs on the parent, the others on its forks or on forks of forks
    cx[0] = ctx;
    for (size_t i = 1; i < np; ++i) {
      subs.push_back((nested && i > 1 ? subs.back().get() : ctx)->fork());
      cx[i] = subs.back().get();
    }
    for (auto& c : subs) GET_TRACER(c.get());  // made from the parent's, before that one is in use
    Out r;
    r.o.resize(np);
    auto one = [&](size_t i) { r.o[i] = ps[i]->run_party(cx[i], me, std::vector<int>(ps[i]->n.size(), 0)); };
    if (sequential) {
      for (size_t i = 0; i < np; ++i) one(i);
      return r;
    }
    std::vector<std::thread> ts;
    std::vector<std::exception_ptr> err(np);
    uint64_t chaos = sim::parallel_chaos;
    for (auto i : order[me]) {
      ts.emplace_back([&, i] {
        sim::SeedThread(e.seed + 77, me * 100 + static_cast<uint64_t>(i));
        sim::parallel_chaos = chaos;
        try { one(static_cast<size_t>(i)); } catch (...) { err[static_cast<size_t>(i)] = std::current_exception(); }
      });
    }
    for (auto& t : ts) t.join();
    for (auto& x : err) if (x) std::rethrow_exception(x);
    return r;
  });
  for (size_t p = 0; p < e.n; ++p)
    for (size_t i = 0; i < np; ++i) {
      auto& q = out[p].o[i];
      REQUIRE(q.bad.empty(), "{}: program {}: party {}: {}", e.show(), i, p, q.bad);
      for (size_t k = 0; k < ps[i]->n.size(); ++k) {
        auto d = diff(q.v[k], ps[i]->n[k].v);
        REQUIRE(d.empty(), "{}: program {} node {} ({}) seen by party {}: {}", e.show(), i, k, ps[i]->show(ps[i]->n[k]), p, d);
      }
    }
}
}  // namespace
#ifndef __SANITIZE_THREAD__
PBT(C23, schedules, 4500, 250000, "the case of the underlying check is non-trivial") { schedules(g); }
PBT(C23, forks, 2000, 60000, "at least two programs with a secret each") { forks(g); }
#else
// The same in a build that reports data races. Eigen sets a global to the same
// value in every product, and the OT adapters count themselves for their logs;
// both are left out.
extern "C" const char* __tsan_default_suppressions() { return "race:manage_multi_threading\nrace:yacl_id_\n"; }
extern "C" const char* __tsan_default_options() { return "exitcode=0:die_after_fork=0:report_signal_unsafe=0:atexit_sleep_ms=0:history_size=4"; }
extern "C" void __tsan_on_report(void*) { ++g_races; }
namespace {
void no_race(Gen& g, void (*f)(Gen&)) {
  g_races = 0;
  f(g);
  REQUIRE(g_races == 0, "threads raced on shared data (a replay prints where)");
}
}  // namespace
PBT(C23, races, 1500, 60000, "the case of the underlying check is non-trivial") { no_race(g, schedules); }
PBT(C23, fork_races, 600, 20000, "at least two programs with a secret each") { no_race(g, forks); }
#endif
