// Completing and validating runtime configurations.
#include "config_gen.h"
#include "pbt.h"
#include "world.h"
#include "libspu/core/config.h"
#include "libspu/core/context.h"
#include "libspu/mpc/factory.h"
#include "yacl/utils/parallel.h"
namespace {
template <class F>
bool throws(F&& f) {
  try { f(); } catch (const std::exception&) { return true; }
  return false;
}
// The documented completion, written over the wire form.
pb::RuntimeConfig model(pb::RuntimeConfig p) {
  if (p.max_concurrency() == 0) p.set_max_concurrency(yacl::get_num_threads());
  if (p.fxp_fraction_bits() == 0) p.set_fxp_fraction_bits(p.field() == pb::FM32 ? 8 : p.field() == pb::FM64 ? 18 : 26);
  if (p.fxp_div_goldschmidt_iters() == 0) p.set_fxp_div_goldschmidt_iters(RuntimeConfig::kDefaultFxpDivGoldschmidtIters);
  if (p.quick_sort_threshold() == 0) p.set_quick_sort_threshold(RuntimeConfig::kDefaultQuickSortThreshold);
  if (p.fxp_exp_mode() == pb::RuntimeConfig::EXP_DEFAULT) p.set_fxp_exp_mode(pb::RuntimeConfig::EXP_TAYLOR);
  if (p.fxp_exp_mode() == pb::RuntimeConfig::EXP_PRIME && p.field() == pb::FM128 && p.experimental_exp_prime_offset() == 0)
    p.set_experimental_exp_prime_offset(13);
  if (p.fxp_exp_iters() == 0) p.set_fxp_exp_iters(RuntimeConfig::kDefaultFxpExpIters);
  if (p.fxp_log_mode() == pb::RuntimeConfig::LOG_DEFAULT) p.set_fxp_log_mode(pb::RuntimeConfig::LOG_MINMAX);
  if (p.fxp_log_iters() == 0) p.set_fxp_log_iters(RuntimeConfig::kDefaultFxpLogIters);
  if (p.fxp_log_orders() == 0) p.set_fxp_log_orders(RuntimeConfig::kDefaultFxpLogOrders);
  if (p.sine_cosine_iters() == 0) p.set_sine_cosine_iters(RuntimeConfig::kDefaultSineCosineIters);
  if (p.experimental_enable_inter_op_par() && p.experimental_inter_op_concurrency() == 0)
    p.set_experimental_inter_op_concurrency(RuntimeConfig::kDefaultExperimentalInterOpConcurrency);
  if (p.sigmoid_mode() == pb::RuntimeConfig::SIGMOID_DEFAULT) p.set_sigmoid_mode(pb::RuntimeConfig::SIGMOID_REAL);
  return p;
}
pb::RuntimeConfig gen(Gen& g) {
  pb::RuntimeConfig p;
  fill(g, &p, g.of({0.0, 0.3, 0.6, 0.95}));
  if (p.protocol() == pb::PROT_INVALID) p.set_protocol(static_cast<pb::ProtocolKind>(1 + g.u(5)));
  if (p.field() == pb::FT_INVALID) p.set_field(static_cast<pb::FieldType>(1 + g.u(2)));
  return p;
}
}  // namespace
PBT(C36, complete, 100000, 1000000, "some field is unset and some field is set") {
  auto p = gen(g);
  int dflt = yacl::get_num_threads();
  struct Restore { int n; ~Restore() { yacl::set_num_threads(n); } } restore{dflt};
  yacl::set_num_threads(static_cast<int>(1 + g.u(15)));
  g.say("{} threads {}", yacl::get_num_threads(), p.ShortDebugString());
  auto want = model(p);
  g.nontrivial(want.SerializeAsString() != p.SerializeAsString());
  RuntimeConfig in(p), c(p);
  populateRuntimeConfig(c);
  auto bad = same_config(c, want);
  REQUIRE(bad.empty(), "field {} is not completed as documented", bad);
  auto full = makeFullRuntimeConfig(in);
  bad = same_config(full, want);
  REQUIRE(bad.empty(), "makeFullRuntimeConfig: field {}", bad);
  bad = same_config(in, p);
  REQUIRE(bad.empty(), "makeFullRuntimeConfig changed field {} of its argument", bad);
  populateRuntimeConfig(c);
  bad = same_config(c, want);
  REQUIRE(bad.empty(), "completing twice changes field {}", bad);
  // consistent with the ring
  if (p.fxp_fraction_bits() == 0) REQUIRE(c.fxp_fraction_bits > 0 && 2 * c.fxp_fraction_bits < (p.field() == pb::FM32 ? 32 : p.field() == pb::FM64 ? 64 : 128), "fxp");
  // a runtime created with it
  if (p.max_concurrency() < 0) return;
  SPUContext ctx(in, nullptr);
  bad = same_config(ctx.config(), want);
  REQUIRE(bad.empty(), "runtime: field {}", bad);
  REQUIRE(ctx.getField() == in.field && static_cast<int64_t>(ctx.getFxpBits()) == want.fxp_fraction_bits(), "ring or fraction bits of the runtime");
  auto f = ctx.fork();
  bad = same_config(f->config(), want);
  REQUIRE(bad.empty(), "forked runtime: field {}", bad);
}
PBT(C36, reject, 60000, 600000, "exactly one thing is inconsistent") {
  auto p = gen(g);
  p.set_max_concurrency(1);
  g.nontrivial();
  switch (g.u(4)) {
    case 0: g.say("no protocol"); p.set_protocol(pb::PROT_INVALID); break;
    case 1: g.say("no ring"); p.set_field(pb::FT_INVALID); break;
    case 2: g.say("unknown ring"); p.set_field(static_cast<pb::FieldType>(4 + g.u(20))); p.set_fxp_fraction_bits(0); break;
    case 3: {
      // unknown protocol: no kernels can be registered
      p.set_protocol(static_cast<pb::ProtocolKind>(7 + g.u(20)));
      g.say("unknown protocol {}", static_cast<int>(p.protocol()));
      RuntimeConfig c(p);
      REQUIRE(throws([&] { SPUContext ctx(c, nullptr); mpc::Factory::RegisterProtocol(&ctx, nullptr); }), "runtime created");
      REQUIRE(throws([&] { mpc::Factory::CreateIO(c, 3); }), "io created");
      return;
    }
    default: {
      p.set_protocol(g.of({pb::ABY3, pb::SECURENN, pb::SWIFT}));
      auto n = g.of({1UL, 2UL, 4UL, 5UL});
      g.say("protocol {} with {} parties", static_cast<int>(p.protocol()), n);
      RuntimeConfig c(p);
      REQUIRE(throws([&] { mpc::Factory::CreateIO(c, n); }), "io created");
      mpc::Factory::CreateIO(c, 3);
      return;
    }
  }
  RuntimeConfig c(p);
  REQUIRE(throws([&] { auto d = c; populateRuntimeConfig(d); }), "completed");
  REQUIRE(throws([&] { makeFullRuntimeConfig(c); }), "makeFullRuntimeConfig completed it");
  REQUIRE(throws([&] { SPUContext ctx(c, nullptr); }), "runtime created");
}
PBT(C36, concurrency, 1500, 20000, "the parties configure different limits") {
  size_t n = 2 + g.u(2);
  std::vector<int> lim;
  int mn = 1 << 30;
  for (size_t i = 0; i < n; ++i) {
    lim.push_back(static_cast<int>(1 + g.u(11)));
    mn = std::min(mn, lim.back());
  }
  int dflt = yacl::get_num_threads();
  yacl::set_num_threads(16);
  struct Restore { int n; ~Restore() { yacl::set_num_threads(n); } } restore{dflt};
  g.say("limits {}", fmt::join(lim, ","));
  g.nontrivial(std::set<int>(lim.begin(), lim.end()).size() > 1);
  auto r = hz::parties<std::pair<int, int>>(n, g.seed(), [&](size_t i, const hz::Lctx& l) {
    RuntimeConfig c(SEMI2K, FM64);
    c.max_concurrency = lim[i];
    SPUContext ctx(c, l);
    return std::pair<int, int>{ctx.getClusterLevelMaxConcurrency(), ctx.config().max_concurrency};
  });
  for (size_t i = 0; i < n; ++i) {
    // set_num_threads is process-wide in this simulation, so another party may lower the start value
    REQUIRE(r[i].first <= mn && r[i].first >= 1, "party {}: cluster level concurrency {}", i, r[i].first);
    REQUIRE(r[i].first == r[0].first, "parties disagree on the concurrency");
    REQUIRE(r[i].second == lim[i], "own limit changed");
  }
}
