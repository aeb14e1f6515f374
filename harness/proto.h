// Deployments: a protocol, a ring, a number of parties and a configuration.
#pragma once
#include "layout.h"
#include "world.h"
#include "libspu/core/config.h"
#include "libspu/mpc/common/communicator.h"
#include "libspu/mpc/common/pv2k.h"
#include "libspu/mpc/factory.h"
#include "libspu/mpc/spdz2k/protocol.h"
namespace pr {
using namespace pbt;
using namespace lay;
using namespace spu;
enum Proto { kRef2k, kSemi2k, kAby3, kSecurenn, kSwift, kSpdz2k, kCheetah, kProtos };
inline const char* kProtoNames[] = {"REF2K", "SEMI2K", "ABY3", "SECURENN", "SWIFT", "SPDZ2K", "CHEETAH"};
struct Env {
  int proto = 0;
  FieldType field = FM64;
  size_t n = 2;
  RuntimeConfig cfg;
  int k = 64, w = 8;
  u128 mask = 0;
  uint64_t seed = 0, chaos = 0;
  std::string show() const { return fmt::format("{}/FM{}/{}pc", kProtoNames[proto], k, n); }
  i128 sgn(u128 x) const {
    if (k == 128) return static_cast<i128>(x);
    return (x >> (k - 1)) & 1 ? static_cast<i128>(x) - (static_cast<i128>(1) << k) : static_cast<i128>(x);
  }
};
// How the work of a run is scheduled: forced onto every deployment while on.
struct Sched {
  bool on = false, intra = false, threads = false;
  int64_t tile = 50000;
  uint64_t ot_work = 2048, chaos = 0, jitter = 0, conc = 0;
};
inline Sched sched;
inline FieldType field_of(int k) { return k == 32 ? FM32 : k == 64 ? FM64 : FM128; }
inline Env genv(Gen& g, const std::vector<int>& protos = {kRef2k, kSemi2k, kAby3, kSecurenn, kSwift, kSpdz2k, kCheetah}, bool knobs = true,
                const std::vector<int>& widths = {32, 64, 128}) {
  Env e;
  e.proto = g.of(protos);
  if (const char* f = getenv("HZ_PROTO")) e.proto = atoi(f);  // developer aid
  std::vector<int> ws;
  for (int x : widths) if (x != 128 || (e.proto != kSwift && e.proto != kSpdz2k)) ws.push_back(x);
  e.k = g.of(ws);
  e.field = field_of(e.k);
  e.w = e.k / 8;
  e.mask = lay::mask(e.w);
  switch (e.proto) {
    case kRef2k: e.n = 1 + g.u(2); break;
    case kSemi2k: e.n = g.of<size_t>({2, 2, 3, 4, 5}); break;
    case kAby3: case kSecurenn: case kSwift: e.n = 3; break;
    case kSpdz2k: e.n = g.of<size_t>({2, 2, 3}); break;
    default: e.n = 2;
  }
  e.cfg.protocol = std::vector<ProtocolKind>{ProtocolKind::REF2K, ProtocolKind::SEMI2K, ProtocolKind::ABY3, ProtocolKind::SECURENN,
                                             ProtocolKind::SWIFT, ProtocolKind::SEMI2K, ProtocolKind::CHEETAH}[e.proto];
  e.cfg.field = e.field;
  if (e.proto == kSpdz2k) e.cfg.beaver_type = RuntimeConfig::TrustedFirstParty;
  e.cfg.public_random_seed = g.u(1000);
  if (knobs) {
    e.cfg.trunc_allow_msb_error = g.p(0.2);
    e.cfg.experimental_disable_vectorization = g.p(0.3);
    e.cfg.experimental_disable_mmul_split = g.p(0.3);
    e.cfg.experimental_enable_intra_op_par = g.p(0.4);
    e.cfg.experimental_enable_colocated_optimization = g.p(0.4);
    e.cfg.max_concurrency = g.u(3);
    if (e.proto == kCheetah) {
      e.cfg.cheetah_2pc_config.ot_kind = g.of<CheetahOtKind>({CheetahOtKind::YACL_Ferret, CheetahOtKind::YACL_Softspoken});
      e.cfg.cheetah_2pc_config.disable_matmul_pack = g.p(0.3);
    }
  }
  e.seed = g.seed();
  e.chaos = g.p(0.5) ? 1 + g.u(1000) : 0;
  g.say("{}", e.show());
  g.tag(kProtoNames[e.proto]);
  return e;
}
inline std::unique_ptr<SPUContext> make(const Env& e, const hz::Lctx& lctx) {
  RuntimeConfig c = e.cfg;
  if (sched.on) {
    c.experimental_enable_intra_op_par = sched.intra;
    if (sched.conc != 0) c.max_concurrency = static_cast<int>(1 + mix(sched.conc + lctx->Rank()) % 6);
  }
  populateRuntimeConfig(c);
  if (e.proto == kSpdz2k) return mpc::makeSpdz2kProtocol(c, lctx);
  auto ctx = std::make_unique<SPUContext>(c, lctx);
  mpc::Factory::RegisterProtocol(ctx.get(), lctx);
  return ctx;
}
// fn(rank, ctx) on every party
template <class R, class F>
std::vector<R> run(const Env& e, const std::shared_ptr<sim::World>& w, F&& fn) {
  sim::parallel_chaos = sched.on ? sched.chaos : e.chaos;
  auto out = hz::parties<R>(w, e.seed, [&](size_t rank, const hz::Lctx& l) {
    auto ctx = make(e, l);
    return fn(rank, ctx.get());
  });
  sim::parallel_chaos = 0;
  if (w->leftover() != 0) throw Violation(fmt::format("{} messages were sent and never read", w->leftover()));
  return out;
}
template <class R, class F>
std::vector<R> run(const Env& e, F&& fn) {
  return run<R>(e, std::make_shared<sim::World>(e.n), std::forward<F>(fn));
}
inline Value pub(const Env& e, const NdArrayRef& raw, DataType dt) { return Value(raw.as(makeType<mpc::Pub2kTy>(e.field)), dt); }
// the owner holds the data, the others only know the shape
inline Value priv(const Env& e, const NdArrayRef& raw, DataType dt, size_t owner, size_t me) {
  auto ty = makeType<mpc::Priv2kTy>(e.field, owner);
  if (me == owner) return Value(raw.as(ty), dt);
  return Value(makeConstantArrayRef(ty, raw.shape()), dt);
}
// the same values in another memory layout, as the views large tensors keep between kernels
inline NdArrayRef odd(const NdArrayRef& a, int kind) {
  if (kind == 0 || a.numel() == 0) return a;
  Axes ax;
  for (size_t i = 0; i < a.shape().size(); ++i) ax.push_back(static_cast<int64_t>(a.shape().size() - 1 - i));
  if (kind == 1) return a.transpose(ax).clone().transpose(ax);
  if (kind == 2) return a.reverse(ax).clone().reverse(ax);
  auto c = a.clone();
  auto n = c.numel(), w = static_cast<int64_t>(c.elsize());
  auto buf = std::make_shared<yacl::Buffer>((2 * n + 1) * w);
  auto* p = static_cast<char*>(buf->data());
  memset(p, 0xa5, (2 * n + 1) * w);
  const auto* q = static_cast<const char*>(c.data());
  for (int64_t i = 0; i < n; ++i) memcpy(p + (1 + 2 * i) * w, q + i * w, w);
  auto st = makeCompactStrides(c.shape());
  for (auto& x : st) x *= 2;
  return NdArrayRef(buf, c.eltype(), c.shape(), st, w);
}
inline Value odd(const Value& v, int kind) { return kind == 0 || v.isComplex() ? v : Value(odd(v.data(), kind), v.dtype()); }
// adversarially chosen ring element
inline u128 elem(Gen& g, const Env& e) { return g.bits(e.k); }
}  // namespace pr
