// Random runtime configurations, driven by the protobuf schema.
#pragma once
#include <google/protobuf/reflection.h>
#include <google/protobuf/descriptor.h>
#include "pbt.h"
#include "libspu/spu.h"
#include "libspu/spu.pb.h"
namespace cfgen {
using namespace pbt;
using namespace spu;
namespace gp = google::protobuf;
inline std::string gstr(Gen& g) {
  std::string s;
  auto n = g.u(6);
  for (uint64_t i = 0; i < n; ++i) s += g.of<std::string>({"a", "/", "x:1", "\"", "\\", "\n", "é", " ", "0", "{}", "-----BEGIN"});
  return s;
}
// every field the schema declares, each unset, small or extreme
inline void fill(Gen& g, gp::Message* m, double dens) {
  const auto* d = m->GetDescriptor();
  const auto* r = m->GetReflection();
  for (int i = 0; i < d->field_count(); ++i) {
    const auto* f = d->field(i);
    if (f->is_repeated()) {
      auto n = g.u(3);
      for (uint64_t k = 0; k < n; ++k) r->AddString(m, f, gstr(g));
      continue;
    }
    if (!g.p(dens)) continue;
    switch (f->cpp_type()) {
      case gp::FieldDescriptor::CPPTYPE_BOOL: r->SetBool(m, f, g.p()); break;
      case gp::FieldDescriptor::CPPTYPE_INT32: r->SetInt32(m, f, static_cast<int32_t>(g.bits(32))); break;
      case gp::FieldDescriptor::CPPTYPE_INT64: r->SetInt64(m, f, static_cast<int64_t>(g.bits(64))); break;
      case gp::FieldDescriptor::CPPTYPE_UINT32: r->SetUInt32(m, f, static_cast<uint32_t>(g.bits(32))); break;
      case gp::FieldDescriptor::CPPTYPE_UINT64: r->SetUInt64(m, f, static_cast<uint64_t>(g.bits(64))); break;
      case gp::FieldDescriptor::CPPTYPE_ENUM: r->SetEnum(m, f, f->enum_type()->value(static_cast<int>(g.u(f->enum_type()->value_count() - 1)))); break;
      case gp::FieldDescriptor::CPPTYPE_STRING: r->SetString(m, f, gstr(g)); break;
      case gp::FieldDescriptor::CPPTYPE_MESSAGE: fill(g, r->MutableMessage(m, f), dens); break;
      default: break;
    }
  }
}
inline std::string same_config(const RuntimeConfig& c, const pb::RuntimeConfig& p) {
#define F(n) if (static_cast<std::decay_t<decltype(p.n())>>(c.n) != p.n()) return #n;
  F(protocol) F(field) F(fxp_fraction_bits) F(max_concurrency) F(enable_action_trace) F(enable_type_checker)
  F(enable_pphlo_trace) F(enable_runtime_snapshot) F(snapshot_dump_dir) F(enable_pphlo_profile) F(enable_hal_profile)
  F(public_random_seed) F(share_max_chunk_size) F(sort_method) F(quick_sort_threshold) F(fxp_div_goldschmidt_iters)
  F(fxp_exp_mode) F(fxp_exp_iters) F(fxp_log_mode) F(fxp_log_iters) F(fxp_log_orders) F(sigmoid_mode)
  F(enable_lower_accuracy_rsqrt) F(sine_cosine_iters) F(beaver_type) F(trunc_allow_msb_error)
  F(experimental_disable_mmul_split) F(experimental_enable_inter_op_par) F(experimental_enable_intra_op_par)
  F(experimental_disable_vectorization) F(experimental_inter_op_concurrency) F(experimental_enable_colocated_optimization)
  F(experimental_enable_exp_prime) F(experimental_exp_prime_offset) F(experimental_exp_prime_disable_lower_bound)
  F(experimental_exp_prime_enable_upper_bound)
#undef F
  if (c.cheetah_2pc_config.disable_matmul_pack != p.cheetah_2pc_config().disable_matmul_pack()) return "cheetah.disable_matmul_pack";
  if (c.cheetah_2pc_config.enable_mul_lsb_error != p.cheetah_2pc_config().enable_mul_lsb_error()) return "cheetah.enable_mul_lsb_error";
  if (static_cast<int>(c.cheetah_2pc_config.ot_kind) != static_cast<int>(p.cheetah_2pc_config().ot_kind())) return "cheetah.ot_kind";
  if (c.has_ttp_beaver_config() != p.has_ttp_beaver_config()) return "has_ttp_beaver_config";
  if (c.has_ttp_beaver_config()) {
    const auto &t = *c.ttp_beaver_config;
    const auto& q = p.ttp_beaver_config();
    if (t.server_host != q.server_host()) return "ttp.server_host";
    if (t.adjust_rank != q.adjust_rank()) return "ttp.adjust_rank";
    if (t.asym_crypto_schema != q.asym_crypto_schema()) return "ttp.asym_crypto_schema";
    if (t.server_public_key != q.server_public_key()) return "ttp.server_public_key";
    if (t.transport_protocol != q.transport_protocol()) return "ttp.transport_protocol";
    if (t.has_ssl_config() != q.has_ssl_config()) return "ttp.has_ssl_config";
    if (t.has_ssl_config()) {
      if (t.ssl_config->certificate != q.ssl_config().certificate()) return "ssl.certificate";
      if (t.ssl_config->private_key != q.ssl_config().private_key()) return "ssl.private_key";
      if (t.ssl_config->ca_file_path != q.ssl_config().ca_file_path()) return "ssl.ca_file_path";
      if (t.ssl_config->verify_depth != q.ssl_config().verify_depth()) return "ssl.verify_depth";
    }
  }
  return "";
}
}  // namespace cfgen
using namespace cfgen;
