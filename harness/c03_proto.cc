// Wire form of values, types and configurations.
#include <google/protobuf/reflection.h>
#include <google/protobuf/util/json_util.h>
#include <google/protobuf/util/message_differencer.h>
#include "pbt.h"
#include "config_gen.h"
#include "libspu/core/config.h"
#include "libspu/core/value.h"
#include "libspu/mpc/aby3/type.h"
#include "libspu/mpc/cheetah/type.h"
#include "libspu/mpc/common/pv2k.h"
#include "libspu/mpc/experimental/swift/type.h"
#include "libspu/mpc/securenn/type.h"
#include "libspu/mpc/semi2k/type.h"
#include "libspu/mpc/spdz2k/type.h"
#include "libspu/spu.h"
#include "libspu/spu.pb.h"
using namespace pbt;
using namespace spu;
namespace {
const std::vector<FieldType> kFields{FM32, FM64, FM128};
const std::vector<PtType> kPts{PT_I8, PT_U8, PT_I16, PT_U16, PT_I32, PT_U32, PT_I64, PT_U64, PT_I128, PT_U128,
                               PT_I1, PT_F16, PT_F32, PT_F64, PT_CF32, PT_CF64};
const std::vector<PtType> kBack{PT_U8, PT_U16, PT_U32, PT_U64, PT_U128};
const std::vector<DataType> kDt{DT_I1, DT_I8, DT_U8, DT_I16, DT_U16, DT_I32, DT_U32, DT_I64, DT_U64, DT_F16, DT_F32, DT_F64};
void reg() {
  static bool done = false;
  if (done) return;
  done = true;
  mpc::semi2k::registerTypes();
  mpc::aby3::registerTypes();
  mpc::cheetah::registerTypes();
  mpc::securenn::registerTypes();
  mpc::spdz2k::registerTypes();
  mpc::swift::registerTypes();
}
struct TypeCase {
  Type t;
  std::string id;   // parameters, for injectivity
  size_t size;      // bytes of an element by definition
  Visibility vis;
};
int fbytes(FieldType f) { return f == FM32 ? 4 : f == FM64 ? 8 : 16; }
int ptbytes(PtType p) {
  switch (p) {
    case PT_I8: case PT_U8: case PT_I1: return 1;
    case PT_I16: case PT_U16: case PT_F16: return 2;
    case PT_I32: case PT_U32: case PT_F32: return 4;
    case PT_I64: case PT_U64: case PT_F64: case PT_CF32: return 8;
    default: return 16;
  }
}
TypeCase gtype(Gen& g, bool storage_only) {
  reg();
  auto f = g.of(kFields);
  size_t b = fbytes(f);
  auto nb = static_cast<size_t>(g.u(b * 8));
  auto mk = [&](Type t, const std::string& id, size_t sz, Visibility v) { return TypeCase{std::move(t), id, sz, v}; };
  int kind = static_cast<int>(g.u(storage_only ? 19 : 23));
  auto fid = [&](const char* n) { return fmt::format("{} {}", n, b * 8); };
  auto bid = [&](const char* n) { return fmt::format("{} {} nbits {}", n, b * 8, nb); };
  switch (kind) {
    case 0: return mk(makeType<mpc::Pub2kTy>(f), fid("pub"), b, VIS_PUBLIC);
    case 1: {
      auto o = static_cast<int64_t>(g.of({0UL, 1UL, 2UL, 7UL, 12UL, 1000UL}));
      return mk(makeType<mpc::Priv2kTy>(f, o), fmt::format("priv {} owner {}", b * 8, o), b, VIS_PRIVATE);
    }
    case 2: return mk(makeType<mpc::semi2k::AShrTy>(f), fid("semi2k a"), b, VIS_SECRET);
    case 3: return mk(makeType<mpc::semi2k::BShrTy>(f, nb), bid("semi2k b"), b, VIS_SECRET);
    case 4: return mk(makeType<mpc::semi2k::PShrTy>(), "semi2k p", 8, VIS_SECRET);
    case 5: return mk(makeType<mpc::aby3::AShrTy>(f), fid("aby3 a"), 2 * b, VIS_SECRET);
    case 6: {
      auto p = g.of(kBack);
      auto n = g.u(ptbytes(p) * 8);
      return mk(makeType<mpc::aby3::BShrTy>(p, n), fmt::format("aby3 b {} {}", ptbytes(p), n), 2 * ptbytes(p), VIS_SECRET);
    }
    case 7: return mk(makeType<mpc::aby3::OShrTy>(f), fid("aby3 o"), 2 * b, VIS_SECRET);
    case 8: return mk(makeType<mpc::aby3::OPShrTy>(f), fid("aby3 op"), b, VIS_SECRET);
    case 9: return mk(makeType<mpc::aby3::PShrTy>(), "aby3 p", 16, VIS_SECRET);
    case 10: return mk(makeType<mpc::cheetah::AShrTy>(f), fid("cheetah a"), b, VIS_SECRET);
    case 11: return mk(makeType<mpc::cheetah::BShrTy>(f, nb), bid("cheetah b"), b, VIS_SECRET);
    case 12: return mk(makeType<mpc::cheetah::PShrTy>(), "cheetah p", 8, VIS_SECRET);
    case 13: return mk(makeType<mpc::securenn::AShrTy>(f), fid("securenn a"), b, VIS_SECRET);
    case 14: return mk(makeType<mpc::securenn::BShrTy>(f, nb), bid("securenn b"), b, VIS_SECRET);
    case 15: return mk(makeType<mpc::spdz2k::AShrTy>(f), fid("spdz2k a"), 2 * b, VIS_SECRET);
    case 16: {
      auto p = g.of(kBack);
      auto n = g.u(ptbytes(p) * 8);
      return mk(makeType<mpc::spdz2k::BShrTy>(p, n, f), fmt::format("spdz2k b {} {} {}", ptbytes(p), n, b), 2 * b * (b * 8 / 2), VIS_SECRET);
    }
    case 17: return mk(makeType<mpc::swift::AShrTy>(f), fid("swift a"), 3 * b, VIS_SECRET);
    case 18: return mk(makeType<mpc::swift::BShrTy>(f, nb), bid("swift b"), 3 * b, VIS_SECRET);
    case 19: return mk(makeType<mpc::swift::PShrTy>(), "swift p", 8, VIS_SECRET);
    case 20: { auto p = g.of(kPts); return mk(makePtType(p), fmt::format("pt {}", static_cast<int>(p)), ptbytes(p), VIS_INVALID); }
    case 21: return mk(makeType<RingTy>(f), fid("ring"), b, VIS_INVALID);
    case 22: return mk(makeType<GfmpTy>(f), fid("gfmp"), b, VIS_INVALID);
    default: return mk(Type(), "void", 0, VIS_INVALID);
  }
}
template <class F>
bool throws(F&& f) {
  try { f(); } catch (const std::exception&) { return true; }
  return false;
}
// elements in row-major order, from strides alone
std::string bytes(const NdArrayRef& a) {
  std::string out;
  int64_t n = 1;
  for (auto d : a.shape()) n *= d;
  const auto* base = static_cast<const char*>(a.buf()->data()) + a.offset();
  for (int64_t i = 0; i < n; ++i) {
    int64_t r = i, o = 0;
    for (size_t k = a.shape().size(); k-- > 0;) { o += (r % a.shape()[k]) * a.strides()[k]; r /= a.shape()[k]; }
    out.append(base + o * static_cast<int64_t>(a.elsize()), a.elsize());
  }
  return out;
}
NdArrayRef array(Gen& g, const Type& ty, const Shape& shape) {
  size_t n = shape.size();
  Strides st(n, 0);
  int64_t step = 1;
  bool plain = g.p(0.3);
  auto order = g.perm(n);
  if (plain) for (size_t i = 0; i < n; ++i) order[i] = static_cast<int64_t>(n - 1 - i);
  for (auto k : order) {
    if (!plain && g.p(0.15)) { st[k] = 0; continue; }  // broadcast
    st[k] = step;
    step = step * std::max<int64_t>(1, shape[k]) + (plain ? 0 : static_cast<int64_t>(g.u(1)));
  }
  int64_t lo = 0, hi = 0;
  for (size_t k = 0; k < n; ++k) {
    if (shape[k] <= 1) st[k] = 0;
    if (!plain && g.p(0.2)) st[k] = -st[k];
    auto e = st[k] * (std::max<int64_t>(1, shape[k]) - 1);
    (e < 0 ? lo : hi) += e;
  }
  int64_t off = -lo + (plain ? 0 : static_cast<int64_t>(g.u(2)));
  int64_t len = off + hi + 1 + static_cast<int64_t>(g.u(2));
  auto es = static_cast<int64_t>(ty.size());
  auto buf = std::make_shared<yacl::Buffer>(len * es);
  auto* p = static_cast<uint8_t*>(buf->data());
  uint64_t s = g.seed();
  for (int64_t i = 0; i < len * es; ++i) p[i] = static_cast<uint8_t>(mix(s + static_cast<uint64_t>(i)));
  return NdArrayRef(buf, ty, shape, st, off * es);
}
struct ValueCase { TypeCase t; Value v; size_t chunk; std::string re, im; };
ValueCase gvalue(Gen& g) {
  ValueCase c{gtype(g, true), {}, 0, "", ""};
  Shape shape;
  auto nd = g.u(3);
  int64_t n = 1, cap = c.t.size > 64 ? 6 : 60;
  for (uint64_t i = 0; i < nd; ++i) {
    auto d = static_cast<int64_t>(g.u(g.p(0.2) ? 6 : 3));
    if (n * d > cap) d = 1;
    shape.push_back(d);
    n *= d;
  }
  auto dt = g.of(kDt);
  auto re = array(g, c.t.t, shape);
  c.re = bytes(re);
  if (g.p(0.25)) {
    auto im = array(g, c.t.t, shape);
    c.im = bytes(im);
    c.v = Value(re, im, dt);
  } else c.v = Value(re, dt);
  size_t total = c.re.size();
  switch (g.u(4)) {
    case 0: c.chunk = total + g.u(2); break;
    case 1: c.chunk = total > 1 ? total - 1 : 1; break;
    case 2: c.chunk = 1 + g.u(15); break;
    case 3: c.chunk = 1 + g.u(std::max<size_t>(total, 1) - 1); break;
    default: c.chunk = 128 << 20;
  }
  c.chunk = std::max<size_t>(c.chunk, 1 + total / 300);
  g.say("{} shape {} dtype {} {} chunk {} layout {}/{}", c.t.id, fmt::join(shape, "x"), static_cast<int>(dt),
        c.v.isComplex() ? "complex" : "real", c.chunk, fmt::join(re.strides(), ","), re.offset());
  return c;
}
void check_equal(const Value& v, const ValueCase& c) {
  REQUIRE(v.dtype() == c.v.dtype(), "data type {}", static_cast<int>(v.dtype()));
  REQUIRE(v.shape() == c.v.shape(), "shape {}", fmt::join(v.shape(), "x"));
  REQUIRE(v.storage_type() == c.t.t && v.storage_type().toString() == c.t.t.toString(), "storage type {}", v.storage_type().toString());
  REQUIRE(v.elsize() == c.t.size, "element size {}", v.elsize());
  REQUIRE(v.vtype() == c.t.vis, "visibility");
  REQUIRE(v.isComplex() == c.v.isComplex(), "complexness");
  REQUIRE(bytes(v.data()) == c.re, "elements differ");
  if (v.isComplex()) REQUIRE(bytes(*v.imag()) == c.im, "imaginary elements differ");
}
}  // namespace
PBT(C03, values, 60000, 800000, "at least one element and more than one chunk or a strided layout") {
  auto c = gvalue(g);
  auto p = c.v.toProto(c.chunk);
  size_t total = c.re.size(), parts = c.v.isComplex() ? 2 : 1, per = (total + c.chunk - 1) / c.chunk;
  g.nontrivial(total > 0 && (per > 1 || !c.v.data().isCompact()));
  g.tag(c.v.isComplex() ? "complex" : "real");
  // the wire form itself
  REQUIRE(c.v.chunksCount(c.chunk) == per * parts, "chunksCount {} instead of {}", c.v.chunksCount(c.chunk), per * parts);
  REQUIRE(p.chunks.size() == per * parts, "{} chunks instead of {}", p.chunks.size(), per * parts);
  for (size_t i = 0; i < p.chunks.size(); ++i) {
    const auto& k = p.chunks[i];
    const auto& all = i < per ? c.re : c.im;
    size_t off = (i % per) * c.chunk;
    REQUIRE(k.content().size() <= c.chunk, "chunk of {} bytes", k.content().size());
    REQUIRE(k.total_bytes() == total && k.chunk_offset() == off, "chunk header {} {}", k.total_bytes(), k.chunk_offset());
    REQUIRE(k.content() == all.substr(off, c.chunk), "chunk {} holds other bytes", i);
  }
  REQUIRE(p.meta.data_type() == pb::DataType(c.v.dtype()) && p.meta.visibility() == pb::Visibility(c.t.vis) &&
              p.meta.is_complex() == c.v.isComplex(), "meta data");
  REQUIRE(gp::util::MessageDifferencer::Equals(p.meta, c.v.toMetaProto()), "meta data differs from toMetaProto");
  // through bytes, with the chunks of each part in any order
  ValueProto q;
  REQUIRE(q.meta.ParseFromString(p.meta.SerializeAsString()), "meta data does not parse");
  for (size_t part = 0; part < parts; ++part) {
    for (auto i : g.perm(per)) {
      pb::ValueChunkProto k;
      REQUIRE(k.ParseFromString(p.chunks[part * per + i].SerializeAsString()), "chunk does not parse");
      q.chunks.push_back(k);
    }
  }
  check_equal(Value::fromProto(q), c);
  check_equal(c.v, c);
  check_equal(c.v.clone(), c);
}
PBT(C03, corrupted, 60000, 800000, "the value has at least one element") {
  auto c = gvalue(g);
  if (c.re.empty()) throw Discard{};
  g.nontrivial();
  auto p = c.v.toProto(c.chunk);
  auto k = g.u(p.chunks.size() - 1);
  auto& ch = p.chunks[k];
  std::string what;
  switch (g.u(11)) {
    case 0: what = "drop"; p.chunks.erase(p.chunks.begin() + static_cast<int64_t>(k)); break;
    case 1: {
      what = "duplicate";
      auto copy = ch;
      p.chunks.insert(p.chunks.begin() + static_cast<int64_t>(g.u(p.chunks.size())), copy);
      break;
    }
    case 2: {
      what = "truncate";
      std::string s = ch.content();
      s.resize(s.size() - 1 - g.u(s.size() - 1));
      ch.set_content(s);
      break;
    }
    case 3: {
      what = "extend";
      std::string s = ch.content();
      s += std::string(1 + g.u(40), 'x');
      ch.set_content(s);
      break;
    }
    case 4: {
      what = "offset";
      auto o = ch.chunk_offset();
      auto d = g.of<uint64_t>({1, c.chunk, static_cast<uint64_t>(-1), c.re.size(), 1ULL << 32, 1ULL << 63});
      ch.set_chunk_offset(o + d);
      break;
    }
    case 5: what = "total"; ch.set_total_bytes(ch.total_bytes() + g.of<uint64_t>({1, static_cast<uint64_t>(-1), 1ULL << 33})); break;
    case 6: {
      what = "visibility";
      auto v = g.of({VIS_SECRET, VIS_PUBLIC, VIS_PRIVATE, VIS_INVALID});
      if (v == c.t.vis) throw Discard{};
      p.meta.set_visibility(pb::Visibility(v));
      break;
    }
    case 7: what = "dtype"; p.meta.set_data_type(pb::DT_INVALID); break;
    case 8: {
      what = "shape";
      if (p.meta.shape().dims_size() == 0 || g.p(0.3)) p.meta.mutable_shape()->add_dims(2 + static_cast<int64_t>(g.u(3)));
      else {
        auto d = static_cast<int>(g.u(p.meta.shape().dims_size() - 1));
        p.meta.mutable_shape()->set_dims(d, p.meta.shape().dims(d) + 1 + static_cast<int64_t>(g.u(3)));
      }
      break;
    }
    case 9: what = "storage id"; p.meta.set_storage_type(g.of<std::string>({"", "x", "nothing<FM64>", "Pub2k", "Pub2k<>", "Pub2k<FM65>", "semi2k.BShr<FM64,x>"})); break;
    case 10: {
      what = "storage width";
      auto o = gtype(g, true);
      if (o.size == c.t.size || o.vis != c.t.vis) throw Discard{};
      p.meta.set_storage_type(o.t.toString());
      break;
    }
    default: {
      what = "complex flag";
      p.meta.set_is_complex(!p.meta.is_complex());
    }
  }
  g.tag(what);
  g.say("{} of chunk {}", what, k);
  bool rejected = throws([&] { Value::fromProto(p); });
  REQUIRE(rejected, "{}: accepted", what);
}
PBT(C03, types, 200000, 2000000, "the two types have different parameters") {
  auto a = gtype(g, false), b = gtype(g, false);
  g.say("{} / {}", a.id, b.id);
  g.nontrivial(a.id != b.id);
  auto s = a.t.toString();
  auto r = Type::fromString(s);
  REQUIRE(r == a.t && r.toString() == s, "{} reads back as {}", s, r.toString());
  REQUIRE(a.t.size() == a.size, "{} has size {} instead of {}", s, a.t.size(), a.size);
  REQUIRE(r.size() == a.size, "{} read back has size {} instead of {}", s, r.size(), a.size);
  auto copy = a.t;
  Type assigned;
  assigned = b.t;
  assigned = a.t;
  REQUIRE(copy == a.t && assigned == a.t && copy.size() == a.size && assigned.size() == a.size, "copy of {} differs", s);
  REQUIRE((a.t == b.t) == (a.id == b.id), "{} == {} is {}", s, b.t.toString(), a.t == b.t);
  REQUIRE((a.t != b.t) == (a.id != b.id), "{} != {}", s, b.t.toString());
  REQUIRE((s == b.t.toString()) == (a.id == b.id), "{} and {} print alike", a.id, b.id);
  auto vis = r.isa<Secret>() ? VIS_SECRET : r.isa<Public>() ? VIS_PUBLIC : r.isa<Private>() ? VIS_PRIVATE : VIS_INVALID;
  REQUIRE(vis == a.vis, "{} read back has another visibility", s);
  if (a.vis == VIS_PRIVATE) REQUIRE(r.as<Private>()->owner() == a.t.as<Private>()->owner(), "owner changed");
  if (r.isa<BShare>()) REQUIRE(r.as<BShare>()->nbits() == a.t.as<BShare>()->nbits(), "nbits changed");
  if (r.isa<Ring2k>()) REQUIRE(r.as<Ring2k>()->field() == a.t.as<Ring2k>()->field(), "field changed");
  if (r.isa<Gfp>()) REQUIRE(r.as<Gfp>()->p() == a.t.as<Gfp>()->p(), "prime changed");
}
PBT(C03, configs, 20000, 300000, "at least ten fields differ from the default") {
  pb::RuntimeConfig p;
  fill(g, &p, g.of({0.1, 0.5, 0.95}));
  std::vector<const gp::FieldDescriptor*> set;
  p.GetReflection()->ListFields(p, &set);
  g.nontrivial(set.size() >= 10);
  g.say("{}", p.ShortDebugString());
  RuntimeConfig c(p);
  auto bad = same_config(c, p);
  REQUIRE(bad.empty(), "field {} changed on the way in", bad);
  auto full = p;
  full.mutable_cheetah_2pc_config();
  auto cmp = [&](pb::RuntimeConfig q, const char* how) {
    q.mutable_cheetah_2pc_config();
    gp::util::MessageDifferencer df;
    std::string why;
    df.ReportDifferencesToString(&why);
    bool eq = df.Compare(full, q);
    REQUIRE(eq, "{}: {}", how, why);
  };
  cmp(c.ToProto(), "ToProto");
  RuntimeConfig d;
  REQUIRE(d.ParseFromString(c.SerializeAsString()), "serialised form does not parse");
  bad = same_config(d, p);
  REQUIRE(bad.empty(), "field {} changed by serialising", bad);
  RuntimeConfig copy(c);
  bad = same_config(copy, p);
  REQUIRE(bad.empty(), "field {} changed by copying", bad);
  std::string js;
  if (gp::util::MessageToJsonString(p, &js).ok()) {
    RuntimeConfig e;
    REQUIRE(e.ParseFromJsonString(js), "JSON form does not parse: {}", js);
    bad = same_config(e, p);
    REQUIRE(bad.empty(), "field {} changed through JSON", bad);
  }
  // truncated bytes are either rejected or a prefix of whole fields
  auto s = c.SerializeAsString();
  RuntimeConfig t;
  REQUIRE(!t.ParseFromString(s + "\x0f"), "trailing garbage accepted");
  REQUIRE(c.DebugString() == c.ToProto().DebugString(), "DebugString");
}
PBT(C03, options, 20000, 300000, "at least four fields are set") {
  pb::CompilerOptions p;
  fill(g, &p, g.of({0.2, 0.5, 0.95}));
  std::vector<const gp::FieldDescriptor*> set;
  p.GetReflection()->ListFields(p, &set);
  g.nontrivial(set.size() >= 4);
  g.say("{}", p.ShortDebugString());
  CompilerOptions o;
  REQUIRE(o.ParseFromString(p.SerializeAsString()), "does not parse");
#define F(n) REQUIRE(static_cast<std::decay_t<decltype(p.n())>>(o.n) == p.n(), "{} changed", #n);
  F(enable_pretty_print) F(pretty_print_dump_dir) F(xla_pp_kind) F(disable_sqrt_plus_epsilon_rewrite) F(disable_div_sqrt_rewrite)
  F(disable_reduce_truncation_optimization) F(disable_maxpooling_optimization) F(disallow_mix_types_opts)
  F(disable_select_optimization) F(enable_optimize_denominator_with_broadcast) F(disable_deallocation_insertion)
  F(disable_partial_sort_optimization)
#undef F
  pb::CompilerOptions q;
  REQUIRE(q.ParseFromString(o.SerializeAsString()), "serialised form does not parse");
  std::string why;
  gp::util::MessageDifferencer df;
  df.ReportDifferencesToString(&why);
  REQUIRE(df.Compare(p, q), "{}", why);
  CompilerOptions o2;
  REQUIRE(o2.ParseFromString(o.SerializeAsString()) && o2 == o, "options differ after a round trip");
  // executables
  ExecutableProto e;
  e.name = gstr(g);
  for (auto n = g.u(3); n > 0; --n) e.input_names.push_back(gstr(g));
  for (auto n = g.u(3); n > 0; --n) e.output_names.push_back(gstr(g));
  e.code = gstr(g);
  for (auto n = g.u(4); n > 0; --n) e.code += static_cast<char>(g.u(255));
  ExecutableProto f;
  REQUIRE(f.ParseFromString(e.SerializeAsString()), "executable does not parse");
  REQUIRE(f.name == e.name && f.input_names == e.input_names && f.output_names == e.output_names && f.code == e.code, "executable changed");
}
