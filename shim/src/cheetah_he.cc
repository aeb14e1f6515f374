// Ideal functionality in place of Cheetah's homomorphic-encryption products
// (arith/cheetah_mul.cc, arith/cheetah_dot.cc need SEAL): both parties obtain
// fresh additive shares of the exact product, with the real interfaces.
#include <cstring>
#include "libspu/core/type_util.h"
#include "libspu/mpc/cheetah/arith/cheetah_dot.h"
#include "libspu/mpc/cheetah/arith/cheetah_mul.h"
#include "libspu/mpc/utils/ring_ops.h"
namespace spu::mpc::cheetah {
namespace {
yacl::Buffer Pack(const NdArrayRef& x) {
  auto c = x.clone();
  return yacl::Buffer(c.data(), c.numel() * c.elsize());
}
NdArrayRef Unpack(const yacl::Buffer& b, const Type& t, const Shape& s) {
  NdArrayRef r(t, s);
  SPU_ENFORCE(b.size() == static_cast<int64_t>(r.numel() * r.elsize()), "ideal product: size mismatch");
  if (b.size() != 0) std::memcpy(r.data(), b.data(), b.size());
  return r;
}
// rank 1 hands its operand to rank 0, which answers with a fresh share.
NdArrayRef Ideal(const NdArrayRef& mine, yacl::link::Context* conn, const Shape& peer_shape, const Shape& out_shape,
                 const std::function<NdArrayRef(const NdArrayRef&, const NdArrayRef&)>& f) {
  auto type = mine.eltype();
  auto field = type.as<Ring2k>()->field();
  auto rty = makeType<RingTy>(field);
  if (conn->Rank() == 1) {
    conn->SendAsync(0, Pack(mine), "ideal-he");
    return Unpack(conn->Recv(0, "ideal-he"), type, out_shape);
  }
  auto peer = Unpack(conn->Recv(1, "ideal-he"), rty, peer_shape);
  auto prod = f(mine.as(rty), peer);
  auto r = ring_rand(field, out_shape);
  conn->SendAsync(1, Pack(ring_sub(prod, r)), "ideal-he");
  return r.as(type);
}
}  // namespace

struct CheetahMul::Impl {
  std::shared_ptr<yacl::link::Context> lctx;
};
CheetahMul::CheetahMul(std::shared_ptr<yacl::link::Context> lctx, bool) : impl_(new Impl{lctx->Spawn()}) {}
CheetahMul::~CheetahMul() = default;
void CheetahMul::LazyInitKeys(FieldType, uint32_t) {}
int CheetahMul::Rank() const { return impl_->lctx->Rank(); }
size_t CheetahMul::OLEBatchSize() const { return 64; }
NdArrayRef CheetahMul::MulOLE(const NdArrayRef& x, yacl::link::Context* conn, bool, uint32_t) {
  SPU_ENFORCE(x.numel() > 0);
  return Ideal(x, conn, x.shape(), x.shape(), [](auto& a, auto& b) { return ring_mul(a, b); });
}
NdArrayRef CheetahMul::MulOLE(const NdArrayRef& x, bool e, uint32_t w) { return MulOLE(x, impl_->lctx.get(), e, w); }
NdArrayRef CheetahMul::MulShare(const NdArrayRef& x, const NdArrayRef& y, yacl::link::Context* conn, bool, uint32_t) {
  SPU_ENFORCE(x.numel() > 0 && x.shape() == y.shape());
  int64_t n = x.numel();
  auto rty = makeType<RingTy>(x.eltype().as<Ring2k>()->field());
  NdArrayRef both(rty, {2 * n});
  auto put = [&](const NdArrayRef& v, int64_t off) {
    auto c = v.clone();
    std::memcpy(both.data<std::byte>() + off * both.elsize(), c.data(), n * both.elsize());
  };
  put(x, 0);
  put(y, n);
  return Ideal(both, conn, both.shape(), {n}, [n](auto& a, auto& b) {
           auto s = ring_add(a, b);
           return ring_mul(s.slice({0}, {n}, {1}), s.slice({n}, {2 * n}, {1}));
         })
      .reshape(x.shape())
      .as(x.eltype());
}
NdArrayRef CheetahMul::MulShare(const NdArrayRef& x, const NdArrayRef& y, bool e, uint32_t w) {
  return MulShare(x, y, impl_->lctx.get(), e, w);
}

struct CheetahDot::Impl {
  std::shared_ptr<yacl::link::Context> lctx;
};
CheetahDot::CheetahDot(const std::shared_ptr<yacl::link::Context>& lctx, bool) : impl_(new Impl{lctx->Spawn()}) {}
CheetahDot::~CheetahDot() = default;
void CheetahDot::LazyInitKeys(FieldType) {}
NdArrayRef CheetahDot::DotOLE(const NdArrayRef& x, const Shape3D& d, bool lhs) { return DotOLE(x, impl_->lctx.get(), d, lhs); }
NdArrayRef CheetahDot::DotOLE(const NdArrayRef& x, yacl::link::Context* conn, const Shape3D& d, bool lhs) {
  SPU_ENFORCE(x.numel() > 0 && x.ndim() == 2);
  SPU_ENFORCE_EQ(x.numel(), lhs ? d[0] * d[1] : d[1] * d[2]);
  Shape l{d[0], d[1]}, r{d[1], d[2]};
  return Ideal(x.reshape(lhs ? l : r), conn, lhs ? r : l, {d[0], d[2]},
               [lhs](auto& a, auto& b) { return lhs ? ring_mmul(a, b) : ring_mmul(b, a); });
}
NdArrayRef CheetahDot::BatchDotOLE(const NdArrayRef& x, yacl::link::Context* conn, const Shape4D& d, bool lhs) {
  NdArrayRef out(x.eltype(), {d[0], d[1], d[3]});
  for (int64_t b = 0; b < d[0]; ++b) {
    auto s = x.shape();
    auto one = DotOLE(x.slice({b, 0, 0}, {b + 1, s[1], s[2]}, {1, 1, 1}).reshape({s[1], s[2]}), conn, {d[1], d[2], d[3]}, lhs);
    auto c = one.clone();
    std::memcpy(out.data<std::byte>() + b * d[1] * d[3] * out.elsize(), c.data(), c.numel() * c.elsize());
  }
  return out;
}
}  // namespace spu::mpc::cheetah
