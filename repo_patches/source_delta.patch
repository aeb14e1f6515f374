From bea2f9177a9c3ffe9170111c729fcecdf7bdc3cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:50 +0000
Subject: [PATCH 01/70] fix: convert the most negative integers to half
 precision correctly

---
 src/libspu/core/half.h | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/libspu/core/half.h b/src/libspu/core/half.h
index e1bca7c..1c8fff4 100644
--- a/src/libspu/core/half.h
+++ b/src/libspu/core/half.h
@@ -1211,14 +1211,16 @@ template <std::float_round_style R, typename T>
 unsigned int int2half(T value) {
   unsigned int bits = static_cast<unsigned>(value < 0) << 15;
   if (!value) return bits;
-  if (bits) value = -value;
-  if (value > 0xFFFF) return overflow<R>(bits);
-  unsigned int m = static_cast<unsigned int>(value), exp = 24;
+  // the magnitude of the most negative value does not fit into T itself
+  unsigned long long mag = static_cast<unsigned long long>(value);
+  if (bits) mag = 0 - mag;
+  if (mag > 0xFFFF) return overflow<R>(bits);
+  unsigned int m = static_cast<unsigned int>(mag), exp = 24;
   for (; m < 0x400; m <<= 1, --exp);
   for (; m > 0x7FF; m >>= 1, ++exp);
   bits |= (exp << 10) + m;
-  return (exp > 24) ? rounded<R, false>(bits, (value >> (exp - 25)) & 1,
-                                        (((1 << (exp - 25)) - 1) & value) != 0)
+  return (exp > 24) ? rounded<R, false>(bits, (mag >> (exp - 25)) & 1,
+                                        (((1 << (exp - 25)) - 1) & mag) != 0)
                     : bits;
 }
 
-- 
2.43.0


From 09dba3018f2b6a80b66f0694da1656ec5141d49c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:13 +0000
Subject: [PATCH 02/70] fix: do not instantiate a conflicting FieldType
 formatter in config.cc

type_util.h's operator<< is not visible there, so fmt formatted the enum as
a number and, the template being weak, could do so in every other file.
---
 src/libspu/core/config.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libspu/core/config.cc b/src/libspu/core/config.cc
index 20ff5d9..6d5db98 100644
--- a/src/libspu/core/config.cc
+++ b/src/libspu/core/config.cc
@@ -32,7 +32,7 @@ size_t defaultFxpBits(FieldType field) {
       return 26;
     }
     default: {
-      SPU_THROW("unsupported field={}", field);
+      SPU_THROW("unsupported field={}", GetFieldTypeName(field));
     }
   }
 }
-- 
2.43.0


From bab738b757919a2b0f7795cfeb3539b79a3652cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:13 +0000
Subject: [PATCH 03/70] fix: parenthesize the right operand of a minus when
 printing expressions

---
 src/libspu/core/cexpr.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/libspu/core/cexpr.cc b/src/libspu/core/cexpr.cc
index 8476d55..93f6e77 100644
--- a/src/libspu/core/cexpr.cc
+++ b/src/libspu/core/cexpr.cc
@@ -78,9 +78,9 @@ class BinaryExpr : public BaseBinaryExpr {
   std::string expr() const override {
     // return fmt::format("({}){}({})", lhs_->expr(), Name, rhs_->expr());
     std::stringstream ss;
-    auto print_operand = [&](const CExpr& operand) {
+    auto print_operand = [&](const CExpr& operand, size_t min_priority) {
       if (auto bin_op = std::dynamic_pointer_cast<BaseBinaryExpr>(operand)) {
-        if (bin_op->priority() < this->priority()) {
+        if (bin_op->priority() < min_priority) {
           ss << "(" << operand->expr() << ")";
         } else {
           ss << operand->expr();
@@ -89,9 +89,11 @@ class BinaryExpr : public BaseBinaryExpr {
         ss << operand->expr();
       }
     };
-    print_operand(lhs_);
+    // a-(b+c) is not a-b+c: the right operand of a minus binds tighter.
+    constexpr bool kIsMinus = std::is_same_v<Fn, std::minus<>>;
+    print_operand(lhs_, kPriority);
     ss << Name;
-    print_operand(rhs_);
+    print_operand(rhs_, kIsMinus ? kPriority + 1 : kPriority);
     return ss.str();
   }
 
-- 
2.43.0


From 071c56e864cf711c3f7bb9bf5724e0135c79be72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:27 +0000
Subject: [PATCH 04/70] fix: expanding a scalar to an empty shape no longer
 writes past the buffer

---
 src/libspu/core/ndarray_ref.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libspu/core/ndarray_ref.cc b/src/libspu/core/ndarray_ref.cc
index 7fc7bc4..83674e2 100644
--- a/src/libspu/core/ndarray_ref.cc
+++ b/src/libspu/core/ndarray_ref.cc
@@ -363,6 +363,10 @@ NdArrayRef NdArrayRef::reverse(const Axes& dimensions) const {
 NdArrayRef NdArrayRef::expand(const Shape& to_shape) const {
   SPU_ENFORCE(numel() == 1, "Only support expanding scalar");
   NdArrayRef ret(eltype(), to_shape);
+  if (ret.numel() == 0) {
+    // nothing to fill, the buffer has no room for the first element
+    return ret;
+  }
   // compute number of elements need to copy
   size_t numel = ret.numel();
   size_t num_bytes = numel * elsize();
-- 
2.43.0


From 9fab5c25654432f7c1712affd895dc92bf4a530b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:22 +0000
Subject: [PATCH 05/70] fix: interior padding of an empty dimension adds no
 elements

---
 src/libspu/core/ndarray_ref.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/libspu/core/ndarray_ref.cc b/src/libspu/core/ndarray_ref.cc
index 83674e2..9c01673 100644
--- a/src/libspu/core/ndarray_ref.cc
+++ b/src/libspu/core/ndarray_ref.cc
@@ -31,8 +31,10 @@ Shape deducePadShape(const Shape& input_shape, const Sizes& edge_padding_low,
   SPU_ENFORCE(edge_padding_high.size() == input_shape.size());
   SPU_ENFORCE(interior_padding.size() == input_shape.size());
   for (size_t i = 0; i < input_shape.size(); i++) {
+    // an empty dimension has no gaps to pad
     dims.emplace_back(edge_padding_low[i] + edge_padding_high[i] +
-                      interior_padding[i] * (input_shape[i] - 1) +
+                      interior_padding[i] *
+                          std::max<int64_t>(input_shape[i] - 1, 0) +
                       input_shape[i]);
   }
 
-- 
2.43.0


From 70151451b0b7b989b5f7fd8a21fd88a385b5c02c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:22 +0000
Subject: [PATCH 06/70] fix: a strided slice that keeps one element has stride
 zero in that dimension

---
 src/libspu/core/ndarray_ref.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/libspu/core/ndarray_ref.cc b/src/libspu/core/ndarray_ref.cc
index 9c01673..2899e85 100644
--- a/src/libspu/core/ndarray_ref.cc
+++ b/src/libspu/core/ndarray_ref.cc
@@ -306,14 +306,18 @@ NdArrayRef NdArrayRef::slice(const Index& start_indices,
     new_shape[idx] = std::max(end_indices[idx] - start_indices[idx],
                               static_cast<int64_t>(0));
 
-    if (new_shape[idx] == 1) {
-      new_strides[idx] = 0;
-    } else if (!slice_strides.empty()) {
+    if (!slice_strides.empty()) {
       auto n = new_shape[idx] / slice_strides[idx];
       auto q = new_shape[idx] % slice_strides[idx];
       new_shape[idx] = n + static_cast<int64_t>(q != 0);
       new_strides[idx] *= slice_strides[idx];
     }
+
+    // Also when the stride leaves a single element: a later broadcast of this
+    // dimension relies on the zero.
+    if (new_shape[idx] == 1) {
+      new_strides[idx] = 0;
+    }
   }
 
   return NdArrayRef(buf(), eltype(), new_shape, new_strides,
-- 
2.43.0


From c09d5212fed67e449e224800e9e2a98a8159000f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:48 +0000
Subject: [PATCH 07/70] fix: give the aby3 public oram share its own type name

---
 src/libspu/mpc/aby3/type.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libspu/mpc/aby3/type.h b/src/libspu/mpc/aby3/type.h
index f2b541e..efdebfa 100644
--- a/src/libspu/mpc/aby3/type.h
+++ b/src/libspu/mpc/aby3/type.h
@@ -48,7 +48,7 @@ class OPShrTy : public TypeImpl<OPShrTy, RingTy, Secret, OPShare> {
 
  public:
   using Base::Base;
-  static std::string_view getStaticId() { return "aby3.OShr"; }
+  static std::string_view getStaticId() { return "aby3.OPShr"; }
 
   explicit OPShrTy(FieldType field) { field_ = field; }
 
-- 
2.43.0


From 9830b6aa23aa0851c0a394674fdfc8500377f749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:48 +0000
Subject: [PATCH 08/70] fix: restore the share width when parsing a spdz2k
 boolean share type

---
 src/libspu/mpc/spdz2k/type.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libspu/mpc/spdz2k/type.cc b/src/libspu/mpc/spdz2k/type.cc
index 88363a2..5b978a4 100644
--- a/src/libspu/mpc/spdz2k/type.cc
+++ b/src/libspu/mpc/spdz2k/type.cc
@@ -36,7 +36,7 @@ void BShrTy::fromString(std::string_view detail) {
   auto comma = detail.find_first_of(',');
   auto last_comma = detail.find_last_of(',');
   auto back_type_str = detail.substr(0, comma);
-  auto nbits_str = detail.substr(comma + 1, last_comma);
+  auto nbits_str = detail.substr(comma + 1, last_comma - comma - 1);
   auto back_type = magic_enum::enum_cast<PtType>(back_type_str);
   SPU_ENFORCE(back_type.has_value(), "parse failed from={}", detail);
   back_type_ = back_type.value();
@@ -45,6 +45,7 @@ void BShrTy::fromString(std::string_view detail) {
   auto field = magic_enum::enum_cast<FieldType>(field_str);
   SPU_ENFORCE(field.has_value(), "parse failed from={}", field_str);
   field_ = field.value();
+  k_ = SizeOf(field_) * 8 / 2;
 };
 
 std::string BShrTy::toString() const {
-- 
2.43.0


From e224158ac94ce61b49d87c68285594d39d243735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:48 +0000
Subject: [PATCH 09/70] fix: register the cheetah permutation share type

---
 src/libspu/mpc/cheetah/type.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libspu/mpc/cheetah/type.cc b/src/libspu/mpc/cheetah/type.cc
index ede298f..afbf9fe 100644
--- a/src/libspu/mpc/cheetah/type.cc
+++ b/src/libspu/mpc/cheetah/type.cc
@@ -27,7 +27,7 @@ void registerTypes() {
 
   static std::once_flag flag;
   std::call_once(flag, []() {
-    TypeContext::getTypeContext()->addTypes<AShrTy, BShrTy>();
+    TypeContext::getTypeContext()->addTypes<AShrTy, BShrTy, PShrTy>();
   });
 }
 
-- 
2.43.0


From 2b74e687032962b519e642a47862ddb1ea56e8e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:48 +0000
Subject: [PATCH 10/70] fix: write the cheetah settings of every runtime
 configuration

---
 src/libspu/spu.cc | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/libspu/spu.cc b/src/libspu/spu.cc
index 83c1c76..8808c76 100644
--- a/src/libspu/spu.cc
+++ b/src/libspu/spu.cc
@@ -191,15 +191,12 @@ void convertToPB(const RuntimeConfig& src, pb::RuntimeConfig& dst) {
           src.ttp_beaver_config->ssl_config->verify_depth);
     }
   }
-  if (src.protocol == ProtocolKind::CHEETAH) {
-    auto cheetah_conf = dst.mutable_cheetah_2pc_config();
-    cheetah_conf->set_disable_matmul_pack(
-        src.cheetah_2pc_config.disable_matmul_pack);
-    cheetah_conf->set_enable_mul_lsb_error(
-        src.cheetah_2pc_config.enable_mul_lsb_error);
-    cheetah_conf->set_ot_kind(
-        pb::CheetahOtKind(src.cheetah_2pc_config.ot_kind));
-  }
+  auto cheetah_conf = dst.mutable_cheetah_2pc_config();
+  cheetah_conf->set_disable_matmul_pack(
+      src.cheetah_2pc_config.disable_matmul_pack);
+  cheetah_conf->set_enable_mul_lsb_error(
+      src.cheetah_2pc_config.enable_mul_lsb_error);
+  cheetah_conf->set_ot_kind(pb::CheetahOtKind(src.cheetah_2pc_config.ot_kind));
   dst.set_trunc_allow_msb_error(src.trunc_allow_msb_error);
   dst.set_experimental_disable_mmul_split(src.experimental_disable_mmul_split);
   dst.set_experimental_enable_inter_op_par(
-- 
2.43.0


From 150ba263862a7d417f349f5982e139849e0b7d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:48 +0000
Subject: [PATCH 11/70] fix: reject value chunks that exceed or contradict the
 announced size

---
 src/libspu/core/value.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/libspu/core/value.cc b/src/libspu/core/value.cc
index 46e1626..9d8412a 100644
--- a/src/libspu/core/value.cc
+++ b/src/libspu/core/value.cc
@@ -141,6 +141,9 @@ Value Value::fromProto(const ValueProto& value) {
     partial.set_is_complex(false);
     ValueProto partial_proto;
     partial_proto.meta = partial;
+    SPU_ENFORCE(value.chunks.size() % 2 == 0,
+                "complex value with an odd number of chunks {}",
+                value.chunks.size());
     auto n = value.chunks.size() / 2;
     std::copy_n(value.chunks.begin(), n,
                 std::back_inserter(partial_proto.chunks));
@@ -185,6 +188,12 @@ Value Value::fromProto(const ValueProto& value) {
   for (const auto& [offset, chunk] : ordered_chunks) {
     SPU_ENFORCE(offset == chunk_end_pos,
                 "offset {} is not match to last chunk's end pos", offset);
+    SPU_ENFORCE(chunk->total_bytes() == total_bytes,
+                "chunk total_bytes {} != {}", chunk->total_bytes(),
+                total_bytes);
+    SPU_ENFORCE(chunk->content().size() <= total_bytes - offset,
+                "chunk at {} with {} bytes exceeds total_bytes {}", offset,
+                chunk->content().size(), total_bytes);
     memcpy(data.data<uint8_t>() + offset, chunk->content().data(),
            chunk->content().size());
     chunk_end_pos += chunk->content().size();
-- 
2.43.0


From ec3fce6912ae8ad5829fd338221d0588faf5199d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:44 +0000
Subject: [PATCH 12/70] fix: reverse all bits of a ring element when the range
 ends at its width

---
 src/libspu/mpc/utils/ring_ops.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/libspu/mpc/utils/ring_ops.cc b/src/libspu/mpc/utils/ring_ops.cc
index e0e67b2..70c7eac 100644
--- a/src/libspu/mpc/utils/ring_ops.cc
+++ b/src/libspu/mpc/utils/ring_ops.cc
@@ -148,13 +148,15 @@ void ring_bitrev_impl(NdArrayRef& ret, const NdArrayRef& x, size_t start,
     // optimize: use faster reverse method.
     auto bitrev_fn = [&](U in) -> U {
       U tmp = 0U;
+      // built bit by bit, as shifting by the full width is undefined.
+      U mask = 0U;
       for (size_t idx = start; idx < end; idx++) {
         if (in & ((U)1 << idx)) {
           tmp |= (U)1 << (end - 1 - idx + start);
         }
+        mask |= (U)1 << idx;
       }
 
-      U mask = ((U)1U << end) - ((U)1U << start);
       return (in & ~mask) | tmp;
     };
 
-- 
2.43.0


From 04d56dfd64810f0e8bc67163a0e7985be11c9f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:44 +0000
Subject: [PATCH 13/70] fix: do not take ring elements that differ by half the
 ring for equal

---
 src/libspu/mpc/utils/ring_ops.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/libspu/mpc/utils/ring_ops.cc b/src/libspu/mpc/utils/ring_ops.cc
index 70c7eac..ee3b451 100644
--- a/src/libspu/mpc/utils/ring_ops.cc
+++ b/src/libspu/mpc/utils/ring_ops.cc
@@ -14,6 +14,7 @@
 
 #include "libspu/mpc/utils/ring_ops.h"
 
+#include <algorithm>
 #include <cstring>
 #include <random>
 
@@ -527,6 +528,7 @@ bool ring_all_equal(const NdArrayRef& x, const NdArrayRef& y, size_t abs_err) {
   const auto field = x.eltype().as<Ring2k>()->field();
   return DISPATCH_ALL_FIELDS(field, [&]() {
     using T = std::make_signed_t<ring2k_t>;
+    using U = ring2k_t;
 
     NdArrayView<T> _x(x);
     NdArrayView<T> _y(y);
@@ -535,7 +537,9 @@ bool ring_all_equal(const NdArrayRef& x, const NdArrayRef& y, size_t abs_err) {
     for (int64_t idx = 0; idx < numel; ++idx) {
       auto x_el = _x[idx];
       auto y_el = _y[idx];
-      if (std::abs(x_el - y_el) > static_cast<T>(abs_err)) {
+      // distance on the ring; the signed difference may not be representable.
+      const U diff = static_cast<U>(x_el) - static_cast<U>(y_el);
+      if (std::min<U>(diff, U(0) - diff) > static_cast<U>(abs_err)) {
         fmt::print("error: {0} {1} abs_err: {2}\n", x_el, y_el, abs_err);
         return false;
       }
-- 
2.43.0


From bd168d37b89cb7425493c8d6bce82b4a1451dcdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:54 +0000
Subject: [PATCH 14/70] fix: LowMC::decrypt leaves the ciphertext it is given
 as it was

---
 src/libspu/mpc/utils/lowmc.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libspu/mpc/utils/lowmc.cc b/src/libspu/mpc/utils/lowmc.cc
index 1d61025..5a4eae7 100644
--- a/src/libspu/mpc/utils/lowmc.cc
+++ b/src/libspu/mpc/utils/lowmc.cc
@@ -257,7 +257,7 @@ NdArrayRef LowMC::decrypt(const NdArrayRef& ciphertext) {
   const auto& shape = ciphertext.shape();
 
   // just the inverse procedure of encrypt
-  auto c = ciphertext;
+  auto c = ciphertext.clone();
   for (uint64_t r = rounds_; r > 0; r--) {
     ring_xor_(c, round_keys_[r].broadcast_to(shape, {}));
 
-- 
2.43.0


From dce34da89ad0f911a38a5e33d89f4eb43cb2dc12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:07 +0000
Subject: [PATCH 15/70] fix: trace depth returns to its start when only begins
 or ends are logged

---
 src/libspu/core/trace.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/libspu/core/trace.h b/src/libspu/core/trace.h
index 582257d..df91502 100644
--- a/src/libspu/core/trace.h
+++ b/src/libspu/core/trace.h
@@ -283,8 +283,10 @@ class TraceAction final {
       recv_actions_end_ = lctx_->GetStats()->recv_actions.load();
     }
     const auto flag = flag_ & tracer_->getFlag();
-    if ((flag & TR_LOGE) != 0) {
+    if ((flag & TR_LOGB) != 0) {
       tracer_->decDepth();
+    }
+    if ((flag & TR_LOGE) != 0) {
       tracer_->logActionEnd(id_, mod_, name_, detail_);
     }
     if ((flag & TR_REC) != 0 && (flag & TR_MODALL) != 0) {
-- 
2.43.0


From ed0cc9fd558b3a6bba08862932941ccf62dd513b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:07 +0000
Subject: [PATCH 16/70] fix: an action traced without a link records no
 communication

---
 src/libspu/core/trace.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/libspu/core/trace.h b/src/libspu/core/trace.h
index df91502..c17194e 100644
--- a/src/libspu/core/trace.h
+++ b/src/libspu/core/trace.h
@@ -238,14 +238,14 @@ class TraceAction final {
   TimePoint end_;
 
   // the action communication information.
-  size_t send_bytes_start_;
-  size_t send_bytes_end_;
-  size_t recv_bytes_start_;
-  size_t recv_bytes_end_;
-  size_t send_actions_start_;
-  size_t send_actions_end_;
-  size_t recv_actions_start_;
-  size_t recv_actions_end_;
+  size_t send_bytes_start_ = 0;
+  size_t send_bytes_end_ = 0;
+  size_t recv_bytes_start_ = 0;
+  size_t recv_bytes_end_ = 0;
+  size_t send_actions_start_ = 0;
+  size_t send_actions_end_ = 0;
+  size_t recv_actions_start_ = 0;
+  size_t recv_actions_end_ = 0;
 
   int64_t saved_tracer_flag_;
 
-- 
2.43.0


From 4893b7c41fa63b10ac8b453db1d9a1d1c1ea282a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:46 +0000
Subject: [PATCH 17/70] fix: ABY3 shifts a narrow boolean share right by more
 than its storage

---
 src/libspu/mpc/aby3/boolean.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/libspu/mpc/aby3/boolean.cc b/src/libspu/mpc/aby3/boolean.cc
index d83066a..8ad57f6 100644
--- a/src/libspu/mpc/aby3/boolean.cc
+++ b/src/libspu/mpc/aby3/boolean.cc
@@ -432,8 +432,11 @@ NdArrayRef RShiftB::proc(KernelEvalContext*, const NdArrayRef& in,
       pforeach(0, in.numel(), [&](int64_t idx) {
         const auto& v = _in[idx];
         auto shift_bit = is_splat ? bits[0] : bits[idx];
-        _out[idx][0] = static_cast<out_el_t>(v[0] >> shift_bit);
-        _out[idx][1] = static_cast<out_el_t>(v[1] >> shift_bit);
+        // the share may be stored in less bits than it is shifted by.
+        const bool all_out =
+            shift_bit >= static_cast<int64_t>(sizeof(v[0]) * 8);
+        _out[idx][0] = all_out ? 0 : static_cast<out_el_t>(v[0] >> shift_bit);
+        _out[idx][1] = all_out ? 0 : static_cast<out_el_t>(v[1] >> shift_bit);
       });
 
       return out;
-- 
2.43.0


From e05e9b1356bde96755fbcf1b746d85907cd6db4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:46 +0000
Subject: [PATCH 18/70] fix: ABY3 shifts narrow boolean shares right
 arithmetically

---
 src/libspu/mpc/aby3/boolean.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/libspu/mpc/aby3/boolean.cc b/src/libspu/mpc/aby3/boolean.cc
index 8ad57f6..dd2de81 100644
--- a/src/libspu/mpc/aby3/boolean.cc
+++ b/src/libspu/mpc/aby3/boolean.cc
@@ -450,10 +450,11 @@ NdArrayRef ARShiftB::proc(KernelEvalContext* ctx, const NdArrayRef& in,
   const auto* in_ty = in.eltype().as<BShrTy>();
   bool is_splat = bits.size() == 1;
 
-  // arithmetic right shift expects to work on ring, or the behaviour is
-  // undefined.
-  SPU_ENFORCE(in_ty->nbits() == SizeOf(field) * 8, "in.type={}, field={}",
-              in.eltype(), field);
+  // the sign bit of a share with less bits than the ring is zero.
+  if (in_ty->nbits() != SizeOf(field) * 8) {
+    return RShiftB().proc(ctx, in, bits);
+  }
+
   const PtType out_btype = in_ty->getBacktype();
   const size_t out_nbits = in_ty->nbits();
 
-- 
2.43.0


From 47c9bea3020797b819014978aab99932579e3ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:46 +0000
Subject: [PATCH 19/70] fix: ABY3 reverses all bits when the range ends at the
 storage width

---
 src/libspu/mpc/aby3/boolean.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/libspu/mpc/aby3/boolean.cc b/src/libspu/mpc/aby3/boolean.cc
index dd2de81..a238ab4 100644
--- a/src/libspu/mpc/aby3/boolean.cc
+++ b/src/libspu/mpc/aby3/boolean.cc
@@ -500,13 +500,14 @@ NdArrayRef BitrevB::proc(KernelEvalContext*, const NdArrayRef& in, size_t start,
 
       auto bitrev_fn = [&](out_el_t el) -> out_el_t {
         out_el_t tmp = 0U;
+        // built bit by bit, as shifting by the full width is undefined.
+        out_el_t mask = 0U;
         for (size_t idx = start; idx < end; idx++) {
           if (el & ((out_el_t)1 << idx)) {
             tmp |= (out_el_t)1 << (end - 1 - idx + start);
           }
+          mask |= (out_el_t)1 << idx;
         }
-
-        out_el_t mask = ((out_el_t)1U << end) - ((out_el_t)1U << start);
         return (el & ~mask) | tmp;
       };
 
-- 
2.43.0


From a2ab70d04f91e7a92b5e20c0e54e83fcd02475a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:46 +0000
Subject: [PATCH 20/70] fix: Cheetah matrix product over an empty dimension is
 zero

---
 src/libspu/mpc/cheetah/arithmetic.cc | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/libspu/mpc/cheetah/arithmetic.cc b/src/libspu/mpc/cheetah/arithmetic.cc
index fbf8504..db9da4e 100644
--- a/src/libspu/mpc/cheetah/arithmetic.cc
+++ b/src/libspu/mpc/cheetah/arithmetic.cc
@@ -400,7 +400,10 @@ NdArrayRef MatMulVVS::proc(KernelEvalContext* ctx, const NdArrayRef& x,
                            const NdArrayRef& y) const {
   auto out_type = makeType<cheetah::AShrTy>(ctx->sctx()->getField());
   if (0 == x.numel() || 0 == y.numel()) {
-    return NdArrayRef(out_type, {x.shape()[0], y.shape()[1]});
+    // nothing to sum
+    return ring_zeros(out_type.as<Ring2k>()->field(),
+                      {x.shape()[0], y.shape()[1]})
+        .as(out_type);
   }
   auto* comm = ctx->getState<Communicator>();
   auto* dot_prot = ctx->getState<CheetahDotState>()->get();
@@ -420,7 +423,10 @@ NdArrayRef MatMulVVS::proc(KernelEvalContext* ctx, const NdArrayRef& x,
 NdArrayRef MatMulAA::proc(KernelEvalContext* ctx, const NdArrayRef& x,
                           const NdArrayRef& y) const {
   if (0 == x.numel() || 0 == y.numel()) {
-    return NdArrayRef(x.eltype(), {x.shape()[0], y.shape()[1]});
+    // nothing to sum
+    return ring_zeros(x.eltype().as<Ring2k>()->field(),
+                      {x.shape()[0], y.shape()[1]})
+        .as(x.eltype());
   }
 
   auto* comm = ctx->getState<Communicator>();
@@ -459,7 +465,10 @@ NdArrayRef MatMulAA::proc(KernelEvalContext* ctx, const NdArrayRef& x,
 NdArrayRef MatMulAV::proc(KernelEvalContext* ctx, const NdArrayRef& x,
                           const NdArrayRef& y) const {
   if (0 == x.numel() || 0 == y.numel()) {
-    return NdArrayRef(x.eltype(), {x.shape()[0], y.shape()[1]});
+    // nothing to sum
+    return ring_zeros(x.eltype().as<Ring2k>()->field(),
+                      {x.shape()[0], y.shape()[1]})
+        .as(x.eltype());
   }
   auto* comm = ctx->getState<Communicator>();
   auto* dot_prot = ctx->getState<CheetahDotState>()->get();
-- 
2.43.0


From 86578146b603e4cdb0359b9104648a7582b26d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:46 +0000
Subject: [PATCH 21/70] fix: Cheetah ands boolean shares of no bits

---
 src/libspu/mpc/cheetah/boolean.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/libspu/mpc/cheetah/boolean.cc b/src/libspu/mpc/cheetah/boolean.cc
index d6ad486..1844396 100644
--- a/src/libspu/mpc/cheetah/boolean.cc
+++ b/src/libspu/mpc/cheetah/boolean.cc
@@ -17,6 +17,8 @@
 #include "libspu/core/ndarray_ref.h"
 #include "libspu/mpc/cheetah/ot/basic_ot_prot.h"
 #include "libspu/mpc/cheetah/state.h"
+#include "libspu/mpc/cheetah/type.h"
+#include "libspu/mpc/utils/ring_ops.h"
 
 namespace spu::mpc::cheetah {
 
@@ -29,6 +31,14 @@ NdArrayRef AndBB::proc(KernelEvalContext* ctx, const NdArrayRef& lhs,
     return NdArrayRef(lhs.eltype(), lhs.shape());
   }
 
+  // a share of no bits is zero, and so is anything and-ed with it
+  for (const auto& in : {lhs, rhs}) {
+    const auto* type = in.eltype().as<BShrTy>();
+    if (type->nbits() == 0) {
+      return ring_zeros(type->field(), in.shape()).as(in.eltype());
+    }
+  }
+
   return TiledDispatchOTFunc(
              ctx, lhs, rhs,
              [&](const NdArrayRef& input0, const NdArrayRef& input1,
-- 
2.43.0


From da79e990d66d6062f90d3dbe756da7b3189a0719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:46 +0000
Subject: [PATCH 22/70] fix: count the bits of a boolean share in any number of
 bits

---
 src/libspu/kernel/hal/ring.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/libspu/kernel/hal/ring.cc b/src/libspu/kernel/hal/ring.cc
index 1c5895b..09f44d2 100644
--- a/src/libspu/kernel/hal/ring.cc
+++ b/src/libspu/kernel/hal/ring.cc
@@ -531,7 +531,14 @@ Value _popcount(SPUContext* ctx, const Value& x, size_t bits) {
     vs.push_back(std::move(x_));
   }
 
-  return vreduce(vs.begin(), vs.end(), [&](const Value& a, const Value& b) {
+  // `vreduce` packs operands of one level together, and they must be of the
+  // same type even when one of them is left over from an earlier level.
+  std::vector<Value> as;
+  as.reserve(bits);
+  vmap(vs.begin(), vs.end(), std::back_inserter(as),
+       [&](const Value& v) { return _prefer_a(ctx, v); });
+
+  return vreduce(as.begin(), as.end(), [&](const Value& a, const Value& b) {
     return _add(ctx, a, b);
   });
 }
-- 
2.43.0


From 5b45c862948e9642f139187924b853425dff51ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:46 +0000
Subject: [PATCH 23/70] fix: SPDZ2k shares a public zero as one bit

---
 src/libspu/mpc/spdz2k/boolean.cc | 3 ++-
 src/libspu/mpc/spdz2k/value.cc   | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/libspu/mpc/spdz2k/boolean.cc b/src/libspu/mpc/spdz2k/boolean.cc
index 7f230a2..0a6b274 100644
--- a/src/libspu/mpc/spdz2k/boolean.cc
+++ b/src/libspu/mpc/spdz2k/boolean.cc
@@ -43,7 +43,8 @@ NdArrayRef P2Value(FieldType out_field, const NdArrayRef& in, size_t k,
 
     size_t valid_nbits = k;
     if (new_nbits == 0) {
-      valid_nbits = std::min(k, maxBitWidth<PShrT>(in));
+      // a boolean share has at least one bit.
+      valid_nbits = std::clamp<size_t>(maxBitWidth<PShrT>(in), 1, k);
     } else if (new_nbits < k) {
       valid_nbits = new_nbits;
     }
diff --git a/src/libspu/mpc/spdz2k/value.cc b/src/libspu/mpc/spdz2k/value.cc
index 029f065..88cd55f 100644
--- a/src/libspu/mpc/spdz2k/value.cc
+++ b/src/libspu/mpc/spdz2k/value.cc
@@ -160,8 +160,9 @@ size_t minNumBits(const NdArrayRef& lhs, const NdArrayRef& rhs) {
   const auto rhs_field = rhs_ty->field();
   return DISPATCH_ALL_FIELDS(rhs_field, [&]() {
     using PShrT = ring2k_t;
+    // a boolean share has at least one bit.
     return std::min(lhs.eltype().as<BShare>()->nbits(),
-                    maxBitWidth<PShrT>(rhs));
+                    std::max<size_t>(maxBitWidth<PShrT>(rhs), 1));
   });
 }
 
-- 
2.43.0


From 69edc099ff2f97dee31999038675303182beed03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:46 +0000
Subject: [PATCH 24/70] fix: SPDZ2k reads the bits of boolean shares of one
 element and of views

---
 src/libspu/mpc/spdz2k/boolean.cc | 10 ++++++----
 src/libspu/mpc/spdz2k/value.cc   | 18 ++++++++++++------
 2 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/libspu/mpc/spdz2k/boolean.cc b/src/libspu/mpc/spdz2k/boolean.cc
index 0a6b274..0edc7c7 100644
--- a/src/libspu/mpc/spdz2k/boolean.cc
+++ b/src/libspu/mpc/spdz2k/boolean.cc
@@ -587,8 +587,9 @@ NdArrayRef BitIntlB::proc(KernelEvalContext* ctx, const NdArrayRef& in,
         _out[idx] = BitIntl<T>(_in[idx], stride, k);
       });
     } else {
-      NdArrayView<std::array<T, 2>> _in(in);
-      NdArrayView<std::array<T, 2>> _out(out);
+      const auto src = in.isCompact() ? in : in.clone();
+      const auto* _in = src.data<std::array<T, 2>>();
+      auto* _out = out.data<std::array<T, 2>>();
       size_t num_per_group = 1 << stride;
       size_t group_num = k / num_per_group + (k % num_per_group != 0);
       size_t half_group_num = (group_num + 1) / 2;
@@ -634,8 +635,9 @@ NdArrayRef BitDeintlB::proc(KernelEvalContext* ctx, const NdArrayRef& in,
         _out[idx] = BitDeintl<T>(_in[idx], stride, k);
       });
     } else {
-      NdArrayView<std::array<T, 2>> _in(in);
-      NdArrayView<std::array<T, 2>> _out(out);
+      const auto src = in.isCompact() ? in : in.clone();
+      const auto* _in = src.data<std::array<T, 2>>();
+      auto* _out = out.data<std::array<T, 2>>();
 
       size_t num_per_group = 1 << stride;
       size_t group_num = k / num_per_group + (k % num_per_group != 0);
diff --git a/src/libspu/mpc/spdz2k/value.cc b/src/libspu/mpc/spdz2k/value.cc
index 88cd55f..97a882a 100644
--- a/src/libspu/mpc/spdz2k/value.cc
+++ b/src/libspu/mpc/spdz2k/value.cc
@@ -57,7 +57,8 @@ NdArrayRef makeBShare(const NdArrayRef& s1, const NdArrayRef& s2,
   int64_t res_numel = res.numel();
 
   DISPATCH_ALL_FIELDS(field, [&]() {
-    NdArrayView<std::array<ring2k_t, 2>> _res(res);
+    // res is viewed as an array of k bits per element.
+    auto* _res = res.data<std::array<ring2k_t, 2>>();
 
     pforeach(0, res_numel * k, [&](int64_t i) {
       _res[i][0] = 0;
@@ -94,14 +95,19 @@ NdArrayRef getShare(const NdArrayRef& in, int64_t share_idx) {
     const auto k = in.eltype().as<BShrTy>()->k();
     const auto ty = makeType<RingTy>(field);
 
+    if (!in.isCompact()) {
+      // the bits of an element are only adjacent to the next element's bits in
+      // a compact array.
+      return getShare(in.clone(), share_idx);
+    }
+
     Shape new_shape = in.shape();
     new_shape.back() *= nbits;
 
     if (nbits == k) {
-      Strides new_strides = in.strides();
-      std::transform(new_strides.cbegin(), new_strides.cend() - 1,
-                     new_strides.begin(), [k](int64_t s) { return 2 * s * k; });
-      new_strides.back() *= 2;
+      Strides new_strides = makeCompactStrides(new_shape);
+      std::transform(new_strides.cbegin(), new_strides.cend(),
+                     new_strides.begin(), [](int64_t s) { return 2 * s; });
       return NdArrayRef{
           in.buf(), ty, new_shape, new_strides,
           in.offset() + share_idx * static_cast<int64_t>(ty.size())};
@@ -111,7 +117,7 @@ NdArrayRef getShare(const NdArrayRef& in, int64_t share_idx) {
       DISPATCH_ALL_FIELDS(field, [&]() {
         size_t numel = in.numel();
         NdArrayView<ring2k_t> _ret(ret);
-        NdArrayView<std::array<ring2k_t, 2>> _in(in);
+        const auto* _in = in.data<std::array<ring2k_t, 2>>();
 
         pforeach(0, numel, [&](int64_t i) {
           for (size_t j = 0; j < nbits; ++j) {
-- 
2.43.0


From e4d2f06c9c53f05ba716e46810fca1e7113468b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:29 +0000
Subject: [PATCH 25/70] fix: ABY3 TruncA reshapes the received share to the
 operand's shape

---
 src/libspu/mpc/aby3/arithmetic.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libspu/mpc/aby3/arithmetic.cc b/src/libspu/mpc/aby3/arithmetic.cc
index 629ff86..076300f 100644
--- a/src/libspu/mpc/aby3/arithmetic.cc
+++ b/src/libspu/mpc/aby3/arithmetic.cc
@@ -714,7 +714,8 @@ NdArrayRef TruncA::proc(KernelEvalContext* ctx, const NdArrayRef& in,
   switch (comm->getRank()) {
     case 0: {
       const auto z1 = ring_arshift(x1, shift_bit);
-      const auto z2 = comm->recv(1, x1.eltype(), kBindName());
+      const auto z2 = comm->recv(1, x1.eltype(), kBindName())
+                          .reshape(in.shape());
       return makeAShare(z1, z2, field);
     }
 
-- 
2.43.0


From 596ad0cd84226cfe3c4f25b89029b41c6a815317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:19 +0000
Subject: [PATCH 26/70] fix: Cheetah truncation by one bit with a known sign
 converts the one-bit wrap instead of throwing

---
 src/libspu/mpc/cheetah/ot/basic_ot_prot.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libspu/mpc/cheetah/ot/basic_ot_prot.cc b/src/libspu/mpc/cheetah/ot/basic_ot_prot.cc
index 54f9b70..48a5560 100644
--- a/src/libspu/mpc/cheetah/ot/basic_ot_prot.cc
+++ b/src/libspu/mpc/cheetah/ot/basic_ot_prot.cc
@@ -220,7 +220,7 @@ NdArrayRef BasicOTProtocols::B2ASingleBitWithSize(const NdArrayRef &inp,
   const auto *share_t = inp.eltype().as<BShrTy>();
   SPU_ENFORCE(share_t->nbits() == 1, "Support for 1bit boolean only");
   auto field = inp.eltype().as<Ring2k>()->field();
-  SPU_ENFORCE(bit_width > 1 && bit_width < (int)(8 * SizeOf(field)),
+  SPU_ENFORCE(bit_width >= 1 && bit_width < (int)(8 * SizeOf(field)),
               "bit_width={} is invalid", bit_width);
   return SingleB2A(inp, bit_width);
 }
-- 
2.43.0


From 0136b1beae8b5d31543b6c4b9aab9804a835794f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:25 +0000
Subject: [PATCH 27/70] fix: Cheetah permutation of a single row is the
 identity instead of an error

---
 src/libspu/mpc/cheetah/permute.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libspu/mpc/cheetah/permute.cc b/src/libspu/mpc/cheetah/permute.cc
index 72d3fe2..eaca5fa 100644
--- a/src/libspu/mpc/cheetah/permute.cc
+++ b/src/libspu/mpc/cheetah/permute.cc
@@ -74,6 +74,10 @@ NdArrayRef SecureInvPerm(KernelEvalContext* ctx, NdArrayRef& x,
   const auto field = x.eltype().as<RingTy>()->field();
   const auto num_packets = pv.size();
   SPU_ENFORCE(num_packets > 0, "permutation vector should not be empty.");
+  if (num_packets == 1) {
+    // nothing to permute, and the network needs at least two packets
+    return x;
+  }
   // build graph structure
   const auto graph = generate_as_waksman_topology(num_packets);
   const auto width = graph.size();
-- 
2.43.0


From 42a703901faf8a0ff62c2b987c83d8b09c09e875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:45 +0000
Subject: [PATCH 28/70] fix: a matrix triple that initialises a replay
 description advances the random stream

---
 src/libspu/mpc/semi2k/beaver/beaver_impl/beaver_tfp.cc | 2 +-
 src/libspu/mpc/semi2k/beaver/beaver_impl/beaver_ttp.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libspu/mpc/semi2k/beaver/beaver_impl/beaver_tfp.cc b/src/libspu/mpc/semi2k/beaver/beaver_impl/beaver_tfp.cc
index a8d19e4..d0707ed 100644
--- a/src/libspu/mpc/semi2k/beaver/beaver_impl/beaver_tfp.cc
+++ b/src/libspu/mpc/semi2k/beaver/beaver_impl/beaver_tfp.cc
@@ -227,7 +227,7 @@ BeaverTfpUnsafe::Triple BeaverTfpUnsafe::Dot(FieldType field, int64_t m,
   shapes[2] = {m, n};
 
   auto if_replay = [&](const ReplayDesc* replay_desc, size_t idx) {
-    if (replay_desc == nullptr) {
+    if (replay_desc == nullptr || replay_desc->status == Beaver::Init) {
       ops[idx].seeds = seeds_;
       return prgCreateArray(field, shapes[idx], seed_, &counter_,
                             &ops[idx].desc);
diff --git a/src/libspu/mpc/semi2k/beaver/beaver_impl/beaver_ttp.cc b/src/libspu/mpc/semi2k/beaver/beaver_impl/beaver_ttp.cc
index 9a60889..3be47ee 100644
--- a/src/libspu/mpc/semi2k/beaver/beaver_impl/beaver_ttp.cc
+++ b/src/libspu/mpc/semi2k/beaver/beaver_impl/beaver_ttp.cc
@@ -569,7 +569,7 @@ BeaverTtp::Triple BeaverTtp::Dot(FieldType field, int64_t m, int64_t n,
   shapes[2] = {m, n};
 
   auto if_replay = [&](const ReplayDesc* replay_desc, size_t idx) {
-    if (replay_desc == nullptr) {
+    if (replay_desc == nullptr || replay_desc->status == Beaver::Init) {
       return prgCreateArray(field, shapes[idx], seed_, &counter_, &descs[idx]);
     } else {
       SPU_ENFORCE(replay_desc->field == field);
-- 
2.43.0


From 09ca9451118c806adf6e432e0c2d63f69ea5cf32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:45 +0000
Subject: [PATCH 29/70] fix: the beaver server sends the two adjusts of a large
 TruncPr one after the other

---
 .../mpc/semi2k/beaver/beaver_impl/ttp_server/beaver_server.cc   | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/libspu/mpc/semi2k/beaver/beaver_impl/ttp_server/beaver_server.cc b/src/libspu/mpc/semi2k/beaver/beaver_impl/ttp_server/beaver_server.cc
index 28f2311..cb89566 100644
--- a/src/libspu/mpc/semi2k/beaver/beaver_impl/ttp_server/beaver_server.cc
+++ b/src/libspu/mpc/semi2k/beaver/beaver_impl/ttp_server/beaver_server.cc
@@ -347,7 +347,9 @@ void AdjustAndSend(
 
   try {
     auto& [ops, perm, seeds, pad_length] = adjust_params;
+    // TruncPr has two adjusts, the client expects them one after the other
     if constexpr (std::is_same_v<AdjustRequest, AdjustDotRequest> ||
+                  std::is_same_v<AdjustRequest, AdjustTruncPrRequest> ||
                   std::is_same_v<AdjustRequest, AdjustPermRequest>) {
       auto adjusts = AdjustImpl(request, absl::MakeSpan(ops), perm);
       SendStreamData(adjusts, pa);
-- 
2.43.0


From bd52957f776f709ae043078b7dba1f02811c94c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:37 +0000
Subject: [PATCH 30/70] fix: TinyOT can generate a single AND triple

---
 src/libspu/mpc/spdz2k/beaver/beaver_tinyot.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/libspu/mpc/spdz2k/beaver/beaver_tinyot.cc b/src/libspu/mpc/spdz2k/beaver/beaver_tinyot.cc
index f8d090f..6d57a8e 100644
--- a/src/libspu/mpc/spdz2k/beaver/beaver_tinyot.cc
+++ b/src/libspu/mpc/spdz2k/beaver/beaver_tinyot.cc
@@ -14,6 +14,7 @@
 
 #include "libspu/mpc/spdz2k/beaver/beaver_tinyot.h"
 
+#include <algorithm>
 #include <array>
 #include <chrono>
 #include <cstddef>
@@ -314,8 +315,10 @@ BeaverTinyOt::Triple_Pair BeaverTinyOt::AuthAnd(FieldType field,
   // extra sigma bits = 64
   const int64_t sigma = 64;
 
+  // the bucket size of the sacrifice is only defined for more than one triple
   auto [auth_a, auth_b, auth_c] =
-      TinyMul(comm_, send_opts_, recv_opts_, tinyot_num, tinyot_key_);
+      TinyMul(comm_, send_opts_, recv_opts_, std::max<int64_t>(tinyot_num, 2),
+              tinyot_key_);
 
   // we need extra sigma bits to check
   auto auth_r = RandomBits(comm_, send_opts_, recv_opts_, sigma, tinyot_key_);
-- 
2.43.0


From da0a0e74479ba98b6c06e9b2a98886af86fc62b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:32 +0000
Subject: [PATCH 31/70] fix: shifting an empty tensor by a public amount reads
 past the shift amounts

---
 src/libspu/kernel/hlo/shift.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/libspu/kernel/hlo/shift.cc b/src/libspu/kernel/hlo/shift.cc
index 0b6f3f1..a030225 100644
--- a/src/libspu/kernel/hlo/shift.cc
+++ b/src/libspu/kernel/hlo/shift.cc
@@ -26,6 +26,9 @@ namespace spu::kernel::hlo {
 template <typename Fn>
 spu::Value shift_impl_p(SPUContext *ctx, const spu::Value &lhs,
                         const spu::Value &rhs, const Fn &f) {
+  if (lhs.numel() == 0) {
+    return lhs;
+  }
   auto shift_bits = hal::dump_public_as<int64_t>(ctx, rhs);
   return f(ctx, lhs, {shift_bits.begin(), shift_bits.end()});
 }
-- 
2.43.0


From e6ecbbf97c9fe870963445e70bb3007c7c37da27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:23 +0000
Subject: [PATCH 32/70] fix: logical right shift of a negative integer narrower
 than the ring shifts in ring bits

---
 src/libspu/kernel/hlo/shift.cc | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/src/libspu/kernel/hlo/shift.cc b/src/libspu/kernel/hlo/shift.cc
index a030225..d50bfa8 100644
--- a/src/libspu/kernel/hlo/shift.cc
+++ b/src/libspu/kernel/hlo/shift.cc
@@ -17,6 +17,8 @@
 #include <algorithm>
 #include <cstddef>
 
+#include "libspu/core/context.h"
+#include "libspu/core/type_util.h"
 #include "libspu/kernel/hal/constants.h"
 #include "libspu/kernel/hal/polymorphic.h"
 #include "libspu/kernel/hal/public_helper.h"
@@ -62,6 +64,29 @@ spu::Value shift_impl(SPUContext *ctx, const spu::Value &lhs,
   return shift_impl_s(ctx, lhs, rhs, f);
 }
 
+// The ring holds an integer narrower than itself sign extended, so the bits
+// above the width of the type have to be dropped before they are shifted in.
+spu::Value logical_right_shift(SPUContext *ctx, const spu::Value &in,
+                               const Sizes &bits) {
+  const int64_t ring_width = SizeOf(ctx->getField()) * 8;
+  const int64_t width = getWidth(in.dtype());
+  if (width >= ring_width) {
+    return hal::right_shift_logical(ctx, in, bits);
+  }
+
+  const int64_t unused = ring_width - width;
+  auto ret = hal::right_shift_logical(ctx, hal::left_shift(ctx, in, {unused}),
+                                      {unused});
+  ret = hal::right_shift_logical(ctx, ret, bits);
+
+  // A negative number stays negative if and only if it is not shifted.
+  if (!in.isUInt() && std::find(bits.begin(), bits.end(), 0) != bits.end()) {
+    ret = hal::right_shift_arithmetic(ctx, hal::left_shift(ctx, ret, {unused}),
+                                      {unused});
+  }
+  return ret;
+}
+
 spu::Value Lshift(SPUContext *ctx, const spu::Value &operand,
                   const spu::Value &bits_to_shift) {
   return shift_impl(ctx, operand, bits_to_shift, hal::left_shift);
@@ -74,7 +99,7 @@ spu::Value ARshift(SPUContext *ctx, const spu::Value &operand,
 
 spu::Value Rshift(SPUContext *ctx, const spu::Value &operand,
                   const spu::Value &bits_to_shift) {
-  return shift_impl(ctx, operand, bits_to_shift, hal::right_shift_logical);
+  return shift_impl(ctx, operand, bits_to_shift, logical_right_shift);
 }
 
 }  // namespace spu::kernel::hlo
-- 
2.43.0


From 8870af52c5164e541096f658582141fc4e7d1720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:22 +0000
Subject: [PATCH 33/70] fix: public two-operand real functions reject half
 precision results

---
 src/libspu/kernel/hal/fxp_cleartext.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libspu/kernel/hal/fxp_cleartext.cc b/src/libspu/kernel/hal/fxp_cleartext.cc
index b5061d5..dec71d6 100644
--- a/src/libspu/kernel/hal/fxp_cleartext.cc
+++ b/src/libspu/kernel/hal/fxp_cleartext.cc
@@ -103,7 +103,8 @@ Value applyFloatingPointFn(SPUContext* ctx, const Value& x, const Value& y,
 
   DataType dtype;
   const auto out = encodeToRing(flp_x, field, fxp_bits, &dtype);
-  SPU_ENFORCE(dtype == DT_F32 || dtype == DT_F64, "sanity failed");
+  SPU_ENFORCE(dtype == DT_F16 || dtype == DT_F32 || dtype == DT_F64,
+              "sanity failed");
   return Value(out.as(x.storage_type()), dtype);
 }
 
-- 
2.43.0


From 47f76fd14551a5b15f926bf86d427c92c7c84617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:56 +0000
Subject: [PATCH 34/70] fix: SPDZ2k sign extraction opens its secret input

---
 src/libspu/mpc/spdz2k/conversion.cc | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/libspu/mpc/spdz2k/conversion.cc b/src/libspu/mpc/spdz2k/conversion.cc
index 122d1c2..3e9f0a4 100644
--- a/src/libspu/mpc/spdz2k/conversion.cc
+++ b/src/libspu/mpc/spdz2k/conversion.cc
@@ -342,9 +342,6 @@ NdArrayRef MSB::proc(KernelEvalContext* ctx, const NdArrayRef& in) const {
   auto _in = getValueShare(in);
   auto _in_mac = GetMacShare(ctx, in);
 
-  auto [c_in, c_in_mac] = beaver->BatchOpen(_in, _in_mac, k, s);
-  SPU_ENFORCE(beaver->BatchMacCheck(c_in, c_in_mac, k, s));
-
   auto _r_val = ring_zeros(field, in.shape());
   auto _r_mac = ring_zeros(field, in.shape());
   std::vector<NdArrayRef> _r_vec;
-- 
2.43.0


From 8f5fa2e09e9d56a444ce094e8b6afe2b5dd805e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:08 +0000
Subject: [PATCH 35/70] fix: dynamic slice mixing a negative public index with
 secret ones reads out of bounds

---
 src/libspu/kernel/hlo/indexing.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libspu/kernel/hlo/indexing.cc b/src/libspu/kernel/hlo/indexing.cc
index c233b55..f16e4a4 100644
--- a/src/libspu/kernel/hlo/indexing.cc
+++ b/src/libspu/kernel/hlo/indexing.cc
@@ -796,7 +796,8 @@ spu::Value SecretDynamicSlice(SPUContext *ctx, const spu::Value &operand,
     for (size_t rank = 0; rank < operand.shape().size(); ++rank) {
       if (start_indices[rank].isPublic()) {
         start[rank] = hal::getScalarValue<int64_t>(ctx, start_indices[rank]);
-        start[rank] = std::min(limit[rank] - slice_size[rank], start[rank]);
+        start[rank] = std::min(limit[rank] - slice_size[rank],
+                               std::max(start[rank], static_cast<int64_t>(0)));
         limit[rank] = start[rank] + slice_size[rank];
         new_start_indices[rank] = zero_s;
       } else {
-- 
2.43.0


From dd5400ae46ecbd95bde0298903a8ba8422a6efcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:08 +0000
Subject: [PATCH 36/70] fix: oram based dynamic slice of a public tensor
 rejects private indices

---
 src/libspu/kernel/hal/ring.cc | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/libspu/kernel/hal/ring.cc b/src/libspu/kernel/hal/ring.cc
index 09f44d2..e3ac6e5 100644
--- a/src/libspu/kernel/hal/ring.cc
+++ b/src/libspu/kernel/hal/ring.cc
@@ -677,14 +677,11 @@ Value _tensordot(SPUContext* ctx, const Value& x, const Value& y,
 std::optional<Value> _oramonehot(SPUContext* ctx, const Value& x,
                                  int64_t db_size, bool db_is_public) {
   std::optional<Value> ret;
+  const auto secret_x = x.isPrivate() ? _v2s(ctx, x) : x;
   if (db_is_public) {
-    ret = _oramonehot_sp(ctx, x, db_size);
+    ret = _oramonehot_sp(ctx, secret_x, db_size);
   } else {
-    if (x.isPrivate()) {
-      ret = _oramonehot_ss(ctx, _v2s(ctx, x), db_size);
-    } else {
-      ret = _oramonehot_ss(ctx, x, db_size);
-    }
+    ret = _oramonehot_ss(ctx, secret_x, db_size);
   }
 
   if (!ret.has_value()) {
-- 
2.43.0


From 61124b69d3a8efc79da3cb82158c29358d60017e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:08 +0000
Subject: [PATCH 37/70] fix: oram based dynamic slice rejects boolean shared
 tensors

---
 src/libspu/mpc/api.cc | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/libspu/mpc/api.cc b/src/libspu/mpc/api.cc
index 223401f..4a09f6c 100644
--- a/src/libspu/mpc/api.cc
+++ b/src/libspu/mpc/api.cc
@@ -743,10 +743,9 @@ OptionalAPI<Value> oram_onehot_sp(SPUContext* ctx, const Value& x,
 Value oram_read_ss(SPUContext* ctx, const Value& x, const Value& y,
                    int64_t offset) {
   SPU_TRACE_MPC_DISP(ctx, x, offset);
-  SPU_ENFORCE(IsO(x) && IsA(y), "expect OShare and AShare, got {} and {}",
-              x.storage_type(), y.storage_type());
+  SPU_ENFORCE(IsO(x), "expect OShare, got {}", x.storage_type());
 
-  return dynDispatch(ctx, "oram_read_aa", x, y, offset);
+  return dynDispatch(ctx, "oram_read_aa", x, _2a(ctx, y), offset);
 };
 
 Value oram_read_sp(SPUContext* ctx, const Value& x, const Value& y,
-- 
2.43.0


From 54e83304059cde3383137309f9b55138716ebd4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:39 +0000
Subject: [PATCH 38/70] fix: 2x2 max pooling ignores dilations and the strides
 of its outer dimensions

---
 src/libspu/kernel/hlo/reduce.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/libspu/kernel/hlo/reduce.cc b/src/libspu/kernel/hlo/reduce.cc
index f7e1595..2abdad0 100644
--- a/src/libspu/kernel/hlo/reduce.cc
+++ b/src/libspu/kernel/hlo/reduce.cc
@@ -488,8 +488,15 @@ std::pair<spu::Value, spu::Value> ArgMax(SPUContext *ctx,
                   [](const std::pair<int64_t, int64_t> &p) {
                     return p.first == 0 && p.second == 0;
                   });
+  auto no_dilation = std::all_of(config.window_dilations.begin(),
+                                 config.window_dilations.end(),
+                                 [](const int64_t x) { return x == 1; }) &&
+                     std::all_of(config.base_dilations.begin(),
+                                 config.base_dilations.end(),
+                                 [](const int64_t x) { return x == 1; });
   if (config.window_shape == absl::Span<const int64_t>{1, 2, 2, 1} &&
-      no_padding) {
+      no_padding && no_dilation && config.window_strides[0] == 1 &&
+      config.window_strides[3] == 1) {
     return ArgMax1x2x2x1NoPaddingWithoutDilation(ctx, input,
                                                  config.window_strides);
   }
-- 
2.43.0


From 6819f1b965dc7162949247f39f33fc7b1da02dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:11 +0000
Subject: [PATCH 39/70] fix: do not merge sort keys of different owners that
 precede a secret key

---
 src/libspu/kernel/hal/permute.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libspu/kernel/hal/permute.cc b/src/libspu/kernel/hal/permute.cc
index d2f2013..bda827b 100644
--- a/src/libspu/kernel/hal/permute.cc
+++ b/src/libspu/kernel/hal/permute.cc
@@ -1170,8 +1170,8 @@ std::vector<size_t> _find_mergeable_keys(SPUContext *ctx,
       } else {
         split_indices.push_back(idx + 1);
       }
-      pre_owner = cur_key.isPrivate() ? _get_owner(cur_key) : -1;
     }
+    pre_owner = cur_key.isPrivate() ? _get_owner(cur_key) : -1;
   }
   std::reverse(split_indices.begin(), split_indices.end());
   return split_indices;
-- 
2.43.0


From db0c8700bb0d8a89f85cef2f0df501ebcf387462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:11 +0000
Subject: [PATCH 40/70] fix: top-k of a private vector

---
 src/libspu/kernel/hal/permute.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libspu/kernel/hal/permute.cc b/src/libspu/kernel/hal/permute.cc
index bda827b..3226c3c 100644
--- a/src/libspu/kernel/hal/permute.cc
+++ b/src/libspu/kernel/hal/permute.cc
@@ -743,7 +743,8 @@ std::vector<spu::Value> PrepareInput(SPUContext *ctx, const Value &input,
 
   // shuffle with random permutation to break link of values
   auto rand_perm = _rand_perm_s(ctx, input.shape());
-  inp.push_back(_perm_ss(ctx, input, rand_perm).setDtype(input.dtype()));
+  inp.push_back(
+      _perm_ss(ctx, _2s(ctx, input), rand_perm).setDtype(input.dtype()));
 
   // we concate random value to hide the data-dependant running pattern
   // for quick select;
-- 
2.43.0


From fef75f92510e3299d9f92005ccc29af2ac6ca377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:28 +0000
Subject: [PATCH 41/70] fix: radix sort takes the top bit of a narrow boolean
 share for its sign

---
 src/libspu/kernel/hal/permute.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/libspu/kernel/hal/permute.cc b/src/libspu/kernel/hal/permute.cc
index 3226c3c..0690b3b 100644
--- a/src/libspu/kernel/hal/permute.cc
+++ b/src/libspu/kernel/hal/permute.cc
@@ -958,6 +958,8 @@ std::vector<spu::Value> _bit_decompose(SPUContext *ctx, const spu::Value &x,
   size_t nbits = valid_bits != -1
                      ? static_cast<size_t>(valid_bits)
                      : x_bshare.storage_type().as<BShare>()->nbits();
+  // a boolean share of no bits is the number zero
+  nbits = std::max<size_t>(nbits, 1);
   _hint_nbits(x_bshare, nbits);
   if (ctx->hasKernel("b2a_disassemble")) {
     auto ret =
@@ -993,7 +995,11 @@ std::vector<spu::Value> _gen_bv_vector(SPUContext *ctx,
   // keys[0] is the most significant key
   for (size_t i = keys.size(); i > 0; --i) {
     const auto t = _bit_decompose(ctx, keys[i - 1], valid_bits);
-    const bool is_unsigned = keys[i - 1].isUInt();
+    // a boolean share that is narrower than the ring holds a non-negative
+    // number, so the last of its bits is not a sign bit
+    const bool is_unsigned =
+        keys[i - 1].isUInt() ||
+        (valid_bits == -1 && t.size() < SizeOf(ctx->getField()) * 8);
 
     SPU_ENFORCE(t.size() > 0);
 
-- 
2.43.0


From 9e36de5f8c89d225a8a3d0dbe1b037749b8fb276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:28 +0000
Subject: [PATCH 42/70] fix: top-k indices of a public vector in the 32-bit
 ring

---
 src/libspu/kernel/hal/permute.cc | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/libspu/kernel/hal/permute.cc b/src/libspu/kernel/hal/permute.cc
index 0690b3b..0f099b7 100644
--- a/src/libspu/kernel/hal/permute.cc
+++ b/src/libspu/kernel/hal/permute.cc
@@ -1798,10 +1798,15 @@ std::vector<Value> topk_1d(SPUContext *ctx, const spu::Value &input,
         Index(indices_to_sort.begin(), indices_to_sort.begin() + config.k_hi);
     ret.push_back(internal::_permute_1d(ctx, input, topk_indices));
     if (!config.value_only) {
-      auto dt =
-          ctx->config().field == FieldType::FM32 ? spu::DT_I32 : spu::DT_I64;
-      ret.push_back(constant(ctx, topk_indices, dt,
-                             {static_cast<int64_t>(topk_indices.size())}));
+      const Shape indices_shape = {static_cast<int64_t>(topk_indices.size())};
+      if (ctx->config().field == FieldType::FM32) {
+        // FM32 can not encode 64-bit integers
+        std::vector<int32_t> indices32(topk_indices.begin(),
+                                       topk_indices.end());
+        ret.push_back(constant(ctx, indices32, spu::DT_I32, indices_shape));
+      } else {
+        ret.push_back(constant(ctx, topk_indices, spu::DT_I64, indices_shape));
+      }
     }
 
     return ret;
-- 
2.43.0


From 490ec4da68ed6b685d6c70e49dd30d51df52acee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:40 +0000
Subject: [PATCH 43/70] fix: SPDZ2K secret random numbers

rand_a tagged a ring array with the authenticated share type, which throws for every shape; the value also has to fit k-2 bits of the message space.
---
 src/libspu/mpc/spdz2k/arithmetic.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libspu/mpc/spdz2k/arithmetic.cc b/src/libspu/mpc/spdz2k/arithmetic.cc
index ceb7e75..9ae1c48 100644
--- a/src/libspu/mpc/spdz2k/arithmetic.cc
+++ b/src/libspu/mpc/spdz2k/arithmetic.cc
@@ -106,8 +106,8 @@ NdArrayRef RandA::proc(KernelEvalContext* ctx, const Shape& shape) const {
   // - https://eprint.iacr.org/2019/599.pdf
   // It's safer to keep the number within [-2**(k-2), 2**(k-2)) for comparison
   // operations.
-  auto x = ring_rshift(prg_state->genPriv(field, shape), {2})
-               .as(makeType<AShrTy>(field));
+  const auto bits = static_cast<int64_t>(SizeOf(field) * 8 - k + 2);
+  auto x = ring_rshift(prg_state->genPriv(field, shape), {bits});
   auto x_mac = beaver->AuthArrayRef(x, field, k, s);
   return makeAShare(x, x_mac, field);
 }
-- 
2.43.0


From f0861ca4c2d28794d8412f553c13a99e85cc7ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:40 +0000
Subject: [PATCH 44/70] fix: SWIFT parties disagree on the shares of a secret
 random number

---
 src/libspu/mpc/experimental/swift/arithmetic.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libspu/mpc/experimental/swift/arithmetic.cc b/src/libspu/mpc/experimental/swift/arithmetic.cc
index 9e178b4..82ce827 100644
--- a/src/libspu/mpc/experimental/swift/arithmetic.cc
+++ b/src/libspu/mpc/experimental/swift/arithmetic.cc
@@ -635,7 +635,7 @@ NdArrayRef RandA::proc(KernelEvalContext* ctx, const Shape& shape) const {
   if (rank == 2) {
     alpha2 = r1;
     beta = r0;
-    gamma = r3;
+    gamma = r2;
   }
 
   auto beta_plus_gamma = ring_add(beta, gamma);
-- 
2.43.0


From cdf577e434ccf37265151bf2bec1753a0edc2fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:40 +0000
Subject: [PATCH 45/70] fix: LowMC ciphertext keeps the bit width of a narrow
 input

---
 src/libspu/mpc/semi2k/lowmc.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/libspu/mpc/semi2k/lowmc.cc b/src/libspu/mpc/semi2k/lowmc.cc
index 993e563..127da2a 100644
--- a/src/libspu/mpc/semi2k/lowmc.cc
+++ b/src/libspu/mpc/semi2k/lowmc.cc
@@ -241,9 +241,11 @@ NdArrayRef LowMcB::proc(KernelEvalContext* ctx, const NdArrayRef& in) const {
   return encrypt(ctx, in, key, seed);
 }
 
-NdArrayRef LowMcB::encrypt(KernelEvalContext* ctx, const NdArrayRef& in,
+NdArrayRef LowMcB::encrypt(KernelEvalContext* ctx, const NdArrayRef& raw_in,
                            uint128_t key, uint128_t seed) const {
-  const auto field = in.eltype().as<BShrTy>()->field();
+  const auto field = raw_in.eltype().as<BShrTy>()->field();
+  // the cipher works on whole blocks, however few bits of the input are valid.
+  const auto in = raw_in.as(makeType<BShrTy>(field));
   const auto numel = in.numel();
   const auto k = SizeOf(field) * 8;
   const auto shape = in.shape();
-- 
2.43.0


From 21bc391dcc41721cec2c53632b1415f75ba8d6c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:52 +0000
Subject: [PATCH 46/70] fix: cast to integer with 31 or more fraction bits

The rounding constant (1 << fxp_bits) - 1 was computed in int, so casting a
negative fixed point number to an integer was wrong (and undefined) from 31
fraction bits on.
---
 src/libspu/kernel/hal/type_cast.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libspu/kernel/hal/type_cast.cc b/src/libspu/kernel/hal/type_cast.cc
index b432b86..240d63c 100644
--- a/src/libspu/kernel/hal/type_cast.cc
+++ b/src/libspu/kernel/hal/type_cast.cc
@@ -51,7 +51,8 @@ Value fxp2int(SPUContext* ctx, const Value& x, DataType to_type) {
   SPU_ENFORCE(x.isFxp());
 
   const int64_t fxp_bits = ctx->getFxpBits();
-  const Value kOneMinusEps = _constant(ctx, (1 << fxp_bits) - 1, x.shape());
+  const Value kOneMinusEps =
+      _constant(ctx, (static_cast<uint128_t>(1) << fxp_bits) - 1, x.shape());
 
   // (x + 0.99 * (x < 0)) >> fxp_bits
   return _arshift(ctx, _add(ctx, x, _mul(ctx, kOneMinusEps, _msb(ctx, x))),
-- 
2.43.0


From 0c4a9dacbe0c7718433fbdb7a01e00bec47a98d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:52 +0000
Subject: [PATCH 47/70] fix: cast between real types accepts F16

DT_F16 is a fixed point type like DT_F32 and DT_F64 (isFixedPoint, int2fxp)
but casting F32/F64 to it was refused.
---
 src/libspu/kernel/hal/type_cast.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/libspu/kernel/hal/type_cast.cc b/src/libspu/kernel/hal/type_cast.cc
index 240d63c..544da1f 100644
--- a/src/libspu/kernel/hal/type_cast.cc
+++ b/src/libspu/kernel/hal/type_cast.cc
@@ -114,8 +114,7 @@ Value dtype_cast(SPUContext* ctx, const Value& in, DataType to_type) {
     if (isInteger(to_type)) {
       return fxp2int(ctx, in, to_type);
     } else {
-      SPU_ENFORCE(to_type == DT_F32 || to_type == DT_F64,
-                  "expect to_type FXP, got {}", to_type);
+      SPU_ENFORCE(isFixedPoint(to_type), "expect to_type FXP, got {}", to_type);
       SPU_ENFORCE(in.isFxp(), "expect in type FXP, got {}", in.dtype());
       return Value(in.data(), to_type);
     }
-- 
2.43.0


From b845bb9d8aabd72550d9db67f265cd86a07f4361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:01 +0000
Subject: [PATCH 48/70] fix: IfElse with a private condition

A condition owned by one party was treated like a public one and refused by
getBooleanValue ("Expect public value"). Like a secret condition it has to be
resolved by selecting between the results of both branches.
---
 src/libspu/kernel/hlo/control_flow.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libspu/kernel/hlo/control_flow.cc b/src/libspu/kernel/hlo/control_flow.cc
index c7c4a6d..1efe341 100644
--- a/src/libspu/kernel/hlo/control_flow.cc
+++ b/src/libspu/kernel/hlo/control_flow.cc
@@ -31,7 +31,7 @@ namespace spu::kernel::hlo {
 std::vector<spu::Value> IfElse(SPUContext *ctx, const spu::Value &condition,
                                const BranchFcnT &on_true,
                                const BranchFcnT &on_false) {
-  if (condition.isSecret()) {
+  if (!condition.isPublic()) {
     auto true_ret = on_true();
     auto false_ret = on_false();
 
-- 
2.43.0


From 10d6356b03844c76067e3e83934d8868be914733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:49 +0000
Subject: [PATCH 49/70] fix: power with a result below 2^-32 or above 2^32

power() evaluates exp_pade(y * log|x|) without the clamp f_exp applies first,
and exp2_pade only looks at five integer bits of its input, so e.g. 0.1^40 gave
0.03. Clamp inside exp_pade, which serves both callers.
---
 src/libspu/kernel/hal/fxp_approx.cc | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/libspu/kernel/hal/fxp_approx.cc b/src/libspu/kernel/hal/fxp_approx.cc
index 6fa4208..b501cdf 100644
--- a/src/libspu/kernel/hal/fxp_approx.cc
+++ b/src/libspu/kernel/hal/fxp_approx.cc
@@ -310,7 +310,14 @@ Value exp2_pade(SPUContext* ctx, const Value& x) {
 }
 
 Value exp_pade(SPUContext* ctx, const Value& x) {
-  return f_exp2(ctx, f_mul(ctx, x,
+  // The valid input for exp_pade is [-kInputLimit, kInputLimit].
+  // TODO(junfeng): should merge clamp into exp2_pade to save msb ops.
+  const float kInputLimit = 32.0 / std::log2(std::exp(1));
+  const auto clamped_x =
+      _clamp(ctx, x, constant(ctx, -kInputLimit, x.dtype(), x.shape()),
+             constant(ctx, kInputLimit, x.dtype(), x.shape()))
+          .setDtype(x.dtype());
+  return f_exp2(ctx, f_mul(ctx, clamped_x,
                            constant(ctx, std::log2(std::exp(1.0F)), x.dtype(),
                                     x.shape())));
 }
@@ -461,16 +468,8 @@ Value f_exp(SPUContext* ctx, const Value& x) {
     case RuntimeConfig::EXP_DEFAULT:
     case RuntimeConfig::EXP_TAYLOR:
       return detail::exp_taylor(ctx, x);
-    case RuntimeConfig::EXP_PADE: {
-      // The valid input for exp_pade is [-kInputLimit, kInputLimit].
-      // TODO(junfeng): should merge clamp into exp_pade to save msb ops.
-      const float kInputLimit = 32.0 / std::log2(std::exp(1));
-      const auto clamped_x =
-          _clamp(ctx, x, constant(ctx, -kInputLimit, x.dtype(), x.shape()),
-                 constant(ctx, kInputLimit, x.dtype(), x.shape()))
-              .setDtype(x.dtype());
-      return detail::exp_pade(ctx, clamped_x);
-    }
+    case RuntimeConfig::EXP_PADE:
+      return detail::exp_pade(ctx, x);
     case RuntimeConfig::EXP_PRIME:
       if (ctx->hasKernel("exp_a")) {
         return detail::exp_prime(ctx, x);
-- 
2.43.0


From fd0c841e930e8aaaf5bd65939d46df8bdb9d2230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:49 +0000
Subject: [PATCH 50/70] fix: atan2 of a boolean share and a public or private
 value

The common type was the boolean share, but casting a public or private value to
it yields an arithmetic share, so packing both operands failed.
---
 src/libspu/kernel/hal/fxp_approx.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/libspu/kernel/hal/fxp_approx.cc b/src/libspu/kernel/hal/fxp_approx.cc
index b501cdf..0939fc4 100644
--- a/src/libspu/kernel/hal/fxp_approx.cc
+++ b/src/libspu/kernel/hal/fxp_approx.cc
@@ -855,9 +855,13 @@ Value AtanApproxLocal(SPUContext* ctx, const Value& x) {
 }
 
 Value atan2_minimax(SPUContext* ctx, const Value& y, const Value& x) {
-  auto common_type = _common_type(ctx, x.storage_type(), y.storage_type());
-  std::vector<Value> xy = {_cast_type(ctx, x, common_type).setDtype(x.dtype()),
-                           _cast_type(ctx, y, common_type).setDtype(y.dtype())};
+  // a public or private value can not be cast to a boolean share
+  const auto x_a = _prefer_a(ctx, x);
+  const auto y_a = _prefer_a(ctx, y);
+  auto common_type = _common_type(ctx, x_a.storage_type(), y_a.storage_type());
+  std::vector<Value> xy = {
+      _cast_type(ctx, x_a, common_type).setDtype(x.dtype()),
+      _cast_type(ctx, y_a, common_type).setDtype(y.dtype())};
   // vectorize the computation of the msb and abs of x and y
   std::vector<Value> msb_xy;
   spu::vmap(xy.begin(), xy.end(), std::back_inserter(msb_xy),
-- 
2.43.0


From 934b77363a5eff91e0251f2dc1352745314c37d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:49 +0000
Subject: [PATCH 51/70] fix: exp in EXP_PRIME mode of private values and
 boolean shares

The exp_a kernel was called with whatever representation the input had: with
the lower bound disabled a boolean share was read as an arithmetic one and gave
a wrong result, and a private value failed.
---
 src/libspu/kernel/hal/fxp_approx.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/libspu/kernel/hal/fxp_approx.cc b/src/libspu/kernel/hal/fxp_approx.cc
index 0939fc4..88dda35 100644
--- a/src/libspu/kernel/hal/fxp_approx.cc
+++ b/src/libspu/kernel/hal/fxp_approx.cc
@@ -23,6 +23,7 @@
 #include "libspu/kernel/hal/constants.h"
 #include "libspu/kernel/hal/fxp_base.h"
 #include "libspu/kernel/hal/fxp_cleartext.h"
+#include "libspu/kernel/hal/prot_wrapper.h"
 #include "libspu/kernel/hal/ring.h"
 #include "libspu/kernel/hal/shape_ops.h"
 
@@ -202,7 +203,8 @@ Value exp_taylor(SPUContext* ctx, const Value& x) {
 }
 
 Value exp_prime(SPUContext* ctx, const Value& x) {
-  auto clamped_x = x;
+  // exp_a works on arithmetic shares only
+  auto clamped_x = x.isPrivate() ? _v2s(ctx, x).setDtype(x.dtype()) : x;
   auto offset = ctx->config().experimental_exp_prime_offset;
   auto fxp = ctx->getFxpBits();
   if (!ctx->config().experimental_exp_prime_disable_lower_bound) {
@@ -222,6 +224,7 @@ Value exp_prime(SPUContext* ctx, const Value& x) {
                     .setDtype(x.dtype());
   }
 
+  clamped_x = _prefer_a(ctx, clamped_x);
   auto ret = dynDispatch<spu::Value>(ctx, "exp_a", clamped_x);
   return ret.setDtype(x.dtype());
 }
-- 
2.43.0


From 3db879a33380693111c92256ee64b0394792e4d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:46 +0000
Subject: [PATCH 52/70] fix: rounding a short or empty boolean share to nearest
 even

The bits of an empty tensor, or of a boolean share with fewer bits than the
fraction, have shares of different widths, which vreduce refuses to pack
together.
---
 src/libspu/kernel/hlo/basic_unary.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/libspu/kernel/hlo/basic_unary.cc b/src/libspu/kernel/hlo/basic_unary.cc
index 44cc9e3..c21b454 100644
--- a/src/libspu/kernel/hlo/basic_unary.cc
+++ b/src/libspu/kernel/hlo/basic_unary.cc
@@ -118,6 +118,9 @@ spu::Value Round_RNTE(SPUContext *ctx, const spu::Value &in) {
   // so comp = b && (c || a)
   SPU_ENFORCE(!in.isComplex());
   SPU_ENFORCE(in.isFxp(), "Round only supports fxp");
+  if (in.numel() == 0) {
+    return in;
+  }
   const int64_t fxp_bits = ctx->getFxpBits();
   const auto k1 = hal::_constant(ctx, 1U, in.shape());
 
@@ -131,6 +134,10 @@ spu::Value Round_RNTE(SPUContext *ctx, const spu::Value &in) {
   cs.reserve(fxp_bits - 1);
   for (int64_t idx = 0; idx < fxp_bits - 1; idx++) {
     auto x_ = hal::_and(ctx, hal::_rshift(ctx, x_prime, {idx}), k1);
+    // `vreduce` packs operands, so all of them must be of the same type
+    if (x_.storage_type().isa<BShare>()) {
+      const_cast<Type &>(x_.storage_type()).as<BShare>()->setNbits(1);
+    }
     cs.push_back(std::move(x_));
   }
   auto c = vreduce(cs.begin(), cs.end(), [&](const Value &a, const Value &b) {
-- 
2.43.0


From f984b6868441556f4bf8e1169babaad95c97adf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:02 +0000
Subject: [PATCH 53/70] fix: uniform random numbers have the requested shape

The result was always a vector.
---
 src/libspu/kernel/hal/random.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/libspu/kernel/hal/random.cc b/src/libspu/kernel/hal/random.cc
index ddf0b59..0d1fa64 100644
--- a/src/libspu/kernel/hal/random.cc
+++ b/src/libspu/kernel/hal/random.cc
@@ -55,7 +55,9 @@ Value rng_uniform(SPUContext* ctx, const Value& lo, const Value& hi,
     ele = dist(gen);
   }
 
-  return constant(ctx, buffer, lo.dtype());
+  const PtBufferView view(buffer.data(), PT_F32, to_shape,
+                          makeCompactStrides(to_shape));
+  return constant(ctx, view, lo.dtype(), to_shape);
 }
 
 Value random(SPUContext* ctx, Visibility vis, DataType dtype,
-- 
2.43.0


From a1ebc84f7049deaa0e916d41e3b7e103a925dde3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:58 +0000
Subject: [PATCH 54/70] fix: uniform random integers

The numbers were drawn as reals and their fixed point encodings were taken for
integers.
---
 src/libspu/kernel/hal/random.cc | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/libspu/kernel/hal/random.cc b/src/libspu/kernel/hal/random.cc
index 0d1fa64..8ec83b1 100644
--- a/src/libspu/kernel/hal/random.cc
+++ b/src/libspu/kernel/hal/random.cc
@@ -15,9 +15,13 @@
 #include "libspu/kernel/hal/random.h"
 
 #include <random>
+#include <type_traits>
+#include <vector>
 
+#include "libspu/core/encoding.h"
 #include "libspu/core/prelude.h"
 #include "libspu/core/trace.h"
+#include "libspu/core/type_util.h"
 #include "libspu/kernel/hal/constants.h"
 #include "libspu/kernel/hal/prot_wrapper.h"
 #include "libspu/kernel/hal/public_helper.h"
@@ -43,11 +47,31 @@ Value rng_uniform(SPUContext* ctx, const Value& lo, const Value& hi,
   SPU_ENFORCE(lo.isPublic() && hi.isPublic());
   SPU_ENFORCE(lo.numel() == 1 && hi.numel() == 1);
 
+  // TODO: support more random generator.
+  std::mt19937 gen(genPublicRandSeed(ctx));
+
+  if (lo.isInt()) {
+    return DISPATCH_ALL_NONE_BOOL_PT_TYPES(getDecodeType(lo.dtype()), [&]() {
+      using WideT = std::conditional_t<std::is_unsigned_v<ScalarT>, uint64_t,
+                                       int64_t>;
+      const auto i_lo = getScalarValue<WideT>(ctx, lo);
+      const auto i_hi = getScalarValue<WideT>(ctx, hi);
+      SPU_ENFORCE(i_lo < i_hi, "empty range [{}, {})", i_lo, i_hi);
+      std::uniform_int_distribution<WideT> dist(i_lo, i_hi - 1);
+
+      std::vector<ScalarT> buffer(to_shape.numel());
+      for (ScalarT& ele : buffer) {
+        ele = static_cast<ScalarT>(dist(gen));
+      }
+      const PtBufferView view(buffer.data(), PtTypeToEnum<ScalarT>::value,
+                              to_shape, makeCompactStrides(to_shape));
+      return constant(ctx, view, lo.dtype(), to_shape);
+    });
+  }
+
   const auto f_lo = getScalarValue<float>(ctx, lo);
   const auto f_hi = getScalarValue<float>(ctx, hi);
 
-  // TODO: support more random generator.
-  std::mt19937 gen(genPublicRandSeed(ctx));
   std::uniform_real_distribution<> dist(f_lo, f_hi);
 
   std::vector<float> buffer(to_shape.numel());
-- 
2.43.0


From 3306cf98778b1cb8e3a662d49857a765bf99e8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:01 +0000
Subject: [PATCH 55/70] fix: uniform random reals below the upper bound

Bounds and numbers were rounded to float, so that numbers of a narrow range
could reach or pass its ends.
---
 src/libspu/kernel/hal/random.cc | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/libspu/kernel/hal/random.cc b/src/libspu/kernel/hal/random.cc
index 8ec83b1..7129a97 100644
--- a/src/libspu/kernel/hal/random.cc
+++ b/src/libspu/kernel/hal/random.cc
@@ -14,6 +14,8 @@
 
 #include "libspu/kernel/hal/random.h"
 
+#include <algorithm>
+#include <cmath>
 #include <random>
 #include <type_traits>
 #include <vector>
@@ -69,17 +71,19 @@ Value rng_uniform(SPUContext* ctx, const Value& lo, const Value& hi,
     });
   }
 
-  const auto f_lo = getScalarValue<float>(ctx, lo);
-  const auto f_hi = getScalarValue<float>(ctx, hi);
+  const auto f_lo = getScalarValue<double>(ctx, lo);
+  const auto f_hi = getScalarValue<double>(ctx, hi);
 
-  std::uniform_real_distribution<> dist(f_lo, f_hi);
+  std::uniform_real_distribution<double> dist(f_lo, f_hi);
 
-  std::vector<float> buffer(to_shape.numel());
-  for (float& ele : buffer) {
-    ele = dist(gen);
+  // the distribution may round up to its upper bound
+  const auto f_max = std::nextafter(f_hi, f_lo);
+  std::vector<double> buffer(to_shape.numel());
+  for (double& ele : buffer) {
+    ele = std::min(dist(gen), f_max);
   }
 
-  const PtBufferView view(buffer.data(), PT_F32, to_shape,
+  const PtBufferView view(buffer.data(), PT_F64, to_shape,
                           makeCompactStrides(to_shape));
   return constant(ctx, view, lo.dtype(), to_shape);
 }
-- 
2.43.0


From 71b8045286fba0d81e6f5f9179af7f4c5cef719f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:04 +0000
Subject: [PATCH 56/70] fix: combining SECURENN shares that are not compact

They were skipped as if they were zeros, so that a reversed, broadcast or
transposed result came out as zeros.
---
 src/libspu/mpc/securenn/io.cc | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/src/libspu/mpc/securenn/io.cc b/src/libspu/mpc/securenn/io.cc
index 28a8c3c..ab86933 100644
--- a/src/libspu/mpc/securenn/io.cc
+++ b/src/libspu/mpc/securenn/io.cc
@@ -88,11 +88,6 @@ NdArrayRef SecurennIo::fromShares(const std::vector<NdArrayRef>& shares) const {
     auto res = ring_zeros(field, shares[0].shape());
 
     for (const auto& share : shares) {
-      // Currently, only packed zeros are not compact, this is for colocation
-      // optimization
-      if (!share.isCompact()) {
-        continue;
-      }
       if (eltype.isa<AShare>()) {
         ring_add_(res, share);
       } else if (eltype.isa<BShare>()) {
-- 
2.43.0


From 076fc68e05d0f42a67b2929512a6c2b795629519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:04 +0000
Subject: [PATCH 57/70] fix: chunk count of complex values

Values are serialized in twice the announced number of chunks.
---
 src/libspu/core/value.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/libspu/core/value.cc b/src/libspu/core/value.cc
index 9d8412a..27b118d 100644
--- a/src/libspu/core/value.cc
+++ b/src/libspu/core/value.cc
@@ -67,7 +67,8 @@ Value& Value::setDtype(DataType new_dtype, bool force) {
 size_t Value::chunksCount(size_t max_chunk_size) const {
   size_t total = numel() * data_.elsize();
   size_t num_chunks = (total + max_chunk_size - 1) / max_chunk_size;
-  return num_chunks;
+  // real and imaginary part are split separately
+  return imag_.has_value() ? 2 * num_chunks : num_chunks;
 }
 
 ValueProto Value::toProto(size_t max_chunk_size) const {
@@ -96,7 +97,8 @@ ValueProto Value::toProto(size_t max_chunk_size) const {
     }
   };
 
-  const size_t num_chunks = chunksCount(max_chunk_size);
+  const size_t part_size = numel() * data_.elsize();
+  const size_t num_chunks = (part_size + max_chunk_size - 1) / max_chunk_size;
 
   auto array_to_chunks = [&](const NdArrayRef& a) {
     if (a.isCompact()) {
-- 
2.43.0


From 8e53e940447981748dd68f7703b132a80acadaa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:59 +0000
Subject: [PATCH 58/70] fix: share size of complex arrays and of owned arrays
 without co-location

---
 src/libspu/device/io.cc | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/libspu/device/io.cc b/src/libspu/device/io.cc
index a9f0def..2ae678d 100644
--- a/src/libspu/device/io.cc
+++ b/src/libspu/device/io.cc
@@ -36,9 +36,17 @@ size_t IoClient::getShareSize(const PtBufferView &bv, Visibility vtype,
   if (bv.pt_type == PT_I1 && vtype == VIS_SECRET &&
       base_io_->hasBitSecretSupport()) {
     return base_io_->getBitSecretShareSize(bv.shape.numel());
-  } else {
-    return base_io_->getShareType(vtype, owner_rank).size() * bv.shape.numel();
   }
+
+  if (!config_.experimental_enable_colocated_optimization) {
+    // same as makeShares, which ignores the owner in this case.
+    owner_rank = -1;
+  }
+
+  // a complex array is shared as its real part and its imaginary part.
+  const bool is_complex = bv.pt_type == PT_CF32 || bv.pt_type == PT_CF64;
+  return base_io_->getShareType(vtype, owner_rank).size() * bv.shape.numel() *
+         (is_complex ? 2 : 1);
 }
 
 std::vector<spu::Value> IoClient::makeShares(const PtBufferView &bv,
-- 
2.43.0


From fe304a12fa58d625f1020e125ac4960f2416a7a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:48 +0000
Subject: [PATCH 59/70] fix: SECURENN and_bb opened its masked operands to the
 party that generated the masks

P2 deals the boolean beaver triple, so it could unmask both operands.
---
 src/libspu/mpc/common/communicator.h | 38 ++++++++++++++++++++++++++++
 src/libspu/mpc/securenn/boolean.cc   |  3 ++-
 2 files changed, 40 insertions(+), 1 deletion(-)

diff --git a/src/libspu/mpc/common/communicator.h b/src/libspu/mpc/common/communicator.h
index 44a3837..db6fdd6 100644
--- a/src/libspu/mpc/common/communicator.h
+++ b/src/libspu/mpc/common/communicator.h
@@ -130,6 +130,12 @@ class Communicator : public State {
   template <typename T, template <typename> typename FN>
   std::vector<T> allReduce(absl::Span<T const> in, std::string_view tag);
 
+  // Like allReduce, but only the parties below `num_receivers` learn the
+  // result, the others get zeros.
+  template <typename T, template <typename> typename FN>
+  std::vector<T> reduceTo(absl::Span<T const> in, size_t num_receivers,
+                          std::string_view tag);
+
   // TODO: test me
   template <typename T>
   std::vector<T> bcast(absl::Span<T const> in, size_t root,
@@ -194,6 +200,38 @@ std::vector<T> Communicator::allReduce(absl::Span<T const> in,
   return res;
 }
 
+template <typename T, template <typename> typename FN>
+std::vector<T> Communicator::reduceTo(absl::Span<T const> in,
+                                      size_t num_receivers,
+                                      std::string_view tag) {
+  for (size_t dst = 0; dst < num_receivers; dst++) {
+    if (dst != getRank()) {
+      sendAsync<T>(dst, in, tag);
+    }
+  }
+
+  std::vector<T> res(in.size(), 0);
+  if (getRank() < num_receivers) {
+    res.assign(in.begin(), in.end());
+    const FN<T> fn;
+    for (size_t src = 0; src < getWorldSize(); src++) {
+      if (src == getRank()) {
+        continue;
+      }
+      auto other = recv<T>(src, tag);
+      SPU_ENFORCE(other.size() == res.size());
+      pforeach(0, in.size(), [&](int64_t idx) {
+        res[idx] = fn(res[idx], other[idx]);
+      });
+    }
+  }
+
+  stats_.latency += 1;
+  stats_.comm += in.size() * sizeof(T) * (lctx_->WorldSize() - 1);
+
+  return res;
+}
+
 template <typename T>
 std::vector<T> Communicator::bcast(absl::Span<T const> in, size_t root,
                                    std::string_view tag) {
diff --git a/src/libspu/mpc/securenn/boolean.cc b/src/libspu/mpc/securenn/boolean.cc
index c122b9e..6c30eea 100644
--- a/src/libspu/mpc/securenn/boolean.cc
+++ b/src/libspu/mpc/securenn/boolean.cc
@@ -212,7 +212,8 @@ NdArrayRef AndBB::proc(KernelEvalContext* ctx, const NdArrayRef& lhs,
         mask[numel + idx] = _rhs[idx] ^ _b[idx];
       });
 
-      mask = comm->allReduce<V, std::bit_xor>(mask, "open(x^a,y^b)");
+      // P2 knows a and b, so it must not learn the masked values.
+      mask = comm->reduceTo<V, std::bit_xor>(mask, 2, "open(x^a,y^b)");
 
       // Zi = Ci ^ ((X ^ A) & Bi) ^ ((Y ^ B) & Ai) ^ <(X ^ A) & (Y ^ B)>
       NdArrayView<T> _z(out);
-- 
2.43.0


From 9aa3bf2dfc0002ea7d1bbfe2bbf7ed3a1a363d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:21 +0000
Subject: [PATCH 60/70] fix: SECURENN truncation opened its masked input to the
 party that knows the mask

P2 reconstructs r to deal the truncated masks, and it learned x + r.
---
 src/libspu/mpc/securenn/arithmetic.cc | 27 ++++++++++++---------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/src/libspu/mpc/securenn/arithmetic.cc b/src/libspu/mpc/securenn/arithmetic.cc
index 2bb7bb6..2dd8963 100644
--- a/src/libspu/mpc/securenn/arithmetic.cc
+++ b/src/libspu/mpc/securenn/arithmetic.cc
@@ -197,9 +197,15 @@ NdArrayRef TruncAPr::proc(KernelEvalContext* ctx, const NdArrayRef& in,
   DISPATCH_ALL_FIELDS(field, [&]() {
     using U = ring2k_t;
 
-    auto r = prg_state->genPriv(field, in.shape());
-    auto rc = prg_state->genPriv(field, in.shape());
-    auto rb = prg_state->genPriv(field, in.shape());
+    // P2 deals the masks, so it neither holds a part of them nor learns the
+    // masked value.
+    auto gen_share = [&]() {
+      return rank == 2 ? ring_zeros(field, in.shape())
+                       : prg_state->genPriv(field, in.shape());
+    };
+    auto r = gen_share();
+    auto rc = gen_share();
+    auto rb = gen_share();
 
     // reconstruct r, rc, rb
     auto r_recon = comm->reduce(ReduceOp::ADD, r, 2, "r");
@@ -248,8 +254,8 @@ NdArrayRef TruncAPr::proc(KernelEvalContext* ctx, const NdArrayRef& in,
         // mask x with r
         x_plus_r[idx] = x + _r[idx];
       });
-      // open <x> + <r> = c
-      c = comm->allReduce<U, std::plus>(x_plus_r, kBindName());
+      // open <x> + <r> = c to P0 and P1
+      c = comm->reduceTo<U, std::plus>(x_plus_r, 2, kBindName());
     }
 
     pforeach(0, numel, [&](int64_t idx) {
@@ -268,6 +274,7 @@ NdArrayRef TruncAPr::proc(KernelEvalContext* ctx, const NdArrayRef& in,
         // y' = y - 2^(k-2-m)
         y -= (U(1) << (k - 2 - bits));
       } else {
+        // all zeros for P2.
         auto b = _rb[idx] + 0 - 2 * ck_1 * _rb[idx];
         y = 0 - _rc[idx] + (b << (k - 1 - bits));
       }
@@ -275,16 +282,6 @@ NdArrayRef TruncAPr::proc(KernelEvalContext* ctx, const NdArrayRef& in,
       _out[idx] = y;
     });
   });
-  // P2 send share to P0
-  if (rank == 2) {
-    comm->sendAsync(0, out, "out");
-    out = ring_zeros(field, in.shape()).as(makeType<AShrTy>(field));
-  }
-  if (rank == 0) {
-    auto tmp = comm->recv(2, makeType<AShrTy>(field), "out");
-    tmp = tmp.reshape(in.shape());
-    out = ring_add(out, tmp);
-  }
 
   return out.as(makeType<AShrTy>(field));
 }
-- 
2.43.0


From 50a18ecf2ff994197b0828f9b97b03dd13befb48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:21 +0000
Subject: [PATCH 61/70] fix: SECURENN b2a opened its masked input to the party
 that dealt the random bits

---
 src/libspu/mpc/securenn/conversion.cc | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/src/libspu/mpc/securenn/conversion.cc b/src/libspu/mpc/securenn/conversion.cc
index cc78358..549c691 100644
--- a/src/libspu/mpc/securenn/conversion.cc
+++ b/src/libspu/mpc/securenn/conversion.cc
@@ -109,8 +109,11 @@ NdArrayRef B2A_Randbit::proc(KernelEvalContext* ctx,
 
   auto numel = x.numel();
 
-  auto randbits =
-      prg_state->genPriv(field, {numel * static_cast<int64_t>(nbits)});
+  // P2 deals the random bits, so it neither holds a part of them nor learns the
+  // masked value.
+  const Shape randbits_shape = {numel * static_cast<int64_t>(nbits)};
+  auto randbits = rank == 2 ? ring_zeros(field, randbits_shape)
+                            : prg_state->genPriv(field, randbits_shape);
   // reconstruct ranbits
   if (rank == 0) {
     comm->sendAsync(2, randbits, "randbits0");
@@ -155,8 +158,8 @@ NdArrayRef B2A_Randbit::proc(KernelEvalContext* ctx,
       x_xor_r[idx] = _x[idx] ^ mask;
     });
 
-    // open c = x ^ r
-    x_xor_r = comm->allReduce<U, std::bit_xor>(x_xor_r, "open(x^r)");
+    // open c = x ^ r to P0 and P1
+    x_xor_r = comm->reduceTo<U, std::bit_xor>(x_xor_r, 2, "open(x^r)");
 
     NdArrayView<U> _res(res);
     pforeach(0, numel, [&](int64_t idx) {
@@ -173,15 +176,6 @@ NdArrayRef B2A_Randbit::proc(KernelEvalContext* ctx,
     });
   });
 
-  if (comm->getRank() == 2) {
-    comm->sendAsync(0, res, "res");
-    res = ring_zeros(field, x.shape()).as(makeType<AShrTy>(field));
-  }
-  if (comm->getRank() == 0) {
-    auto tmp = comm->recv(2, makeType<AShrTy>(field), "res");
-    tmp = tmp.reshape(x.shape());
-    res = ring_add(res, tmp);
-  }
   return res;
 }
 
-- 
2.43.0


From 1a7f0747d487940699fdf1b360b4250f37a906d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:04 +0000
Subject: [PATCH 62/70] fix: SPDZ2K matrix products did not check the MACs of
 the opened operands

---
 src/libspu/mpc/spdz2k/arithmetic.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/libspu/mpc/spdz2k/arithmetic.cc b/src/libspu/mpc/spdz2k/arithmetic.cc
index 9ae1c48..00134d3 100644
--- a/src/libspu/mpc/spdz2k/arithmetic.cc
+++ b/src/libspu/mpc/spdz2k/arithmetic.cc
@@ -537,7 +537,9 @@ NdArrayRef MatMulAA::proc(KernelEvalContext* ctx, const NdArrayRef& lhs,
   const auto s_bits = ctx->getState<Spdz2kState>()->s();
 
   const auto& x = getValueShare(lhs);
+  const auto& x_mac = GetMacShare(ctx, lhs);
   const auto& y = getValueShare(rhs);
+  const auto& y_mac = GetMacShare(ctx, rhs);
 
   // generate beaver multiple triple.
   auto [vec, mac_vec] = beaver->AuthDot(field, lhs.shape()[0], rhs.shape()[1],
@@ -553,6 +555,12 @@ NdArrayRef MatMulAA::proc(KernelEvalContext* ctx, const NdArrayRef& lhs,
   auto p_f = std::move(res[1]);
   auto p_ef = ring_mmul(p_e, p_f);
 
+  auto e_mac = ring_sub(x_mac, a_mac);
+  auto f_mac = ring_sub(y_mac, b_mac);
+
+  SPU_ENFORCE(beaver->BatchMacCheck(p_e, e_mac, k_bits, s_bits));
+  SPU_ENFORCE(beaver->BatchMacCheck(p_f, f_mac, k_bits, s_bits));
+
   // z = p_e dot b + a dot p_f + c;
   auto z = ring_add(ring_add(ring_mmul(p_e, b), ring_mmul(a, p_f)), c);
   if (comm->getRank() == 0) {
-- 
2.43.0


From f5c684fb33ed471b7225b71bbe69a9db3c583939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:04 +0000
Subject: [PATCH 63/70] fix: SWIFT went on computing with a message that failed
 joint message passing

---
 .../mpc/experimental/swift/arithmetic.cc      | 31 ++++++++++++++-----
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/src/libspu/mpc/experimental/swift/arithmetic.cc b/src/libspu/mpc/experimental/swift/arithmetic.cc
index 82ce827..a9b085f 100644
--- a/src/libspu/mpc/experimental/swift/arithmetic.cc
+++ b/src/libspu/mpc/experimental/swift/arithmetic.cc
@@ -45,6 +45,17 @@ NdArrayRef getOrCreateCompactArray(const NdArrayRef& in) {
   return in;
 }
 
+namespace {
+
+bool recvInconsistentBit(Communicator* comm, size_t src_rank,
+                         std::string_view tag) {
+  auto bit = comm->recv<uint8_t>(src_rank, tag);
+  SPU_ENFORCE(bit.size() == 1);
+  return bit[0] != 0;
+}
+
+}  // namespace
+
 // Reference:
 // SWIFT: Super-fast and Robust Privacy-Preserving Machine Learning
 // P6 3.1 Protocol_jmp
@@ -76,17 +87,17 @@ void JointMessagePassing(KernelEvalContext* ctx, NdArrayRef& msg,
     comm->addCommStatsManually(1, kComm);
 
     // recv inconsistent_bit from P_recv
-    auto recv_b_from_pk = comm->recv<bool>(rank_recv, tag);
-    inconsistent_bit = recv_b_from_pk[0];
+    const bool recv_b_from_pk = recvInconsistentBit(comm, rank_recv, tag);
+    inconsistent_bit = recv_b_from_pk;
 
     // exchange inconsistent bit between P_send and P_hash
     // reset inconsistent bit to b_send || b_hash
     std::array<bool, 1> send_b;
     send_b[0] = inconsistent_bit;
 
-    auto recv_b_from_pj = comm->recv<bool>(rank_hash, tag);
+    const bool recv_b_from_pj = recvInconsistentBit(comm, rank_hash, tag);
     comm->sendAsync<bool>(rank_hash, absl::MakeSpan(send_b), tag);
-    inconsistent_bit = recv_b_from_pk[0] || recv_b_from_pj[0];
+    inconsistent_bit = recv_b_from_pk || recv_b_from_pj;
 
     // P_send and P_hash exchange inconsistent bit
     comm->addCommStatsManually(1, 1);
@@ -112,16 +123,16 @@ void JointMessagePassing(KernelEvalContext* ctx, NdArrayRef& msg,
     }
 
     // recv inconsistent_bit from P_recv
-    auto recv_b_from_pk = comm->recv<bool>(rank_recv, tag);
-    inconsistent_bit = recv_b_from_pk[0];
+    const bool recv_b_from_pk = recvInconsistentBit(comm, rank_recv, tag);
+    inconsistent_bit = recv_b_from_pk;
 
     // exchange inconsistent bit between P_send and P_hash
     // reset inconsistent bit to b_send || b_hash
     std::array<bool, 1> send_b;
     send_b[0] = inconsistent_bit;
     comm->sendAsync<bool>(rank_send, absl::MakeSpan(send_b), tag);
-    auto recv_b_from_pi = comm->recv<bool>(rank_send, tag);
-    inconsistent_bit = recv_b_from_pk[0] || recv_b_from_pi[0];
+    const bool recv_b_from_pi = recvInconsistentBit(comm, rank_send, tag);
+    inconsistent_bit = recv_b_from_pk || recv_b_from_pi;
 
     // P_send and P_hash exchange inconsistent bit
     comm->addCommStatsManually(1, 1);
@@ -209,6 +220,10 @@ void JointMessagePassing(KernelEvalContext* ctx, NdArrayRef& msg,
           "inconsistent check fail for tag {} from Party_{}, TTP = Party_{}",
           tag, rank_send, rank_send);
     }
+
+    // The TTP does not take over the computation (see the note above), so
+    // nobody may go on with a message the parties do not agree on.
+    SPU_THROW("inconsistent message in joint message passing, tag={}", tag);
   }
 }
 
-- 
2.43.0


From 7829c8730f15766003b4a552b7714cebd694635d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:04 +0000
Subject: [PATCH 64/70] fix: SWIFT did not compare the opened operands of
 multiplications and ands

---
 .../mpc/experimental/swift/arithmetic.cc      | 27 +++++++++++++++++++
 .../mpc/experimental/swift/arithmetic.h       |  5 ++++
 src/libspu/mpc/experimental/swift/boolean.cc  |  2 ++
 3 files changed, 34 insertions(+)

diff --git a/src/libspu/mpc/experimental/swift/arithmetic.cc b/src/libspu/mpc/experimental/swift/arithmetic.cc
index a9b085f..11b1d1e 100644
--- a/src/libspu/mpc/experimental/swift/arithmetic.cc
+++ b/src/libspu/mpc/experimental/swift/arithmetic.cc
@@ -227,6 +227,27 @@ void JointMessagePassing(KernelEvalContext* ctx, NdArrayRef& msg,
   }
 }
 
+void CompareView(KernelEvalContext* ctx, const NdArrayRef& view,
+                 std::string_view tag) {
+  auto* comm = ctx->getState<Communicator>();
+  constexpr size_t k_hash_len = 32;
+
+  const auto compact = getOrCreateCompactArray(view);
+  const auto hash = hash_func(
+      0, std::string(compact.data<char>(), view.numel() * view.elsize()), tag,
+      k_hash_len);
+  const auto other = comm->rotate<uint8_t>(
+      absl::MakeConstSpan(reinterpret_cast<const uint8_t*>(hash.data()),
+                          hash.size()),
+      tag);
+
+  SPU_ENFORCE(std::equal(hash.begin(), hash.end(), other.begin(), other.end(),
+                         [](char a, uint8_t b) {
+                           return static_cast<uint8_t>(a) == b;
+                         }),
+              "parties disagree on an opened value, tag={}", tag);
+}
+
 // Reference:
 // SWIFT: Super-fast and Robust Privacy-Preserving Machine Learning
 // P6 3.2 Sharing Protocol
@@ -1038,6 +1059,8 @@ NdArrayRef MulPre(KernelEvalContext* ctx, const NdArrayRef& lhs,
 
   x_minus_a = RSS_A2P(ctx, x_minus_a, "reconstruct x-a");
   y_minus_b = RSS_A2P(ctx, y_minus_b, "reconstruct y-b");
+  CompareView(ctx, x_minus_a, "compare view x-a");
+  CompareView(ctx, y_minus_b, "compare view y-b");
 
   auto res = addaa.proc(ctx, c, mulap.proc(ctx, b, x_minus_a));
   res = addaa.proc(ctx, res, mulap.proc(ctx, a, y_minus_b));
@@ -1385,6 +1408,8 @@ NdArrayRef MatMulPre(KernelEvalContext* ctx, const NdArrayRef& lhs,
 
   x_minus_a = RSS_A2P(ctx, x_minus_a, "reconstruct x-a");
   y_minus_b = RSS_A2P(ctx, y_minus_b, "reconstruct y-b");
+  CompareView(ctx, x_minus_a, "compare view x-a");
+  CompareView(ctx, y_minus_b, "compare view y-b");
 
   auto res = addaa.proc(ctx, c, MatMulPA(ctx, x_minus_a, b));
   res = addaa.proc(ctx, res, matmulap.proc(ctx, a, y_minus_b));
@@ -1720,6 +1745,8 @@ NdArrayRef DotProductPre(KernelEvalContext* ctx, const NdArrayRef& lhs,
 
   x_minus_a = RSS_A2P(ctx, x_minus_a, "reconstruct x-a");
   y_minus_b = RSS_A2P(ctx, y_minus_b, "reconstruct y-b");
+  CompareView(ctx, x_minus_a, "compare view x-a");
+  CompareView(ctx, y_minus_b, "compare view y-b");
 
   auto res = addaa.proc(
       ctx, c, DotProductPA(ctx, x_minus_a, b, batch_size, vector_numel));
diff --git a/src/libspu/mpc/experimental/swift/arithmetic.h b/src/libspu/mpc/experimental/swift/arithmetic.h
index d933cd7..21bbbdd 100644
--- a/src/libspu/mpc/experimental/swift/arithmetic.h
+++ b/src/libspu/mpc/experimental/swift/arithmetic.h
@@ -26,6 +26,11 @@ void JointMessagePassing(KernelEvalContext* ctx, NdArrayRef& msg,
                          size_t rank_send, size_t rank_hash, size_t rank_recv,
                          std::string_view tag);
 
+// Check that all parties opened the same value: a cheater may have sent
+// different shares to different parties.
+void CompareView(KernelEvalContext* ctx, const NdArrayRef& view,
+                 std::string_view tag);
+
 // Pi, Pj jonit generate share of a value that is known to both
 NdArrayRef JointSharing(KernelEvalContext* ctx, const NdArrayRef& msg,
                         size_t rank_i, size_t rank_j, std::string_view tag);
diff --git a/src/libspu/mpc/experimental/swift/boolean.cc b/src/libspu/mpc/experimental/swift/boolean.cc
index 0303e0d..f993b67 100644
--- a/src/libspu/mpc/experimental/swift/boolean.cc
+++ b/src/libspu/mpc/experimental/swift/boolean.cc
@@ -591,6 +591,8 @@ NdArrayRef AndPre(KernelEvalContext* ctx, const NdArrayRef& lhs,
 
   x_xor_a = RSS_B2P(ctx, x_xor_a, "reconstruct x ^ a");
   y_xor_b = RSS_B2P(ctx, y_xor_b, "reconstruct y ^ b");
+  CompareView(ctx, x_xor_a, "compare view x ^ a");
+  CompareView(ctx, y_xor_b, "compare view y ^ b");
 
   auto res = xorbb.proc(ctx, buckets_c[0], andbp.proc(ctx, rhs, x_xor_a));
   res = xorbb.proc(ctx, res, andbp.proc(ctx, lhs, y_xor_b));
-- 
2.43.0


From e50dc3d4056cc80ccbf1a640367645f10ffe1056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:04 +0000
Subject: [PATCH 65/70] fix: collective communication read past messages that
 are too short

---
 src/libspu/mpc/common/communicator.cc | 34 ++++++++++++++-------------
 src/libspu/mpc/common/communicator.h  |  3 +++
 2 files changed, 21 insertions(+), 16 deletions(-)

diff --git a/src/libspu/mpc/common/communicator.cc b/src/libspu/mpc/common/communicator.cc
index 3156491..d11abb3 100644
--- a/src/libspu/mpc/common/communicator.cc
+++ b/src/libspu/mpc/common/communicator.cc
@@ -35,6 +35,17 @@ NdArrayRef getOrCreateCompactArray(const NdArrayRef& in) {
   return in;
 }
 
+// Message sizes are chosen by the sender, never trust them.
+NdArrayRef wrapBuffer(yacl::Buffer&& buf, const Type& eltype,
+                      const Shape& shape) {
+  SPU_ENFORCE(buf.size() == static_cast<int64_t>(shape.numel()) *
+                                static_cast<int64_t>(eltype.size()),
+              "unexpected message size={}, eltype={}, shape={}", buf.size(),
+              eltype, shape);
+  return NdArrayRef(stealBuffer(std::move(buf)), eltype, shape,
+                    makeCompactStrides(shape), kOffset);
+}
+
 }  // namespace
 
 NdArrayRef Communicator::allReduce(ReduceOp op, const NdArrayRef& in,
@@ -51,8 +62,7 @@ NdArrayRef Communicator::allReduce(ReduceOp op, const NdArrayRef& in,
       continue;
     }
 
-    auto arr = NdArrayRef(stealBuffer(std::move(bufs[idx])), in.eltype(),
-                          in.shape(), makeCompactStrides(in.shape()), kOffset);
+    auto arr = wrapBuffer(std::move(bufs[idx]), in.eltype(), in.shape());
     if (op == ReduceOp::ADD) {
       if (in.eltype().isa<GfmpTy>()) {
         gfmp_add_mod_(res, arr);
@@ -87,9 +97,7 @@ NdArrayRef Communicator::reduce(ReduceOp op, const NdArrayRef& in, size_t root,
         continue;
       }
 
-      auto arr =
-          NdArrayRef(stealBuffer(std::move(bufs[idx])), in.eltype(), in.shape(),
-                     makeCompactStrides(in.shape()), kOffset);
+      auto arr = wrapBuffer(std::move(bufs[idx]), in.eltype(), in.shape());
       if (op == ReduceOp::ADD) {
         if (in.eltype().isa<GfmpTy>()) {
           gfmp_add_mod_(res, arr);
@@ -120,8 +128,7 @@ NdArrayRef Communicator::rotate(const NdArrayRef& in, std::string_view tag) {
   stats_.latency += 1;
   stats_.comm += in.numel() * in.elsize();
 
-  return NdArrayRef(stealBuffer(std::move(res_buf)), in.eltype(), in.shape(),
-                    makeCompactStrides(in.shape()), kOffset);
+  return wrapBuffer(std::move(res_buf), in.eltype(), in.shape());
 }
 
 std::vector<NdArrayRef> Communicator::gather(const NdArrayRef& in, size_t root,
@@ -138,9 +145,7 @@ std::vector<NdArrayRef> Communicator::gather(const NdArrayRef& in, size_t root,
   if (root == getRank()) {
     SPU_ENFORCE_EQ(bufs.size(), getWorldSize());
     for (size_t idx = 0; idx < bufs.size(); idx++) {
-      res[idx] =
-          NdArrayRef(stealBuffer(std::move(bufs[idx])), in.eltype(), in.shape(),
-                     makeCompactStrides(in.shape()), kOffset);
+      res[idx] = wrapBuffer(std::move(bufs[idx]), in.eltype(), in.shape());
     }
   }
   return res;
@@ -158,17 +163,13 @@ NdArrayRef Communicator::broadcast(const NdArrayRef& in, size_t root,
     yacl::ByteContainerView bv(reinterpret_cast<uint8_t const*>(array.data()),
                                array.elsize() * array.numel());
     auto buf = yacl::link::Broadcast(lctx_, bv, root, tag);
-    return NdArrayRef(stealBuffer(std::move(buf)), in.eltype(), in.shape(),
-                      makeCompactStrides(in.shape()), kOffset);
+    return wrapBuffer(std::move(buf), in.eltype(), in.shape());
   } else {
     // for yacl::link::Broadcast need a legal ByteContainerView
     // But the data is not actually used
     std::array<uint8_t, 1> dummy;
     auto buf = yacl::link::Broadcast(lctx_, dummy, root, tag);
-    SPU_ENFORCE(static_cast<size_t>(buf.size()) ==
-                shape.numel() * eltype.size());
-    return NdArrayRef(stealBuffer(std::move(buf)), eltype, shape,
-                      makeCompactStrides(shape), kOffset);
+    return wrapBuffer(std::move(buf), eltype, shape);
   }
 }
 
@@ -184,6 +185,7 @@ NdArrayRef Communicator::recv(size_t src_rank, const Type& eltype,
                               std::string_view tag) {
   auto buf = lctx_->Recv(src_rank, tag);
 
+  SPU_ENFORCE(buf.size() % static_cast<int64_t>(eltype.size()) == 0);
   int64_t numel = buf.size() / eltype.size();
   return NdArrayRef(stealBuffer(std::move(buf)), eltype, {numel}, {1}, kOffset);
 }
diff --git a/src/libspu/mpc/common/communicator.h b/src/libspu/mpc/common/communicator.h
index db6fdd6..faf25b1 100644
--- a/src/libspu/mpc/common/communicator.h
+++ b/src/libspu/mpc/common/communicator.h
@@ -189,6 +189,7 @@ std::vector<T> Communicator::allReduce(absl::Span<T const> in,
   std::vector<T> res(in.size(), 0);
   const FN<T> fn;
   for (const auto& buf : bufs) {
+    SPU_ENFORCE(buf.size() == static_cast<int64_t>(sizeof(T) * in.size()));
     pforeach(0, in.size(), [&](int64_t idx) {
       res[idx] = fn(res[idx], (buf.data<T>())[idx]);
     });
@@ -243,6 +244,7 @@ std::vector<T> Communicator::bcast(absl::Span<T const> in, size_t root,
   stats_.comm += in.size() * sizeof(T);
 
   // TODO: steal the buffer.
+  SPU_ENFORCE(buf.size() == static_cast<int64_t>(sizeof(T) * in.size()));
   std::vector<T> res(in.size(), 0);
   std::memcpy(res.data(), buf.data(), in.size() * sizeof(T));
   return res;
@@ -262,6 +264,7 @@ std::vector<std::vector<T>> Communicator::gather(absl::Span<T const> in,
   // TODO: steal the buffer.
   std::vector<std::vector<T>> res;
   for (const auto& buf : bufs) {
+    SPU_ENFORCE(buf.size() == static_cast<int64_t>(sizeof(T) * in.size()));
     std::vector<T> vi(in.size());
     std::memcpy(vi.data(), buf.data(), in.size() * sizeof(T));
     res.push_back(std::move(vi));
-- 
2.43.0


From 57deb10a878e9b333a6cb971226046471d3a6e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:38 +0000
Subject: [PATCH 66/70] fix: oblivious transfer of one of N reused pads when N
 was no power of two

---
 src/libspu/mpc/cheetah/ot/yacl/ferret.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libspu/mpc/cheetah/ot/yacl/ferret.cc b/src/libspu/mpc/cheetah/ot/yacl/ferret.cc
index 4eabe00..36b7386 100644
--- a/src/libspu/mpc/cheetah/ot/yacl/ferret.cc
+++ b/src/libspu/mpc/cheetah/ot/yacl/ferret.cc
@@ -559,6 +559,8 @@ struct YaclFerretOt::Impl {
                                  size_t bit_width) {
     SPU_ENFORCE(N >= 2 && N <= 256,
                 fmt::format("N should 2 <= N <= 256, but got N={}", N));
+    SPU_ENFORCE(absl::has_single_bit(N),
+                "N should be a power of two, but got N={}", N);
     SPU_ENFORCE(bit_width > 0 && bit_width <= 8 * sizeof(T));
     const size_t Nn = msg_array.size();
     SPU_ENFORCE(Nn > 0 && 0 == (Nn % N));
@@ -668,6 +670,8 @@ struct YaclFerretOt::Impl {
                                  absl::Span<T> output, size_t bit_width) {
     SPU_ENFORCE(N >= 2 && N <= 256,
                 fmt::format("N should 2 <= N <= 256, but got N={}", N));
+    SPU_ENFORCE(absl::has_single_bit(N),
+                "N should be a power of two, but got N={}", N);
     SPU_ENFORCE(bit_width > 0 && bit_width <= 8 * sizeof(T));
 
     const size_t n = choices.size();
-- 
2.43.0


From 1a66feb2d0b9b86db8b346785149bb4c411c7749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:38 +0000
Subject: [PATCH 67/70] fix: equality bits of the comparison protocol lost the
 shape of the input

---
 src/libspu/mpc/cheetah/nonlinear/compare_prot.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/libspu/mpc/cheetah/nonlinear/compare_prot.cc b/src/libspu/mpc/cheetah/nonlinear/compare_prot.cc
index 94d8b2a..eacac6c 100644
--- a/src/libspu/mpc/cheetah/nonlinear/compare_prot.cc
+++ b/src/libspu/mpc/cheetah/nonlinear/compare_prot.cc
@@ -159,8 +159,7 @@ NdArrayRef CompareProtocol::DoCompute(const NdArrayRef& inp, bool greater_than,
   }
 
   auto [_gt, _eq] = TraversalANDWithEq(prev_cmp, prev_eq, num_cmp, num_digits);
-  *keep_eq = _eq;
-  keep_eq->reshape(inp.shape()).as(boolean_t);
+  *keep_eq = _eq.reshape(inp.shape()).as(boolean_t);
   return _gt.reshape(inp.shape()).as(boolean_t);
 }
 
-- 
2.43.0


From 30b9732c4d2ff0dab74e93f5caceabd6c2687c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:35 +0000
Subject: [PATCH 68/70] hooks: task sizes settable by verification builds
 (SPU_VERIF_HOOKS)

---
 src/libspu/core/parallel_utils.h | 5 +++++
 src/libspu/mpc/cheetah/state.cc  | 9 +++++++++
 2 files changed, 14 insertions(+)

diff --git a/src/libspu/core/parallel_utils.h b/src/libspu/core/parallel_utils.h
index 90c8c63..9ba714d 100644
--- a/src/libspu/core/parallel_utils.h
+++ b/src/libspu/core/parallel_utils.h
@@ -21,7 +21,12 @@
 
 namespace spu {
 
+#ifdef SPU_VERIF_HOOKS
+// verification builds vary the size of a task between runs
+inline int64_t kMinTaskSize = 50000;
+#else
 constexpr int64_t kMinTaskSize = 50000;
+#endif
 
 template <class F>
 inline auto pforeach(int64_t begin, int64_t end, F&& f) -> std::enable_if_t<
diff --git a/src/libspu/mpc/cheetah/state.cc b/src/libspu/mpc/cheetah/state.cc
index dded2f5..b1006fb 100644
--- a/src/libspu/mpc/cheetah/state.cc
+++ b/src/libspu/mpc/cheetah/state.cc
@@ -23,10 +23,19 @@
 
 namespace spu::mpc::cheetah {
 
+#ifdef SPU_VERIF_HOOKS
+// verification builds vary the size of a task between runs
+size_t kOTMinWorkSize = 2048;
+#endif
+
 namespace {
 // Return num_workers for the given size of jobs
 size_t InitOTState(KernelEvalContext* ctx, size_t njobs) {
+#ifdef SPU_VERIF_HOOKS
+  const size_t kMinWorkSize = kOTMinWorkSize;
+#else
   constexpr size_t kMinWorkSize = 2048;
+#endif
   if (njobs == 0) {
     return 0;
   }
-- 
2.43.0


From 06c04c704abcd5f4e4f37c58f0950ae649974a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:14 +0000
Subject: [PATCH 69/70] fix: SECURENN comparisons shared loop variables between
 parallel pieces

---
 src/libspu/mpc/securenn/arithmetic.cc | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/libspu/mpc/securenn/arithmetic.cc b/src/libspu/mpc/securenn/arithmetic.cc
index 2dd8963..f426ce2 100644
--- a/src/libspu/mpc/securenn/arithmetic.cc
+++ b/src/libspu/mpc/securenn/arithmetic.cc
@@ -667,14 +667,12 @@ NdArrayRef ShareConvert::proc(KernelEvalContext* ctx,
       NdArrayRef c(ty, {size * k});
       NdArrayView<U> _c(c);
 
-      size_t w;
-      size_t w_total;
-
       pforeach(0, size, [&](int64_t idx) {
         auto r_bits = bitDecompose(_r[idx], k);
         auto t_bits = bitDecompose(_t[idx], k);
 
-        w_total = 0;
+        size_t w = 0;
+        size_t w_total = 0;
         for (int i = (int)(k - 1); i >= 0; i--) {
           if (_eta__[idx] == 0) {
             w = (p + _dp_x[idx * k + i] + rank * r_bits[i] -
@@ -1083,14 +1081,12 @@ NdArrayRef Msb::proc(KernelEvalContext* ctx, const NdArrayRef& in) const {
       NdArrayRef c(ty, {size * k});
       NdArrayView<U> _c(c);
 
-      size_t w;
-      size_t w_total;
-
       pforeach(0, in.numel(), [&](int64_t idx) {
         auto r_bits = bitDecompose(_r[idx], k);
         auto t_bits = bitDecompose(_t[idx], k);
         _lsb_r[idx] = static_cast<U>(r_bits[0]);
-        w_total = 0;
+        size_t w = 0;
+        size_t w_total = 0;
         for (int i = (int)(k - 1); i >= 0; i--) {
           if (_beta[idx] == 0) {
             w = (p + _dp_x[idx * k + i] + rank * r_bits[i] -
-- 
2.43.0


From 09ea5d8bc83c70ae45a7f9b8c8bafc93b6e85691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:26 +0000
Subject: [PATCH 70/70] fix: packed bits were written by several threads at
 once

---
 src/libspu/mpc/aby3/conversion.cc             | 9 +++++----
 src/libspu/mpc/spdz2k/beaver/beaver_tinyot.cc | 8 +++++---
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/libspu/mpc/aby3/conversion.cc b/src/libspu/mpc/aby3/conversion.cc
index 8154aca..15a3fd1 100644
--- a/src/libspu/mpc/aby3/conversion.cc
+++ b/src/libspu/mpc/aby3/conversion.cc
@@ -253,11 +253,12 @@ NdArrayRef B2AByPPA::proc(KernelEvalContext* ctx, const NdArrayRef& in) const {
 }
 
 template <typename T>
-static std::vector<bool> bitDecompose(const NdArrayRef& in, size_t nbits) {
+static std::vector<uint8_t> bitDecompose(const NdArrayRef& in, size_t nbits) {
   auto numel = in.numel();
   // decompose each bit of an array of element.
-  // FIXME: this is not thread-safe.
-  std::vector<bool> dep(numel * nbits);
+  // Note: not std::vector<bool>, its elements share words and the loop below
+  // writes them from many threads.
+  std::vector<uint8_t> dep(numel * nbits);
 
   NdArrayView<T> _in(in);
 
@@ -265,7 +266,7 @@ static std::vector<bool> bitDecompose(const NdArrayRef& in, size_t nbits) {
     const auto& v = _in[idx];
     for (size_t bit = 0; bit < nbits; bit++) {
       size_t flat_idx = idx * nbits + bit;
-      dep[flat_idx] = static_cast<bool>((v >> bit) & 0x1);
+      dep[flat_idx] = static_cast<uint8_t>((v >> bit) & 0x1);
     }
   });
   return dep;
diff --git a/src/libspu/mpc/spdz2k/beaver/beaver_tinyot.cc b/src/libspu/mpc/spdz2k/beaver/beaver_tinyot.cc
index 6d57a8e..30da980 100644
--- a/src/libspu/mpc/spdz2k/beaver/beaver_tinyot.cc
+++ b/src/libspu/mpc/spdz2k/beaver/beaver_tinyot.cc
@@ -118,16 +118,18 @@ NdArrayRef ring_inv2k(const NdArrayRef& x, size_t bits = 0) {
 std::vector<bool> ring_cast_vector_boolean(const NdArrayRef& x) {
   const auto field = x.eltype().as<Ring2k>()->field();
 
-  std::vector<bool> res(x.numel());
+  // Note: not std::vector<bool>, its elements share words and the loop below
+  // writes them from many threads.
+  std::vector<uint8_t> res(x.numel());
   DISPATCH_ALL_FIELDS(field, [&]() {
     NdArrayView<ring2k_t> _x(x);
     yacl::parallel_for(0, x.numel(), 4096, [&](size_t start, size_t end) {
       for (size_t i = start; i < end; i++) {
-        res[i] = static_cast<bool>(_x[i] & 0x1);
+        res[i] = static_cast<uint8_t>(_x[i] & 0x1);
       }
     });
   });
-  return res;
+  return {res.begin(), res.end()};
 }
 
 }  // namespace
-- 
2.43.0

