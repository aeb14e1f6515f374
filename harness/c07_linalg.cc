#include <cstdint>
#include <complex>
#include "pbt.h"
#include "libspu/mpc/utils/linalg.h"
using namespace pbt;
namespace {
struct Mat {
  int64_t rows, cols, ld, id;  // strides in elements, may be negative or (inputs) 0
  int64_t off;                 // index of element (0,0) in the buffer
  int64_t need;                // buffer length
  int64_t at(int64_t i, int64_t j) const { return off + i * ld + j * id; }
};
// Layout of a rows x cols view inside a larger buffer.
Mat layout(Gen& g, int64_t rows, int64_t cols, bool input) {
  Mat m{rows, cols, 0, 0, 0, 0};
  int64_t kind = g.in(0, input ? 5 : 3);
  int64_t r1 = std::max<int64_t>(rows, 1), c1 = std::max<int64_t>(cols, 1);
  switch (kind) {
    case 0: m.id = 1; m.ld = c1; break;                                      // dense row major
    case 1: m.id = g.in(1, 4); m.ld = c1 * m.id + g.in(0, 5); break;          // padded, strided
    case 2: m.ld = g.in(1, 3); m.id = r1 * m.ld + g.in(0, 5); break;          // column major (transposed)
    case 3: m.id = 1; m.ld = c1 + g.in(1, 9); break;                          // leading dimension > width
    case 4: m.id = g.of({0, 1}); m.ld = g.of({int64_t{0}, m.id * c1}); break;  // broadcast
    default: m.id = g.in(1, 3); m.ld = g.in(1, 5); break;                     // overlapping rows
  }
  if (g.p(0.2)) m.ld = -m.ld;  // rows bottom-up
  if (g.p(0.2)) m.id = -m.id;  // columns right-to-left
  int64_t lo = 0, hi = 0;
  lo += std::min<int64_t>(0, (r1 - 1) * m.ld) + std::min<int64_t>(0, (c1 - 1) * m.id);
  hi += std::max<int64_t>(0, (r1 - 1) * m.ld) + std::max<int64_t>(0, (c1 - 1) * m.id);
  m.off = -lo + g.in(0, 4);
  m.need = m.off + hi + 1 + g.in(0, 4);
  return m;
}
template <class T>
T val(Gen& g, uint64_t& s, int mode) {
  s = mix(s);
  if constexpr (std::is_floating_point_v<T>) {
    return static_cast<T>(static_cast<int64_t>(s % 33) - 16);  // exactly representable sums
  } else {
    u128 v = (static_cast<u128>(s) << 64) | mix(s ^ 0x55);
    if (mode == 0) return static_cast<T>(v);
    if (mode == 1) return static_cast<T>(v % 4);
    return static_cast<T>(~static_cast<u128>(0) - v % 3);
  }
}
template <class T>
void matmul_case(Gen& g, int64_t M, int64_t N, int64_t K, const char* tn) {
  auto A = layout(g, M, K, true), B = layout(g, K, N, true), C = layout(g, M, N, false);
  int mode = static_cast<int>(g.u(2));
  uint64_t s = g.seed();
  std::vector<T> a(A.need), b(B.need), c(C.need);
  for (auto& x : a) x = val<T>(g, s, mode);
  for (auto& x : b) x = val<T>(g, s, mode);
  for (auto& x : c) x = val<T>(g, s, 0);
  auto a0 = a, b0 = b, c0 = c;
  g.say("T={} M={} N={} K={} LDA={} IDA={} LDB={} IDB={} LDC={} IDC={} mode={}", tn, M, N, K, A.ld, A.id, B.ld, B.id, C.ld, C.id, mode);
  g.nontrivial(M * N * K > 1);
  g.tag(tn);
  if (A.id != 1 || B.id != 1 || C.id != 1) g.tag("inner stride");
  if (M > 16 && N > 16) g.tag("gemm");
  if (N == 1 || M == 1) g.tag("vector");
  if (A.id < 0 || B.id < 0 || C.id < 0 || A.ld < 0 || B.ld < 0 || C.ld < 0) g.tag("reversed");
  if (K == 0) g.tag("K=0");
  spu::mpc::linalg::matmul<T>(M, N, K, a.data() + A.off, A.ld, A.id, b.data() + B.off, B.ld, B.id, c.data() + C.off, C.ld, C.id);
  REQUIRE(memcmp(a.data(), a0.data(), a.size() * sizeof(T)) == 0, "left input was modified");
  REQUIRE(memcmp(b.data(), b0.data(), b.size() * sizeof(T)) == 0, "right input was modified");
  for (int64_t i = 0; i < M; ++i)
    for (int64_t j = 0; j < N; ++j) {
      T e{};
      for (int64_t k = 0; k < K; ++k) {
        if constexpr (std::is_floating_point_v<T>) e += a0[A.at(i, k)] * b0[B.at(k, j)];
        else e = static_cast<T>(static_cast<u128>(e) + static_cast<u128>(a0[A.at(i, k)]) * static_cast<u128>(b0[B.at(k, j)]));
      }
      REQUIRE(c[C.at(i, j)] == e, "C[{},{}] is wrong", i, j);
      c0[C.at(i, j)] = e;
    }
  REQUIRE(c == c0, "memory outside the result view was written");
}
int64_t dim(Gen& g, int64_t big) {
  switch (g.u(5)) {
    case 0: return 1;
    case 1: return g.in(0, 2);
    case 2: case 3: return g.in(1, 12);
    default: return g.in(1, big);
  }
}
void dispatch(Gen& g, int64_t M, int64_t N, int64_t K) {
  switch (g.u(7)) {
    case 0: return matmul_case<uint32_t>(g, M, N, K, "u32");
    case 1: return matmul_case<uint64_t>(g, M, N, K, "u64");
    case 2: return matmul_case<unsigned __int128>(g, M, N, K, "u128");
    case 3: return matmul_case<int32_t>(g, M, N, K, "i32");
    case 4: return matmul_case<int64_t>(g, M, N, K, "i64");
    case 5: return matmul_case<float>(g, M, N, K, "f32");
    case 6: return matmul_case<double>(g, M, N, K, "f64");
    default: return matmul_case<uint8_t>(g, M, N, K, "u8");
  }
}
}  // namespace
PBT(C07, matmul, 40000, 1000000, "M*N*K > 1") { dispatch(g, dim(g, 40), dim(g, 40), dim(g, 60)); }
PBT(C07, matmul_large, 300, 6000, "M*N*K > 1") { dispatch(g, dim(g, 260), dim(g, 260), dim(g, 500)); }
