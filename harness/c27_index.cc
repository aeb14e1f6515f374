// Shape and indexing operators against index arithmetic on plaintext tensors.
#include "kern.h"
#include "libspu/kernel/hal/complex.h"
#include "libspu/kernel/hal/shape_ops.h"
#include "libspu/kernel/hal/utils.h"
#include "libspu/kernel/hlo/const.h"
#include "libspu/kernel/hlo/geometrical.h"
#include "libspu/kernel/hlo/indexing.h"
using namespace kn;
namespace {
using IV = std::vector<int64_t>;
struct M {  // a plaintext tensor
  DataType dt = DT_I32;
  IV sh;
  std::vector<u128> v;
  bool sec = false, prv = false;
  int64_t n() const { int64_t r = 1; for (auto d : sh) r *= d; return r; }
};
int64_t flatten(const IV& ix, const IV& sh) { int64_t r = 0; for (size_t i = 0; i < sh.size(); ++i) r = r * sh[i] + ix[i]; return r; }
IV unflatten(int64_t x, const IV& sh) { IV r(sh.size()); for (size_t i = sh.size(); i-- > 0;) { r[i] = x % sh[i]; x /= sh[i]; } return r; }
// result element at an index as a function of the index
template <class F>
M build(const M& like, IV sh, F&& at) {
  M m = like;
  m.sh = std::move(sh);
  m.v.clear();
  for (int64_t i = 0, n = m.n(); i < n; ++i) m.v.push_back(at(unflatten(i, m.sh)));
  return m;
}
Shape S(const IV& v) { return Shape(v.begin(), v.end()); }
struct Step { std::string what; std::function<Value(SPUContext*, std::vector<Value>&)> run; M want; };
struct Prog {
  Gen& g;
  const Env& e;
  std::vector<Tn> ins;
  std::vector<M> pool;
  std::vector<Step> steps;
  std::vector<std::vector<i128>> num{};  // the numbers in each pool entry that is an input
  DataType dt(bool any = true) { return any && g.p(0.3) ? g.of(kReals) : g.of(kInts); }
  int cap() const { return e.k - (e.proto == kSecurenn || e.proto == kSpdz2k ? 4 : 3); }
  i128 val(DataType d) {
    if (d == DT_I1) return static_cast<i128>(g.u(1));
    int b = std::min(cap(), real(d) ? e.k : width(d));
    i128 x = static_cast<i128>(g.bits(b));
    return uns(d) ? x & (hi_of(d, e.k)) : x - one(b - 1);
  }
  size_t input(DataType d, const IV& sh, char vis, const std::function<i128()>& f) {
    auto t = tensor(g, e, d, S(sh), vis, f);
    M m;
    m.dt = d; m.sh = sh; m.v = t.raw.v; m.sec = vis == 'S'; m.prv = vis == 'V';
    ins.push_back(t);
    pool.push_back(m);
    num.resize(pool.size());
    num.back() = t.v;
    g.say("#{}={}", pool.size() - 1, t.show());
    return pool.size() - 1;
  }
};
std::string js(const IV& v) { return fmt::format("[{}]", fmt::join(v, ",")); }
}  // namespace

PBT(C27, programs, 20000, 300000, "at least two operators, one of them reading a view or mixing visibilities, on a secret tensor with distinct elements") {
  auto e = genv(g);
  bool spdz = e.proto == kSpdz2k;
  Prog P{g, e, {}, {}, {}};
  auto vis = [&] { char v = gvis(g); return (spdz || e.proto == kRef2k || e.proto == kSwift) && v == 'V' ? 'S' : v; };
  auto shape = [&](int maxr = 4) {
    auto sh = gshape(g, maxr, 4, 24);
    IV r(sh.begin(), sh.end());
    if (spdz && r.empty()) r.push_back(2);
    for (auto& d : r) if (d == 0 && (spdz || g.p(0.7))) d = 1;
    return r;
  };
  auto data = [&](DataType d, const IV& sh, char vis) { return P.input(d, sh, vis, [&, d] { return P.val(d); }); };
  // all inputs are drawn before the steps run, so steps refer to pool entries by id
  std::vector<std::pair<bool, size_t>> order;
  data(P.dt(), shape(), vis());
  size_t nstep = 1 + g.u(3);
  struct Pending { Step s; };
  std::vector<size_t> inputs_at{0};
  std::vector<size_t> pool_is_step;  // pool id -> step number + 1, 0 for inputs
  pool_is_step.push_back(0);
  std::vector<size_t> in_no{0};      // pool id -> input number
  size_t inputs = 1;
  auto fresh = [&](DataType d, const IV& sh, char vis, const std::function<i128()>& f) {
    auto id = P.input(d, sh, vis, f);
    pool_is_step.push_back(0);
    in_no.push_back(inputs++);
    return id;
  };
  auto another = [&](DataType d, const IV& sh, char v0 = 0) { return fresh(d, sh, v0 ? v0 : vis(), [&, d] { return P.val(d); }); };
  bool mixed = false;
  for (size_t st = 0; st < nstep; ++st) {
    size_t a = g.p(0.7) ? P.pool.size() - 1 : g.u(P.pool.size() - 1);
    M A = P.pool[a];
    auto r = A.sh.size();
    Step s;
    auto in1 = [&](auto f) { return [a, f](SPUContext* c, std::vector<Value>& v) -> Value { return f(c, v[a]); }; };
    int op = static_cast<int>(g.u(19));
    static const char* nm[] = {"transpose", "broadcast", "reshape", "concat", "slice", "pad", "reverse", "expand", "squeeze", "unsqueeze", "scalar_at",
                               "filter", "linear_gather", "linear_scatter", "update_slice", "gather", "dynamic_slice", "dynamic_update_slice", "iota", "dynamic_slice"};
    if (op == 7 && A.n() != 1) op = 4;
    if ((op == 8) && std::find(A.sh.begin(), A.sh.end(), 1) == A.sh.end()) op = 9;
    if ((op == 8 || op == 10) && spdz && (r <= 1 || op == 10)) op = 9;
    if (op == 10 && A.n() == 0) op = 6;
    if ((op == 11 || op == 12 || op == 13) && r != 1) op = 2;
    if ((op >= 14 && op <= 17) || op == 19) if (r == 0 || A.n() == 0) op = 1;
    if (op == 1 && r > 3) op = 0;
    IV p1, p2, p3;
    switch (op) {
      case 0: {
        p1 = g.perm(r);
        IV sh(r);
        for (size_t i = 0; i < r; ++i) sh[i] = A.sh[p1[i]];
        s.want = build(A, sh, [&](const IV& o) { IV x(r); for (size_t i = 0; i < r; ++i) x[p1[i]] = o[i]; return A.v[flatten(x, A.sh)]; });
        s.run = in1([p1](SPUContext* c, Value& x) { return hlo::Transpose(c, x, Axes(p1.begin(), p1.end())); });
        break;
      }
      case 1: {  // in_dims[i] is the output dimension of input dimension i
        size_t r2 = r + g.u(4 - std::min<size_t>(r, 4));
        p1 = g.perm(r2);
        p1.resize(r);
        std::sort(p1.begin(), p1.end());
        IV sh(r2);
        for (auto& d : sh) d = 1 + static_cast<int64_t>(g.u(2));
        if (spdz && r2 == 0) sh.push_back(1);
        bool implicit = g.p(0.3) && r2 >= r && r > 0;
        if (implicit) for (size_t i = 0; i < r; ++i) p1[i] = static_cast<int64_t>(r2 - r + i);
        for (size_t i = 0; i < r; ++i) if (A.sh[i] != 1 || g.p(0.3)) sh[p1[i]] = A.sh[i];
        if (op == 1 && A.n() == 0) for (auto& d : sh) d = std::max<int64_t>(d, 0);
        s.want = build(A, sh, [&](const IV& o) { IV x(r); for (size_t i = 0; i < r; ++i) x[i] = A.sh[i] == 1 ? 0 : o[p1[i]]; return A.v[flatten(x, A.sh)]; });
        if (implicit) s.run = in1([sh](SPUContext* c, Value& x) { return hlo::Broadcast(c, x, S(sh), {}); });
        else s.run = in1([sh, p1](SPUContext* c, Value& x) { return hlo::Broadcast(c, x, S(sh), Axes(p1.begin(), p1.end())); });
        p2 = sh;
        break;
      }
      case 2: {
        int64_t n = A.n();
        IV sh;
        if (n == 0) { sh = {0}; if (g.p()) sh.push_back(3); }
        else { for (int64_t q = n, d = 2; q > 1; ++d) while (q % d == 0) { sh.push_back(d); q /= d; } }
        if (n != 0) {
          while (sh.size() > 1 && g.p(0.5)) { auto i = g.u(sh.size() - 2); sh[i] *= sh[i + 1]; sh.erase(sh.begin() + static_cast<int64_t>(i) + 1); }
          if (g.p(0.3) || (spdz && sh.empty())) sh.insert(sh.begin() + static_cast<int64_t>(g.u(sh.size())), 1);
        }
        s.want = A;
        s.want.sh = sh;
        s.run = in1([sh](SPUContext* c, Value& x) { return hlo::Reshape(c, x, S(sh)); });
        p1 = sh;
        break;
      }
      case 3: {
        if (r == 0) { op = 9; A = P.pool[a]; IV sh = A.sh; sh.insert(sh.begin(), 1); s.want = A; s.want.sh = sh; s.run = in1([](SPUContext* c, Value& x) { return hal::unsqueeze(c, x, 0); }); break; }
        auto ax = static_cast<int64_t>(g.u(r - 1));
        std::vector<size_t> ids{a};
        for (size_t i = g.u(2); i-- > 0;) {
          IV sh = A.sh;
          sh[ax] = spdz ? 1 + static_cast<int64_t>(g.u(2)) : static_cast<int64_t>(g.u(3));
          ids.push_back(g.p(0.2) ? a : another(A.dt, sh));
        }
        g.shuffle(ids);
        M w = A;
        w.sh[ax] = 0;
        w.sec = w.prv = false;
        for (auto i : ids) { w.sh[ax] += P.pool[i].sh[ax]; w.sec = w.sec || P.pool[i].sec; w.prv = w.prv || P.pool[i].prv; if (P.pool[i].sec != A.sec || P.pool[i].prv != A.prv) mixed = true; }
        s.want = build(w, w.sh, [&](const IV& o) {
          IV x = o;
          for (auto i : ids) { if (x[ax] < P.pool[i].sh[ax]) return P.pool[i].v[flatten(x, P.pool[i].sh)]; x[ax] -= P.pool[i].sh[ax]; }
          return static_cast<u128>(0);
        });
        s.run = [ids, ax](SPUContext* c, std::vector<Value>& v) { std::vector<Value> t; for (auto i : ids) t.push_back(v[i]); return hlo::Concatenate(c, t, ax); };
        for (auto i : ids) p1.push_back(static_cast<int64_t>(i));
        p2 = {ax};
        break;
      }
      case 4: {
        IV lo(r), hi(r), str(r), sh(r);
        for (size_t i = 0; i < r; ++i) {
          int64_t d = A.sh[i];
          lo[i] = g.in(0, d > 0 && spdz ? d - 1 : d);
          hi[i] = g.in(spdz ? lo[i] + 1 : lo[i], d);
          if (g.p(0.5) && d > 0) { lo[i] = std::min(lo[i], d - 1); hi[i] = std::max(hi[i], lo[i] + 1); }
          str[i] = 1 + static_cast<int64_t>(g.u(2));
          sh[i] = (hi[i] - lo[i] + str[i] - 1) / str[i];
        }
        s.want = build(A, sh, [&](const IV& o) { IV x(r); for (size_t i = 0; i < r; ++i) x[i] = lo[i] + o[i] * str[i]; return A.v[flatten(x, A.sh)]; });
        s.run = in1([lo, hi, str](SPUContext* c, Value& x) { return hlo::Slice(c, x, Index(lo.begin(), lo.end()), Index(hi.begin(), hi.end()), Strides(str.begin(), str.end())); });
        p1 = lo; p2 = hi; p3 = str;
        break;
      }
      case 5: {
        IV lo(r), hi(r), in(r), sh(r);
        for (size_t i = 0; i < r; ++i) {
          in[i] = g.p(0.5) ? static_cast<int64_t>(g.u(2)) : 0;
          int64_t d = A.sh[i] + std::max<int64_t>(0, A.sh[i] - 1) * in[i], low = spdz ? 1 : 0;
          lo[i] = g.in(-3, 2);
          hi[i] = g.in(-3, 2);
          if (lo[i] + d < low) lo[i] = low - d;
          if (lo[i] + hi[i] + d < low) hi[i] = low - d - lo[i];
          sh[i] = lo[i] + d + hi[i];
        }
        auto b = another(A.dt, {1});
        // the padding value is a scalar
        size_t bb = b;
        bool as_scalar = !spdz;
        u128 pv = P.pool[b].v[0];
        M w = A;
        w.sec = A.sec || P.pool[b].sec;
        w.prv = A.prv || P.pool[b].prv;
        mixed = mixed || A.sec != P.pool[b].sec;
        s.want = build(w, sh, [&](const IV& o) {
          IV x(r);
          for (size_t i = 0; i < r; ++i) { int64_t q = o[i] - lo[i]; if (q < 0 || q % (in[i] + 1) != 0 || q / (in[i] + 1) >= A.sh[i]) return pv; x[i] = q / (in[i] + 1); }
          return A.v[flatten(x, A.sh)];
        });
        s.run = [a, bb, lo, hi, in, as_scalar](SPUContext* c, std::vector<Value>& v) {
          auto p = as_scalar ? hal::reshape(c, v[bb], {}) : v[bb];
          return hlo::Pad(c, v[a], p, Sizes(lo.begin(), lo.end()), Sizes(hi.begin(), hi.end()), Sizes(in.begin(), in.end()));
        };
        p1 = lo; p2 = hi; p3 = in;
        break;
      }
      case 6: {
        p1 = g.perm(r);
        p1.resize(r == 0 ? 0 : g.u(r));
        s.want = build(A, A.sh, [&](const IV& o) { IV x = o; for (auto d : p1) x[d] = A.sh[d] - 1 - x[d]; return A.v[flatten(x, A.sh)]; });
        s.run = in1([p1](SPUContext* c, Value& x) { return hlo::Reverse(c, x, Axes(p1.begin(), p1.end())); });
        break;
      }
      case 7: {
        auto sh = shape(3);
        s.want = build(A, sh, [&](const IV&) { return A.v[0]; });
        s.run = in1([sh](SPUContext* c, Value& x) { return hal::expand(c, x, S(sh)); });
        p1 = sh;
        break;
      }
      case 8: {
        IV ones;
        for (size_t i = 0; i < r; ++i) if (A.sh[i] == 1) ones.push_back(static_cast<int64_t>(i));
        auto d = ones[g.u(ones.size() - 1)];
        s.want = A;
        s.want.sh.erase(s.want.sh.begin() + d);
        s.run = in1([d](SPUContext* c, Value& x) { return hal::squeeze(c, x, d); });
        p1 = {d};
        break;
      }
      case 9: {
        auto d = static_cast<int64_t>(g.u(r));
        s.want = A;
        s.want.sh.insert(s.want.sh.begin() + d, 1);
        s.run = in1([d](SPUContext* c, Value& x) { return hal::unsqueeze(c, x, d); });
        p1 = {d};
        break;
      }
      case 10: {
        IV ix(r);
        for (size_t i = 0; i < r; ++i) ix[i] = static_cast<int64_t>(g.u(A.sh[i] - 1));
        s.want = build(A, {}, [&](const IV&) { return A.v[flatten(ix, A.sh)]; });
        s.run = in1([ix](SPUContext* c, Value& x) { return hal::slice_scalar_at(c, x, Index(ix.begin(), ix.end())); });
        p1 = ix;
        break;
      }
      case 11: {
        std::vector<uint8_t> m;
        for (int64_t i = 0; i < A.sh[0]; ++i) { m.push_back(static_cast<uint8_t>(g.u(2))); if (m.back() != 0) p1.push_back(i); }
        if (spdz && p1.empty()) { m[0] = 1; p1 = {0}; }
        s.want = build(A, {static_cast<int64_t>(p1.size())}, [&](const IV& o) { return A.v[p1[o[0]]]; });
        s.run = in1([m](SPUContext* c, Value& x) { return hlo::FilterByMask(c, x, m); });
        break;
      }
      case 12: case 13: {
        if (A.n() > 0) {
          if (op == 12) for (uint64_t i = spdz ? 1 : 0, n = std::max<uint64_t>(1, g.u(5)); i <= n; ++i) p1.push_back(static_cast<int64_t>(g.u(A.sh[0] - 1)));
          else { p1 = g.perm(A.sh[0]); p1.resize(spdz ? 1 + g.u(A.sh[0] - 1) : g.u(A.sh[0])); }
        }
        if (op == 12) {
          s.want = build(A, {static_cast<int64_t>(p1.size())}, [&](const IV& o) { return A.v[p1[o[0]]]; });
          s.run = in1([p1](SPUContext* c, Value& x) { return hlo::LinearGather(c, x, Index(p1.begin(), p1.end())); });
        } else {
          auto b = another(A.dt, {static_cast<int64_t>(p1.size())});
          auto& B = P.pool[b];
          M w = A;
          w.sec = A.sec || B.sec; w.prv = A.prv || B.prv;
          mixed = mixed || A.sec != B.sec;
          for (size_t i = 0; i < p1.size(); ++i) w.v[p1[i]] = B.v[i];
          s.want = w;
          s.run = [a, b, p1](SPUContext* c, std::vector<Value>& v) { auto t = v[a].clone(); hlo::LinearScatterInPlace(c, t, v[b], Index(p1.begin(), p1.end())); return t; };
        }
        break;
      }
      case 14: {
        IV st(r), us(r);
        for (size_t i = 0; i < r; ++i) { us[i] = g.in(1, A.sh[i]); st[i] = g.in(0, A.sh[i] - us[i]); }
        auto b = another(A.dt, us);
        auto& B = P.pool[b];
        M w = A;
        w.sec = A.sec || B.sec; w.prv = A.prv || B.prv;
        mixed = mixed || A.sec != B.sec;
        for (int64_t i = 0; i < B.n(); ++i) { auto x = unflatten(i, us); for (size_t q = 0; q < r; ++q) x[q] += st[q]; w.v[flatten(x, A.sh)] = B.v[i]; }
        s.want = w;
        s.run = [a, b, st](SPUContext* c, std::vector<Value>& v) { return hlo::UpdateSlice(c, v[a], v[b], Index(st.begin(), st.end())); };
        p1 = st; p2 = us;
        break;
      }
      case 15: {
        hlo::GatherConfig cfg;
        IV slice(r), map = g.perm(r), coll;
        for (size_t i = 0; i < r; ++i) { slice[i] = g.in(1, A.sh[i]); if (slice[i] == 1 && g.p()) coll.push_back(static_cast<int64_t>(i)); }
        map.resize(g.u(r - 1) + 1);
        size_t nb = g.u(2);
        IV bs(nb);
        for (auto& d : bs) d = 1 + static_cast<int64_t>(g.u(2));
        bool last = map.size() == 1 && g.p(0.4);
        size_t ivd = last ? nb : g.u(nb);
        IV ish = bs;
        if (!last) ish.insert(ish.begin() + static_cast<int64_t>(ivd), static_cast<int64_t>(map.size()));
        size_t outr = nb + r - coll.size();
        auto off = g.perm(outr);
        off.resize(r - coll.size());
        std::sort(off.begin(), off.end());
        IV osh(outr), win;
        for (size_t i = 0; i < r; ++i) if (std::find(coll.begin(), coll.end(), static_cast<int64_t>(i)) == coll.end()) win.push_back(static_cast<int64_t>(i));
        for (size_t i = 0, bi = 0, wi = 0; i < outr; ++i) {
          if (std::find(off.begin(), off.end(), static_cast<int64_t>(i)) != off.end()) osh[i] = slice[win[wi++]]; else osh[i] = bs[bi++];
        }
        if (spdz && osh.empty()) throw Discard{};
        DataType it = g.of<DataType>({DT_I32, DT_I64, DT_I8, DT_U8});
        auto b = fresh(it, ish, 'P', [&]() -> i128 { auto x = static_cast<i128>(g.in(-3, 6)); return uns(it) && x < 0 ? -x : g.p(0.05) ? (it == DT_I8 ? 127 : 200) : x; });
        auto iv = P.num[b];
        s.want = build(A, osh, [&](const IV& o) {
          IV batch, x(r, 0);
          size_t wi = 0;
          for (size_t i = 0; i < outr; ++i) {
            if (std::find(off.begin(), off.end(), static_cast<int64_t>(i)) != off.end()) x[win[wi++]] += o[i]; else batch.push_back(o[i]);
          }
          for (size_t q = 0; q < map.size(); ++q) {
            IV bx = batch;
            if (!last) bx.insert(bx.begin() + static_cast<int64_t>(ivd), static_cast<int64_t>(q));
            auto d = map[q];
            auto v = static_cast<int64_t>(iv[flatten(bx, ish)]);
            x[d] += std::min(std::max<int64_t>(v, 0), A.sh[d] - slice[d]);
          }
          return A.v[flatten(x, A.sh)];
        });
        cfg.sliceSizes = Sizes(slice.begin(), slice.end());
        cfg.indexVectorDim = static_cast<int64_t>(ivd);
        cfg.offsetDims = Axes(off.begin(), off.end());
        cfg.collapsedSliceDims = Axes(coll.begin(), coll.end());
        cfg.startIndexMap = Axes(map.begin(), map.end());
        s.run = [a, b, cfg, osh](SPUContext* c, std::vector<Value>& v) { return hlo::Gather(c, v[a], v[b], cfg, S(osh)); };
        g.say("(slice {} ivd {} offset {} collapsed {} map {} out {})", js(slice), ivd, js(off), js(coll), js(map), js(osh));
        break;
      }
      case 16: case 17: case 19: {
        DataType it = g.of<DataType>({DT_I32, DT_I64, DT_I8, DT_U8, DT_I16, DT_U32});
        int mode = static_cast<int>(g.u(3));  // public, secret, mixed
        if ((spdz || e.k == 32) && mode != 0) mode = 0;  // 64 bit constants do not fit; SPDZ2K lacks scalar shapes
        IV sz(r);
        std::vector<size_t> ix;
        IV at(r);
        bool sec = false, prv = false, anysec = false;
        if (A.dt == DT_I1 && op == 17) mode = mode % 2;
        for (size_t i = 0; i < r; ++i) {
          sz[i] = g.in(1, A.sh[i]);
          if (g.p(0.5)) sz[i] = std::min<int64_t>(sz[i], 2);
          char vis = mode == 0 ? 'P' : mode == 1 ? 'S' : g.of<char>({'P', 'S'});
          if (op != 17 && mode >= 2 && e.proto != kRef2k && e.proto != kSwift && g.p(0.3)) vis = 'V';
          if (op == 17 && mode >= 2 && i == 0) vis = 'S';
          int b = std::min(P.cap() - 1, width(it));
          auto id = fresh(it, spdz ? IV{1} : IV{}, vis, [&]() -> i128 {
            if (g.p(0.85)) { auto x = static_cast<i128>(g.in(-2, A.sh[i] + 1)); return uns(it) && x < 0 ? -x : x; }
            i128 x = static_cast<i128>(g.bits(b));
            return uns(it) ? x & hi_of(it, P.cap() - 1) : x - one(b - 1);
          });
          ix.push_back(id);
          auto x = P.num[id][0];
          at[i] = static_cast<int64_t>(std::min<i128>(std::max<i128>(x, 0), A.sh[i] - sz[i]));
          // an index over a full dimension is not read
          if (sz[i] != A.sh[i]) { sec = sec || vis == 'S'; prv = prv || vis == 'V'; }
          anysec = anysec || vis != 'P';
        }
        mixed = mixed || anysec;
        if (op == 17) { sec = anysec; prv = false; }
        if (op != 17) {
          M w = A;
          w.sec = w.sec || sec; w.prv = w.prv || prv;
          s.want = build(w, sz, [&](const IV& o) { IV x = o; for (size_t i = 0; i < r; ++i) x[i] += at[i]; return A.v[flatten(x, A.sh)]; });
          s.run = [a, ix, sz, spdz](SPUContext* c, std::vector<Value>& v) {
            std::vector<Value> t;
            for (auto i : ix) t.push_back(v[i]);
            return hlo::DynamicSlice(c, v[a], Sizes(sz.begin(), sz.end()), t);
          };
        } else {
          auto b = another(A.dt, sz);
          auto& B = P.pool[b];
          M w = A;
          w.sec = A.sec || B.sec || sec; w.prv = A.prv || B.prv || prv;
          for (int64_t i = 0; i < B.n(); ++i) { auto x = unflatten(i, sz); for (size_t q = 0; q < r; ++q) x[q] += at[q]; w.v[flatten(x, A.sh)] = B.v[i]; }
          s.want = w;
          s.run = [a, b, ix](SPUContext* c, std::vector<Value>& v) {
            std::vector<Value> t;
            for (auto i : ix) t.push_back(v[i]);
            return hlo::DynamicUpdateSlice(c, v[a], v[b], t);
          };
        }
        for (auto i : ix) p1.push_back(static_cast<int64_t>(i));
        p2 = sz;
        break;
      }
      default: {
        DataType d = e.k == 32 ? g.of<DataType>({DT_I8, DT_I32, DT_U16, DT_F32}) : g.of<DataType>({DT_I8, DT_I32, DT_U16, DT_I64, DT_F32, DT_F64});
        int64_t n = 1 + static_cast<int64_t>(g.u(9));
        double f = fxp(e);
        M w;
        w.dt = d; w.sh = {n};
        for (int64_t i = 0; i < n; ++i) w.v.push_back(static_cast<u128>(real(d) ? static_cast<i128>(i) << static_cast<int>(f) : i) & e.mask);
        s.want = w;
        s.run = [d, n](SPUContext* c, std::vector<Value>&) { return hlo::Iota(c, d, n); };
        p1 = {static_cast<int>(d), n};
      }
    }
    if (s.want.n() > 64) throw Discard{};
    s.what = fmt::format("{}(#{} {} {} {})", nm[op], a, js(p1), js(p2), js(p3));
    g.tag(nm[op]);
    P.pool.push_back(s.want);
    pool_is_step.push_back(P.steps.size() + 1);
    in_no.push_back(0);
    g.say("#{}={}", P.pool.size() - 1, s.what);
    P.steps.push_back(s);
  }
  auto steps = P.steps;
  auto res = exec(e, P.ins, [&](SPUContext* ctx, std::vector<Value>& v) {
    std::vector<Value> pool(pool_is_step.size());
    for (size_t i = 0; i < pool.size(); ++i) if (pool_is_step[i] == 0) pool[i] = v[in_no[i]];
    std::vector<Value> out;
    for (size_t i = 0; i < pool.size(); ++i)
      if (pool_is_step[i] != 0) { pool[i] = steps[pool_is_step[i] - 1].run(ctx, pool); out.push_back(pool[i]); }
    return out;
  }, Opt{.may_reveal = true});
  bool distinct = false;
  for (size_t i = 0; i < steps.size(); ++i) {
    auto& w = steps[i].want;
    auto& r = res[i];
    REQUIRE(r.sh == S(w.sh), "{} {}: shape {} instead of {}", e.show(), steps[i].what, r.sh, js(w.sh));
    REQUIRE(r.dt == w.dt, "{} {}: type {} instead of {}", e.show(), steps[i].what, static_cast<int>(r.dt), static_cast<int>(w.dt));
    REQUIRE(w.sec ? r.vis == 'S' : w.prv ? r.vis != 'P' : r.vis == 'P', "{} {}: visibility {}", e.show(), steps[i].what, r.vis);
    auto d = diff(r.raw, w.v);
    REQUIRE(d.empty(), "{} {}: {}", e.show(), steps[i].what, d);
    std::set<u128> vs(w.v.begin(), w.v.end());
    if (w.sec && vs.size() > 1) distinct = true;
  }
  g.nontrivial(distinct && (steps.size() > 1 || mixed));
}

PBT(C27, complex, 2500, 40000, "a secret complex tensor with distinct parts and more than one element") {
  auto e = genv(g);
  if (e.proto == kSpdz2k) { e.proto = kSemi2k; e.cfg.beaver_type = RuntimeConfig::TrustedFirstParty; }
  Prog P{g, e, {}, {}, {}, {}};
  auto s0 = gshape(g, 3, 4, 24);
  IV sh(s0.begin(), s0.end());
  for (auto& d : sh) d = std::max<int64_t>(d, 1);
  if (sh.empty()) sh.push_back(3);
  size_t r = sh.size();
  DataType d = g.of(kReals);
  char vis = g.p(0.7) ? 'S' : 'P';
  for (int i = 0; i < 4; ++i) { P.input(d, i < 2 ? sh : sh, vis, [&] { return P.val(d); }); P.ins.back().how = 0; }
  int op = static_cast<int>(g.u(6));
  static const char* nm[] = {"transpose", "broadcast", "reshape", "concat", "slice", "pad", "reverse"};
  g.say("{}", nm[op]);
  g.tag(nm[op]);
  auto pr = g.perm(r);
  auto ax = static_cast<int64_t>(g.u(r - 1));
  IV lo(r), hi(r), osh = sh;
  std::function<u128(const M&, const M&, const IV&)> at;
  switch (op) {
    case 0: for (size_t i = 0; i < r; ++i) osh[i] = sh[pr[i]]; at = [&](const M& a, const M&, const IV& o) { IV x(r); for (size_t i = 0; i < r; ++i) x[pr[i]] = o[i]; return a.v[flatten(x, a.sh)]; }; break;
    case 1: osh.insert(osh.begin(), 3); at = [&](const M& a, const M&, const IV& o) { IV x(o.begin() + 1, o.end()); return a.v[flatten(x, a.sh)]; }; break;
    case 2: osh = {P.pool[0].n()}; at = [&](const M& a, const M&, const IV& o) { return a.v[o[0]]; }; break;
    case 3: osh[ax] *= 2; at = [&](const M& a, const M& b, const IV& o) { IV x = o; if (x[ax] < sh[ax]) return a.v[flatten(x, sh)]; x[ax] -= sh[ax]; return b.v[flatten(x, sh)]; }; break;
    case 4:
      for (size_t i = 0; i < r; ++i) { lo[i] = g.in(0, sh[i] - 1); hi[i] = g.in(lo[i] + 1, sh[i]); osh[i] = hi[i] - lo[i]; }
      at = [&](const M& a, const M&, const IV& o) { IV x = o; for (size_t i = 0; i < r; ++i) x[i] += lo[i]; return a.v[flatten(x, sh)]; };
      break;
    case 5:
      for (size_t i = 0; i < r; ++i) { lo[i] = static_cast<int64_t>(g.u(2)); hi[i] = static_cast<int64_t>(g.u(2)); osh[i] = sh[i] + lo[i] + hi[i]; }
      at = [&](const M& a, const M& b, const IV& o) { IV x = o; for (size_t i = 0; i < r; ++i) { x[i] -= lo[i]; if (x[i] < 0 || x[i] >= sh[i]) return b.v[0]; } return a.v[flatten(x, sh)]; };
      break;
    default: at = [&](const M& a, const M&, const IV& o) { IV x = o; x[ax] = sh[ax] - 1 - x[ax]; return a.v[flatten(x, sh)]; };
  }
  auto res = exec(e, P.ins, [&](SPUContext* c, std::vector<Value>& v) -> std::vector<Value> {
    auto a = hal::complex(c, v[0], v[1]), b = hal::complex(c, v[2], v[3]);
    Value z;
    switch (op) {
      case 0: z = hlo::Transpose(c, a, Axes(pr.begin(), pr.end())); break;
      case 1: { Axes in; for (size_t i = 0; i < r; ++i) in.push_back(static_cast<int64_t>(i + 1)); z = hlo::Broadcast(c, a, S(osh), in); break; }
      case 2: z = hlo::Reshape(c, a, S(osh)); break;
      case 3: z = hlo::Concatenate(c, {a, b}, ax); break;
      case 4: z = hlo::Slice(c, a, Index(lo.begin(), lo.end()), Index(hi.begin(), hi.end()), Strides(r, 1)); break;
      case 5: {
        auto one1 = [&](const Value& x) { return hal::slice_scalar_at(c, x, Index(r, 0)); };
        z = hlo::Pad(c, a, hal::complex(c, one1(v[2]), one1(v[3])), Sizes(lo.begin(), lo.end()), Sizes(hi.begin(), hi.end()), Sizes(r, 0));
        break;
      }
      default: z = hlo::Reverse(c, a, Axes{ax});
    }
    return {hal::real(c, z), hal::imag(c, z)};
  });
  for (int part = 0; part < 2; ++part) {
    auto w = build(P.pool[part], osh, [&](const IV& o) { return at(P.pool[part], P.pool[part + 2], o); });
    REQUIRE(res[part].sh == S(osh) && res[part].dt == d, "{}: shape {} type {}", nm[op], res[part].sh, static_cast<int>(res[part].dt));
    auto df = diff(res[part].raw, w.v);
    REQUIRE(df.empty(), "{} {} part {}: {}", e.show(), nm[op], part, df);
  }
  g.nontrivial(vis == 'S' && P.pool[0].v != P.pool[1].v && P.pool[0].n() > 1);
}
