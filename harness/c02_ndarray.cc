// Model-based test of array views: every array is a list of cells of a store.
#include "pbt.h"
#include "libspu/core/ndarray_ref.h"
#include "libspu/core/type.h"
using namespace pbt;
using spu::Axes; using spu::Index; using spu::NdArrayRef; using spu::Shape; using spu::Sizes; using spu::Strides;
namespace {
struct Store { std::vector<uint64_t> v; };
using SP = std::shared_ptr<Store>;
struct Arr {
  NdArrayRef r;
  std::vector<int64_t> shape;
  SP st;
  std::vector<int64_t> cell;  // row-major
};
int64_t numel(const std::vector<int64_t>& s) { int64_t n = 1; for (auto d : s) n *= d; return n; }
Shape sh(const std::vector<int64_t>& s) { Shape r; for (auto d : s) r.push_back(d); return r; }
Index ix(const std::vector<int64_t>& s) { Index r; for (auto d : s) r.push_back(d); return r; }
std::vector<int64_t> unflat(int64_t i, const std::vector<int64_t>& s) {
  std::vector<int64_t> r(s.size());
  for (size_t k = s.size(); k-- > 0;) { r[k] = i % s[k]; i /= s[k]; }
  return r;
}
int64_t flat(const std::vector<int64_t>& i, const std::vector<int64_t>& s) { int64_t r = 0; for (size_t k = 0; k < s.size(); ++k) r = r * s[k] + i[k]; return r; }
std::string js(const std::vector<int64_t>& v) { return fmt::format("({})", fmt::join(v, ",")); }

template <class T>
struct Machine {
  Gen& g;
  spu::Type ty;
  std::vector<Arr> live;
  uint64_t next = 1;
  explicit Machine(Gen& g_, spu::Type t) : g(g_), ty(std::move(t)) {}

  std::vector<int64_t> gshape(int64_t maxrank = 4) {
    std::vector<int64_t> s(g.in(0, maxrank));
    for (auto& d : s) d = g.p(0.06) ? 0 : g.p(0.25) ? 1 : g.in(1, 5);
    return s;
  }
  uint64_t fresh() { return sizeof(T) == 1 ? (next++ & 0xff) : next++ * 0x01000193ULL % (sizeof(T) >= 8 ? ~0ULL : 0xffffffffULL); }
  Arr make(const std::vector<int64_t>& s) {
    NdArrayRef r(ty, sh(s));
    auto st = std::make_shared<Store>();
    auto n = numel(s);
    std::vector<int64_t> c(n);
    for (int64_t i = 0; i < n; ++i) {
      st->v.push_back(fresh());
      c[i] = i;
      r.data<T>()[i] = static_cast<T>(st->v[i]);
    }
    return {r, s, st, c};
  }
  // a view over a buffer that is larger than the view (offset, gaps, any sign of stride)
  Arr make_view(const std::vector<int64_t>& s) {
    auto n = s.size();
    Strides str(n);
    auto order = g.perm(n);
    int64_t step = g.in(1, 3);
    for (auto k : order) {
      str[k] = step;
      step *= std::max<int64_t>(1, s[k]);
      step += g.p(0.3) ? g.in(0, 3) : 0;
    }
    int64_t lo = 0, hi = 0;
    for (size_t k = 0; k < n; ++k) {
      if (s[k] == 1) str[k] = 0;
      if (g.p(0.2)) str[k] = -str[k];
      auto e = str[k] * (std::max<int64_t>(1, s[k]) - 1);
      (e < 0 ? lo : hi) += e;
    }
    int64_t off = -lo + g.in(0, 3);
    int64_t len = off + hi + 1 + g.in(0, 3);
    auto buf = std::make_shared<yacl::Buffer>(len * sizeof(T));
    auto st = std::make_shared<Store>();
    for (int64_t i = 0; i < len; ++i) { st->v.push_back(fresh()); buf->template data<T>()[i] = static_cast<T>(st->v[i]); }
    std::vector<int64_t> c(numel(s));
    for (size_t i = 0; i < c.size(); ++i) {
      auto x = unflat(static_cast<int64_t>(i), s);
      int64_t o = off;
      for (size_t k = 0; k < n; ++k) o += x[k] * str[k];
      c[i] = o;
    }
    return {NdArrayRef(buf, ty, sh(s), str, off * static_cast<int64_t>(sizeof(T))), s, st, c};
  }
  // a copy of the given values
  Arr copy(NdArrayRef r, const std::vector<int64_t>& s, std::vector<uint64_t> vals) {
    auto st = std::make_shared<Store>();
    st->v = std::move(vals);
    std::vector<int64_t> c(st->v.size());
    for (size_t i = 0; i < c.size(); ++i) c[i] = static_cast<int64_t>(i);
    return {std::move(r), s, st, c};
  }
  std::vector<uint64_t> vals(const Arr& a) { std::vector<uint64_t> v; for (auto c : a.cell) v.push_back(a.st->v[c]); return v; }

  void verify(const Arr& a, const char* what) {
    std::vector<int64_t> s(a.r.shape().begin(), a.r.shape().end());
    REQUIRE(s == a.shape, "{}: shape {} instead of {}", what, js(s), js(a.shape));
    auto n = static_cast<int64_t>(a.cell.size());
    REQUIRE(a.r.numel() == n, "{}: numel {} instead of {}", what, a.r.numel(), n);
    REQUIRE(a.r.ndim() == s.size() && a.r.strides().size() == s.size(), "{}: rank", what);
    REQUIRE(a.r.eltype() == ty && a.r.elsize() == sizeof(T), "{}: element type", what);
    spu::NdArrayView<T> view(a.r);
    auto it = a.r.cbegin();
    const auto* base = a.r.data<T>();
    bool compact = true;
    for (int64_t i = 0; i < n; ++i) {
      T e = static_cast<T>(a.st->v[a.cell[i]]);
      auto x = unflat(i, s);
      REQUIRE(a.r.at<T>(ix(x)) == e, "{}: at{} is {} instead of {}", what, js(x), str(a.r.at<T>(ix(x))), str(e));
      REQUIRE(a.r.at<T>(i) == e, "{}: at({}) is wrong", what, i);
      REQUIRE(view[i] == e, "{}: view[{}] is wrong", what, i);
      REQUIRE(it != a.r.cend(), "{}: iterator ends after {} of {}", what, i, n);
      REQUIRE(it.template getScalarValue<T>() == e, "{}: iterator at {} is wrong", what, i);
      REQUIRE(&a.r.at<T>(ix(x)) == &a.r.at<T>(i) && &a.r.at<T>(i) == &view[i], "{}: addresses of element {} differ", what, i);
      compact = compact && (&a.r.at<T>(i) == base + i);
      ++it;
    }
    REQUIRE(it == a.r.cend(), "{}: iterator does not end after {} elements", what, n);
    if (a.r.isCompact()) REQUIRE(compact, "{}: claims to be compact but is not", what);
    else REQUIRE(n > 1, "{}: not compact although it has {} elements", what, n);
    if (n > 0 && n <= 64) {
      size_t w = 0;
      for (auto c : a.cell) { uint64_t v = a.st->v[c]; size_t b = 0; while (v) { ++b; v >>= 1; } w = std::max(w, b); }
      REQUIRE(spu::maxBitWidth<T>(a.r) == w, "{}: maxBitWidth {} instead of {}", what, spu::maxBitWidth<T>(a.r), w);
    }
  }
  void verify_all(const char* what) { for (auto& a : live) verify(a, what); }
  bool dup(const Arr& a) { std::set<int64_t> s(a.cell.begin(), a.cell.end()); return s.size() != a.cell.size(); }
  bool overlap(const Arr& a, const Arr& b) { return a.st == b.st; }
  Arr& pick() { return live[g.u(live.size() - 1)]; }
  void push(Arr a, const char* what) {
    verify(a, what);
    if (live.size() > 8) live.erase(live.begin() + static_cast<long>(g.u(live.size() - 1)));
    live.push_back(std::move(a));
  }
  template <class F>
  void must_throw(const char* what, F&& f) {
    bool t = false;
    try { f(); } catch (const std::exception&) { t = true; }
    REQUIRE(t, "{} was accepted", what);
  }
  // rows of a: for every element of the new shape, the source element
  template <class F>
  Arr map(const Arr& a, NdArrayRef r, const std::vector<int64_t>& s, F&& src) {
    Arr o{std::move(r), s, a.st, {}};
    auto n = numel(s);
    for (int64_t i = 0; i < n; ++i) o.cell.push_back(a.cell[flat(src(unflat(i, s)), a.shape)]);
    return o;
  }

  void step() {
    auto op = g.u(16);
    if (live.empty() || op == 0) {
      auto s = gshape();
      g.say("new{}", js(s));
      push(g.p() ? make(s) : make_view(s), "new");
      return;
    }
    if (op == 1) {  // constant array
      auto s = gshape();
      auto st = std::make_shared<Store>();
      st->v = {0};
      g.say("const{}", js(s));
      push({spu::makeConstantArrayRef(ty, sh(s)), s, st, std::vector<int64_t>(numel(s), 0)}, "makeConstantArrayRef");
      return;
    }
    size_t ai = g.u(live.size() - 1);
    Arr a = live[ai];
    size_t nd = a.shape.size();
    switch (op) {
      case 2: case 3: {  // slice
        std::vector<int64_t> b(nd), e(nd), st(nd), s(nd);
        bool strided = g.p(0.7);
        for (size_t k = 0; k < nd; ++k) {
          b[k] = g.in(0, a.shape[k] == 0 ? 0 : g.p(0.1) ? a.shape[k] : a.shape[k] - 1);
          e[k] = g.in(b[k], a.shape[k]);
          if (g.p(0.4)) e[k] = a.shape[k];
          st[k] = strided ? g.in(1, 4) : 1;
          s[k] = (e[k] - b[k] + st[k] - 1) / st[k];
        }
        g.say("slice #{}{} {}..{} step {}", ai, js(a.shape), js(b), js(e), js(st));
        Strides ss;
        if (strided || g.p()) for (auto x : st) ss.push_back(x);
        auto r = a.r.slice(ix(b), ix(e), ss);
        REQUIRE(r.buf() == a.r.buf(), "slice copied");
        push(map(a, r, s, [&](std::vector<int64_t> x) { for (size_t k = 0; k < nd; ++k) x[k] = b[k] + x[k] * st[k]; return x; }), "slice");
        break;
      }
      case 4: {  // element as a scalar
        if (a.cell.empty()) return;
        std::vector<int64_t> x(nd);
        for (size_t k = 0; k < nd; ++k) x[k] = g.in(0, a.shape[k] - 1);
        g.say("scalar_at #{}{} {}", ai, js(a.shape), js(x));
        auto r = a.r.slice_scalar_at(ix(x));
        REQUIRE(r.buf() == a.r.buf(), "slice_scalar_at copied");
        push(map(a, r, {}, [&](const std::vector<int64_t>&) { return x; }), "slice_scalar_at");
        break;
      }
      case 5: {  // transpose
        auto p = g.perm(nd);
        bool dflt = g.p(0.3);
        if (dflt) for (size_t k = 0; k < nd; ++k) p[k] = static_cast<int64_t>(nd - 1 - k);
        std::vector<int64_t> s(nd);
        for (size_t k = 0; k < nd; ++k) s[k] = a.shape[p[k]];
        g.say("transpose #{}{} {}", ai, js(a.shape), js(p));
        if (nd >= 2 && g.p(0.1)) {
          auto q = p; q[0] = q[1];
          must_throw("transpose with a repeated axis", [&] { a.r.transpose(Axes(q.begin(), q.end())); });
          must_throw("transpose with too few axes", [&] { a.r.transpose(Axes(p.begin(), p.end() - 1)); });
        }
        auto r = dflt ? a.r.transpose() : a.r.transpose(Axes(p.begin(), p.end()));
        REQUIRE(r.buf() == a.r.buf(), "transpose copied");
        push(map(a, r, s, [&](const std::vector<int64_t>& x) { std::vector<int64_t> y(nd); for (size_t k = 0; k < nd; ++k) y[p[k]] = x[k]; return y; }), "transpose");
        break;
      }
      case 6: {  // reverse
        Axes ax;
        std::vector<bool> rev(nd);
        for (auto k : g.perm(nd)) if (g.p()) { ax.push_back(k); rev[k] = true; }
        g.say("reverse #{}{} {}", ai, js(a.shape), js({ax.begin(), ax.end()}));
        auto r = a.r.reverse(ax);
        REQUIRE(r.buf() == a.r.buf(), "reverse copied");
        push(map(a, r, a.shape, [&](std::vector<int64_t> x) { for (size_t k = 0; k < nd; ++k) if (rev[k]) x[k] = a.shape[k] - 1 - x[k]; return x; }), "reverse");
        break;
      }
      case 7: {  // reshape
        std::vector<int64_t> s;
        int64_t n = numel(a.shape);
        if (n == 0) { s = gshape(); if (numel(s) != 0) s.push_back(0); }
        else {
          int64_t m = n;
          for (int64_t f = 2; f <= m && m > 1;) { if (m % f == 0) { s.push_back(f); m /= f; } else ++f; }
          while (s.size() > 1 && g.p(0.6)) { auto k = g.u(s.size() - 2); s[k] *= s[k + 1]; s.erase(s.begin() + static_cast<long>(k) + 1); }
          for (auto k = g.u(2); k > 0; --k) s.insert(s.begin() + static_cast<long>(g.u(s.size())), 1);
          g.shuffle(s);
        }
        g.say("reshape #{}{} to {}", ai, js(a.shape), js(s));
        if (g.p(0.05)) {
          auto q = s; q.push_back(n == 0 ? 1 : 2);
          if (n == 0) q = {3};
          must_throw("reshape to another number of elements", [&] { a.r.reshape(sh(q)); });
        }
        auto r = a.r.reshape(sh(s));
        auto v = vals(a);
        if (r.buf() == a.r.buf()) push({r, s, a.st, a.cell}, "reshape (view)");
        else push(copy(r, s, v), "reshape (copy)");
        break;
      }
      case 8: {  // broadcast
        std::vector<int64_t> s;
        Axes in_dims;
        // choose where the operand's dimensions go, in increasing order
        std::vector<int64_t> where;
        if (g.p()) {
          int64_t extra = g.in(0, 2);
          for (int64_t k = 0; k < extra; ++k) s.push_back(g.in(0, 3));
          for (size_t k = 0; k < nd; ++k) { where.push_back(static_cast<int64_t>(s.size())); s.push_back(a.shape[k] == 1 ? g.in(1, 4) : a.shape[k]); }
        } else {
          for (size_t k = 0; k < nd; ++k) {
            while (g.p(0.3) && s.size() < 5) s.push_back(g.in(1, 3));
            where.push_back(static_cast<int64_t>(s.size()));
            s.push_back(a.shape[k] == 1 ? g.in(1, 4) : a.shape[k]);
          }
          while (g.p(0.3) && s.size() < 5) s.push_back(g.in(1, 3));
          for (auto w : where) in_dims.push_back(w);
        }
        if (numel(s) > 2000) return;
        g.say("broadcast #{}{} to {} dims {}", ai, js(a.shape), js(s), js({in_dims.begin(), in_dims.end()}));
        if (g.p(0.05) && nd > 0) {
          Axes bad(where.begin(), where.end());
          bad[g.u(nd - 1)] = g.p() ? static_cast<int64_t>(s.size()) : -1;
          must_throw("broadcast into a dimension that does not exist", [&] { a.r.broadcast_to(sh(s), bad); });
        }
        auto r = a.r.broadcast_to(sh(s), in_dims);
        REQUIRE(r.buf() == a.r.buf(), "broadcast copied");
        push(map(a, r, s, [&](const std::vector<int64_t>& x) { std::vector<int64_t> y(nd); for (size_t k = 0; k < nd; ++k) y[k] = a.shape[k] == 1 ? 0 : x[where[k]]; return y; }), "broadcast_to");
        break;
      }
      case 9: {  // expand
        if (a.cell.size() != 1) { must_throw("expand of an array that is no scalar", [&] { a.r.expand({2}); }); return; }
        auto s = gshape();
        g.say("expand #{} to {}", ai, js(s));
        auto r = a.r.expand(sh(s));
        REQUIRE(r.buf() != a.r.buf(), "expand did not copy");
        push(copy(r, s, std::vector<uint64_t>(numel(s), vals(a)[0])), "expand");
        break;
      }
      case 10: {  // clone
        g.say("clone #{}", ai);
        auto r = a.r.clone();
        REQUIRE(r.buf() != a.r.buf() && r.isCompact(), "clone is not a compact copy");
        push(copy(r, a.shape, vals(a)), "clone");
        break;
      }
      case 11: {  // concatenate
        if (nd == 0) return;
        auto ax = g.in(0, static_cast<int64_t>(nd) - 1);
        std::vector<Arr> o;
        auto s = a.shape;
        for (auto k = g.u(3); k > 0; --k) {
          auto t = a.shape;
          t[ax] = g.in(0, 3);
          o.push_back(g.p() ? make_view(t) : make(t));
          s[ax] += t[ax];
        }
        if (g.p(0.3)) { o.push_back(a); s[ax] += a.shape[ax]; }
        std::vector<NdArrayRef> rs;
        for (auto& x : o) rs.push_back(x.r);
        g.say("concat #{}{} axis {} to {}", ai, js(a.shape), ax, js(s));
        auto r = a.r.concatenate(rs, ax);
        o.insert(o.begin(), a);
        std::vector<uint64_t> v;
        for (int64_t i = 0; i < numel(s); ++i) {
          auto x = unflat(i, s);
          size_t k = 0;
          while (x[ax] >= o[k].shape[ax]) { x[ax] -= o[k].shape[ax]; ++k; }
          v.push_back(o[k].st->v[o[k].cell[flat(x, o[k].shape)]]);
        }
        push(copy(r, s, v), "concatenate");
        break;
      }
      case 12: {  // pad
        Sizes lo, hi, in;
        std::vector<int64_t> s(nd);
        for (size_t k = 0; k < nd; ++k) {
          in.push_back(g.p(0.4) ? g.in(1, 2) : 0);
          auto full = a.shape[k] == 0 ? 0 : a.shape[k] + (a.shape[k] - 1) * in[k];
          lo.push_back(g.in(g.p(0.3) ? -std::min<int64_t>(full, 3) : 0, 3));
          hi.push_back(g.in(g.p(0.3) ? -std::min<int64_t>(full, 3) : 0, 3));
          if (full + lo[k] + hi[k] < 0) hi[k] = -(full + lo[k]);
          s[k] = full + lo[k] + hi[k];
        }
        if (numel(s) > 3000) return;
        auto pv = g.p(0.5) ? make({}) : make_view({});
        g.say("pad #{}{} lo {} hi {} interior {}", ai, js(a.shape), js({lo.begin(), lo.end()}), js({hi.begin(), hi.end()}), js({in.begin(), in.end()}));
        auto r = a.r.pad(pv.r, lo, hi, in);
        std::vector<uint64_t> v;
        for (int64_t i = 0; i < numel(s); ++i) {
          auto x = unflat(i, s);
          bool inside = true;
          for (size_t k = 0; k < nd; ++k) {
            auto y = x[k] - lo[k];
            if (y < 0 || y % (in[k] + 1) != 0 || y / (in[k] + 1) >= a.shape[k]) inside = false;
            else x[k] = y / (in[k] + 1);
          }
          v.push_back(inside ? a.st->v[a.cell[flat(x, a.shape)]] : vals(pv)[0]);
        }
        push(copy(r, s, v), "pad");
        break;
      }
      case 13: {  // gather
        if (nd != 1 || a.cell.empty()) { if (nd != 1) must_throw("linear_gather of an array that is not 1-D", [&] { a.r.linear_gather({0}); }); return; }
        Index id;
        for (auto k = g.u(6); k > 0; --k) id.push_back(g.in(0, a.shape[0] - 1));
        g.say("gather #{} {}", ai, js({id.begin(), id.end()}));
        auto r = a.r.linear_gather(id);
        REQUIRE(r.buf() != a.r.buf(), "linear_gather did not copy");
        std::vector<uint64_t> v;
        for (auto k : id) v.push_back(vals(a)[k]);
        push(copy(r, {static_cast<int64_t>(id.size())}, v), "linear_gather");
        break;
      }
      case 14: {  // scatter, in place
        if (nd != 1 || a.cell.empty()) return;
        auto p = g.perm(a.shape[0]);
        p.resize(g.in(1, static_cast<int64_t>(p.size())));
        auto nv = g.p() ? make({static_cast<int64_t>(p.size())}) : make_view({static_cast<int64_t>(p.size())});
        g.say("scatter #{} {}", ai, js(p));
        if (dup(a)) return;
        live[ai].r.linear_scatter(nv.r, ix(p));
        auto v = vals(nv);
        for (size_t k = 0; k < p.size(); ++k) a.st->v[a.cell[p[k]]] = v[k];
        g.tag("write");
        verify_all("linear_scatter");
        break;
      }
      case 15: {  // single writes through the view
        if (a.cell.empty()) return;
        auto i = g.in(0, static_cast<int64_t>(a.cell.size()) - 1);
        auto v = fresh();
        auto how = g.u(3);
        g.say("write #{}{}[{}] ({})", ai, js(a.shape), i, how);
        if (how == 0) live[ai].r.at<T>(ix(unflat(i, a.shape))) = static_cast<T>(v);
        else if (how == 1) live[ai].r.at<T>(i) = static_cast<T>(v);
        else if (how == 2) { spu::NdArrayView<T> w(live[ai].r); w[i] = static_cast<T>(v); }
        else { auto it = live[ai].r.begin(); for (int64_t k = 0; k < i; ++k) ++it; it.template getScalarValue<T>() = static_cast<T>(v); }
        a.st->v[a.cell[i]] = v;
        g.tag("write");
        verify_all("write");
        break;
      }
      default: {  // update_slice / copy_slice
        std::vector<int64_t> b(nd), s(nd);
        for (size_t k = 0; k < nd; ++k) { s[k] = g.in(0, a.shape[k]); if (g.p(0.8) && a.shape[k] > 0) s[k] = std::max<int64_t>(1, s[k]); b[k] = g.in(0, a.shape[k] - s[k]); }
        auto nv = g.p() ? make(s) : make_view(s);
        if (g.p(0.4) && !nv.cell.empty()) {  // source with a zero stride
          auto one = make({});
          nv = map(one, one.r.broadcast_to(sh(s), {}), s, [](const std::vector<int64_t>&) { return std::vector<int64_t>{}; });
        }
        auto v = vals(nv);
        if (g.p(0.6)) {
          g.say("update_slice #{}{} at {} with {}", ai, js(a.shape), js(b), js(s));
          auto& L = live[ai];
          bool det = dup(L) && !v.empty();
          L.r.update_slice(nv.r, ix(b));
          if (det) {  // elements that share a cell cannot be updated one by one: the array detaches
            REQUIRE(L.r.buf() != a.r.buf(), "updated a broadcast array in place");
            L = copy(L.r, L.shape, vals(a));
          } else REQUIRE(L.r.buf() == a.r.buf(), "update_slice replaced the storage");
          for (size_t i = 0; i < v.size(); ++i) {
            auto x = unflat(static_cast<int64_t>(i), s);
            for (size_t k = 0; k < nd; ++k) x[k] += b[k];
            L.st->v[L.cell[flat(x, L.shape)]] = v[i];
          }
          g.tag("write");
          verify_all("update_slice");
        } else {
          if (dup(a) || a.cell.empty() || nv.cell.empty()) return;
          // run of elements in row-major order
          auto d0 = g.in(0, static_cast<int64_t>(a.cell.size()) - 1), s0 = g.in(0, static_cast<int64_t>(v.size()) - 1);
          auto n = g.in(0, std::min<int64_t>(static_cast<int64_t>(a.cell.size()) - d0, static_cast<int64_t>(v.size()) - s0));
          g.say("copy_slice #{}{} at {} from {}[{}] x{}", ai, js(a.shape), d0, js(s), s0, n);
          live[ai].r.copy_slice(nv.r, ix(unflat(s0, s)), ix(unflat(d0, a.shape)), n);
          for (int64_t i = 0; i < n; ++i) a.st->v[a.cell[d0 + i]] = v[s0 + i];
          g.tag("write");
          verify_all("copy_slice");
        }
      }
    }
  }
  // packing several arrays into one and taking them apart again
  void pack() {
    std::vector<NdArrayRef> in;
    std::vector<std::vector<uint64_t>> v;
    for (auto& a : live) { in.push_back(a.r); v.push_back(vals(a)); }
    if (in.empty()) return;
    spu::SimdTrait<NdArrayRef>::PackInfo pi;
    auto p = spu::SimdTrait<NdArrayRef>::pack(in.begin(), in.end(), pi);
    std::vector<NdArrayRef> out;
    spu::SimdTrait<NdArrayRef>::unpack(p, std::back_inserter(out), pi);
    REQUIRE(out.size() == in.size(), "unpack gives {} of {} arrays", out.size(), in.size());
    for (size_t i = 0; i < in.size(); ++i) verify(copy(out[i], live[i].shape, v[i]), "pack/unpack");
  }
};
template <class T>
void run(Gen& g, const spu::Type& ty) {
  Machine<T> m(g, ty);
  auto n = g.in(1, 14);
  for (int64_t i = 0; i < n; ++i) m.step();
  m.verify_all("end");
  m.pack();
  size_t big = 0;
  for (auto& a : m.live) big += a.cell.size() > 1;
  g.nontrivial(n >= 3 && big >= 1);
}
}  // namespace
PBT(C02, view_programs, 60000, 1500000, "at least 3 operations and an array of more than one element") {
  switch (g.u(3)) {
    case 0: return run<uint32_t>(g, spu::makeType<spu::RingTy>(spu::FM32));
    case 1: return run<uint64_t>(g, spu::makeType<spu::RingTy>(spu::FM64));
    case 2: return run<unsigned __int128>(g, spu::makeType<spu::RingTy>(spu::FM128));
    default: return run<uint8_t>(g, spu::makePtType(spu::PT_U8));
  }
}
// The same element addressed through an array of another type of the same size.
PBT(C02, cast_view, 20000, 200000, "more than one element") {
  Machine<uint64_t> m(g, spu::makeType<spu::RingTy>(spu::FM64));
  auto a = m.make_view(m.gshape());
  g.say("shape {}", js(a.shape));
  auto r = a.r.as(spu::makePtType(spu::PT_I64));
  REQUIRE(r.buf() == a.r.buf() && r.shape() == a.r.shape() && r.strides() == a.r.strides() && r.offset() == a.r.offset(), "as() changed the layout");
  for (size_t i = 0; i < a.cell.size(); ++i) REQUIRE(r.at<uint64_t>(static_cast<int64_t>(i)) == a.st->v[a.cell[i]], "element {}", i);
  bool t = false;
  try { (void)a.r.as(spu::makePtType(spu::PT_I32)); } catch (const std::exception&) { t = true; }
  REQUIRE(t, "viewing 8-byte elements as 4-byte elements was accepted");
  g.nontrivial(a.cell.size() > 1);
}
