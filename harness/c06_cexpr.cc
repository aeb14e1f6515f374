#include "pbt.h"
#include "libspu/core/cexpr.h"
using namespace pbt;
namespace ce = spu::ce;
namespace {
// Reference tree, evaluated on its own.
struct T {
  char op;  // 'c' 'v' 'l' '+' '-' '*'
  uint64_t c = 0;
  std::string v;
  std::shared_ptr<T> a, b;
};
using P = std::shared_ptr<T>;
const char* kVars[] = {"K", "N", "M", "foo", "x1"};
uint64_t clog2(uint64_t x) { uint64_t r = 0; while (r < 64 && (static_cast<u128>(1) << r) < x) ++r; return r; }
uint64_t ev(const P& t, const std::map<std::string, uint64_t>& m) {
  switch (t->op) {
    case 'c': return t->c;
    case 'v': return m.at(t->v);
    case 'l': {
      uint64_t x = ev(t->a, m);
      if (x == 0 || x >= (1ull << 40)) throw Discard{};
      return clog2(x);
    }
    case '+': return ev(t->a, m) + ev(t->b, m);
    case '-': return ev(t->a, m) - ev(t->b, m);
    default: return ev(t->a, m) * ev(t->b, m);
  }
}
// 'pool' holds the subexpressions built so far: using one again shares its node.
using Node = std::pair<P, ce::CExpr>;
Node gen0(Gen& g, int d, std::vector<Node>& pool);
Node gen(Gen& g, int d, std::vector<Node>& pool) {
  if (!pool.empty() && g.p(0.2)) return pool[g.u(pool.size() - 1)];
  pool.push_back(gen0(g, d, pool));
  return pool.back();
}
Node gen(Gen& g, int d) { std::vector<Node> pool; return gen(g, d, pool); }
Node gen0(Gen& g, int d, std::vector<Node>& pool) {
  auto n = std::make_shared<T>();
  uint64_t k = d == 0 ? g.u(1) : g.u(7);
  if (k == 0) {
    n->op = 'c';
    n->c = g.p(0.8) ? g.u(20) : g.u(1u << 20);
    return {n, ce::Const(n->c)};
  }
  if (k == 1) {
    n->op = 'v';
    uint64_t i = g.u(4);
    n->v = kVars[i];
    return {n, i == 0 ? ce::K() : i == 1 ? ce::N() : ce::Variable(n->v, "d")};
  }
  if (k == 2) {
    n->op = 'l';
    if (g.p(0.2)) {
      n->a = std::make_shared<T>();
      n->a->op = 'c';
      n->a->c = g.u(3000) + 1;
      return {n, ce::Log(n->a->c)};
    }
    auto [a, x] = gen(g, d - 1, pool);
    n->a = a;
    return {n, ce::Log(x)};
  }
  n->op = "+-*"[g.u(2)];
  // left or right operand may be a plain number (the mixed overloads)
  uint64_t form = g.u(4);
  if (form <= 1) {
    auto c = std::make_shared<T>();
    c->op = 'c';
    c->c = g.u(30);
    auto [o, x] = gen(g, d - 1, pool);
    if (form == 0) {
      n->a = c; n->b = o;
      return {n, n->op == '+' ? c->c + x : n->op == '-' ? c->c - x : c->c * x};
    }
    n->a = o; n->b = c;
    return {n, n->op == '+' ? x + c->c : n->op == '-' ? x - c->c : x * c->c};
  }
  auto [a, x] = gen(g, d - 1, pool);
  auto [b, y] = g.p(0.1) ? Node{a, x} : gen(g, d - 1, pool);
  n->a = a; n->b = b;
  return {n, n->op == '+' ? x + y : n->op == '-' ? x - y : x * y};
}
// Reader of the printed text with the usual precedence, left associative.
struct Parser {
  const std::string& s;
  const std::map<std::string, uint64_t>& m;
  size_t p = 0;
  void ws() { while (p < s.size() && s[p] == ' ') ++p; }
  char peek() { ws(); return p < s.size() ? s[p] : '\0'; }
  uint64_t prim() {
    char c = peek();
    if (c == '(') {
      ++p;
      uint64_t v = expr();
      REQUIRE(peek() == ')', "unbalanced parentheses in {}", s);
      ++p;
      return v;
    }
    if (isdigit(c)) {
      uint64_t v = 0;
      while (p < s.size() && isdigit(s[p])) v = v * 10 + static_cast<uint64_t>(s[p++] - '0');
      return v;
    }
    std::string id;
    while (p < s.size() && (isalnum(s[p]) || s[p] == '_')) id += s[p++];
    if (id == "log" && peek() == '(') {
      ++p;
      uint64_t v = expr();
      REQUIRE(peek() == ')', "unbalanced parentheses in {}", s);
      ++p;
      REQUIRE(v != 0, "log of zero in {}", s);
      return clog2(v);
    }
    REQUIRE(m.count(id), "unknown text at {} in {}", p, s);
    return m.at(id);
  }
  uint64_t term() {
    uint64_t v = prim();
    while (peek() == '*') { ++p; v *= prim(); }
    return v;
  }
  uint64_t expr() {
    uint64_t v = term();
    for (;;) {
      if (peek() == '+') { ++p; v += term(); }
      else if (peek() == '-') { ++p; v -= term(); }
      else return v;
    }
  }
};
}  // namespace
PBT(C06, eval_and_print, 200000, 3000000, "expression with at least one operator") {
  auto [t, x] = gen(g, static_cast<int>(g.in(0, 5)));
  g.say("{}", x->expr());
  g.nontrivial(t->op != 'c' && t->op != 'v');
  for (int k = 0; k < 3; ++k) {
    std::map<std::string, uint64_t> m;
    for (auto* v : kVars) m[v] = g.p(0.7) ? g.u(200) + 1 : g.u(1ull << 30);
    uint64_t e = ev(t, m);
    ce::Params ps(m.begin(), m.end());
    REQUIRE(x->eval(ps) == e, "evaluates to {} instead of {}", x->eval(ps), e);
    auto s = x->expr();
    Parser pr{s, m};
    uint64_t v = pr.expr();
    REQUIRE(pr.peek() == '\0', "trailing text in {}", s);
    REQUIRE(v == e, "prints as {}, which denotes {} and not {}", s, v, e);
  }
}
PBT(C06, missing_variable, 20000, 100000, "a variable is unbound") {
  auto [t, x] = gen(g, static_cast<int>(g.in(0, 4)));
  std::set<std::string> used;
  std::function<void(const P&)> walk = [&](const P& n) { if (!n) return; if (n->op == 'v') used.insert(n->v); walk(n->a); walk(n->b); };
  walk(t);
  g.say("{}", x->expr());
  if (used.empty()) throw Discard{};
  std::map<std::string, uint64_t> m;
  for (auto* v : kVars) m[v] = g.u(50) + 1;
  ev(t, m);
  auto it = used.begin();
  std::advance(it, static_cast<long>(g.u(used.size() - 1)));
  ce::Params ps(m.begin(), m.end());
  ps.erase(*it);
  g.nontrivial();
  bool threw = false;
  try { x->eval(ps); } catch (const std::exception&) { threw = true; }
  REQUIRE(threw, "unbound variable {} was not reported", *it);
}
