// Action traces against a model that replays the same nesting.
#include <regex>
#include <sstream>
#include "pbt.h"
#include "world.h"
#include "spdlog/sinks/ostream_sink.h"
#include "spdlog/spdlog.h"
#include "libspu/core/trace.h"
using namespace pbt;
using namespace spu;
namespace {
struct Node {
  int64_t flag, mask;
  std::string name;
  int args;
  int send;          // bytes sent before the children
  bool thrown;       // the action is left by an exception after its children
  bool with_link;
  std::vector<Node> kids;
  int send_after;    // bytes sent after the children
};
Node gnode(Gen& g, int depth, int& budget) {
  Node n;
  n.flag = static_cast<int64_t>(g.of({TR_MOD1, TR_MOD2, TR_MOD3, TR_MOD2 | TR_MOD3, TR_MOD5})) | g.of({TR_LOG, TR_LAR, TR_LAR, TR_REC, TR_LOGB, TR_LOGE | TR_REC});
  n.mask = g.p(0.5) ? ~0 : ~static_cast<int64_t>(g.of({TR_MOD1, TR_MOD2, TR_MOD3, TR_LOG, TR_REC, TR_MODALL, TR_LOGB}));
  n.name = fmt::format("f{}", g.u(5));
  n.args = static_cast<int>(g.u(2));
  n.send = g.p(0.5) ? static_cast<int>(1 + g.u(20)) : 0;
  n.send_after = g.p(0.3) ? static_cast<int>(1 + g.u(20)) : 0;
  n.thrown = g.p(0.15);
  n.with_link = g.p(0.8);
  auto k = depth > 0 ? g.u(3) : 0;
  for (uint64_t i = 0; i < k && budget > 0; ++i) { --budget; n.kids.push_back(gnode(g, depth - 1, budget)); }
  return n;
}
std::string dump(const Node& n) {
  std::string s = fmt::format("{}({:x},{:x}{}{}{}{})", n.name, n.flag, n.mask & 0xffff, n.send ? fmt::format(" s{}", n.send) : "", n.send_after ? fmt::format(" t{}", n.send_after) : "", n.thrown ? " throws" : "", n.with_link ? "" : " nolink");
  if (!n.kids.empty()) { s += "{"; for (auto& k : n.kids) s += dump(k) + " "; s += "}"; }
  return s;
}
struct Exp {  // expected record
  std::string name, detail;
  int64_t flag;
  size_t sent, actions;
};
struct Model {
  int64_t flag;
  int depth = 0;
  std::vector<Exp> recs;
  std::vector<std::string> lines;
  // returns bytes and number of messages sent
  std::pair<size_t, size_t> run(const Node& n) {
    auto eff = n.flag & flag;
    std::string mod = n.flag & TR_MPC ? "mpc" : n.flag & TR_HAL ? "hal" : "hlo";
    std::string detail = n.args == 0 ? "" : n.args == 1 ? "7" : "7, x";
    if (eff & TR_LOGB) { lines.push_back(fmt::format("[B] {}{}.{}({})", std::string(2 * std::min(depth, 29), ' '), mod, n.name, detail)); ++depth; }
    else detail = "";
    auto saved = flag;
    flag &= n.mask;
    size_t b = n.send, a = n.send > 0;
    for (auto& k : n.kids) { auto [x, y] = run(k); b += x; a += y; }
    if (n.send_after > 0) { b += n.send_after; ++a; }
    flag = saved;
    if (eff & TR_LOGB) --depth;
    if (eff & TR_LOGE) lines.push_back(fmt::format("[E] {}{}.{}({})", std::string(2 * std::min(depth, 29), ' '), mod, n.name, detail));
    if ((eff & TR_REC) && (eff & TR_MODALL)) recs.push_back({n.name, detail, n.flag, n.with_link ? b : 0, n.with_link ? a : 0});
    return {b, a};
  }
};
struct Oops {};
void real(const Node& n, const std::shared_ptr<Tracer>& t, const hz::Lctx& l) {
  auto body = [&] {
    if (n.send > 0) l->SendAsync(1, yacl::ByteContainerView(std::string(n.send, 'x')), "t");
    for (auto& k : n.kids) {
      if (k.thrown) { try { real(k, t, l); } catch (const Oops&) {} }
      else real(k, t, l);
    }
    if (n.send_after > 0) l->SendAsync(1, yacl::ByteContainerView(std::string(n.send_after, 'y')), "t");
    if (n.thrown) throw Oops{};
  };
  auto link = n.with_link ? l : nullptr;
  if (n.args == 0) { TraceAction a(t, link, n.flag, n.mask, n.name); body(); }
  else if (n.args == 1) { TraceAction a(t, link, n.flag, n.mask, n.name, 7); body(); }
  else { TraceAction a(t, link, n.flag, n.mask, n.name, 7, "x"); body(); }
}
std::shared_ptr<spdlog::logger> logger(std::ostringstream& o) {
  auto sink = std::make_shared<spdlog::sinks::ostream_sink_mt>(o);
  auto l = std::make_shared<spdlog::logger>("t", sink);
  l->set_pattern("%v");
  return l;
}
std::vector<std::string> lines(const std::string& s) {
  std::vector<std::string> r;
  std::istringstream in(s);
  for (std::string x; std::getline(in, x);) r.push_back(x);
  return r;
}
std::string show(const Exp& e) { return fmt::format("{}({}) flag {:x} {} bytes {} sends", e.name, e.detail, e.flag, e.sent, e.actions); }
Exp of(const ActionRecord& r) { return {r.name, r.detail, r.flag, r.send_bytes_end - r.send_bytes_start, r.send_actions_end - r.send_actions_start}; }
int64_t gflag(Gen& g) {
  if (g.p(0.3)) return TR_MODALL | TR_LAR;
  int64_t f = 0;
  for (int64_t b : {TR_MOD1, TR_MOD2, TR_MOD3, TR_MOD5, TR_LOGB, TR_LOGE, TR_REC}) if (g.p(0.7)) f |= b;
  return f;
}
}  // namespace
PBT(C39, nesting, 60000, 800000, "at least three actions, one of them nested") {
  int budget = 14;
  std::vector<Node> top;
  auto k = 1 + g.u(2);
  std::string txt;
  for (uint64_t i = 0; i < k; ++i) { top.push_back(gnode(g, 4, budget)); txt += " " + dump(top.back()); }
  auto flag = gflag(g);
  g.say("flag {:x}:{}", flag, txt);
  g.nontrivial(txt.find('{') != std::string::npos && 14 - budget + k >= 3);
  g.tag(flag & TR_REC ? "recording" : "not recording");
  std::ostringstream o;
  auto id = fmt::format("ctx{}", g.u(3));
  initTrace(id, flag, logger(o));
  auto t = getTracer(id, "");
  REQUIRE(t->getFlag() == flag && getGlobalTraceFlag(id) == flag && t == getTracer(id, ""), "tracer of the context");
  REQUIRE(t->getProfState()->getRecords().empty() && t->getDepth() == 0, "a fresh trace is not empty");
  auto w = std::make_shared<sim::World>(2);
  auto l = w->ctx(0);
  Model m{flag};
  for (auto& n : top) {
    m.run(n);
    try { real(n, t, l); REQUIRE(!n.thrown, "exception swallowed"); } catch (const Oops&) { REQUIRE(n.thrown, "unexpected exception"); }
    REQUIRE(t->getDepth() == 0, "depth is {} after the last action", t->getDepth());
    REQUIRE(t->getFlag() == flag, "flag is {:x} after the last action", t->getFlag());
  }
  const auto& rec = t->getProfState()->getRecords();
  REQUIRE(rec.size() == m.recs.size(), "{} records instead of {}", rec.size(), m.recs.size());
  std::set<int64_t> ids;
  for (size_t i = 0; i < rec.size(); ++i) {
    auto got = show(of(rec[i])), want = show(m.recs[i]);
    REQUIRE(got == want, "record {} is {} instead of {}", i, got, want);
    REQUIRE(ids.insert(rec[i].id).second, "two records share id {}", rec[i].id);
    REQUIRE(rec[i].start <= rec[i].end, "record {} ends before it starts", i);
  }
  auto got = lines(o.str());
  REQUIRE(got.size() == m.lines.size(), "{} log lines instead of {}", got.size(), m.lines.size());
  for (size_t i = 0; i < got.size(); ++i) REQUIRE(got[i] == m.lines[i], "log line {} is '{}' instead of '{}'", i, got[i], m.lines[i]);
  // setting the trace up again starts anew
  initTrace(id, 0, logger(o));
  REQUIRE(getTracer(id, "") != t && getTracer(id, "")->getFlag() == 0 && getTracer(id, "")->getProfState()->getRecords().empty(), "renewed trace");
}
PBT(C39, concurrent, 3000, 40000, "at least two threads with actions") {
  // forked contexts trace on threads of their own and share one record list
  auto flag = gflag(g) | TR_REC;
  size_t n = 1 + g.u(3);
  std::vector<std::vector<Node>> progs(n);
  std::string txt;
  for (auto& p : progs) {
    int budget = 6;
    auto k = 1 + g.u(2);
    for (uint64_t i = 0; i < k; ++i) { p.push_back(gnode(g, 3, budget)); txt += " " + dump(p.back()); }
    txt += " |";
  }
  g.say("flag {:x}:{}", flag, txt);
  g.nontrivial(n >= 2);
  std::ostringstream o;
  initTrace("parent", flag, logger(o));
  for (size_t i = 0; i < n; ++i) initTrace(fmt::format("kid{}", i), 0);
  auto parent = getTracer("parent", "");
  std::multiset<std::string> want, wlines;
  std::vector<std::thread> ts;
  std::vector<std::string> err(n);
  for (size_t i = 0; i < n; ++i) {
    Model m{flag};
    for (auto& x : progs[i]) m.run(x);
    for (auto& r : m.recs) want.insert(show(r));
    for (auto& x : m.lines) wlines.insert(x);
  }
  for (size_t i = 0; i < n; ++i)
    ts.emplace_back([&, i] {
      auto w = std::make_shared<sim::World>(2);
      auto l = w->ctx(0);
      auto t = getTracer(fmt::format("kid{}", i), "parent");
      for (auto& x : progs[i]) { try { real(x, t, l); } catch (const Oops&) {} }
      if (t->getDepth() != 0 || t->getFlag() != flag) err[i] = fmt::format("depth {} flag {:x}", t->getDepth(), t->getFlag());
      if (t->getProfState() != parent->getProfState()) err[i] = "records are not shared";
    });
  for (auto& t : ts) t.join();
  for (auto& e : err) REQUIRE(e.empty(), "forked tracer: {}", e);
  std::multiset<std::string> got, glines;
  std::set<int64_t> ids;
  for (auto& r : parent->getProfState()->getRecords()) { got.insert(show(of(r))); ids.insert(r.id); }
  REQUIRE(got == want, "recorded {} actions, expected {}", fmt::join(got, "; "), fmt::join(want, "; "));
  REQUIRE(ids.size() == got.size(), "two records share an id");
  for (auto& x : lines(o.str())) glines.insert(x);
  REQUIRE(glines == wlines, "log lines differ: {} instead of {}", fmt::join(glines, "|"), fmt::join(wlines, "|"));
  parent->getProfState()->clearRecords();
  REQUIRE(parent->getProfState()->getRecords().empty(), "records survive clearing");
}
