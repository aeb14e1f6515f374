// A party that lies: honest parties get the right values or stop with an error.
#include "prog.h"
#include "libspu/mpc/spdz2k/commitment.h"
using namespace prog;
namespace {
using Key = std::tuple<std::string, size_t, size_t, bool, std::string>;
Key key_of(const sim::Msg& m) { return {m.ctx, m.src, m.dst, m.coll, m.tag}; }
std::string show(const Key& k, size_t occ) { return fmt::format("{}->{} '{}'#{}{}", std::get<1>(k), std::get<2>(k), std::get<4>(k), occ, std::get<3>(k) ? "*" : ""); }
enum How { kFlip, kAdd, kRandom, kZero, kOnes, kReplay, kReflect, kShort, kEmpty, kLong, kDrop, kHows };
const char* kHowNames[] = {"flip", "add", "random", "zero", "ones", "replay", "reflect", "truncate", "empty", "extend", "drop"};
struct Alter {
  Key key;
  size_t occ = 0;
  How how = kFlip;
  size_t word = 8, at = 0;
  bool all = false;
  u128 delta = 1;
  std::string other;  // replacement
  std::string str() const { return fmt::format("{} {} {}@{}{}{}", show(key, occ), kHowNames[how], word, at, all ? "+" : "", how == kAdd ? fmt::format(" by {:x}", static_cast<uint64_t>(delta)) : ""); }
  void apply(sim::Msg& m) const {
    auto& d = m.data;
    switch (how) {
      case kFlip: if (!d.empty()) d[(at / 8) % d.size()] ^= static_cast<char>(1U << (at % 8)); break;
      case kAdd: {
        if (d.size() < word) break;
        size_t nw = d.size() / word;
        for (size_t i = 0; i < nw; ++i)
          if (all || i == at % nw) {
            u128 x = 0;
            memcpy(&x, d.data() + i * word, word);
            x += delta;
            memcpy(d.data() + i * word, &x, word);
          }
        break;
      }
      case kRandom: { uint64_t s = at; for (auto& c : d) { s = mix(s); c = static_cast<char>(s); } break; }
      case kZero: for (auto& c : d) c = 0; break;
      case kOnes: for (auto& c : d) c = -1; break;
      case kReplay: case kReflect: d = other; break;
      case kShort: d.resize(d.size() - (d.size() > word && at % 2 ? word : !d.empty())); break;
      case kEmpty: d.clear(); break;
      case kLong: d.append(at % 2 ? word : 1, static_cast<char>(at)); break;
      case kDrop: m.ctx += "/lost"; break;
      default: break;
    }
  }
};
struct Lie {
  size_t c = 0;
  std::vector<Alter> msgs;
  int flags = -1;  // what one-byte answers of the liar become
  int node = -1;   // whose share is altered, and how
  size_t at = 0, bit = 0;
  bool add = false;
  std::string str() const {
    std::string s = fmt::format("party {} lies:", c);
    for (auto& m : msgs) s += " " + m.str() + ";";
    if (flags >= 0) s += fmt::format(" flags {};", flags);
    if (node >= 0) s += fmt::format(" share of node {} byte {} bit {}{};", node, at, bit, add ? " add" : "");
    return s;
  }
};
using Seen = std::vector<std::vector<std::optional<std::vector<u128>>>>;
struct Result { hz::Run<int> run; Seen seen; std::vector<sim::Msg> log; };
using Body = std::function<void(SPUContext*, size_t me, const Lie*, std::vector<std::optional<std::vector<u128>>>&)>;
Result go(const Env& e, const Body& body, const Lie* lie) {
  auto w = std::make_shared<sim::World>(e.n);
  Result r;
  r.seen.resize(e.n);
  w->record = lie == nullptr;
  w->stall_timeout_s = lie == nullptr ? 40 : 0.25;
  std::map<Key, size_t> cnt;
  if (lie) {
    w->tamper = [&](sim::Msg& m) {
      if (m.epoch < 1) return;
      auto k = key_of(m);
      auto i = cnt[k]++;
      if (m.src == lie->c && m.data.size() == 1 && lie->flags >= 0) m.data[0] = static_cast<char>(lie->flags);
      for (auto& a : lie->msgs) if (a.key == k && a.occ == i) a.apply(m);
    };
  }
  r.run = hz::parties_raw<int>(w, e.seed, [&](size_t me, const hz::Lctx& l) {
    auto ctx = make(e, l);
    sim::epoch = 1;
    body(ctx.get(), me, lie, r.seen[me]);
    return 0;
  });
  for (auto& m : w->log) if (m.epoch >= 1) r.log.push_back(std::move(m));
  return r;
}
struct Slot { Key key; size_t occ, size; const sim::Msg* m; };
// Every altered message is picked by tag first, so that rare ones are not drowned.
Lie make_lie(Gen& g, const Env& e, size_t c, const std::vector<sim::Msg>& log, bool collective) {
  std::map<std::string, std::vector<Slot>> by;
  std::map<Key, std::vector<const sim::Msg*>> all;
  for (auto& m : log) {
    auto k = key_of(m);
    auto occ = all[k].size();
    all[k].push_back(&m);
    if (m.src == c) by[m.tag].push_back({k, occ, m.data.size(), &m});
  }
  if (by.empty()) throw Discard();
  Lie lie;
  lie.c = c;
  std::vector<std::string> tags;
  for (auto& [t, v] : by) tags.push_back(t);
  auto alter = [&](const Slot& s) {
    Alter a;
    a.key = s.key;
    a.occ = s.occ;
    a.how = g.p(0.55) ? kAdd : static_cast<How>(g.u(kHows - 1));
    int wmax = e.proto == kSpdz2k ? 2 * e.w : e.w;
    a.word = g.p(0.8) ? static_cast<size_t>(g.p(0.7) ? wmax : 2 * e.w) : g.of<size_t>({1, 4, 8, 16});
    a.at = g.u(s.size * 8 + 7);
    a.all = g.p(0.3);
    a.delta = g.p(0.6) ? static_cast<u128>(1) << g.u(8 * a.word - 1) : g.bits(static_cast<int>(8 * a.word));
    if (a.delta == 0) a.delta = 1;
    // consistent errors in a whole batch of triples go against the published
    // bounds of cut-and-choose for small batches (see its own check)
    if (s.m->tag == "and: a & b") a.all = false;
    return a;
  };
  if (collective) {
    // the liar tells everybody the same wrong thing, and believes it itself
    std::vector<std::pair<Slot, std::vector<const sim::Msg*>>> rounds;
    std::string t = g.of(tags);
    std::vector<Slot> cand;
    for (auto& s : by[t]) if (s.size >= 2) cand.push_back(s);
    if (cand.empty()) throw Discard();
    auto s = g.of(cand);
    auto a = alter(s);
    a.how = kAdd;
    lie.msgs.push_back(a);
    bool adopted = false;
    std::vector<Key> keys;
    for (auto& [k, v] : all) if (std::get<4>(k) == t && std::get<3>(k) == std::get<3>(s.key) && std::get<0>(k) == std::get<0>(s.key) && v.size() > s.occ && v[s.occ]->data.size() == s.size) keys.push_back(k);
    auto order = g.perm(keys.size());
    for (auto i : order) {
      auto b = a;
      b.key = keys[i];
      if (b.key == s.key) continue;
      if (std::get<1>(b.key) == c) lie.msgs.push_back(b);
      else if (std::get<2>(b.key) == c && !adopted) { lie.msgs.push_back(b); adopted = true; }
    }
    if (!adopted) throw Discard();
  } else {
    int n = g.p(0.7) ? 1 : 2 + static_cast<int>(g.u(1));
    for (int i = 0; i < n; ++i) {
      auto s = g.of(by[g.of(tags)]);
      auto a = alter(s);
      if (a.how == kReplay) {
        if (s.occ == 0) a.how = kAdd;
        else a.other = all[s.key][g.u(s.occ - 1)]->data;
      } else if (a.how == kReflect) {
        auto rk = s.key;
        std::swap(std::get<1>(rk), std::get<2>(rk));
        if (all.count(rk) && all[rk].size() > s.occ) a.other = all[rk][s.occ]->data;
        else a.how = kAdd;
      }
      lie.msgs.push_back(a);
    }
  }
  if (e.proto == kSwift) lie.flags = g.p(0.6) ? 0 : g.p(0.2) ? 1 : -1;
  return lie;
}
void corrupt(const Lie& lie, Value& v, const Env& e) {
  auto a = v.data().clone();
  if (a.numel() == 0) return;
  auto es = static_cast<size_t>(a.elsize());
  size_t word = e.proto == kSpdz2k ? 2 * static_cast<size_t>(e.w) : static_cast<size_t>(e.w);
  auto* p = static_cast<char*>(a.data()) + (lie.at % (static_cast<size_t>(a.numel()) * es)) / word * word;
  u128 x = 0;
  memcpy(&x, p, word);
  u128 b = static_cast<u128>(1) << (lie.bit % (8 * word));
  x = lie.add ? x + b : x ^ b;
  memcpy(p, &x, word);
  v = Value(a, v.dtype());
}
void judge(const Env& e, const Lie& lie, const Result& r, const std::function<std::string(size_t node, const std::vector<u128>&)>& wrong) {
  for (size_t p = 0; p < e.n; ++p) {
    if (p == lie.c) continue;
    for (size_t i = 0; i < r.seen[p].size(); ++i) {
      if (!r.seen[p][i]) continue;
      auto d = wrong(i, *r.seen[p][i]);
      REQUIRE(d.empty(), "{}: {} honest party {} accepted: {}", e.show(), lie.str(), p, d);
    }
  }
}
Env env(Gen& g) {
  auto e = genv(g, {kSpdz2k, kSpdz2k, kSwift, kSwift});
  e.chaos = 0;
  return e;
}
size_t liar(Gen& g, const Env& e) { return e.proto == kSpdz2k ? 1 + g.u(e.n - 2) : g.u(e.n - 1); }
Options opts(Gen& g, const Env& e) {
  Options o;
  o.weights = {{ADD, 4}, {SUB, 3}, {MUL, 8}, {NEG, 2}, {SQUARE, 2}, {MMUL, 6}, {TDOT, 3}, {LSHIFT, 2}, {AND, 5}, {XOR, 4}, {NOT, 2}, {RSHIFT, 2}, {MSB, 3}, {LESS, 2}, {EQUAL, 2}, {MUX, 3},
               {PREFER_A, 3}, {PREFER_B, 3}, {ADD_BB, 1}, {TO_S, 3}, {TO_V, 1}, {TRANSPOSE, 1}, {SLICE, 1}, {RESHAPE, 1}, {CONCAT, 1}};
  o.cap = 12;
  o.max_ops = 5;
  (void)g; (void)e;
  return o;
}
std::vector<u128> reveal(SPUContext* ctx, const Value& x, int how) {
  if (x.isPublic()) return vals(x.data());
  if (x.isPrivate()) return vals(hal::_v2p(ctx, x).data());
  if (how == 0) return vals(hal::_s2p(ctx, x).data());
  return vals(hal::_v2p(ctx, hal::_s2v(ctx, x, how - 1)).data());
}
// whatever the liar owns or is the first to see is its own input
struct Case {
  Env e;
  size_t c;
  std::unique_ptr<Program> p;
  std::vector<int> how;
  Body body;
  explicit Case(Gen& g) : e(env(g)), c(liar(g, e)) {
    p = std::make_unique<Program>(g, e, opts(g, e));
    bool secret = false;
    for (auto& x : p->n) {
      if (x.vis == 'V' && x.owner == c) throw Discard();
      if (x.op == INPUT && x.vis == 'S' && x.own_in && x.owner == c) throw Discard();
      secret = secret || (x.vis == 'S' && !x.v.empty());
    }
    if (!secret) throw Discard();
    for (size_t i = 0; i < p->n.size(); ++i) {
      int h = i + 1 == p->n.size() || g.p(0.4) ? 0 : -1;
      if (h == 0 && p->n[i].vis == 'S' && g.p(0.3)) { size_t r = g.u(e.n - 1); if (r != c) h = 1 + static_cast<int>(r); }
      how.push_back(h);
    }
    body = [this](SPUContext* ctx, size_t me, const Lie* lie, std::vector<std::optional<std::vector<u128>>>& seen) {
      seen.resize(p->n.size());
      auto v = p->exec(ctx, me, [&](size_t i, Value& x) { if (lie && lie->c == me && lie->node == static_cast<int>(i)) corrupt(*lie, x, e); });
      for (size_t i = 0; i < v.size(); ++i) if (how[i] >= 0) seen[i] = reveal(ctx, v[i], how[i]);
    };
  }
  std::string wrong(size_t i, const std::vector<u128>& v) const {
    auto d = diff(v, p->n[i].v);
    return d.empty() ? "" : fmt::format("node {} ({}): {}", i, p->show(p->n[i]), d);
  }
  Result honest() {
    auto r = go(e, body, nullptr);
    REQUIRE(r.run.ok(), "{}: honest run failed: {}", e.show(), r.run.first);
    Lie none;
    none.c = e.n;
    judge(e, none, r, [&](size_t i, const std::vector<u128>& v) { return wrong(i, v); });
    return r;
  }
  void attack(Gen& g, const Lie& lie) {
    g.say("{}", lie.str());
    auto r = go(e, body, &lie);
    bool stopped = false;
    for (size_t q = 0; q < e.n; ++q) stopped = stopped || !r.run.err[q].empty();
    g.tag(stopped ? "stopped" : "right");
    if (getenv("C21_VERBOSE")) fmt::print(stderr, "{} {}\n", lie.str(), r.run.first);
    judge(e, lie, r, [&](size_t i, const std::vector<u128>& v) { return wrong(i, v); });
  }
};
}  // namespace
PBT(C21, messages, 3000, 60000, "a message of the liar was altered") {
  Case c(g);
  auto h = c.honest();
  auto lie = make_lie(g, c.e, c.c, h.log, false);
  g.nontrivial(true);
  c.attack(g, lie);
}
PBT(C21, collective, 2500, 50000, "the same error in every copy of an opening, adopted by the liar") {
  Case c(g);
  auto h = c.honest();
  auto lie = make_lie(g, c.e, c.c, h.log, true);
  g.nontrivial(true);
  c.attack(g, lie);
}
PBT(C21, shares, 2000, 40000, "a share of the liar was altered") {
  Case c(g);
  std::vector<int> s;
  for (size_t i = 0; i < c.p->n.size(); ++i) if (c.p->n[i].vis == 'S' && !c.p->n[i].v.empty()) s.push_back(static_cast<int>(i));
  Lie lie;
  lie.c = c.c;
  lie.node = g.of(s);
  lie.at = g.u(4095);
  lie.bit = g.u(127);
  lie.add = g.p();
  if (c.e.proto == kSwift) lie.flags = g.p(0.6) ? 0 : g.p(0.2) ? 1 : -1;
  g.nontrivial(true);
  c.attack(g, lie);
}
