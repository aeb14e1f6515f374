#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <spdlog/spdlog.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <atomic>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <sstream>
#include <unordered_set>
#include "pbt.h"

namespace pbt {
std::string str(u128 v) {
  if (v == 0) return "0";
  std::string s;
  while (v) { s.insert(s.begin(), static_cast<char>('0' + static_cast<int>(v % 10))); v /= 10; }
  return s;
}
std::string strs(i128 v) { return v < 0 ? "-" + str(-static_cast<u128>(v)) : str(static_cast<u128>(v)); }
std::vector<Sub>& registry() {
  static std::vector<Sub> r;
  return r;
}
}  // namespace pbt
using namespace pbt;

namespace {
using Clock = std::chrono::steady_clock;
double now() { return std::chrono::duration<double>(Clock::now().time_since_epoch()).count(); }

uint64_t hash_str(const std::string& s) {
  uint64_t h = 1469598103934665603ULL;
  for (unsigned char c : s) h = (h ^ c) * 1099511628211ULL;
  return h;
}
uint64_t case_seed(uint64_t seed, const Sub& s, uint64_t idx) {
  return mix(mix(mix(seed) ^ hash_str(s.prop + "/" + s.name)) + idx);
}
std::string jesc(const std::string& s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += static_cast<char>(c); }
    else if (c == '\n') o += "\\n";
    else if (c < 32 || c >= 127) o += fmt::format("\\u{:04x}", c);
    else o += static_cast<char>(c);
  }
  return o;
}

enum Status { PASS = 0, FAIL = 1, DISCARD = 2 };
struct Outcome {
  Status st = PASS;
  std::string msg, key;
};
Outcome run_case(const Sub& s, Gen& g) {
  Outcome o;
  try {
    s.fn(g);
  } catch (const Discard&) {
    o.st = DISCARD;
  } catch (const Violation& v) {
    o.st = FAIL;
    o.msg = v.what();
    o.key = v.key;
  } catch (const std::exception& e) {
    o.st = FAIL;
    o.msg = std::string("unexpected exception: ") + e.what();
  }
  return o;
}

// --- serialisation over pipes --------------------------------------------
void put(std::string& b, uint64_t v) { b.append(reinterpret_cast<char*>(&v), 8); }
void put(std::string& b, const std::string& s) { put(b, s.size()); b += s; }
struct Rd {
  const std::string& b;
  size_t p = 0;
  bool ok = true;
  uint64_t n() {
    uint64_t v = 0;
    if (p + 8 > b.size()) { ok = false; return 0; }
    memcpy(&v, b.data() + p, 8);
    p += 8;
    return v;
  }
  std::string s() {
    uint64_t l = n();
    if (!ok || p + l > b.size()) { ok = false; return ""; }
    auto r = b.substr(p, l);
    p += l;
    return r;
  }
};
void write_all(int fd, const std::string& s) {
  size_t o = 0;
  while (o < s.size()) {
    ssize_t k = write(fd, s.data() + o, s.size() - o);
    if (k <= 0) _exit(99);
    o += static_cast<size_t>(k);
  }
}

struct Shm {
  std::atomic<uint64_t> sub, idx;
  std::atomic<double> start;  // 0: idle
  std::atomic<uint64_t> stop;
};
struct SubStat {
  uint64_t evals = 0, discards = 0, nontriv = 0;
  std::unordered_set<uint64_t> hashes;
  std::map<std::string, uint64_t> tags;
  std::vector<std::string> samples;
  double secs = 0;
};
struct Failure {
  size_t sub = 0;
  uint64_t idx = 0;
  std::string msg, key, desc;
  std::vector<uint64_t> choices;
  bool reproducible = true;
};
std::set<std::string> g_known;  // "sub|key"

void quiet_child() {
  struct rlimit rl{0, 0};
  setrlimit(RLIMIT_CORE, &rl);
  spdlog::set_level(spdlog::level::off);
  int n = open("/dev/null", O_WRONLY);
  if (!getenv("PBT_VERBOSE")) { dup2(n, 1); dup2(n, 2); }
}

// One case in a child of its own: used for shrinking and replay.
struct One {
  Outcome o;
  std::vector<uint64_t> choices;
  std::string desc;
  bool died = false;
};
One run_isolated(const Sub& s, const std::vector<uint64_t>* ch, uint64_t seed, double timeout) {
  int fd[2];
  if (pipe(fd)) abort();
  static auto* sink = static_cast<uint64_t*>(mmap(nullptr, Gen::kSink * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  static auto* dsink = static_cast<char*>(mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  sink[0] = 0;
  memset(dsink, 0, 4096);
  pid_t pid = fork();
  if (pid == 0) {
    setpgid(0, 0);
    close(fd[0]);
    quiet_child();
    Gen::sink = sink;
    Gen::dsink = dsink;
    Gen g = ch ? Gen(*ch) : Gen(seed);
    Outcome o = run_case(s, g);
    std::string b;
    put(b, o.st);
    put(b, o.msg);
    put(b, o.key);
    put(b, g.desc());
    put(b, g.choices().size());
    for (auto v : g.choices()) put(b, v);
    write_all(fd[1], b);
    _exit(0);
  }
  close(fd[1]);
  std::string b;
  double t0 = now();
  bool hang = false;
  char buf[65536];
  for (;;) {
    struct pollfd p{fd[0], POLLIN, 0};
    int r = poll(&p, 1, 200);
    if (r > 0) {
      ssize_t k = read(fd[0], buf, sizeof buf);
      if (k <= 0) break;
      b.append(buf, static_cast<size_t>(k));
    }
    if (now() - t0 > timeout) { hang = true; break; }
  }
  close(fd[0]);
  if (hang) kill(-pid, SIGKILL), kill(pid, SIGKILL);
  int wst = 0;
  waitpid(pid, &wst, 0);
  One r;
  Rd rd{b};
  auto st = rd.n();
  r.o.msg = rd.s();
  r.o.key = rd.s();
  r.desc = rd.s();
  auto n = rd.n();
  for (uint64_t i = 0; i < n && rd.ok; ++i) r.choices.push_back(rd.n());
  if (!rd.ok || b.empty()) {
    r.o.st = FAIL;
    r.died = true;
    r.o.key = "";
    r.o.msg = hang ? fmt::format("no result within {:.0f} s (hang)", timeout)
                   : WIFSIGNALED(wst) ? fmt::format("crashed with signal {}", WTERMSIG(wst))
                                      : fmt::format("process ended with status {}", WEXITSTATUS(wst));
    for (uint64_t i = 1; i <= sink[0]; ++i) r.choices.push_back(sink[i]);
    r.desc = dsink;
  } else {
    r.o.st = static_cast<Status>(st);
  }
  return r;
}

void shrink(const Sub& s, Failure& f, double budget) {
  double t0 = now();
  int runs = 0;
  double tmo = std::min(s.timeout_s, 60.0);
  auto fails = [&](const std::vector<uint64_t>& c) {
    if (now() - t0 > budget || runs > 3000) return false;
    ++runs;
    auto r = run_isolated(s, &c, 0, tmo);
    if (r.o.st != FAIL || g_known.count(s.name + "|" + r.o.key)) return false;
    auto nc = r.choices;
    bool better = nc.size() < f.choices.size() || (nc.size() == f.choices.size() && nc < f.choices);
    if (!better) return false;
    f.choices = nc;
    f.msg = r.o.msg;
    f.key = r.o.key;
    if (!r.desc.empty()) f.desc = r.desc;
    return true;
  };
  bool progress = true;
  while (progress && now() - t0 < budget && runs < 3000) {
    progress = false;
    // delete blocks
    for (size_t len = std::max<size_t>(1, f.choices.size() / 2); len >= 1; len /= 2) {
      for (size_t at = 0; at + len <= f.choices.size();) {
        auto c = f.choices;
        c.erase(c.begin() + static_cast<long>(at), c.begin() + static_cast<long>(at + len));
        if (fails(c)) progress = true;
        else at += len;
        if (now() - t0 > budget) break;
      }
      if (len == 1) break;
    }
    // zero blocks
    for (size_t len = std::max<size_t>(1, f.choices.size() / 2); len >= 1; len /= 2) {
      for (size_t at = 0; at + len <= f.choices.size(); at += len) {
        auto c = f.choices;
        bool any = false;
        for (size_t i = at; i < at + len; ++i) { any |= c[i] != 0; c[i] = 0; }
        if (any && fails(c)) progress = true;
        if (now() - t0 > budget) break;
      }
      if (len == 1) break;
    }
    // lower values
    for (size_t i = 0; i < f.choices.size() && now() - t0 < budget; ++i) {
      uint64_t lo = 0, hi = f.choices[i];
      while (lo < hi && now() - t0 < budget) {
        uint64_t mid = lo + (hi - lo) / 2;
        auto c = f.choices;
        if (i >= c.size()) break;
        c[i] = mid;
        if (fails(c)) { progress = true; if (i >= f.choices.size()) break; hi = f.choices[i]; }
        else lo = mid + 1;
      }
    }
  }
}

std::string write_replay(const std::string& dir, const std::string& prop, const Sub& s, const Failure& f, uint64_t seed, const std::string& tier) {
  mkdir(dir.c_str(), 0777);
  auto path = fmt::format("{}/{}_{}_{}.json", dir, prop, s.name, f.idx);
  std::ofstream o(path);
  o << "{\n \"property\": \"" << prop << "\",\n \"check\": \"" << s.name << "\",\n \"seed\": " << seed << ",\n \"tier\": \"" << tier
    << "\",\n \"index\": " << f.idx << ",\n \"message\": \"" << jesc(f.msg) << "\",\n \"key\": \"" << jesc(f.key)
    << "\",\n \"case\": \"" << jesc(f.desc) << "\",\n \"reproducible\": " << (f.reproducible ? "true" : "false") << ",\n \"choices\": [";
  for (size_t i = 0; i < f.choices.size(); ++i) o << (i ? "," : "") << f.choices[i];
  o << "]\n}\n";
  return path;
}
std::string slurp(const std::string& p) {
  std::ifstream i(p);
  std::stringstream s;
  s << i.rdbuf();
  return s.str();
}
std::string jfield(const std::string& t, const std::string& k) {
  auto p = t.find("\"" + k + "\": \"");
  if (p == std::string::npos) return "";
  p += k.size() + 5;
  auto e = t.find('"', p);
  return t.substr(p, e - p);
}
}  // namespace

int main(int argc, char** argv) {
  std::string prop, tier = getenv("VERIF_TIER") ? getenv("VERIF_TIER") : "quick", only, evidence, replay, replay_dir = "/tmp", known_file;
  uint64_t seed = getenv("VERIF_SEED") ? strtoull(getenv("VERIF_SEED"), nullptr, 10) : 1;
  double cap = 0, scale = 1;
  int workers = 8;
  std::vector<std::string> assumptions;
  bool list = false;
  int64_t fixed_idx = -1;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto val = [&] { return std::string(argv[++i]); };
    if (a == "--prop") prop = val();
    else if (a == "--tier") tier = val();
    else if (a == "--seed") seed = strtoull(argv[++i], nullptr, 10);
    else if (a == "--only") only = val();
    else if (a == "--evidence") evidence = val();
    else if (a == "--replay") replay = val();
    else if (a == "--replay-dir") replay_dir = val();
    else if (a == "--known") known_file = val();
    else if (a == "--cap") cap = std::stod(val());
    else if (a == "--scale") scale = std::stod(val());
    else if (a == "--workers") workers = std::stoi(val());
    else if (a == "--assume") assumptions.push_back(val());
    else if (a == "--idx") fixed_idx = std::stoll(val());
    else if (a == "--list") list = true;
  }
  bool thorough = tier == "thorough";
  if (cap == 0) cap = thorough ? 5400 : 420;
  signal(SIGPIPE, SIG_IGN);

  if (list) {
    for (auto& s : registry()) std::cout << s.prop << " " << s.name << " " << s.quick << " " << s.thorough << " :: " << s.rule << "\n";
    return 0;
  }
  if (!replay.empty()) {
    auto t = slurp(replay);
    auto p = jfield(t, "property"), c = jfield(t, "check");
    std::vector<uint64_t> ch;
    auto at = t.find("\"choices\": [");
    if (at == std::string::npos) { std::cerr << "bad replay file\n"; return 2; }
    at += 12;
    auto body = t.substr(at, t.find(']', at) - at);
    std::stringstream ss(body);
    std::string tok;
    while (std::getline(ss, tok, ',')) if (!tok.empty()) ch.push_back(strtoull(tok.c_str(), nullptr, 10));
    for (auto& s : registry()) {
      if (s.prop != p || s.name != c) continue;
      auto r = run_isolated(s, &ch, 0, s.timeout_s);
      std::cout << "case: " << r.desc << "\n" << (r.o.st == FAIL ? "FAIL: " + r.o.msg : "pass") << "\n";
      if (r.o.st == FAIL) { std::cout << "VIOLATION property=" << p << " replay=" << replay << "\n"; return 1; }
      return 0;
    }
    std::cerr << "no such check\n";
    return 2;
  }
  // known findings: lines "known: property=<id> check=<name> key=<key> :: text"
  std::vector<std::pair<std::string, std::string>> known_lines;
  if (!known_file.empty()) {
    std::stringstream ss(slurp(known_file));
    std::string l;
    while (std::getline(ss, l)) {
      if (l.rfind("known: property=" + prop + " ", 0) != 0) continue;
      auto c = l.find("check="), k = l.find("key="), sep = l.find(" :: ");
      if (c == std::string::npos || k == std::string::npos || sep == std::string::npos) continue;
      auto cn = l.substr(c + 6, l.find(' ', c) - c - 6);
      auto key = l.substr(k + 4, sep - k - 4);
      g_known.insert(cn + "|" + key);
      known_lines.emplace_back(cn + "|" + key, l.substr(sep + 4));
    }
  }
  double t0 = now();
  std::vector<Sub> subs;
  for (auto& s : registry())
    if (s.prop == prop && (only.empty() || s.name == only)) subs.push_back(s);
  if (subs.empty()) { std::cerr << "no checks for " << prop << "\n"; return 2; }
  auto cases = [&](const Sub& s) { return std::max<uint64_t>(1, static_cast<uint64_t>(static_cast<double>(thorough ? s.thorough : s.quick) * scale)); };
  if (fixed_idx >= 0) {
    for (auto& s : subs) {
      setenv("PBT_VERBOSE", "1", 1);
      auto r = run_isolated(s, nullptr, case_seed(seed, s, static_cast<uint64_t>(fixed_idx)), s.timeout_s);
      std::cout << s.name << ": " << r.desc << " => " << (r.o.st == FAIL ? "FAIL " + r.o.msg : r.o.st == PASS ? "pass" : "discard") << "\n";
    }
    return 0;
  }

  auto* shm = static_cast<Shm*>(mmap(nullptr, sizeof(Shm) * static_cast<size_t>(workers), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  std::vector<pid_t> pids(static_cast<size_t>(workers));
  std::vector<int> fds(static_cast<size_t>(workers));
  for (int w = 0; w < workers; ++w) {
    int fd[2];
    if (pipe(fd)) return 2;
    fcntl(fd[0], F_SETFL, O_NONBLOCK);
    pid_t pid = fork();
    if (pid == 0) {
      setpgid(0, 0);
      for (int k = 0; k < w; ++k) close(fds[static_cast<size_t>(k)]);
      close(fd[0]);
      quiet_child();
      std::vector<SubStat> st(subs.size());
      std::string out;
      bool failed = false;
      uint64_t maxn = 0;
      for (auto& s : subs) maxn = std::max(maxn, cases(s));
      // Interleave in proportion: after the fraction r of the rounds, every
      // sub-check has done the fraction r of its cases.
      uint64_t rounds = (maxn + static_cast<uint64_t>(workers) - 1) / static_cast<uint64_t>(workers);
      std::vector<uint64_t> nexti(subs.size(), static_cast<uint64_t>(w));
      for (uint64_t r = 1; r <= rounds && !failed; ++r) {
        for (size_t si = 0; si < subs.size() && !failed; ++si) {
          auto& s = subs[si];
          uint64_t upto = (cases(s) * r + rounds - 1) / rounds;
          for (; nexti[si] < upto && !failed; nexti[si] += static_cast<uint64_t>(workers)) {
            if (shm[w].stop || now() - t0 > cap) goto done;
            uint64_t idx = nexti[si];
            shm[w].sub = si;
            shm[w].idx = idx;
            double b = now();
            shm[w].start = b;
            Gen g(case_seed(seed, s, idx));
            auto o = run_case(s, g);
            shm[w].start = 0;
            auto& t = st[si];
            t.secs += now() - b;
            if (o.st == DISCARD) { ++t.discards; continue; }
            ++t.evals;
            for (auto& x : g.tags()) ++t.tags[x];
            if (g.is_nontrivial()) {
              ++t.nontriv;
              uint64_t h = 7;
              for (auto v : g.choices()) h = mix(h ^ v);
              t.hashes.insert(h);
              if (t.samples.size() < 2 && !g.desc().empty()) t.samples.push_back(g.desc().substr(0, 600));
            }
            if (o.st == FAIL) {
              bool known = g_known.count(s.name + "|" + o.key) != 0;
              put(out, std::string(known ? "K" : "F"));
              put(out, si);
              put(out, idx);
              put(out, o.msg);
              put(out, o.key);
              put(out, g.desc());
              put(out, g.choices().size());
              for (auto v : g.choices()) put(out, v);
              if (known && out.size() > (1u << 22)) out.clear();
              if (!known) failed = true;
            }
          }
        }
      }
    done:
      for (size_t si = 0; si < subs.size(); ++si) {
        auto& t = st[si];
        put(out, std::string("S"));
        put(out, si);
        put(out, t.evals);
        put(out, t.discards);
        put(out, t.nontriv);
        put(out, static_cast<uint64_t>(t.secs * 1e6));
        put(out, t.hashes.size());
        for (auto h : t.hashes) put(out, h);
        put(out, t.tags.size());
        for (auto& [k, v] : t.tags) { put(out, k); put(out, v); }
        put(out, t.samples.size());
        for (auto& x : t.samples) put(out, x);
      }
      put(out, std::string("E"));
      write_all(fd[1], out);
      _exit(0);
    }
    close(fd[1]);
    pids[static_cast<size_t>(w)] = pid;
    fds[static_cast<size_t>(w)] = fd[0];
  }

  std::vector<std::string> bufs(static_cast<size_t>(workers));
  std::vector<bool> open_(static_cast<size_t>(workers), true);
  std::vector<Failure> fails;
  std::set<std::string> hit_known;
  int left = workers;
  auto crash_of = [&](int w, const std::string& why) {
    Failure f;
    f.sub = shm[w].sub;
    f.idx = shm[w].idx;
    f.msg = why;
    fails.push_back(f);
    for (int k = 0; k < workers; ++k) shm[k].stop = 1;
  };
  while (left > 0) {
    std::vector<struct pollfd> ps;
    std::vector<int> who;
    for (int w = 0; w < workers; ++w)
      if (open_[static_cast<size_t>(w)]) { ps.push_back({fds[static_cast<size_t>(w)], POLLIN, 0}); who.push_back(w); }
    poll(ps.data(), ps.size(), 300);
    for (size_t i = 0; i < ps.size(); ++i) {
      auto w = static_cast<size_t>(who[i]);
      if (ps[i].revents) {
        static char buf[1 << 16];
        for (;;) {
          ssize_t k = read(fds[w], buf, sizeof buf);
          if (k > 0) { bufs[w].append(buf, static_cast<size_t>(k)); continue; }
          if (k == 0) {
            open_[w] = false;
            --left;
            close(fds[w]);
            int wst = 0;
            waitpid(pids[w], &wst, 0);
            bool complete = bufs[w].size() >= 9 && bufs[w].back() == 'E';
            if (!complete && !(WIFSIGNALED(wst) && WTERMSIG(wst) == SIGKILL && shm[w].stop == 2))
              crash_of(static_cast<int>(w), WIFSIGNALED(wst) ? fmt::format("crashed with signal {}", WTERMSIG(wst)) : fmt::format("process ended with status {}", WEXITSTATUS(wst)));
            // a finished worker that failed stops the others
            Rd rd{bufs[w]};
            if (complete && rd.s() == "F") for (int k2 = 0; k2 < workers; ++k2) if (!shm[k2].stop) shm[k2].stop = 1;
          }
          break;
        }
      }
    }
    for (int w = 0; w < workers; ++w) {
      if (!open_[static_cast<size_t>(w)]) continue;
      double b = shm[w].start;
      if (b > 0 && now() - b > subs[shm[w].sub].timeout_s && shm[w].stop != 2) {
        crash_of(w, fmt::format("no result within {:.0f} s (hang)", subs[shm[w].sub].timeout_s));
        shm[w].stop = 2;
        kill(-pids[static_cast<size_t>(w)], SIGKILL);
        kill(pids[static_cast<size_t>(w)], SIGKILL);
      }
    }
  }
  std::vector<SubStat> st(subs.size());
  for (auto& b : bufs) {
    Rd rd{b};
    while (rd.ok && rd.p < b.size()) {
      auto k = rd.s();
      if (k == "F" || k == "K") {
        Failure f;
        f.sub = rd.n();
        f.idx = rd.n();
        f.msg = rd.s();
        f.key = rd.s();
        f.desc = rd.s();
        auto n = rd.n();
        for (uint64_t i = 0; i < n && rd.ok; ++i) f.choices.push_back(rd.n());
        if (k == "F") fails.push_back(f);
        else hit_known.insert(subs[f.sub].name + "|" + f.key);
      } else if (k == "S") {
        auto& t = st[rd.n()];
        t.evals += rd.n();
        t.discards += rd.n();
        t.nontriv += rd.n();
        t.secs += static_cast<double>(rd.n()) / 1e6;
        auto n = rd.n();
        for (uint64_t i = 0; i < n && rd.ok; ++i) t.hashes.insert(rd.n());
        n = rd.n();
        for (uint64_t i = 0; i < n && rd.ok; ++i) { auto x = rd.s(); t.tags[x] += rd.n(); }
        n = rd.n();
        for (uint64_t i = 0; i < n && rd.ok; ++i) { auto x = rd.s(); if (t.samples.size() < 2) t.samples.push_back(x); }
      } else {
        break;
      }
    }
  }

  uint64_t evals = 0, nontriv = 0, disc = 0;
  for (auto& t : st) { evals += t.evals; nontriv += t.hashes.size(); disc += t.discards; }
  std::string vline, rpath;
  if (!fails.empty()) {
    std::sort(fails.begin(), fails.end(), [](auto& a, auto& b) { return std::make_pair(a.sub, a.idx) < std::make_pair(b.sub, b.idx); });
    auto f = fails[0];
    const auto& s = subs[f.sub];
    auto r = f.choices.empty() ? run_isolated(s, nullptr, case_seed(seed, s, f.idx), s.timeout_s) : run_isolated(s, &f.choices, 0, s.timeout_s);
    f.reproducible = r.o.st == FAIL;
    if (r.o.st == FAIL) {
      f.choices = r.choices;
      f.msg = r.o.msg;
      f.key = r.o.key;
      if (!r.desc.empty()) f.desc = r.desc;
      shrink(s, f, 60);
    }
    rpath = write_replay(replay_dir, prop, s, f, seed, tier);
    std::cout << "check " << s.name << " case " << f.idx << "\n  case: " << f.desc << "\n  " << f.msg << "\n";
    if (!f.key.empty()) std::cout << "  key: " << f.key << "\n";
    vline = "VIOLATION property=" + prop + " replay=" + rpath;
  }
  if (vline.empty()) {
    for (auto& [k, text] : known_lines) std::cout << "KNOWN-FINDING: property=" << prop << " " << text << (hit_known.count(k) ? " (hit in this run)" : "") << "\n";
  }
  if (!evidence.empty()) {
    std::ofstream o(evidence);
    o << "{\n \"property\": \"" << prop << "\",\n \"tier\": \"" << (thorough ? "thorough" : "quick") << "\",\n \"seed\": " << seed
      << ",\n \"level\": \"exploration\",\n \"coverage\": {\n  \"evaluations\": " << evals << ",\n  \"distinct_nontrivial\": " << nontriv
      << ",\n  \"discarded\": " << disc << ",\n  \"rule\": \"cases are drawn from seeded generators, one choice sequence per case; distinct = different choice sequences; per check:";
    for (auto& s : subs) o << " [" << s.name << "] " << jesc(s.rule);
    o << "\",\n  \"checks\": {";
    for (size_t i = 0; i < subs.size(); ++i) {
      auto& t = st[i];
      o << (i ? "," : "") << "\n   \"" << subs[i].name << "\": {\"evaluations\": " << t.evals << ", \"nontrivial\": " << t.nontriv << ", \"distinct_nontrivial\": " << t.hashes.size()
        << ", \"discarded\": " << t.discards << ", \"planned\": " << cases(subs[i]) << ", \"cpu_s\": " << fmt::format("{:.2f}", t.secs) << ", \"classes\": {";
      size_t c = 0;
      for (auto& [k, v] : t.tags) { if (c < 200) o << (c ? ", " : "") << "\"" << jesc(k) << "\": " << v; ++c; }
      o << "}}";
    }
    o << "\n  },\n  \"samples\": [";
    bool first = true;
    for (size_t i = 0; i < subs.size(); ++i)
      for (auto& x : st[i].samples) { o << (first ? "" : ",") << "\n   \"" << subs[i].name << ": " << jesc(x) << "\""; first = false; }
    o << "\n  ]\n },\n \"assumptions\": [";
    for (size_t i = 0; i < assumptions.size(); ++i) o << (i ? ", " : "") << "\"" << jesc(assumptions[i]) << "\"";
    o << "],\n \"wall_s\": " << fmt::format("{:.2f}", now() - t0) << ",\n \"violations\": " << (vline.empty() ? 0 : 1) << "\n}\n";
  }
  for (size_t i = 0; i < subs.size(); ++i)
    std::cout << fmt::format("{} {}: {} of {} cases, {} non-trivial, {} discarded, {:.1f} cpu-s\n", prop, subs[i].name, st[i].evals, cases(subs[i]), st[i].nontriv, st[i].discards, st[i].secs);
  std::cout << fmt::format("{}: {} cases, {} distinct non-trivial, {:.1f} s\n", prop, evals, nontriv, now() - t0);
  if (!vline.empty()) { std::cout << vline << std::endl; return 1; }
  return 0;
}
