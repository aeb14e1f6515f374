#include <filesystem>
#include "pbt.h"
#include "libspu/device/utils/debug_dump_constant.h"
using namespace pbt;
using namespace spu::device;
namespace fs = std::filesystem;
namespace {
std::string name(Gen& g) {
  static const std::vector<std::string> w = {"x", "y", "x_1", "x_", "_1", "1", "rank_0", "config", "code", "a.meta", "a", "x_1_2", "0", "v-1", "\xe5\x8f\x98", "x.chunk", "x_1.chunk"};
  if (g.p(0.6)) return g.of(w);
  std::string s;
  auto n = g.in(1, 12);
  for (int64_t i = 0; i < n; ++i) s += "abx_.-019 "[g.u(9)];
  if (s == "." || s == "..") s += "a";
  return s;
}
std::string base(Gen& g) {
  switch (g.u(5)) {
    case 0: return "/tmp/dump";
    case 1: return "dump";
    case 2: return "/tmp/dump/rank_1";
    case 3: return "/";
    case 4: return "a/" + name(g);
    default: return "/d/" + name(g) + "/" + name(g);
  }
}
int64_t id(Gen& g) { return g.p(0.8) ? g.in(0, 12) : g.p() ? g.in(0, INT64_MAX) : g.of({INT64_MAX, int64_t{1} << 32, int64_t{4294967295}, int64_t{99999}}); }
struct File { int kind; fs::path b; int64_t rank; std::string var; int64_t chunk; };
File gen(Gen& g, const fs::path& b) {
  File f{static_cast<int>(g.u(3)), b, 0, "", 0};
  if (f.kind >= 2) { f.rank = id(g); f.var = name(g); }
  if (f.kind == 3) f.chunk = id(g);
  return f;
}
fs::path path(const File& f) {
  switch (f.kind) {
    case 0: return getConfigFilePath(f.b);
    case 1: return getCodeFilePath(f.b);
    case 2: return getMetaFilePath(f.b, f.rank, f.var);
    default: return getValueChunkFilePath(f.b, f.rank, f.var, f.chunk);
  }
}
std::string show(const File& f) { return fmt::format("(kind {} in {} rank {} var '{}' chunk {})", f.kind, f.b.string(), f.rank, f.var, f.chunk); }
bool eq(const File& a, const File& b) { return a.kind == b.kind && a.b.lexically_normal() == b.b.lexically_normal() && a.rank == b.rank && a.var == b.var && a.chunk == b.chunk; }
}  // namespace
PBT(C35, distinct_names, 300000, 4000000, "two different files of one dump folder") {
  fs::path b = base(g);
  auto f = gen(g, b), h = f;
  if (g.p(0.7)) {  // change one or two components only
    for (int k = 0; k < 1 + static_cast<int>(g.u(1)); ++k) switch (g.u(3)) {
      case 0: h.kind = static_cast<int>(g.u(3)); break;
      case 1: h.rank = id(g); break;
      case 2: h.var = name(g); break;
      default: h.chunk = id(g);
    }
    if (h.kind < 2) { h.rank = 0; h.var = ""; }
    else if (h.var.empty()) h.var = name(g);
    if (h.kind != 3) h.chunk = 0;
  } else h = gen(g, b);
  g.say("{} and {}", show(f), show(h));
  auto p = path(f), q = path(h);
  if (eq(f, h)) { REQUIRE(p == q, "one file has two names: {} {}", p.string(), q.string()); return; }
  g.nontrivial();
  REQUIRE(p != q && p.lexically_normal() != q.lexically_normal(), "both are stored at {}", p.string());
  // a file of a dump never is a folder of it
  for (auto r : {f.rank, h.rank}) {
    auto d = getRankFolder(b, r);
    REQUIRE(d != p && d != q, "{} is a rank's folder and a file", d.string());
  }
}
PBT(C35, folders, 200000, 2000000, "rank-specific file") {
  fs::path b = base(g);
  auto f = gen(g, b);
  g.say("{}", show(f));
  auto p = path(f);
  g.nontrivial(f.kind >= 2);
  // below the dump folder, in the folder of its rank
  if (f.kind < 2) REQUIRE(p.parent_path() == b, "{} is not directly in {}", p.string(), b.string());
  else {
    auto d = getRankFolder(b, f.rank);
    REQUIRE(p.parent_path() == d, "{} is not in {}", p.string(), d.string());
    REQUIRE(d.parent_path() == b, "{} is not in {}", d.string(), b.string());
    auto other = id(g);
    REQUIRE((other == f.rank) == (getRankFolder(b, other) == d), "ranks {} and {} share {}", other, f.rank, d.string());
  }
  if (f.kind == 2) {
    // a reader that lists the folder recovers the variable's name from the extension
    auto fn = p.filename().string(), ext = getMetaExtension();
    REQUIRE(!ext.empty() && ext[0] == '.' && fn.size() > ext.size() && fn.substr(fn.size() - ext.size()) == ext && fn.substr(0, fn.size() - ext.size()) == f.var, "metadata of '{}' is in {}", f.var, fn);
  }
  if (f.kind == 3) {
    REQUIRE(p.filename().extension() != getMetaExtension(), "chunk {} looks like metadata", p.string());
    REQUIRE(path(f) == p, "name changes between calls");
  }
}

// Many files of one dump at once, with names that extend each other.
PBT(C35, dump_listing, 40000, 600000, "two different files of one dump folder") {
  fs::path b = base(g);
  static const std::vector<int64_t> nums = {0, 1, 2, 3, 10, 11, 12, 100, -1};
  std::string root = name(g);
  auto var = [&] {
    std::string v = root;
    for (auto n = g.u(2); n > 0; --n) {
      v += g.of<std::string>({"_", "", ".", "-", "__"});
      if (g.p(0.8)) v += std::to_string(g.of(nums));
      if (g.p(0.1)) v += g.of<std::string>({".chunk", ".meta", "_"});
    }
    return v;
  };
  std::map<std::string, File> seen;
  auto n = g.in(2, 24);
  int64_t rank0 = g.of(nums);
  for (int64_t i = 0; i < n; ++i) {
    File f{static_cast<int>(g.in(g.p(0.1) ? 0 : 2, 3)), b, 0, "", 0};
    if (f.kind >= 2) { f.rank = g.p(0.8) ? rank0 : g.of(nums); f.var = var(); }
    if (f.kind == 3) f.chunk = g.of(nums);
    auto p = path(f).lexically_normal().string();
    auto it = seen.find(p);
    if (it == seen.end()) { seen.emplace(p, f); continue; }
    g.say("{} and {}", show(it->second), show(f));
    REQUIRE(eq(it->second, f), "both are stored at {}", p);
  }
  g.say("{} files of '{}' in {}", n, root, b.string());
  g.nontrivial(seen.size() > 1);
}
