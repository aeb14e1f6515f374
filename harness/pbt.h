// Property-based testing core: generators draw from a recorded choice
// sequence, so every failing case can be shrunk and replayed without
// type-specific shrinkers. Cases run in forked workers, so a crash or a hang of
// the code under test is a finding and not the end of the check.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <stdexcept>
#include <string>
#include <vector>
#include "fmt/format.h"
#include "fmt/ranges.h"

namespace pbt {
using u128 = unsigned __int128;
using i128 = __int128;

std::string str(u128 v);
std::string strs(i128 v);
inline uint64_t mix(uint64_t x) {
  x += 0x9e3779b97f4a7c15ULL;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
  return x ^ (x >> 31);
}

struct Violation : std::runtime_error {
  std::string key;
  explicit Violation(const std::string& m, std::string k = "") : std::runtime_error(m), key(std::move(k)) {}
};
struct Discard {};

class Gen {
 public:
  explicit Gen(uint64_t seed) : replay_(false), s_(seed) {}
  explicit Gen(std::vector<uint64_t> choices) : replay_(true), in_(std::move(choices)) {}
  // uniform in [0, maxv]
  uint64_t u(uint64_t maxv) {
    uint64_t v;
    if (replay_) {
      v = pos_ < in_.size() ? in_[pos_] : 0;
      if (v > maxv) v = maxv;
    } else {
      v = maxv == UINT64_MAX ? next() : next() % (maxv + 1);
    }
    ++pos_;
    out_.push_back(v);
    if (sink != nullptr && out_.size() < kSink) { sink[out_.size()] = v; sink[0] = out_.size(); }
    return v;
  }
  int64_t in(int64_t lo, int64_t hi) { return lo + static_cast<int64_t>(u(static_cast<uint64_t>(hi - lo))); }
  bool p(double prob = 0.5) { return u(999) >= static_cast<uint64_t>(1000 * (1 - prob)); }
  template <class T>
  T of(const std::vector<T>& v) { return v[u(v.size() - 1)]; }
  template <class T>
  T of(std::initializer_list<T> v) { return *(v.begin() + u(v.size() - 1)); }
  uint64_t seed() { return u(UINT64_MAX); }
  // n-bit value with a bias to the edges of the range.
  u128 bits(int n) {
    u128 mask = n >= 128 ? ~static_cast<u128>(0) : ((static_cast<u128>(1) << n) - 1);
    switch (u(7)) {
      case 0: return u(3) & mask;
      case 1: return (~static_cast<u128>(0) - u(3)) & mask;
      case 2: {  // around a power of two
        u128 b = static_cast<u128>(1) << u(n - 1);
        return (b + u(2) - 1) & mask;
      }
      case 3: return u(255) & mask;
      case 4: return (~static_cast<u128>(0) - u(255)) & mask;
      case 5: {  // random length
        int l = static_cast<int>(u(n));
        u128 v = wide();
        return l == 0 ? 0 : ((v & mask) >> (n - l));
      }
      default: return wide() & mask;
    }
  }
  u128 wide() {
    u128 hi = u(UINT64_MAX);
    return (hi << 64) | u(UINT64_MAX);
  }
  double unit() { return static_cast<double>(u((1ULL << 53) - 1)) / static_cast<double>(1ULL << 53); }
  double real(double lo, double hi) { return lo + unit() * (hi - lo); }
  template <class T>
  void shuffle(std::vector<T>& v) {
    for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[u(i - 1)]);
  }
  std::vector<int64_t> perm(size_t n) {
    std::vector<int64_t> v(n);
    for (size_t i = 0; i < n; ++i) v[i] = static_cast<int64_t>(i);
    shuffle(v);
    return v;
  }
  // Description of the case, evidence bookkeeping.
  template <class... A>
  void say(fmt::format_string<A...> f, A&&... a) {
    if (desc_.size() < 4000) desc_ += fmt::format(f, std::forward<A>(a)...) + " ";
    if (dsink != nullptr) strncpy(dsink, desc_.c_str(), 4095);
  }
  void nontrivial(bool b = true) { nontrivial_ = nontrivial_ || b; }
  void tag(const std::string& t) { tags_.insert(t); }

  const std::vector<uint64_t>& choices() const { return out_; }
  const std::string& desc() const { return desc_; }
  bool is_nontrivial() const { return nontrivial_; }
  const std::set<std::string>& tags() const { return tags_; }

  // choices mirrored into shared memory so that a crash does not lose them
  static constexpr size_t kSink = 1 << 17;
  static inline uint64_t* sink = nullptr;
  static inline char* dsink = nullptr;  // 4096 bytes, likewise

 private:
  uint64_t next() { return mix(s_++ * 0xd1342543de82ef95ULL + 1); }
  bool replay_;
  uint64_t s_ = 0;
  std::vector<uint64_t> in_, out_;
  size_t pos_ = 0;
  std::string desc_;
  bool nontrivial_ = false;
  std::set<std::string> tags_;
};

struct Sub {
  std::string prop, name, rule;
  std::function<void(Gen&)> fn;
  uint64_t quick, thorough;
  double timeout_s;
};
std::vector<Sub>& registry();
struct Reg {
  Reg(const char* prop, const char* name, uint64_t quick, uint64_t thorough, const char* rule,
      std::function<void(Gen&)> fn, double timeout_s = 240) {
    registry().push_back({prop, name, rule, std::move(fn), quick, thorough, timeout_s});
  }
};
}  // namespace pbt

#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)
// PBT(property, name, quick cases, thorough cases, rule) { body using g }
#define PBT(PROP, NAME, Q, T, RULE)                                           \
  static void PBT_CAT(pbt_##NAME##_, PROP)(pbt::Gen & g);                     \
  static pbt::Reg PBT_CAT(pbt_reg_##NAME##_, PROP)(#PROP, #NAME, Q, T, RULE,  \
                                                   PBT_CAT(pbt_##NAME##_, PROP)); \
  static void PBT_CAT(pbt_##NAME##_, PROP)(pbt::Gen & g)

#define REQUIRE(cond, ...)                                                            \
  do {                                                                                \
    if (!(cond)) throw pbt::Violation(fmt::format("{} [{}]", fmt::format(__VA_ARGS__), #cond)); \
  } while (0)
#define FAIL_KEY(key, ...) throw pbt::Violation(fmt::format(__VA_ARGS__), key)
