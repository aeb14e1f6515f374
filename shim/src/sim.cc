#include "sim.h"
#include <openssl/evp.h>
#include <atomic>
#include <chrono>
#include <exception>
#include <functional>
#include <cstring>
#include <thread>
#include "sim_world.h"
#include "yacl/crypto/block_cipher/symmetric_crypto.h"
#include "yacl/crypto/hash/blake3.h"
#include "yacl/link/test_util.h"
#include "yacl/utils/parallel.h"
#include "yacl/utils/platform_utils.h"
#include "yacl/base/int128.h"

namespace sim {
namespace {
inline uint64_t mix(uint64_t x) {
  x ^= x >> 30; x *= 0xbf58476d1ce4e5b9ULL;
  x ^= x >> 27; x *= 0x94d049bb133111ebULL;
  return x ^ (x >> 31);
}
struct ThreadRng { uint64_t hi = 0, lo = 0, ctr = 0; bool seeded = false; };
thread_local ThreadRng g_rng;
std::atomic<uint64_t> g_fallback{0x1234567}, g_fallback_n{0};
}  // namespace
thread_local uint64_t parallel_chaos = 0;
bool parallel_threads = false;
uint64_t jitter = 0;
thread_local int64_t epoch = -1;
thread_local std::vector<std::pair<int64_t, std::string>>* prg_log = nullptr;

void SetFallbackSeed(uint64_t s) { g_fallback = s; g_fallback_n = 0; }
void SeedThread(uint64_t hi, uint64_t lo) { g_rng = ThreadRng{hi, lo, 0, true}; }
uint64_t NextU64() {
  if (!g_rng.seeded) SeedThread(g_fallback, 0x77 + g_fallback_n++);
  uint64_t c = ++g_rng.ctr;
  return mix(mix(g_rng.hi + c * 0x9e3779b97f4a7c15ULL) ^ mix(g_rng.lo + c * 0xd1342543de82ef95ULL) );
}
void FillBytes(void* p, size_t n) {
  auto* o = static_cast<uint8_t*>(p);
  while (n >= 8) { uint64_t v = NextU64(); std::memcpy(o, &v, 8); o += 8; n -= 8; }
  if (n > 0) { uint64_t v = NextU64(); std::memcpy(o, &v, n); }
}
void PrgBlocks(unsigned __int128 seed, uint64_t iv, uint64_t ctr, void* out, size_t nbytes) {
  const uint64_t k0 = mix(static_cast<uint64_t>(seed) + 0x9e3779b97f4a7c15ULL) ^ mix(iv + 0x1111);
  const uint64_t k1 = mix(static_cast<uint64_t>(seed >> 64) ^ 0xd1342543de82ef95ULL) + mix(k0);
  auto* o = static_cast<uint8_t*>(out);
  const size_t total = nbytes;
  for (; nbytes > 0; ++ctr) {
    uint64_t b[2];
    uint64_t a = mix(k0 + ctr * 0x9e3779b97f4a7c15ULL);
    b[0] = mix(a ^ k1);
    b[1] = mix((a + k1) ^ (k0 * 0x2545f4914f6cdd1dULL + 0x3333));
    size_t n = nbytes < 16 ? nbytes : 16;
    std::memcpy(o, b, n);
    o += n;
    nbytes -= n;
  }
  if (prg_log != nullptr && total <= (1u << 20)) prg_log->emplace_back(epoch, std::string(static_cast<const char*>(out), total));
}
std::vector<std::pair<int64_t, int64_t>> ParallelPartition(int64_t b, int64_t e) {
  auto rnd = [] { parallel_chaos = parallel_chaos * 6364136223846793005ULL + 1442695040888963407ULL;
    if (parallel_chaos == 0) parallel_chaos = 1;
    return mix(parallel_chaos); };
  std::vector<int64_t> cuts{b, e};
  int64_t len = e - b;
  uint64_t k = rnd() % 4;
  for (uint64_t i = 0; i < k && len > 1; ++i) cuts.push_back(b + 1 + static_cast<int64_t>(rnd() % static_cast<uint64_t>(len - 1)));
  std::sort(cuts.begin(), cuts.end());
  cuts.erase(std::unique(cuts.begin(), cuts.end()), cuts.end());
  std::vector<std::pair<int64_t, int64_t>> r;
  for (size_t i = 0; i + 1 < cuts.size(); ++i) r.emplace_back(cuts[i], cuts[i + 1]);
  for (size_t i = r.size(); i > 1; --i) std::swap(r[i - 1], r[rnd() % i]);
  return r;
}
void RunThreads(const std::vector<std::pair<int64_t, int64_t>>& parts, const std::function<void(int64_t, int64_t)>& f) {
  auto ep = epoch;
  std::vector<std::thread> ts;
  std::vector<std::exception_ptr> err(parts.size());
  for (size_t i = 0; i < parts.size(); ++i) {
    uint64_t s = NextU64();
    ts.emplace_back([&, i, s] {
      SeedThread(s, i);
      epoch = ep;
      try { f(parts[i].first, parts[i].second); } catch (...) { err[i] = std::current_exception(); }
    });
  }
  for (auto& t : ts) t.join();
  for (auto& e : err) if (e) std::rethrow_exception(e);
}
void Pause() {
  if (jitter == 0) return;
  thread_local uint64_t n = std::hash<std::thread::id>()(std::this_thread::get_id());
  uint64_t r = mix(jitter + ++n * 0x9e3779b97f4a7c15ULL);
  if (r % 8 == 0) std::this_thread::sleep_for(std::chrono::microseconds(r / 8 % 300));
  else if (r % 8 < 4) std::this_thread::yield();
}

std::shared_ptr<yacl::link::Context> World::ctx(size_t rank) {
  return std::make_shared<yacl::link::Context>(shared_from_this(), "root", rank);
}
void World::Send(Msg m) {
  Pause();
  std::unique_lock<std::mutex> lk(mu_);
  if (aborted_) throw yacl::LinkAborted("link aborted: " + why_);
  if (tamper) tamper(m);
  if (record) log.push_back(m);
  ++messages;
  bytes += m.data.size();
  ++activity_;
  q_[{m.ctx, m.src, m.dst, m.event}].push_back(std::move(m.data));
  cv_.notify_all();
}
std::string World::Recv(const std::string& ctx, size_t src, size_t dst, const std::string& event) {
  Pause();
  std::unique_lock<std::mutex> lk(mu_);
  auto key = std::make_tuple(ctx, src, dst, event);
  while (true) {
    auto it = q_.find(key);
    if (it != q_.end() && !it->second.empty()) {
      auto r = std::move(it->second.front());
      it->second.pop_front();
      if (it->second.empty()) q_.erase(it);
      return r;
    }
    if (aborted_) throw yacl::LinkAborted("link aborted: " + why_);
    auto a = activity_;
    if (cv_.wait_for(lk, std::chrono::duration<double>(stall_timeout_s)) == std::cv_status::timeout && a == activity_) {
      throw yacl::IoError("sim: recv stalled");
    }
  }
}
void World::Abort(const std::string& why) {
  std::unique_lock<std::mutex> lk(mu_);
  if (!aborted_) { aborted_ = true; why_ = why; }
  cv_.notify_all();
}
bool World::aborted() { std::unique_lock<std::mutex> lk(mu_); return aborted_; }
size_t World::leftover() {
  std::unique_lock<std::mutex> lk(mu_);
  size_t n = 0;
  for (auto& [k, v] : q_) n += v.size();
  return n;
}
}  // namespace sim

namespace yacl {
namespace { std::atomic<int> g_threads{1}; }
int get_num_threads() { return g_threads; }
void set_num_threads(int n) { g_threads = n; }
bool hasAVX2() { return true; }
bool hasAVX512ifma() { return false; }
bool hasBMI2() { return false; }
}  // namespace yacl

namespace yacl::link {
size_t Context::WorldSize() const { return world_->size(); }
void Context::SendInternal(size_t dst, ByteContainerView v, const std::string& event, std::string_view tag) {
  YACL_ENFORCE(dst < WorldSize() && dst != rank_, "bad destination {}", dst);
  world_->Send(sim::Msg{id_, std::string(tag), rank_, dst, !event.empty(), std::string(std::string_view(v)), sim::epoch, event});
  stats_->sent_bytes += v.size();
  stats_->sent_actions++;
}
Buffer Context::RecvInternal(size_t src, const std::string& event, std::string_view) {
  YACL_ENFORCE(src < WorldSize() && src != rank_, "bad source {}", src);
  auto s = world_->Recv(id_, src, rank_, event);
  stats_->recv_bytes += s.size();
  stats_->recv_actions++;
  return Buffer(s.data(), s.size());
}
void Context::SendAsync(size_t dst, ByteContainerView v, std::string_view tag) { SendInternal(dst, v, "", tag); }
Buffer Context::Recv(size_t src, std::string_view tag) { return RecvInternal(src, "", tag); }
std::unique_ptr<Context> Context::Spawn(const std::string& id) {
  auto child = id.empty() ? id_ + "-" + std::to_string(child_counter_++) : id_ + "/" + id;
  return std::make_unique<Context>(world_, child, rank_);
}
void Context::AbortLink() { world_->Abort("AbortLink"); }

std::vector<Buffer> AllGather(const std::shared_ptr<Context>& ctx, ByteContainerView in, std::string_view tag) {
  const size_t n = ctx->WorldSize(), me = ctx->Rank();
  const auto ev = ctx->NextEvent("ALLGATHER");
  for (size_t i = 0; i < n; ++i) if (i != me) ctx->SendInternal(i, in, ev, tag);
  std::vector<Buffer> out(n);
  for (size_t i = 0; i < n; ++i) out[i] = i == me ? Buffer(in.data(), in.size()) : ctx->RecvInternal(i, ev, tag);
  return out;
}
std::vector<std::vector<Buffer>> AllGather(const std::shared_ptr<Context>& ctx, const std::vector<ByteContainerView>& in, std::string_view tag) {
  std::vector<std::vector<Buffer>> r;
  for (auto& v : in) r.push_back(AllGather(ctx, v, tag));
  return r;
}
std::vector<Buffer> Gather(const std::shared_ptr<Context>& ctx, ByteContainerView in, size_t root, std::string_view tag) {
  const size_t n = ctx->WorldSize(), me = ctx->Rank();
  const auto ev = ctx->NextEvent("GATHER");
  std::vector<Buffer> out;
  if (me == root) {
    out.resize(n);
    for (size_t i = 0; i < n; ++i) out[i] = i == me ? Buffer(in.data(), in.size()) : ctx->RecvInternal(i, ev, tag);
  } else {
    ctx->SendInternal(root, in, ev, tag);
  }
  return out;
}
Buffer Broadcast(const std::shared_ptr<Context>& ctx, ByteContainerView in, size_t root, std::string_view tag) {
  const size_t n = ctx->WorldSize(), me = ctx->Rank();
  const auto ev = ctx->NextEvent("BROADCAST");
  if (me == root) {
    for (size_t i = 0; i < n; ++i) if (i != me) ctx->SendInternal(i, in, ev, tag);
    return Buffer(in.data(), in.size());
  }
  return ctx->RecvInternal(root, ev, tag);
}
Buffer Scatter(const std::shared_ptr<Context>& ctx, const std::vector<ByteContainerView>& in, size_t root, std::string_view tag) {
  const size_t n = ctx->WorldSize(), me = ctx->Rank();
  const auto ev = ctx->NextEvent("SCATTER");
  if (me == root) {
    YACL_ENFORCE(in.size() == n);
    for (size_t i = 0; i < n; ++i) if (i != me) ctx->SendInternal(i, in[i], ev, tag);
    return Buffer(in[me].data(), in[me].size());
  }
  return ctx->RecvInternal(root, ev, tag);
}
void Barrier(const std::shared_ptr<Context>& ctx, std::string_view tag) { AllGather(ctx, ByteContainerView("b", 1), tag); }

namespace { std::mutex g_mem_mu; std::map<std::string, std::shared_ptr<sim::World>> g_mem; }
std::shared_ptr<Context> FactoryMem::CreateContext(const ContextDesc& d, size_t rank) {
  if (d.parties.size() == 1) return std::make_shared<sim::World>(1)->ctx(0);
  std::lock_guard<std::mutex> g(g_mem_mu);
  auto& w = g_mem[d.id];
  if (!w) w = std::make_shared<sim::World>(d.parties.size());
  return w->ctx(rank);
}
namespace test {
std::vector<std::shared_ptr<Context>> SetupWorld(const std::string&, size_t n) {
  auto w = std::make_shared<sim::World>(n);
  std::vector<std::shared_ptr<Context>> r;
  for (size_t i = 0; i < n; ++i) r.push_back(w->ctx(i));
  return r;
}
std::vector<std::shared_ptr<Context>> SetupWorld(size_t n) { return SetupWorld("w", n); }
}  // namespace test
}  // namespace yacl::link

namespace yacl::crypto {
std::vector<uint8_t> SimHash(std::string_view s, size_t n) {
  std::vector<uint8_t> r(n);
  size_t done = 0;
  for (uint8_t c = 0; done < n; ++c) {
    uint8_t md[32];
    unsigned len = 0;
    EVP_MD_CTX* x = EVP_MD_CTX_new();
    EVP_DigestInit_ex(x, EVP_sha256(), nullptr);
    if (c > 0) EVP_DigestUpdate(x, &c, 1);
    EVP_DigestUpdate(x, s.data(), s.size());
    EVP_DigestFinal_ex(x, md, &len);
    EVP_MD_CTX_free(x);
    size_t k = std::min<size_t>(32, n - done);
    std::memcpy(r.data() + done, md, k);
    done += k;
  }
  return r;
}
SymmetricCrypto::SymmetricCrypto(CryptoType type, uint128_t key, uint128_t iv) : type_(type), key_(key), iv_(iv) {}
SymmetricCrypto::SymmetricCrypto(CryptoType type, absl::Span<const uint8_t> key, absl::Span<const uint8_t> iv) : type_(type), key_(0), iv_(0) {
  std::memcpy(&key_, key.data(), std::min<size_t>(16, key.size()));
  std::memcpy(&iv_, iv.data(), std::min<size_t>(16, iv.size()));
}
static void evp(SymmetricCrypto::CryptoType t, uint128_t key, uint128_t iv, const uint8_t* in, uint8_t* out, size_t n, bool enc) {
  const EVP_CIPHER* c = t == SymmetricCrypto::CryptoType::AES128_CTR ? EVP_aes_128_ctr()
                        : t == SymmetricCrypto::CryptoType::AES128_CBC ? EVP_aes_128_cbc() : EVP_aes_128_ecb();
  EVP_CIPHER_CTX* x = EVP_CIPHER_CTX_new();
  uint8_t k[16], v[16];
  std::memcpy(k, &key, 16);
  std::memcpy(v, &iv, 16);
  EVP_CipherInit_ex(x, c, nullptr, k, v, enc ? 1 : 0);
  EVP_CIPHER_CTX_set_padding(x, 0);
  int len = 0;
  EVP_CipherUpdate(x, out, &len, in, static_cast<int>(n));
  EVP_CIPHER_CTX_free(x);
}
void SymmetricCrypto::Encrypt(absl::Span<const uint8_t> in, absl::Span<uint8_t> out) const { evp(type_, key_, iv_, in.data(), out.data(), in.size(), true); }
void SymmetricCrypto::Decrypt(absl::Span<const uint8_t> in, absl::Span<uint8_t> out) const { evp(type_, key_, iv_, in.data(), out.data(), in.size(), false); }
uint128_t SymmetricCrypto::Encrypt(uint128_t in) const { uint128_t o; evp(type_, key_, iv_, reinterpret_cast<uint8_t*>(&in), reinterpret_cast<uint8_t*>(&o), 16, true); return o; }
uint128_t SymmetricCrypto::Decrypt(uint128_t in) const { uint128_t o; evp(type_, key_, iv_, reinterpret_cast<uint8_t*>(&in), reinterpret_cast<uint8_t*>(&o), 16, false); return o; }
void SymmetricCrypto::Encrypt(absl::Span<const uint128_t> in, absl::Span<uint128_t> out) const { evp(type_, key_, iv_, reinterpret_cast<const uint8_t*>(in.data()), reinterpret_cast<uint8_t*>(out.data()), in.size() * 16, true); }
void SymmetricCrypto::Decrypt(absl::Span<const uint128_t> in, absl::Span<uint128_t> out) const { evp(type_, key_, iv_, reinterpret_cast<const uint8_t*>(in.data()), reinterpret_cast<uint8_t*>(out.data()), in.size() * 16, false); }
}  // namespace yacl::crypto

#include "brpc/sim_brpc.h"
namespace brpc {
uint64_t FLAGS_max_body_size = 0;
int64_t FLAGS_socket_max_unwritten_bytes = 0;
}
