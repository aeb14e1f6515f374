#pragma once
// In-memory stand-in for leveldb (per-instance).
#include <map>
#include <string>
#include <string_view>
namespace leveldb {
struct Slice {
  const char* p; size_t n;
  Slice(const char* d, size_t s) : p(d), n(s) {}
  Slice(const std::string& s) : p(s.data()), n(s.size()) {}  // NOLINT
};
class Status {
  bool ok_;
 public:
  explicit Status(bool ok = true) : ok_(ok) {}
  bool ok() const { return ok_; }
  bool IsNotFound() const { return !ok_; }
  std::string ToString() const { return ok_ ? "OK" : "error"; }
};
enum CompressionType { kNoCompression = 0, kSnappyCompression = 1 };
struct ReadOptions { bool verify_checksums = false; bool fill_cache = true; };
struct WriteOptions { bool sync = false; };
struct Options {
  bool create_if_missing = false, error_if_exists = false;
  size_t block_size = 4096, write_buffer_size = 4 << 20;
  CompressionType compression = kSnappyCompression;
};
class DB {
  std::map<std::string, std::string> m_;
 public:
  static Status Open(const Options&, const std::string&, DB** db) { *db = new DB(); return Status(); }
  Status Put(const WriteOptions&, const Slice& k, const Slice& v) { m_[std::string(k.p, k.n)] = std::string(v.p, v.n); return Status(); }
  Status Get(const ReadOptions&, const Slice& k, std::string* v) {
    auto it = m_.find(std::string(k.p, k.n));
    if (it == m_.end()) return Status(false);
    *v = it->second;
    return Status();
  }
  Status Delete(const WriteOptions&, const Slice& k) { m_.erase(std::string(k.p, k.n)); return Status(); }
};
inline Status DestroyDB(const std::string&, const Options&) { return Status(); }
}  // namespace leveldb
