// In-process stand-in for the part of brpc libspu uses: a channel that calls
// the registered service directly and streams the progressive attachment back
// in pseudo-randomly sized parts.
#pragma once
#include <condition_variable>
#include <cstdint>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <optional>
#include <string>
#include <vector>
#include "google/protobuf/descriptor.h"
#include "google/protobuf/message.h"
#include "google/protobuf/service.h"
#include "sim.h"
#include "absl/strings/sim_strings.h"
#ifndef DECLARE_uint64
#define DECLARE_uint64(name) extern uint64_t FLAGS_##name
#define DECLARE_int64(name) extern int64_t FLAGS_##name
#endif
namespace butil {
template <typename T>
using intrusive_ptr = std::shared_ptr<T>;
class Status {
 public:
  Status() = default;
  Status(int code, std::string msg) : code_(code), msg_(std::move(msg)) {}
  static Status OK() { return {}; }
  bool ok() const { return code_ == 0; }
  int error_code() const { return code_; }
  std::string error_str() const { return msg_; }
  const char* error_cstr() const { return msg_.c_str(); }
 private:
  int code_ = 0;
  std::string msg_;
};
struct EndPoint {
  int port = 0;
};
struct EndPointStr {
  std::string s;
  const char* c_str() const { return s.c_str(); }
};
inline EndPointStr endpoint2str(const EndPoint&) { return {"sim"}; }
}  // namespace butil
namespace brpc {
extern uint64_t FLAGS_max_body_size;
extern int64_t FLAGS_socket_max_unwritten_bytes;
struct CertInfo { std::string certificate, private_key; };
struct VerifyOptions { int verify_depth = 0; std::string ca_file_path; };
struct ChannelSSLOptions { CertInfo client_cert; VerifyOptions verify; };
struct ServerSSLOptions { CertInfo default_cert; VerifyOptions verify; };
struct ChannelOptions {
  std::string protocol;
  int timeout_ms = 0, max_retry = 0, connect_timeout_ms = 0;
  std::string connection_type;
  ChannelSSLOptions ssl;
  ChannelSSLOptions* mutable_ssl_options() { return &ssl; }
};
struct ServerOptions {
  bool has_builtin_services = true;
  ServerSSLOptions ssl;
  ServerSSLOptions* mutable_ssl_options() { return &ssl; }
};
class ProgressiveReader {
 public:
  virtual ~ProgressiveReader() = default;
  virtual butil::Status OnReadOnePart(const void* data, size_t length) = 0;
  virtual void OnEndOfMessage(const butil::Status& status) = 0;
};
struct SimHttpHeader {
  void SetHeader(const std::string&, const std::string&) {}
};
class ProgressiveAttachment {
 public:
  int Write(const void* d, size_t n) {
    auto* p = static_cast<const char*>(d);
    data.insert(data.end(), p, p + n);
    return 0;
  }
  butil::EndPoint remote_side() const { return {}; }
  std::vector<char> data;
};
class Controller : public google::protobuf::RpcController {
 public:
  void Reset() override {}
  bool Failed() const override { return failed; }
  std::string ErrorText() const override { return err; }
  int ErrorCode() const { return failed ? 1 : 0; }
  void StartCancel() override {}
  void SetFailed(const std::string& r) override { failed = true; err = r; }
  bool IsCanceled() const override { return false; }
  void NotifyOnCancel(google::protobuf::Closure*) override {}
  void response_will_be_read_progressively() {}
  SimHttpHeader& http_request() { return hdr; }
  butil::EndPoint remote_side() const { return {}; }
  std::shared_ptr<ProgressiveAttachment> CreateProgressiveAttachment() {
    return pa = std::make_shared<ProgressiveAttachment>();
  }
  void ReadProgressiveAttachmentBy(ProgressiveReader* r) {
    size_t pos = 0;
    size_t n = pa ? pa->data.size() : 0;
    while (pos < n) {
      size_t step = 1 + sim::NextU64() % ((sim::NextU64() & 1) ? 64 : 4096);
      if (n - pos > (1u << 20) && (sim::NextU64() & 3)) step = 1 + sim::NextU64() % (9u << 20);
      step = std::min(step, n - pos);
      auto st = r->OnReadOnePart(pa->data.data() + pos, step);
      if (!st.ok()) {
        r->OnEndOfMessage(st);
        return;
      }
      pos += step;
    }
    r->OnEndOfMessage(butil::Status::OK());
  }
  bool failed = false;
  std::string err;
  SimHttpHeader hdr;
  std::shared_ptr<ProgressiveAttachment> pa;
};
class ClosureGuard {
 public:
  explicit ClosureGuard(google::protobuf::Closure* d) : d_(d) {}
  ~ClosureGuard() { if (d_) d_->Run(); }
 private:
  google::protobuf::Closure* d_;
};
enum ServiceOwnership { SERVER_OWNS_SERVICE, SERVER_DOESNT_OWN_SERVICE };
namespace sim_registry {
inline std::mutex mu;
inline std::map<int, google::protobuf::Service*> services;
}  // namespace sim_registry
class Server {
 public:
  ~Server() {
    std::lock_guard<std::mutex> lk(sim_registry::mu);
    if (port_ >= 0) sim_registry::services.erase(port_);
  }
  int AddService(google::protobuf::Service* s, ServiceOwnership) {
    svc_.reset(s);
    return 0;
  }
  ServerOptions options() const { return {}; }
  int Start(int port, const ServerOptions*) {
    std::lock_guard<std::mutex> lk(sim_registry::mu);
    if (port == 0) { port = 40000; while (sim_registry::services.count(port)) ++port; }
    if (sim_registry::services.count(port)) return -1;
    sim_registry::services[port] = svc_.get();
    port_ = port;
    return 0;
  }
  butil::EndPoint listen_address() const { return {port_}; }
  int Stop(int) { return 0; }
  int Join() { return 0; }
  void RunUntilAskedToQuit() {}
 private:
  int port_ = -1;
  std::unique_ptr<google::protobuf::Service> svc_;
};
class Channel : public google::protobuf::RpcChannel {
 public:
  int Init(const char* host, const ChannelOptions*) {
    std::string h(host);
    auto p = h.rfind(':');
    if (p == std::string::npos) return -1;
    port_ = std::atoi(h.c_str() + p + 1);
    return 0;
  }
  void CallMethod(const google::protobuf::MethodDescriptor* m, google::protobuf::RpcController* c,
                  const google::protobuf::Message* req, google::protobuf::Message* rsp,
                  google::protobuf::Closure* done) override {
    auto* cntl = static_cast<Controller*>(c);
    google::protobuf::Service* s = nullptr;
    {
      std::lock_guard<std::mutex> lk(sim_registry::mu);
      auto it = sim_registry::services.find(port_);
      if (it != sim_registry::services.end()) s = it->second;
    }
    if (!s) {
      cntl->SetFailed("no such server");
    } else {
      // the server works on its own copy, freed once `done` ran
      std::unique_ptr<google::protobuf::Message> copy(req->New());
      std::string wire;
      req->SerializeToString(&wire);
      copy->ParseFromString(wire);
      Controller sc;
      auto* raw = copy.get();
      struct D : google::protobuf::Closure {
        google::protobuf::Message* m;
        void Run() override { m->Clear(); }
      } d;
      d.m = raw;
      auto* log = sim::prg_log;  // the server works in the caller's thread, but what it draws is its own
      sim::prg_log = nullptr;
      s->CallMethod(m, &sc, raw, rsp, &d);
      sim::prg_log = log;
      cntl->pa = sc.pa;
      if (log != nullptr && sc.pa) log->emplace_back(sim::epoch, "rpc" + std::string(sc.pa->data.begin(), sc.pa->data.end()));
    }
    if (done) done->Run();
  }
 private:
  int port_ = -1;
};
}  // namespace brpc
