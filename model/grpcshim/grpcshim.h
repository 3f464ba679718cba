// A stand-in for grpc++ 1.51 as qgrpcchannel.cpp uses it: calls are recorded, block in the thread that makes them and are
// answered by the harness (functions of namespace grpcshim, implemented below in the translation unit that defines GRPC_SHIM_IMPL).
// Kept from grpc++: RpcMethod keeps the pointer to the name; CreateCall reads the channel and makes the context hold it;
// TryCancel may come from any thread at any time; a cancelled call ends with CANCELLED; a byte buffer may have many slices.
#pragma once
#include <cstdint>
#include <cstring>
#include <memory>
#include <string>
#include <vector>
#ifdef SYMX
extern "C" { void symx_yield(); void symx_wait(void *); void symx_wake(void *); void symx_acquire(void *); void symx_release(void *); }
#else
#include <condition_variable>
#include <mutex>
#endif
namespace grpcshim {
#ifdef SYMX
extern int gate; // switches happen only at yields and waits: the gate only orders what threads see
struct Lock { Lock() { symx_yield(); symx_acquire(&gate); } ~Lock() { symx_release(&gate); } void wait() { symx_release(&gate); symx_wait(&gate); symx_acquire(&gate); } void wakeAll() { symx_release(&gate); symx_wake(&gate); } };
#else
extern std::mutex gate; extern std::condition_variable cond;
struct Lock { std::unique_lock<std::mutex> l{gate}; void wait() { cond.wait(l); } void wakeAll() { cond.notify_all(); } };
#endif
struct Call { std::string method, request; bool streaming = false, cancelled = false, ended = false, blocked = false, finished = false; int code = 0; std::string message; std::vector<std::vector<std::string>> msgs; size_t next = 0; };
extern std::vector<std::shared_ptr<Call>> calls; // every call, in the order grpc++ was asked to make them
extern std::vector<std::string> targets;         // every channel
}
namespace grpc {
enum StatusCode { OK = 0, CANCELLED = 1, UNKNOWN = 2, INVALID_ARGUMENT = 3, DEADLINE_EXCEEDED = 4, NOT_FOUND = 5, ALREADY_EXISTS = 6, PERMISSION_DENIED = 7, RESOURCE_EXHAUSTED = 8, FAILED_PRECONDITION = 9, ABORTED = 10, OUT_OF_RANGE = 11, UNIMPLEMENTED = 12, INTERNAL = 13, UNAVAILABLE = 14, DATA_LOSS = 15, UNAUTHENTICATED = 16 };
class Status { StatusCode c; std::string m, d; public: Status() : c(StatusCode::OK) {} Status(StatusCode c, const std::string &m) : c(c), m(m) {} Status(StatusCode c, const std::string &m, const std::string &d) : c(c), m(m), d(d) {}
    static const Status &OK; static const Status &CANCELLED; StatusCode error_code() const { return c; } std::string error_message() const { return m; } std::string error_details() const { return d; } bool ok() const { return c == StatusCode::OK; } };
class Slice final { std::string s; public: Slice() {} Slice(const void *p, size_t n) : s((const char *)p, n) {} Slice(const std::string &s) : s(s) {} size_t size() const { return s.size(); } const uint8_t *begin() const { return (const uint8_t *)s.data(); } const uint8_t *end() const { return begin() + s.size(); } };
class ByteBuffer final { std::vector<Slice> v; bool set = false; public: ByteBuffer() {} ByteBuffer(const Slice *s, size_t n) : v(s, s + n), set(true) {}
    Status Dump(std::vector<Slice> *out) const { out->clear(); if (!set) return Status(FAILED_PRECONDITION, "Buffer not initialized"); *out = v; return Status(); }
    Status TrySingleSlice(Slice *s) const { if (!set) return Status(FAILED_PRECONDITION, "Buffer not initialized"); if (v.size() != 1) return Status(FAILED_PRECONDITION, "Buffer isn't made up of a single slice."); *s = v[0]; return Status(); }
    Status DumpToSingleSlice(Slice *s) const { if (!set) return Status(FAILED_PRECONDITION, "Buffer not initialized"); std::string t; for (auto &x : v) t.append((const char *)x.begin(), x.size()); *s = Slice(t); return Status(); }
    void Clear() { v.clear(); set = false; } void Swap(ByteBuffer *o) { v.swap(o->v); std::swap(set, o->set); } bool Valid() const { return set; } size_t Length() const { size_t n = 0; for (auto &x : v) n += x.size(); return n; } void Release() { set = false; v.clear(); } };
class ChannelCredentials { public: virtual ~ChannelCredentials() {} };
class ChannelInterface { public: virtual ~ChannelInterface() {} };
class Channel : public ChannelInterface, public std::enable_shared_from_this<Channel> { public: std::string target; };
std::shared_ptr<Channel> CreateChannel(const std::string &target, const std::shared_ptr<ChannelCredentials> &creds);
std::shared_ptr<ChannelCredentials> InsecureChannelCredentials();
class ClientContext { public: std::shared_ptr<grpcshim::Call> call; std::shared_ptr<ChannelInterface> channel; bool tried = false; ClientContext() {} ~ClientContext(); ClientContext(const ClientContext &) = delete; ClientContext &operator=(const ClientContext &) = delete;
    void TryCancel(); void AddMetadata(const std::string &, const std::string &) {} };
template <class R> class ClientReaderInterface { public: virtual ~ClientReaderInterface() {} virtual Status Finish() = 0; virtual bool Read(R *) = 0; };
namespace internal {
class RpcMethod { const char *n; int t; public: enum RpcType { NORMAL_RPC = 0, CLIENT_STREAMING, SERVER_STREAMING, BIDI_STREAMING }; RpcMethod(const char *name, RpcType type) : n(name), t(type) {} const char *name() const { return n; } RpcType method_type() const { return (RpcType)t; } };
void createCall(ChannelInterface *ch, const RpcMethod &m, ClientContext *ctx, const ByteBuffer &request);
bool readMessage(ClientContext *ctx, ByteBuffer *out); Status finishCall(ClientContext *ctx);
template <class Req, class Resp> Status BlockingUnaryCall(ChannelInterface *ch, const RpcMethod &m, ClientContext *ctx, const Req &q, Resp *r) { createCall(ch, m, ctx, q); bool got = readMessage(ctx, r); Status s = finishCall(ctx); if (s.ok() && !got) return Status(UNIMPLEMENTED, "No message returned for unary request"); return s; }
template <class R> class ClientReaderFactory;
}
template <class R> class ClientReader final : public ClientReaderInterface<R> { ClientContext *ctx; ClientReader(ClientContext *c) : ctx(c) {} friend class internal::ClientReaderFactory<R>; public: bool Read(R *r) override { return internal::readMessage(ctx, r); } Status Finish() override { return internal::finishCall(ctx); } void WaitForInitialMetadata() {} };
namespace internal { template <class R> class ClientReaderFactory { public: template <class W> static ClientReader<R> *Create(ChannelInterface *ch, const RpcMethod &m, ClientContext *ctx, const W &q) { createCall(ch, m, ctx, q); return new ClientReader<R>(ctx); } }; }
}
#ifdef GRPC_SHIM_IMPL
namespace grpcshim {
#ifdef SYMX
int gate;
#else
std::mutex gate; std::condition_variable cond;
#endif
std::vector<std::shared_ptr<Call>> calls; std::vector<std::string> targets;
}
namespace grpc {
static const Status statusOk, statusCancelled(StatusCode::CANCELLED, ""); const Status &Status::OK = statusOk; const Status &Status::CANCELLED = statusCancelled;
std::shared_ptr<Channel> CreateChannel(const std::string &t, const std::shared_ptr<ChannelCredentials> &) { auto c = std::make_shared<Channel>(); c->target = t; grpcshim::targets.push_back(t); return c; }
std::shared_ptr<ChannelCredentials> InsecureChannelCredentials() { return std::make_shared<ChannelCredentials>(); }
ClientContext::~ClientContext() { grpcshim::Lock l; }
void ClientContext::TryCancel() { grpcshim::Lock l; tried = true; if (call) { call->cancelled = true; l.wakeAll(); } }
namespace internal {
void createCall(ChannelInterface *ch, const RpcMethod &m, ClientContext *ctx, const ByteBuffer &q) { grpcshim::Lock l; Channel *c = static_cast<Channel *>(ch); ctx->channel = c->shared_from_this(); auto k = std::make_shared<grpcshim::Call>(); k->method = m.name(); k->streaming = m.method_type() != RpcMethod::NORMAL_RPC; std::vector<Slice> s; q.Dump(&s); for (auto &x : s) k->request.append((const char *)x.begin(), x.size()); k->cancelled = ctx->tried; ctx->call = k; grpcshim::calls.push_back(k); l.wakeAll(); }
bool readMessage(ClientContext *ctx, ByteBuffer *out) { grpcshim::Lock l; for (;;) { grpcshim::Call *k = ctx->call.get(); if (k->cancelled) return false; if (k->next < k->msgs.size()) { std::vector<Slice> s; for (auto &x : k->msgs[k->next]) s.push_back(Slice(x)); ++k->next; ByteBuffer b(s.data(), s.size()); out->Swap(&b); return true; } if (k->ended) return false; k->blocked = true; l.wakeAll(); l.wait(); ctx->call->blocked = false; } }
Status finishCall(ClientContext *ctx) { grpcshim::Lock l; for (;;) { grpcshim::Call *k = ctx->call.get(); if (k->cancelled) { k->finished = true; l.wakeAll(); return Status(StatusCode::CANCELLED, "Cancelled"); } if (k->ended) { k->finished = true; l.wakeAll(); return Status((StatusCode)k->code, k->message); } k->blocked = true; l.wakeAll(); l.wait(); ctx->call->blocked = false; } }
} }
namespace grpcshim {
// the server's side
inline void give(size_t i, const std::vector<std::string> &slices) { Lock l; calls[i]->msgs.push_back(slices); l.wakeAll(); }
inline void end(size_t i, int code, const std::string &m) { Lock l; calls[i]->ended = true; calls[i]->code = code; calls[i]->message = m; l.wakeAll(); }
// waits until grpc++ was asked for n calls
inline void awaitCalls(size_t n) { Lock l; while (calls.size() < n) l.wait(); }
// waits until grpc++ was asked for a call of the method; its index
inline size_t awaitMethod(const char *m) { Lock l; for (;;) { for (size_t i = 0; i < calls.size(); ++i) if (calls[i]->method == m) return i; l.wait(); } }
// waits until call i has been read as far as possible
inline void settle(size_t i) { Lock l; while (!(calls.size() > i && ((calls[i]->blocked && calls[i]->next == calls[i]->msgs.size() && !calls[i]->ended && !calls[i]->cancelled) || calls[i]->finished))) l.wait(); }
}
#endif
