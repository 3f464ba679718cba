// The network and the channel as the harnesses play them: recorded posts, replies that the harness feeds, a recording channel.
#pragma once
#include "gen.h"
#include "svc.qpb.h"
#include "svc_grpc.qpb.h"
#include <qgrpchttp2channel.h>
#include <qabstractgrpcchannel.h>
#include <qabstractgrpcclient.h>
#include <qgrpccallreply.h>
#include <qgrpcstream.h>
#include <qgrpcstatus.h>
#include <qgrpccredentials.h>
#include <qgrpcinsecurecredentials.h>
#include <qgrpcuserpasswordcredentials.h>
#include <QNetworkReply>
#include <QNetworkRequest>
#include <QNetworkAccessManager>
#include <QCoreApplication>
#include <QTimer>
#include <vector>
#include <memory>
using namespace QtProtobuf;
// ---- time: pump(ms) handles every event due within the next ms milliseconds (virtual time in the executor, real time divided by 20 natively)
#ifdef SYMX
extern "C" void symx_pump(long ms);
inline void pump(long ms = 0) { symx_pump(ms); }
#else
#include <QElapsedTimer>
#include <dlfcn.h>
#include <QThread>
inline void pump(long ms = 0) { QElapsedTimer t; t.start(); for (;;) { QCoreApplication::processEvents(); QCoreApplication::sendPostedEvents(nullptr, QEvent::DeferredDelete); if (t.elapsed() > ms / 20 + (ms ? 40 : 0)) break; QThread::msleep(ms ? 2 : 0); } QCoreApplication::processEvents(); QCoreApplication::sendPostedEvents(nullptr, QEvent::DeferredDelete); }
#endif
// ---- network replies
struct FakeReply : QNetworkReply {
    QByteArray buf; int aborts = 0; int *gone = nullptr;
    FakeReply() { open(QIODevice::ReadOnly | QIODevice::Unbuffered); }
    ~FakeReply() { if (gone) *gone = 1; }
    qint64 readData(char *p, qint64 n) override { if (n > buf.size()) n = buf.size(); if (n > 0) { memcpy(p, buf.constData(), n); buf.remove(0, (int)n); } return n; }
    qint64 bytesAvailable() const override { return buf.size() + QIODevice::bytesAvailable(); }
    // as QNetworkReplyHttpImpl::abort(): synchronous error and finished signals
    void abort() override { ++aborts; if (isFinished()) return; setError(OperationCanceledError, QStringLiteral("Operation canceled")); setFinished(true); finished(); }
    void arrive(const QByteArray &d) { buf.append(d); readyRead(); }
    void complete(NetworkError e = NoError, const QByteArray &status = QByteArray(), const QByteArray &msg = QByteArray()) {
        if (e != NoError) setError(e, QStringLiteral("net error"));
        if (!status.isNull()) setRawHeader("grpc-status", status);
        if (!msg.isNull()) setRawHeader("grpc-message", msg);
        setFinished(true); readChannelFinished(); finished(); }
};
struct Post { QNetworkRequest req; QByteArray body; FakeReply *reply; };
extern std::vector<Post> posts;               // every request, in order
extern std::function<void(FakeReply *)> onPost; // what the network does with a request before post() returns
#ifdef NET_IMPL
std::vector<Post> posts; std::function<void(FakeReply *)> onPost;
extern "C" QNetworkReply *symx_nam_post(QNetworkAccessManager *m, const QNetworkRequest &r, const QByteArray &d) { FakeReply *f = new FakeReply; f->setParent(m); posts.push_back(Post{r, d, f}); if (onPost) onPost(f); return f; }
#ifdef SYMX_NATIVE
void QTimer::singleShotImpl(int ms, Qt::TimerType, const QObject *r, QtPrivate::QSlotObjectBase *so) { QTimer *t = new QTimer; t->setSingleShot(true); std::shared_ptr<QtPrivate::QSlotObjectBase> s(so, [](QtPrivate::QSlotObjectBase *p) { p->destroyIfLastRef(); }); QObject *o = const_cast<QObject *>(r ? r : t); QObject::connect(t, &QTimer::timeout, o, [s, o, t] { void *a[] = {nullptr}; t->deleteLater(); s->call(o, a); }); t->start(ms); }
// timers run twenty times faster, as pump() does
static void startTimer20(QTimer *t) { static auto f = reinterpret_cast<void (*)(QTimer *)>(dlsym(RTLD_NEXT, "_ZN6QTimer5startEv")); int i = t->inter; t->inter = i / 20; f(t); t->inter = i; }
void QTimer::start() { startTimer20(this); }
void QTimer::start(int ms) { inter = ms; startTimer20(this); }
QNetworkReply *QNetworkAccessManager::post(const QNetworkRequest &r, const QByteArray &d) { return symx_nam_post(this, r, d); }
#endif
#endif
inline std::unique_ptr<QAbstractGrpcCredentials> insecure() { return QGrpcInsecureChannelCredentials() | QGrpcInsecureCallCredentials(); }
inline std::shared_ptr<QGrpcHttp2Channel> http2() { return std::make_shared<QGrpcHttp2Channel>(QUrl(QStringLiteral("http://h:1")), insecure()); }
// ---- a channel that records what the client asks for
struct FakeChannel : QAbstractGrpcChannel {
    struct Call { QString method, service; QByteArray arg; QGrpcCallReply *reply; QGrpcStream *stream; QAbstractGrpcClient *client; };
    std::vector<Call> calls, streams; QGrpcStatus::StatusCode code = QGrpcStatus::Ok; QString message; QByteArray data; bool noSerializer = false;
    std::shared_ptr<QAbstractProtobufSerializer> ser = std::make_shared<QProtobufSerializer>();
    QGrpcStatus call(const QString &m, const QString &s, const QByteArray &a, QByteArray &ret) override { calls.push_back(Call{m, s, a, nullptr, nullptr, nullptr}); ret = data; return QGrpcStatus(code, message); }
    void call(const QString &m, const QString &s, const QByteArray &a, QGrpcCallReply *r) override { calls.push_back(Call{m, s, a, r, nullptr, nullptr}); }
    void stream(QGrpcStream *st, const QString &s, QAbstractGrpcClient *c) override { streams.push_back(Call{st->method(), s, st->arg(), nullptr, st, c}); }
    std::shared_ptr<QAbstractProtobufSerializer> serializer() const override { return noSerializer ? nullptr : ser; }
};
// A message whose serialized form is its bytes: requests and answers of the client seen as bytes, through the interface that generated clients use.
struct Raw { QByteArray d; QByteArray serialize(QAbstractProtobufSerializer *) const { return d; } void deserialize(QAbstractProtobufSerializer *, const QByteArray &b) { d = b; } };
struct RawObj : QObject, Raw { std::function<void(const QByteArray &)> f; void deserialize(QAbstractProtobufSerializer *, const QByteArray &b) { d = b; if (f) f(b); } };
struct Client : QAbstractGrpcClient { Client(const char *s = "s.S") : QAbstractGrpcClient(QString::fromLatin1(s)) {} ~Client() {}
    using B = QAbstractGrpcClient; void cancel(const QString &m) { B::cancel(m); }
    QGrpcStatus call(const QString &m, const QByteArray &a, QByteArray &ret) { RawObj r; QGrpcStatus s = B::call(m, Raw{a}, QPointer<RawObj>(&r)); ret = r.d; return s; }
    QGrpcCallReplyShared call(const QString &m, const QByteArray &a) { return B::call(m, Raw{a}); }
    QGrpcStreamShared stream(const QString &m, const QByteArray &a, const std::function<void(const QByteArray &)> &f) { RawObj *r = new RawObj; r->f = f; return B::stream(m, Raw{a}, QPointer<RawObj>(r)); } };
inline QByteArray symBytes(const char *n, int k) { QByteArray b(k, 0); if (k) symx_make_symbolic(b.data(), k, n); return b; }
inline QByteArray frame(const QByteArray &p) { Writer w; w.byte(0); for (int i = 3; i >= 0; --i) w.byte((u8)((u32)p.size() >> (8 * i))); w.b.append(p); return w.b; }
