// LIBS: protobuf grpc svc vt
// C20: the handler registry and the serializer in several threads; C27: clients used from other threads
#define NET_IMPL
#include "net.h"
#include <qabstractprotobufserializer_p.h>
#include <qprotobufmetaproperty.h>
#include <QThread>
using namespace QtProtobufPrivate;
typedef QGrpcStatus::StatusCode Code;
// ------------------------------------------------------------------ registry
// a handler of id k appends k to the buffer and sets the variant to k
static SerializationHandler handler(int k) { return SerializationHandler{[k](const QAbstractProtobufSerializer *, const QVariant &, const QProtobufMetaProperty &, QByteArray &b) { b.append((char)k); }, [k](const QAbstractProtobufSerializer *, QProtobufSelfcheckIterator &, QVariant &v) { v = QVariant(k); }, (HandlerType)(k % 3)}; }
static int which(const SerializationHandler &h) { if (!h.serializer && !h.deserializer) return -1; symx_check(h.serializer && h.deserializer, "a complete handler"); QByteArray b, src("x"); QVariant v; QProtobufSelfcheckIterator it(src); h.serializer(nullptr, v, QProtobufMetaProperty(QMetaProperty(), 1, QString()), b); h.deserializer(nullptr, it, v); symx_check(b.size() == 1 && b.at(0) == v.toInt() && h.type == v.toInt() % 3, "both functions and the type belong to one handler"); return v.toInt(); }
enum { ID = 90000 };
struct RegJob { int reg[2], nreg, look[2], nlook, got[2]; };
static void regJob(void *p) { RegJob *j = (RegJob *)p; int n = j->nreg > j->nlook ? j->nreg : j->nlook; for (int i = 0; i < n; ++i) { if (i < j->nreg) registerHandler(ID + j->reg[i], handler(j->reg[i])); if (i < j->nlook) j->got[i] = which(findHandler(ID + j->look[i])); } }
static void runReg(RegJob *j, int n) { for (int i = 0; i < n; ++i) symx_thread_create(regJob, &j[i]); symx_thread_join_all(); for (int i = 0; i < n; ++i) for (int k = 0; k < j[i].nlook; ++k) { int w = j[i].look[k], g = j[i].got[k]; symx_check(g == w || (g == -1 && w != 1), "nothing, or the handler of that type"); for (int m = 0; m < j[i].nreg && m <= k; ++m) symx_check(j[i].reg[m] != w || g == w, "a thread sees its own registration"); for (int l = 0; l < k; ++l) symx_check(j[i].look[l] != w || j[i].got[l] == -1 || g == w, "a handler once seen stays"); }
    for (int i = 0; i < n; ++i) for (int k = 0; k < j[i].nreg; ++k) symx_check(which(findHandler(ID + j[i].reg[k])) == j[i].reg[k], "no registration is lost"); symx_check(which(findHandler(ID + 1)) == 1, "earlier registrations stay"); symx_check(which(findHandler(ID + 77)) == -1, "unknown types have no handler"); symx_cover("done"); }
HARNESS(reg_rw) { if (symx_param("fresh", 0) == 0) setup(); registerHandler(ID + 1, handler(1)); int l = 1 + choose("look", 3); RegJob j[3] = {{{2, 3}, 2, {l, 0}, 1, {}}, {{0, 0}, 0, {l, 2}, 2, {}}, {{4, 0}, 1, {1, 3}, 1, {}}}; runReg(j, (int)symx_param("threads", 2)); }
HARNESS(reg_ww) { if (symx_param("fresh", 0) == 0) setup(); registerHandler(ID + 1, handler(1)); RegJob j[3] = {{{2, 3}, 2, {0}, 0, {}}, {{4, 5}, 2, {1 + (int)choose("look", 3)}, 1, {}}, {{6}, 1, {1}, 1, {}}}; runReg(j, (int)symx_param("threads", 2)); }
HARNESS(reg_rr) { setup(); registerHandler(ID + 1, handler(1)); RegJob j[3] = {{{0}, 0, {1, 2}, 2, {}}, {{0}, 0, {2, 1}, 2, {}}, {{2}, 1, {2}, 1, {}}}; runReg(j, (int)symx_param("threads", 3)); }
// the registry is created by whichever thread comes first
static void firstJob(void *p) { RegJob *j = (RegJob *)p; registerHandler(ID + j->reg[0], handler(j->reg[0])); j->got[0] = which(findHandler(ID + j->reg[0])); }
HARNESS(reg_first) { RegJob j[2] = {{{2}, 1, {}, 0, {}}, {{3}, 1, {}, 0, {}}}; for (auto &x : j) symx_thread_create(firstJob, &x); symx_thread_join_all(); for (auto &x : j) symx_check(x.got[0] == x.reg[0] && which(findHandler(ID + x.reg[0])) == x.reg[0], "registered"); symx_cover("done"); }
// overwriting one id: afterwards it is one of the two
HARNESS(reg_same) { setup(); struct O { int k; }; static O o[2] = {{7}, {8}}; for (auto &x : o) symx_thread_create([](void *p) { registerHandler(ID + 5, handler(((O *)p)->k)); }, &x); symx_thread_join_all(); int w = which(findHandler(ID + 5)); symx_check(w == 7 || w == 8, "one of the two, complete"); symx_cover("done"); }
// ------------------------------------------------------------------ serializer
// several threads serialize and deserialize their own messages, with one serializer object or one each
static bool serOnce(QProtobufSerializer *s, int v, int kind) {
    switch (kind) {
    case 0: { vt::MString m, n; m.setV(QString(1, QLatin1Char('a' + v))); QByteArray b = m.serialize(s); n.deserialize(s, b); return b.size() == 3 && b.at(2) == 'a' + v && n == m; }
    case 1: { vt::RSInt32 m, n; m.setV({v, 3}); QByteArray b = m.serialize(s); n.deserialize(s, b); return n.v().size() == 2 && n.v()[0] == v && n == m; }
    case 2: { vt::MapSInt32 m, n; m.setV({{v, QStringLiteral("x")}}); QByteArray b = m.serialize(s); n.deserialize(s, b); return n == m && n.v().contains(v); }
    case 3: { vt::Outer m, n; vt::Inner i; i.setI(v); m.setIn(i); m.setHead(300); QByteArray b = m.serialize(s); n.deserialize(s, b); return n == m && n.in().i() == v; }
    case 4: { vt::RMsg m, n; m.setV({QSharedPointer<vt::MSInt32>(new vt::MSInt32(v))}); QByteArray b = m.serialize(s); n.deserialize(s, b); return n.v().size() == 1 && n.v()[0]->v() == v; }
    case 5: { vt::REnum m, n; m.setV({vt::MEnum::Kind(v % 2)}); QByteArray b = m.serialize(s); n.deserialize(s, b); return n == m; }
    case 6: { vt::MDouble m, n; m.setV(v); QByteArray b = m.serialize(s); n.deserialize(s, b); return b.size() == 9 && n.v() == v; }
    case 7: { vt::MSInt32 n; try { n.deserialize(s, QByteArray::fromRawData("\x2a\x01\x78\x08", 4)); } catch (const std::exception &) { return true; } return false; }
    default: { vt::MapStringMsg m, n; m.setV({{QString(1, QLatin1Char('a' + v)), QSharedPointer<vt::MSInt32>(new vt::MSInt32(v))}}); QByteArray b = m.serialize(s); n.deserialize(s, b); return n.v().size() == 1 && n.v().first()->v() == v; } } }
static int few(const char *n) { int v = sym<int>(n); symx_assume((v >= 1) & (v <= 15)); return v; }
struct SerJob { int v, kind; QProtobufSerializer *s; bool ok; };
HARNESS(ser_threads) { setup(); QProtobufSerializer a, b; int one = (int)symx_param("one", 1), k = (int)symx_param("kind", 0), k2 = (int)symx_param("kind2", k); SerJob j[2] = {{few("v0"), k, &a, false}, {few("v1"), k2, one ? &a : &b, false}}; for (auto &x : j) symx_thread_create([](void *p) { SerJob *j = (SerJob *)p; j->ok = serOnce(j->s, j->v, j->kind); }, &x); symx_thread_join_all(); symx_check(j[0].ok && j[1].ok, "every thread gets its own message back"); symx_cover("done"); }
// a type is registered by one thread while another one serializes
HARNESS(ser_reg) { setup(); QProtobufSerializer a; SerJob j = {few("v0"), (int)symx_param("kind", 3), &a, false}; static int r; symx_thread_create([](void *p) { SerJob *j = (SerJob *)p; j->ok = serOnce(j->s, j->v, j->kind); }, &j); symx_thread_create([](void *) { registerHandler(ID + 2, handler(2)); r = which(findHandler(ID + 2)); }, nullptr); symx_thread_join_all(); symx_check(j.ok && r == 2, "both succeed"); symx_cover("done"); }
// ------------------------------------------------------------------ C27
// The client lives in the main thread, which runs an event loop; workers use it.
static QThread *mainThread; static QObject *ctx; static QEventLoop *loop; static int running;
static bool home() { return QThread::currentThread() == mainThread; }
struct HomeChannel : FakeChannel {
    int foreign = 0; std::function<void(QGrpcCallReply *)> onCall; std::function<void(QGrpcStream *)> onStream;
    QGrpcStatus call(const QString &m, const QString &s, const QByteArray &a, QByteArray &ret) override { if (!home()) ++foreign; calls.push_back(Call{m, s, a, nullptr, nullptr, nullptr}); ret = a; ret.append('r'); return QGrpcStatus(code, message); }
    void call(const QString &m, const QString &s, const QByteArray &a, QGrpcCallReply *r) override { if (!home()) ++foreign; FakeChannel::call(m, s, a, r); if (onCall) onCall(r); }
    void stream(QGrpcStream *st, const QString &s, QAbstractGrpcClient *c) override { if (!home()) ++foreign; FakeChannel::stream(st, s, c); if (onStream) onStream(st); } };
static void workerDone() { QMetaObject::invokeMethod(ctx, [] { if (--running == 0) loop->quit(); }, Qt::QueuedConnection); }
static void mainLoop(int n) { running = n; loop->exec(); symx_thread_join_all(); pump(); }
static void start() { setup(); mainThread = QThread::currentThread(); ctx = new QObject; loop = new QEventLoop; }
struct XSync { Client *c; char arg; QByteArray ret; QGrpcStatus st; };
HARNESS(xt_sync) { start(); auto ch = std::make_shared<HomeChannel>(); Client c; c.attachChannel(ch); u8 code = sym<u8>("code"); symx_assume(code <= 16); ch->code = (Code)symx_concretize(code); ch->message = QStringLiteral("t"); int n = (int)symx_param("threads", 1), cerr = 0; bool far = false; QObject::connect(&c, &QAbstractGrpcClient::error, [&](const QGrpcStatus &s) { ++cerr; if (!home()) far = true; symx_check(s.code() == (Code)code, "status"); });
    XSync x[2] = {{&c, 'a', {}, {}}, {&c, 'b', {}, {}}}; running = n; for (int i = 0; i < n; ++i) symx_thread_create([](void *p) { XSync *x = (XSync *)p; x->st = x->c->call(QStringLiteral("m"), QByteArray(1, x->arg), x->ret); workerDone(); }, &x[i]);
    mainLoop(n); symx_check(ch->foreign == 0 && !far, "the channel and the client's signals are used in the client's thread only"); symx_check((int)ch->calls.size() == n, "one call each"); for (int i = 0; i < n; ++i) { symx_check(x[i].st.code() == (Code)code && (!code || x[i].st.message() == QLatin1String("t")), "the caller gets the status"); symx_check(code ? x[i].ret.isEmpty() : x[i].ret.size() == 2 && x[i].ret.at(0) == x[i].arg && x[i].ret.at(1) == 'r', "and the data of its own call"); } symx_check(cerr == (code ? n : 0), "errors"); symx_cover("done"); }
struct XAsync { Client *c; int act; QGrpcCallReplyShared r; int fin, err; bool away; Code code; QGrpcCallReply *raw; QByteArray data; };
HARNESS(xt_async) { start(); auto ch = std::make_shared<HomeChannel>(); Client *c = new Client; c->attachChannel(ch); unsigned how = choose("how", 4), act = choose("act", 3); XAsync x{c, (int)act, nullptr, 0, 0, false, Code::Ok, nullptr, {}}; int fin = 0, err = 0; bool away = false; Code code = Code::Ok;
    ch->onCall = [&](QGrpcCallReply *r) { x.raw = r; QObject::connect(r, &QGrpcCallReply::finished, [&] { ++fin; away |= !home(); }); QObject::connect(r, &QGrpcCallReply::error, [&](const QGrpcStatus &s) { ++err; code = s.code(); away |= !home(); }); auto end = [how, r, &fin, &err] { if (fin + err) return; if (how & 1) r->error(QGrpcStatus(Code::Internal, QStringLiteral("i"))); else { vt::MSInt32 m(7); r->setData(enc(m)); r->finished(); } }; if (how & 2) QTimer::singleShot(0, r, end); else end(); };
    symx_thread_create([](void *p) { XAsync *x = (XAsync *)p; x->r = x->c->call(QStringLiteral("m"), QByteArray("a")); if (x->act == 1 && x->r) x->r->abort(); if (x->act == 2) x->r.reset(); workerDone(); }, &x); mainLoop(1);
    symx_check(ch->foreign == 0 && !away, "everything happens in the client's thread"); symx_check(ch->calls.size() == 1, "one request"); if (act != 1) symx_check(fin == !(how & 1) && err == (how & 1), "one completion"); else if (how & 2) symx_check((fin + err == 1) | (code == Code::Aborted), "completion or abort"); if (act == 0) { symx_check(x.r && x.r.get() == x.raw, "the caller gets the reply"); if (fin) symx_check(x.r->read<vt::MSInt32>().v() == 7, "data"); } x.r.reset(); pump(); delete c; pump(); symx_cover("done"); }
// data set by the channel while another thread reads it: one of the two values, no race
struct XData { QGrpcCallReply *r; int v; };
HARNESS(xt_data) { start(); auto ch = std::make_shared<HomeChannel>(); Client c; c.attachChannel(ch); auto r = c.call(QStringLiteral("m"), QByteArray("a")); vt::MSInt32 a(3), b(4); QByteArray ea = enc(a), eb = enc(b); r->setData(ea); static XData x; x.r = r.get(); symx_thread_create([](void *p) { XData *x = (XData *)p; x->v = x->r->read<vt::MSInt32>().v(); }, &x); r->setData(eb); symx_thread_join_all(); symx_check(x.v == 3 || x.v == 4, "one of the two values"); symx_check(r->read<vt::MSInt32>().v() == 4, "the last value"); symx_cover("done"); }
struct XStream { Client *c; int act; QGrpcStreamShared s; int msgs; bool away; };
HARNESS(xt_stream) { start(); auto ch = std::make_shared<HomeChannel>(); Client *c = new Client; c->attachChannel(ch); unsigned act = choose("act", 3); u8 d = sym<u8>("d"); XStream x{c, (int)act, nullptr, 0, false}; int fin = 0; QGrpcStream *raw = nullptr; bool bad = false;
    ch->onStream = [&](QGrpcStream *s) { raw = s; QObject::connect(s, &QGrpcStream::finished, [&] { ++fin; x.away |= !home(); raw = nullptr; }); for (int i = 0; i < 2; ++i) QTimer::singleShot(0, s, [&raw, d] { if (raw) { QByteArray b(1, 0); b.data()[0] = (char)d; raw->handler(b); } }); };
    static u8 want; want = d; static bool wrong; wrong = false;
    symx_thread_create([](void *p) { XStream *x = (XStream *)p; x->s = x->c->stream(QStringLiteral("m"), QByteArray("a"), [x](const QByteArray &b) { ++x->msgs; x->away |= !home(); wrong |= b.size() != 1 || (u8)b.at(0) != want; }); if (x->act == 1 && x->s) x->s->abort(); if (x->act == 2) x->s.reset(); workerDone(); }, &x); mainLoop(1);
    symx_check(ch->foreign == 0 && !x.away && !bad, "everything happens in the client's thread"); symx_check(ch->streams.size() == 1, "one request"); symx_check(!wrong, "payload"); symx_check(fin == (act == 1), "finished once after abort"); symx_check(act == 1 ? x.msgs <= 2 : x.msgs == 2, "each message once"); if (act == 0) symx_check(x.s && x.s.get() == raw, "the caller gets the stream"); x.s.reset(); pump(); delete c; pump(); symx_cover("done"); }
// a channel may only be attached in its own thread
HARNESS(xt_attach) { start(); auto ch = std::make_shared<HomeChannel>(); Client c; static bool thrown; struct A { Client *c; std::shared_ptr<HomeChannel> ch; }; static A a; a.c = &c; a.ch = ch; thrown = false; symx_thread_create([](void *) { try { a.c->attachChannel(a.ch); } catch (const std::runtime_error &) { thrown = true; } workerDone(); }, nullptr); mainLoop(1); symx_check(thrown, "documented exception"); a.ch.reset(); QByteArray r; symx_check(c.call(QStringLiteral("m"), QByteArray("a"), r).code() == Code::Unknown && ch->calls.empty(), "the client is unchanged"); symx_cover("done"); }
