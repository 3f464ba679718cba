// LIBS: protobuf grpc native svc vt
// C25: the grpc++ channel. The real qgrpcchannel.cpp over a stand-in for grpc++ (model/grpcshim), its worker threads scheduled by the executor
#define NET_IMPL
#define GRPC_SHIM_IMPL
#include <grpcshim.h>
#include "net.h"
#include <qgrpcchannel.h>
#include <QThread>
#include <QPointer>
typedef QGrpcStatus::StatusCode Code;
static void skip() { symx_assume(false); }
#ifdef SYMX
extern "C" void symx_pump_wait(); extern "C" void symx_yield();
template <class F> static void pumpUntil(F f) { for (int i = 0; !f(); ++i) { symx_pump_wait(); if (i > 200) symx_fail("never happens"); } }
#else
static void symx_yield() {}
template <class F> static void pumpUntil(F f) { QElapsedTimer t; t.start(); while (!f()) { QCoreApplication::processEvents(); QCoreApplication::sendPostedEvents(nullptr, QEvent::DeferredDelete); QThread::msleep(1); if (t.elapsed() > 5000) symx_fail("waits for an event that never comes"); } }
#endif
static std::shared_ptr<QGrpcChannel> native() { return std::make_shared<QGrpcChannel>(QUrl(QStringLiteral("http://h:1")), grpc::InsecureChannelCredentials()); }
static std::string str(const QByteArray &b) { return std::string(b.constData(), (size_t)b.size()); }
// any way to cut up to n bytes into slices
static std::vector<std::string> slices(const QByteArray &b) { std::vector<std::string> v; unsigned k = symx_param("sl", 1) ? choose("slices", 3) : 0; if (k == 0) { if (b.size()) v.push_back(str(b)); return v; } unsigned c = b.size() ? choose("cut", b.size() + 1) : 0; v.push_back(str(b.left(c))); if (k == 2) v.push_back(std::string()); v.push_back(str(b.mid(c))); return v; }
// one synchronous call
static unsigned gCode; static QByteArray gBody; static std::string gMsg;
HARNESS(nat_sync) { setup(); auto ch = native(); Client c; c.attachChannel(ch); QByteArray arg = symBytes("arg", (int)choose("al", 3)); gCode = choose("code", 17); gBody = symBytes("body", gCode ? 0 : (int)choose("bl", 4)); static std::vector<std::string> v; v = slices(gBody); QString msg; if (gCode) { gMsg = "b"; u8 x = sym<u8>("x"); if (choose("wide", 2)) { symx_assume((x >= 0x80) & (x < 0xc0)); gMsg += (char)0xc3; gMsg += (char)x; msg = QString(QLatin1Char('b')) + QChar((ushort)(x + 0x40)); } else { symx_assume((x > 0) & (x < 0x80)); gMsg += (char)x; msg = QString(QLatin1Char('b')) + QChar((ushort)x); } } else gMsg = ""; int cerr = 0; Code cc = Code::Ok; QObject::connect(&c, &QAbstractGrpcClient::error, [&](const QGrpcStatus &s) { ++cerr; cc = s.code(); });
    symx_thread_create([](void *) { grpcshim::awaitCalls(1); if (!gCode) grpcshim::give(0, v); grpcshim::end(0, (int)gCode, gMsg); }, nullptr);
    QByteArray ret("old"); QGrpcStatus st = c.call(QStringLiteral("m"), arg, ret); symx_thread_join_all(); symx_check(st.code() == (Code)gCode, "status of the call"); symx_check(!gCode || st.message() == msg, "message of the status"); symx_check(gCode || same(ret, gBody), "reply"); symx_check(cerr == (gCode != 0) && (!gCode || cc == (Code)gCode), "failure reported once");
    symx_check(grpcshim::calls.size() == 1 && !grpcshim::calls[0]->streaming && grpcshim::calls[0]->method == "/s.S/m", "one unary request of the method"); symx_check(same(QByteArray(grpcshim::calls[0]->request.data(), (int)grpcshim::calls[0]->request.size()), arg), "with the argument"); pump(); symx_cover("done"); }
// one asynchronous call: any history of at most `steps` events, any schedule of its worker
HARNESS(nat_async) { setup(); auto ch = native(); Client *c = new Client; c->attachChannel(ch); int cerr = 0; Code cc = Code::Ok; QObject::connect(c, &QAbstractGrpcClient::error, [&](const QGrpcStatus &s) { ++cerr; cc = s.code(); }); QByteArray arg = symBytes("arg", 1); auto r = c->call(QStringLiteral("m"), arg); QGrpcCallReply *raw = r.get(); int fin = 0, err = 0; Code code = Code::Ok; bool away = false; QThread *home = QThread::currentThread(); u8 v = sym<u8>("v"); symx_assume(v < 64); int got = -1; vt::MSInt32 pay; pay.setV((int)v);
    r->subscribe(c, [&] { ++fin; away |= QThread::currentThread() != home; got = raw->read<vt::MSInt32>().v(); }, [&](const QGrpcStatus &s) { ++err; away |= QThread::currentThread() != home; code = s.code(); symx_check(code == Code::Aborted || s.message() == QString(QLatin1Char('b')) + QChar((ushort)0xe9), "message of the server"); });
    enum { Pending, Ok, Failed } answer = Pending; bool aborted = false, done = false; Code want = Code::Ok; int steps = (int)symx_param("steps", 2); bool fixed = symx_param("e0", -1) >= 0;
    for (int i = 0; i < steps; ++i) { symx_yield(); long e0 = i ? symx_param("e1", -1) : symx_param("e0", -1); switch (e0 < 0 ? choose("event", 8) : (unsigned)e0) {
        case 0: if (answer) skip(); grpcshim::awaitCalls(1); grpcshim::give(0, slices(enc(pay))); grpcshim::end(0, 0, ""); answer = Ok; break;
        case 1: if (answer) skip(); grpcshim::awaitCalls(1); gCode = 1 + choose("code", 3) * 6; grpcshim::end(0, (int)gCode, "b\xc3\xa9"); answer = Failed; want = (Code)gCode; break;
        case 2: if (!r || !c || fin || err || aborted) skip(); r->abort(); aborted = true; symx_check(err == 1 && code == Code::Aborted, "an aborted call fails at once"); break;
        case 3: if (!r) skip(); r.reset(); break;
        case 4: if (!answer || aborted || !c) skip(); pumpUntil([&] { return fin + err > 0; }); break;
        case 5: if (!c) skip(); delete c; c = nullptr; break;
        case 6: pump(); break;
        case 7: if (!c || ch == nullptr) skip(); c->attachChannel(native()); ch.reset(); break; }
        symx_check(fin + err <= 1, "completed at most once"); symx_check(!away, "in the caller's thread"); symx_check(!fin || (answer == Ok && got == (int)v && !aborted), "finished only with the answer"); symx_check(!err || (aborted ? code == Code::Aborted : answer == Failed && code == want), "failed only with its status"); symx_check(cerr == err && (!err || cc == code), "the client reports the failure once"); done = fin + err > 0; }
    if (answer && c && !aborted) { pumpUntil([&] { return fin + err > 0; }); symx_check(answer == Ok ? fin == 1 && err == 0 && got == (int)v : err == 1 && fin == 0 && code == want, "every answer arrives"); }
    pump(); symx_check(fin + err <= 1, "completed at most once"); bool live = c; if (live && (answer || aborted)) symx_check(fin + err == 1, "completed"); 
    if (choose("order", 2)) { r.reset(); delete c; } else { delete c; r.reset(); } ch.reset(); pump(); pump(); symx_thread_join_all(); symx_check(fin + err <= 1 && !away, "nothing after the end"); symx_check(grpcshim::calls.size() <= 1 && (grpcshim::calls.empty() || (grpcshim::calls[0]->method == "/s.S/m" && same(QByteArray(grpcshim::calls[0]->request.data(), (int)grpcshim::calls[0]->request.size()), arg))), "one request of the method with the argument"); symx_cover("done"); }
// one stream: any history of at most `steps` events, any schedule of its workers
HARNESS(nat_stream) { setup(); auto ch = native(); Client *c = new Client; c->attachChannel(ch); int cerr = 0, wantErr = 0, fin = 0, err = 0, msgs = 0; Code cc = Code::Ok; QObject::connect(c, &QAbstractGrpcClient::error, [&](const QGrpcStatus &s) { ++cerr; cc = s.code(); }); QByteArray arg = symBytes("arg", 1); std::vector<QByteArray> got, want; bool away = false; QThread *home = QThread::currentThread();
    auto s = c->stream(QStringLiteral("m"), arg, [&](const QByteArray &d) { got.push_back(d); away |= QThread::currentThread() != home; }); QObject::connect(s.get(), &QGrpcStream::finished, [&] { ++fin; away |= QThread::currentThread() != home; }); QObject::connect(s.get(), &QGrpcStream::error, [&](const QGrpcStatus &x) { symx_check(x.message() == QString(QLatin1Char('b')) + QChar((ushort)0xe9), "message of the server"); ++err; away |= QThread::currentThread() != home; }); QObject::connect(s.get(), &QGrpcStream::messageReceived, [&] { ++msgs; });
    size_t req = 1; bool open = true, active = true, held = true; size_t frozen = (size_t)-1; int steps = (int)symx_param("steps", 3); Code last = Code::Ok; // open: the server may still answer; active: not ended for the user
    auto stop = [&] { frozen = got.size(); active = open = false; };
    for (int i = 0; i < steps; ++i) { symx_yield(); char pn[3] = {'e', (char)('0' + i), 0}; long e0 = symx_param(pn, -1); switch (e0 < 0 ? choose("event", 10) : (unsigned)e0) {
        case 0: { if (!open) skip(); QByteArray p = symBytes("p", (int)choose("len", 2)); want.push_back(p); grpcshim::give(req - 1, slices(p)); break; }
        case 1: if (!open) skip(); grpcshim::end(req - 1, 0, ""); open = false; pumpUntil([&] { return fin > 0; }); symx_check(got.size() == want.size(), "every message before the end"); stop(); break;
        case 2: if (!open) skip(); gCode = 1 + choose("code", 3) * 6; last = (Code)gCode; grpcshim::end(req - 1, (int)gCode, "b\xc3\xa9"); ++wantErr; open = false; pumpUntil([&] { return err == wantErr; }); symx_check(got.size() == want.size(), "every message before the failure"); symx_check(cc == last && fin == 0, "status of the stream, which goes on"); break;
        case 3: if (!active || !held) skip(); s->abort(); symx_check(fin == 1, "an aborted stream ends at once"); stop(); break;
        case 4: if (!held) skip(); s.reset(); held = false; break;
        case 5: if (!c) skip(); { int f0 = fin; delete c; c = nullptr; if (active) stop(); (void)f0; } break;
        case 6: pump(); break;
        case 7: if (!open) skip(); pumpUntil([&] { return got.size() == want.size(); }); break;
        case 8: if (open || !active || !c) skip(); pump(1000); ++req; open = true; break;
        case 9: if (!c || !ch) skip(); c->attachChannel(native()); ch.reset(); if (active) { symx_check(fin == 1, "attaching a channel ends the stream"); stop(); } break; }
        symx_check(!away, "in the caller's thread"); symx_check(got.size() <= want.size() && got.size() <= frozen, "no message twice, none after the end"); symx_check(fin <= 1 && (!fin || !active), "finished once, when ended"); symx_check(err == wantErr && cerr == wantErr, "every failure once"); symx_check(msgs == (int)got.size(), "one messageReceived per message"); }
    if (open) { pumpUntil([&] { return got.size() == want.size(); }); }
    for (size_t i = 0; i < got.size(); ++i) symx_check(same(got[i], want[i]), "messages in order with their payload"); bool fate = active; size_t n = got.size(); if (choose("order", 2)) { s.reset(); delete c; } else { delete c; s.reset(); } c = nullptr; ch.reset(); pump(); pump(1000); symx_thread_join_all(); symx_check(got.size() == n && err == wantErr && cerr == wantErr && fin <= 1 && !away, "nothing after the client is gone"); (void)fate;
    symx_check(grpcshim::calls.size() == req, "requests"); for (auto &k : grpcshim::calls) symx_check(k->streaming && k->method == "/s.S/m" && same(QByteArray(k->request.data(), (int)k->request.size()), arg), "streaming request of the method with the argument"); symx_cover("done"); }
// what callbacks may do while they are called; a second call or stream made there works like any other
HARNESS(nat_reent) { setup(); auto ch = native(); Client *c = new Client; QPointer<Client> alive(c); c->attachChannel(ch); unsigned where = symx_param("where", -1) < 0 ? choose("where", 5) : (unsigned)symx_param("where", 0), what = symx_param("what", -1) < 0 ? choose("what", 8) : (unsigned)symx_param("what", 0); int fin = 0, err = 0, cerr = 0, fin2 = 0; bool acted = false, returned = false; QGrpcCallReplyShared r, r2; QGrpcStreamShared s, s2; std::vector<QByteArray> got; std::vector<int> got2; QByteArray ret; QGrpcStatus st; u8 v = sym<u8>("v"); symx_assume(v < 64); vt::MSInt32 pay; pay.setV((int)v); QByteArray body = enc(pay); std::vector<std::string> bv{str(body)}; static std::vector<std::string> sv; sv = bv; QObject::connect(c, &QAbstractGrpcClient::error, [&](const QGrpcStatus &) { ++cerr; });
    auto act = [&] { if (acted) return; acted = true; switch (what) { case 0: break; case 1: r.reset(); s.reset(); break; case 2: c->deleteLater(); break; case 3: c->attachChannel(native()); ch.reset(); break;
        case 4: { r2 = c->call(QStringLiteral("n"), QByteArray("b")); QGrpcCallReply *q = r2.get(); r2->subscribe(c, [&, q] { ++fin2; got2.push_back(q->read<vt::MSInt32>().v()); }); break; }
        case 5: s2 = c->stream(QStringLiteral("t"), QByteArray("b"), [&](const QByteArray &d) { got2.push_back(d.size()); }); break;
        case 6: symx_thread_create([](void *) { size_t i = grpcshim::awaitMethod("/s.S/n"); grpcshim::give(i, sv); grpcshim::end(i, 0, ""); }, nullptr); st = c->call(QStringLiteral("n"), QByteArray("b"), ret); returned = true; break;
        case 7: if (s) s->abort(); break; } };
    if (where < 2) { r = c->call(QStringLiteral("m"), QByteArray("a")); r->subscribe(c, [&] { ++fin; act(); }, [&](const QGrpcStatus &) { ++err; act(); }); grpcshim::awaitCalls(1); if (!where) { grpcshim::give(0, bv); grpcshim::end(0, 0, ""); } else grpcshim::end(0, 14, "bad"); if (what == 7) skip(); pumpUntil([&] { return fin + err > 0; }); }
    else { s = c->stream(QStringLiteral("m"), QByteArray("a"), [&](const QByteArray &d) { got.push_back(d); if (where == 2) act(); }); QGrpcStream *raw = s.get(); QObject::connect(raw, &QGrpcStream::finished, c, [&] { ++fin; if (where == 3) act(); }); QObject::connect(raw, &QGrpcStream::error, c, [&](const QGrpcStatus &) { ++err; if (where == 4) act(); }); if (where == 3 && what == 7) skip(); grpcshim::give(0, {"x"}); grpcshim::give(0, {"yz"}); if (where != 2) grpcshim::end(0, where == 3 ? 0 : 14, "bad"); pumpUntil([&] { return acted; }); }
    bool ended = where == 2 && (what == 2 || what == 3 || what == 7); if (where == 2) { if (!ended) pumpUntil([&] { return got.size() == 2; }); else { pump(); if (what != 2) symx_check(got.size() == 1, "nothing after the end"); } symx_check(fin == ((what == 3) | (what == 7)) && err == 0, "ended by the callback only"); } else if (where > 2) symx_check(got.size() == 2, "every message before the end");
    for (size_t i = 0; i < got.size(); ++i) symx_check(got[i] == (i ? "yz" : "x"), "messages in order"); pump(); if (where == 4) symx_check(err == 1 && fin == ((what == 3) | (what == 7)), "one failure"); else if (where != 2) symx_check(fin == (where != 1) && err == (where == 1), "one completion"); symx_check(cerr == err, "client reports the failure"); symx_check(bool(alive) == (what != 2), "client deleted when asked");
    if (what == 4) { size_t i = grpcshim::awaitMethod("/s.S/n"); grpcshim::give(i, bv); grpcshim::end(i, 0, ""); pumpUntil([&] { return fin2 > 0; }); symx_check(fin2 == 1 && got2.size() == 1 && got2[0] == (int)v, "the call made by the callback completes"); } else if (what == 5) { grpcshim::give(grpcshim::awaitMethod("/s.S/t"), {"pq"}); pumpUntil([&] { return !got2.empty(); }); symx_check(got2.size() == 1 && got2[0] == 2, "the stream made by the callback works"); } else if (what == 6) symx_check(returned && st.code() == Code::Ok && same(ret, body), "the blocking call made by the callback returns its reply");
    if (choose("order", 2)) { r.reset(); r2.reset(); s.reset(); s2.reset(); } if (alive) delete c; r.reset(); r2.reset(); s.reset(); s2.reset(); ch.reset(); pump(); symx_thread_join_all(); symx_cover("done"); }
// two calls and a stream under way at once, answered in any order: each answer reaches its own caller
HARNESS(nat_two) { setup(); auto ch = native(); Client *c = new Client; c->attachChannel(ch); u8 v[2] = {sym<u8>("v"), sym<u8>("v")}; symx_assume((v[0] < 64) & (v[1] < 64)); QGrpcCallReplyShared r[2]; int fin[2] = {0, 0}, err[2] = {0, 0}, got[2] = {-1, -1}; QByteArray m = symBytes("m", 1); std::vector<QByteArray> sgot; bool stream = symx_param("stream", 0); QGrpcStreamShared s; static const char *const N[] = {"a", "b"}, *const P[] = {"/s.S/a", "/s.S/b"}; if (stream) s = c->stream(QStringLiteral("t"), QByteArray("q"), [&](const QByteArray &d) { sgot.push_back(d); });
    for (int i = 0; i < (stream ? 1 : 2); ++i) { r[i] = c->call(QLatin1String(N[i]), QByteArray(1, (char)v[i])); QGrpcCallReply *q = r[i].get(); r[i]->subscribe(c, [&, i, q] { ++fin[i]; got[i] = q->read<vt::MSInt32>().v(); }, [&, i](const QGrpcStatus &) { ++err[i]; }); }
    unsigned first = choose("first", 2), bad = choose("bad", 3); for (unsigned k = 0; k < 2; ++k) { unsigned i = k ^ first; if (stream && i == 1) { grpcshim::give(0, slices(m)); if (choose("see", 2)) pumpUntil([&] { return sgot.size() == 1; }); continue; } size_t x = grpcshim::awaitMethod(P[i]); vt::MSInt32 pay; pay.setV((int)v[i]); if (bad == i) grpcshim::end(x, 5, "bad"); else { grpcshim::give(x, {str(enc(pay))}); grpcshim::end(x, 0, ""); } if (choose("see", 2)) pumpUntil([&] { return fin[i] + err[i] > 0; }); }
    pumpUntil([&] { return fin[0] + err[0] > 0 && (stream ? sgot.size() == 1 : fin[1] + err[1] > 0); }); for (unsigned i = 0; i < 2; ++i) if (!stream || i == 0) symx_check(bad == i ? err[i] == 1 && fin[i] == 0 : fin[i] == 1 && err[i] == 0 && got[i] == (int)v[i], "each reply to its own caller"); if (stream) symx_check(same(sgot[0], m), "message of the stream");
    delete c; r[0].reset(); r[1].reset(); s.reset(); ch.reset(); pump(); symx_thread_join_all(); symx_check(grpcshim::calls.size() == 2, "two requests"); for (auto &k : grpcshim::calls) for (int i = 0; i < 2; ++i) if (k->method == P[i]) symx_check(same(QByteArray(k->request.data(), (int)k->request.size()), QByteArray(1, (char)v[i])), "each with its argument"); symx_cover("done"); }
