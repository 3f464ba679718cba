// LIBS: protobuf grpc svc vt
// C14-C17: the client object, its replies and streams, against reference models
#define NET_IMPL
#include "net.h"
#include "svc2.qpb.h"
#include "svc2_grpc.qpb.h"
#include <QPointer>
#include <QQmlEngine>
#include <QQmlContext>
using namespace vt::svc;
typedef QGrpcStatus::StatusCode Code;
static void skip() { symx_assume(false); }
// ------------------------------------------------------------------ C14
// one asynchronous call over HTTP/2; any history of at most `steps` events
struct Sub { int fin, err; Code code; int val; bool early, dead; QObject *rcv; };
HARNESS(call_hist) { setup(); auto ch = http2(); Client *c = new Client; c->attachChannel(ch); int cerr = 0; Code ccode = Code::Ok; QObject::connect(c, &QAbstractGrpcClient::error, [&](const QGrpcStatus &s) { ++cerr; ccode = s.code(); });
    auto r = c->call(QStringLiteral("m"), QByteArray("a")); symx_check(posts.size() == 1 && r, "one request"); FakeReply *f = posts[0].reply; int gone = 0; f->gone = &gone; Sub sub[8]; int ns = 0; QGrpcCallReply *raw = r.get();
    int v = sym<int>("v"); vt::MSInt32 pay; pay.setV(v); QByteArray body = frame(enc(pay));
    enum { Pending, Ok, Failed, Aborted } st = Pending; Code want = Code::Ok; bool loose = false, completed = false;
    auto subscribe = [&] { Sub &s = sub[ns++]; s = Sub{0, 0, Code::Ok, 0, st == Pending, false, new QObject}; raw->subscribe(s.rcv, [&s, raw] { ++s.fin; s.val = raw->read<vt::MSInt32>().v(); }, [&s](const QGrpcStatus &x) { ++s.err; s.code = x.code(); }); };
    subscribe(); int steps = (int)symx_param("steps", 3);
    for (int i = 0; i < steps; ++i) { switch (choose("event", 10)) {
        case 0: if (gone || f->isFinished()) skip(); f->buf = body; f->complete(QNetworkReply::NoError, "0"); if (st == Pending && c) st = Ok; break;
        case 1: { if (gone || f->isFinished()) skip(); f->complete(QNetworkReply::NoError, "7", "denied"); if (st == Pending && c) { st = Failed; want = Code::PermissionDenied; } break; }
        case 2: if (gone || f->isFinished()) skip(); f->complete(QNetworkReply::HostNotFoundError); if (st == Pending && c) { st = Failed; want = Code::Unavailable; } break;
        case 3: if (!r || !c) skip(); if (st == Pending) { st = Aborted; want = Code::Aborted; } else loose = true; r->abort(); break;
        case 4: if (!r) skip(); r.reset(); break;
        case 5: if (!r || !c || ns == 4) skip(); subscribe(); break;
        case 6: pump(); break;
        case 7: pump(6000); if (st == Pending && c) { st = Failed; want = Code::Unavailable; } break;
        case 8: if (!c) skip(); delete c; c = nullptr; break;
        case 9: if (sub[0].dead) skip(); delete sub[0].rcv; sub[0].rcv = nullptr; if (st == Pending) sub[0].early = false; sub[0].dead = true; break; }
        if (st != Pending && !completed) { completed = true; symx_check(cerr == (st != Ok), "the client reports a failure once, a success never"); symx_check(st == Ok || ccode == want, "with its status"); }
        symx_check(cerr == (completed && st != Ok), "nothing else is reported by the client");
        for (int k = 0; k < ns; ++k) { Sub &s = sub[k]; if (!s.early) { if (!loose) symx_check(s.fin == 0 && s.err == 0, "no completion for later or removed subscribers"); continue; } symx_check(s.fin == (st == Ok), "finished exactly once on success only"); if (!loose) symx_check(s.err == (st == Failed || st == Aborted), "error exactly once on failure only"); if (st == Ok && s.fin) symx_check(s.val == v, "reply data"); if (!loose && s.err) symx_check(s.code == want, "status"); } }
    if (choose("order", 2)) { r.reset(); delete c; } else { delete c; r.reset(); } pump(); pump(6000); for (int k = 0; k < ns; ++k) delete sub[k].rcv; symx_cover("done"); }
// what a completion callback may do: release the reply, delete the client or a receiver, abort, start another call
HARNESS(call_reent) { setup(); auto ch = http2(); Client *c = new Client; c->attachChannel(ch); auto r = c->call(QStringLiteral("m"), QByteArray("a")); auto other = c->call(QStringLiteral("m"), QByteArray("b")); QGrpcCallReplyShared next; QObject *rcv = new QObject; int fin = 0, err = 0, late = 0, of = 0, oe = 0, cerr = 0; Code oc = Code::Ok; unsigned what = choose("what", 6); bool ok = choose("ok", 2); bool once = false;
    QObject::connect(c, &QAbstractGrpcClient::error, [&](const QGrpcStatus &) { ++cerr; });
    auto act = [&] { if (once) return; once = true; switch (what) { case 0: r.reset(); break; case 1: { Client *x = c; c = nullptr; delete x; break; } case 2: { QObject *x = rcv; rcv = nullptr; delete x; break; } case 3: other->abort(); break; case 4: next = c->call(QStringLiteral("n"), QByteArray("c")); break; case 5: c->attachChannel(http2()); break; } };
    r->subscribe(c, [&] { ++fin; act(); }, [&](const QGrpcStatus &) { ++err; act(); }); r->subscribe(rcv, [&] { ++late; }, [&](const QGrpcStatus &) { ++late; }); other->subscribe(c, [&] { ++of; }, [&](const QGrpcStatus &s) { ++oe; oc = s.code(); });
    int gone0 = 0, gone1 = 0; FakeReply *f = posts[0].reply, *g = posts[1].reply; f->gone = &gone0; g->gone = &gone1; f->buf = frame("x"); f->complete(QNetworkReply::NoError, ok ? "0" : "3");
    symx_check(fin == ok && err == !ok, "one completion"); symx_check(late == (what == 0 || what == 3 || what == 4 || what == 5), "other subscribers"); symx_check(oe == (what == 3) && (what != 3 || oc == Code::Aborted) && of == 0, "the other call is only ended by abort");
    symx_check(posts.size() == (what == 4 ? 3u : 2u), "requests"); if (choose("turn", 2)) pump(); if (!gone1) { g->buf = frame("y"); g->complete(QNetworkReply::NoError, "0"); } symx_check(of == (what == 0 || what == 2 || what == 4 || what == 5), "completion of the other call"); symx_check(what == 1 || cerr == !ok + (what == 3), "errors of the client"); r.reset(); other.reset(); next.reset(); pump(); delete c; pump(6000); symx_check(fin + err == 1, "nothing later"); delete rcv; symx_cover("done"); }
// ------------------------------------------------------------------ C15
// two streams keys on a recording channel; any history of at most `steps` events, against a reference registry
struct MStream { bool active, out; QGrpcStream *s; QGrpcStreamShared ref; std::vector<int> handlers; int fins, msgs; };
HARNESS(stream_hist) { setup(); std::shared_ptr<FakeChannel> ch[2] = {std::make_shared<FakeChannel>(), std::make_shared<FakeChannel>()}; int cur = 0; Client *c = new Client; c->attachChannel(ch[0]); int cerr = 0, wantErr = 0; QObject::connect(c, &QAbstractGrpcClient::error, [&](const QGrpcStatus &s) { symx_check(s.code() == Code::Unavailable, "status of the stream"); ++cerr; });
    static const char *const M[3] = {"m", "m", "n"}; static const char *const A[3] = {"a", "b", "a"}; int keys = (int)symx_param("keys", 2); MStream ms[3][6]; int gen[3] = {0, 0, 0}; for (auto &x : ms) for (auto &y : x) y = MStream{false, false, nullptr, nullptr, {}, 0, 0};
    std::vector<std::pair<int, QByteArray>> log, want; int nh = 0; size_t req[2] = {0, 0}; int steps = (int)symx_param("steps", 4); struct Timer { int k, g; long at; }; std::vector<Timer> timers; long now = 0;
    auto open = [&](int k) { int h = nh++; auto s = c->stream(QLatin1String(M[k]), QByteArray(A[k]), [&log, h](const QByteArray &d) { log.push_back({h, d}); }); MStream *m = &ms[k][gen[k]]; if (!m->active) { if (m->s) m = &ms[k][++gen[k]]; m->active = m->out = true; m->s = s.get(); m->ref = s; ++req[cur]; QObject::connect(s.get(), &QGrpcStream::finished, [m] { ++m->fins; }); QObject::connect(s.get(), &QGrpcStream::messageReceived, [m] { ++m->msgs; }); } symx_check(s && s.get() == m->s, "same stream while active, a new one otherwise"); m->handlers.push_back(h); };
    auto fire = [&](long ms_) { now += ms_; pump(ms_); for (size_t i = 0; i < timers.size();) if (timers[i].at <= now) { MStream &m = ms[timers[i].k][timers[i].g]; if (m.active) { ++req[cur]; m.out = true; } timers.erase(timers.begin() + i); } else ++i; };
    open(0);
    for (int i = 0; i < steps; ++i) { int k = 0; unsigned ev = choose("event", 8); if (ev < 5 && keys > 1) k = choose("key", keys); MStream &m = ms[k][gen[k]]; int f0 = m.fins; switch (ev) {
        case 0: open(k); break;
        case 1: { if (!m.active || !m.out) skip(); QByteArray d(1, 0); d.data()[0] = sym<char>("msg"); for (int h : m.handlers) want.push_back({h, d}); int n0 = m.msgs; m.s->handler(d); symx_check(m.msgs == n0 + 1, "messageReceived once"); break; }
        case 2: if (!m.active || !m.out) skip(); m.out = false; ++wantErr; timers.push_back({k, gen[k], now + 1000}); m.s->error(QGrpcStatus(Code::Unavailable, QStringLiteral("e"))); symx_check(m.fins == f0, "an error does not finish the stream"); break;
        case 3: if (!m.active || !m.out) skip(); m.active = false; m.s->finished(); symx_check(m.fins == f0 + 1, "finished once"); break;
        case 4: if (!m.active) skip(); m.active = false; m.s->abort(); symx_check(m.fins == f0 + 1, "abort finishes the stream"); break;
        case 5: fire(1000); break;
        case 6: cur ^= 1; for (int q = 0; q < 3; ++q) { ms[q][gen[q]].active = false; } c->attachChannel(ch[cur]); for (int q = 0; q < 3; ++q) if (ms[q][gen[q]].s) symx_check(ms[q][gen[q]].fins == 1, "attaching a channel ends the streams"); break;
        case 7: fire(400); break; }
        for (int q = 0; q < 2; ++q) symx_check(ch[q]->streams.size() == req[q], "requests on the channel"); symx_check(cerr == wantErr, "every error reported once"); symx_check(log.size() == want.size(), "handlers called"); }
    for (size_t i = 0; i < log.size(); ++i) symx_check(log[i].first == want[i].first && same(log[i].second, want[i].second), "each handler once, in order, with the payload");
    for (auto &x : ch) for (auto &q : x->streams) { bool known = false; for (int k = 0; k < 3; ++k) for (auto &m : ms[k]) if (m.s && m.s == q.stream) known = q.method == QLatin1String(M[k]) && q.arg == A[k] && q.service == QLatin1String("s.S") && q.client == c; symx_check(known, "request of the stream's own method and argument"); }
    fire(1000); for (int q = 0; q < 2; ++q) symx_check(ch[q]->streams.size() == req[q], "requests on the channel at the end"); for (auto &x : ms) for (auto &y : x) if (y.s) symx_check(y.fins == !y.active, "ended streams finished once");
    if (choose("order", 2)) for (auto &x : ms) for (auto &y : x) y.ref.reset(); delete c; pump(2000); for (int q = 0; q < 2; ++q) symx_check(ch[q]->streams.size() == req[q], "no request after the client is gone"); for (auto &x : ms) for (auto &y : x) y.ref.reset(); pump(); symx_cover("done"); }
// two streams with any method letter and argument bytes: one and the same exactly if both agree; ending one leaves the other active
HARNESS(stream_keys) { setup(); auto ch = std::make_shared<FakeChannel>(); Client c; c.attachChannel(ch); QString m[2]; QByteArray mb[2]; QByteArray a[2]; int cnt[2] = {0, 0}; QGrpcStreamShared s[2]; unsigned l = (unsigned)symx_param("len", 2) + 1; for (int i = 0; i < 2; ++i) { mb[i] = symBytes("m", 1 + choose("ml", 2)); for (char x : mb[i]) symx_assume(((x >= 'a') & (x <= 'z')) | ((x >= 'A') & (x <= 'Z')) | (x == '_')); m[i] = QString::fromLatin1(mb[i]); a[i] = symBytes("a", choose("al", l)); }
    for (int i = 0; i < 2; ++i) s[i] = c.stream(m[i], a[i], [&cnt, i](const QByteArray &) { ++cnt[i]; }); bool eq = same(mb[0], mb[1]) && same(a[0], a[1]); symx_check((s[0] == s[1]) == eq, "the same stream exactly for the same method and argument"); symx_check(ch->streams.size() == (eq ? 1u : 2u), "one request per stream"); for (size_t i = 0; i < ch->streams.size(); ++i) symx_check(same(ch->streams[i].arg, a[i]) && ch->streams[i].method == m[i], "own method and argument");
    s[1]->handler(QByteArray("x")); symx_check(cnt[0] == eq && cnt[1] == 1, "handlers of its own stream"); unsigned e = choose("end", 4); QGrpcStreamShared keep = s[0], dead = s[1]; if (e & 1) std::swap(keep, dead); if (e & 2) dead->abort(); else dead->finished(); size_t n = ch->streams.size(); int ik = (e & 1) ? 1 : 0, id = 1 - ik; if (!eq) { auto t = c.stream(m[ik], a[ik], [](const QByteArray &) {}); symx_check(t == keep && ch->streams.size() == n, "the other stream is still active"); } auto u = c.stream(m[id], a[id], [](const QByteArray &) {}); symx_check(u != dead && ch->streams.size() == n + 1, "an ended stream is requested anew"); symx_cover("done"); }
// what handlers and slots may do while they are called
HARNESS(stream_reent) { setup(); auto ch = std::make_shared<FakeChannel>(), ch2 = std::make_shared<FakeChannel>(); Client *c = new Client; c->attachChannel(ch); QGrpcStreamShared s, t, extra; int first = 0, second = 0, added = 0, fin = 0, sfin = 0, cerr = 0; unsigned what = choose("what", 7), when = choose("when", 3); bool once = false;
    t = c->stream(QStringLiteral("t"), QByteArray(), [](const QByteArray &) {}); QObject::connect(t.get(), &QGrpcStream::finished, [&] { ++fin; }); QObject::connect(c, &QAbstractGrpcClient::error, [&](const QGrpcStatus &) { ++cerr; });
    auto act = [&] { if (once) return; once = true; switch (what) { case 0: s->abort(); break; case 1: extra = c->stream(QStringLiteral("m"), QByteArray("a"), [&](const QByteArray &) { ++added; }); break; case 2: extra = c->stream(QStringLiteral("o"), QByteArray("a"), [&](const QByteArray &) { ++added; }); break; case 3: t->abort(); break; case 4: c->attachChannel(ch2); break; case 5: s.reset(); break; case 6: break; } };
    s = c->stream(QStringLiteral("m"), QByteArray("a"), [&](const QByteArray &) { ++first; if (when == 0) act(); }); c->stream(QStringLiteral("m"), QByteArray("a"), [&](const QByteArray &) { ++second; }); QGrpcStream *p = s.get(); QObject::connect(p, &QGrpcStream::error, [&](const QGrpcStatus &) { if (when == 1) act(); }); QObject::connect(p, &QGrpcStream::finished, [&] { ++sfin; if (when == 2) act(); });
    symx_check(ch->streams.size() == 2, "two requests"); if (when == 2 && what == 0) skip(); // abort from finished is a second finished by definition
    switch (when) { case 0: p->handler(QByteArray("x")); symx_check(first == 1 && second == 1, "every registered handler is called once"); symx_check(added == 0, "a handler added meanwhile is not part of this message"); break; case 1: p->error(QGrpcStatus(Code::Unavailable)); symx_check(cerr == 1, "error reported"); break; case 2: p->finished(); symx_check(sfin == 1, "finished once"); break; }
    bool ended = when == 2 || what == 0 || what == 4; symx_check(sfin == ended, "the stream is finished by abort, finish and attach only"); symx_check(fin == (what == 3 || what == 4), "the other stream");
    size_t n = 2; if (what == 2) ++n; if (what == 1 && when == 2) ++n; symx_check(ch->streams.size() == n, "requests"); pump(1000); if (when == 1 && !ended) ++n; symx_check(ch->streams.size() == n && ch2->streams.empty(), "requested again only if still active"); 
    if (what == 1) { symx_check((extra.get() == p) == (when != 2), "same stream while active"); extra->handler(QByteArray("y")); symx_check(added == 1, "the added handler gets later messages"); symx_check(first == (when == 2 ? 0 : when == 0 ? 2 : 1), "old handlers only on the same stream"); }
    s.reset(); t.reset(); extra.reset(); pump(); delete c; pump(2000); symx_check(ch->streams.size() == n, "no request later"); symx_cover("done"); }
// the same over HTTP/2: network requests of one stream through failures, retries, abort and completion
HARNESS(stream_net) { setup(); auto ch = http2(); Client *c = new Client; c->attachChannel(ch); int cerr = 0, wantErr = 0, msgs = 0, wantMsgs = 0, fins = 0; QObject::connect(c, &QAbstractGrpcClient::error, [&](const QGrpcStatus &) { ++cerr; }); auto s = c->stream(QStringLiteral("m"), QByteArray("a"), [&](const QByteArray &) { ++msgs; }); QObject::connect(s.get(), &QGrpcStream::finished, [&] { ++fins; });
    size_t req = 1; bool active = true, out = true; long timer = -1, now = 0; int steps = (int)symx_param("steps", 3); std::vector<int> gone(8, 0); posts[0].reply->gone = &gone[0]; int timers = 0; (void)timers;
    for (int i = 0; i < steps; ++i) { FakeReply *f = posts.back().reply; switch (choose("event", 8)) {
        case 0: if (!out) skip(); f->arrive(frame(QByteArray("z"))); ++wantMsgs; break;
        case 1: { if (!out) skip(); out = false; f->complete(choose("net", 2) ? QNetworkReply::TimeoutError : QNetworkReply::ConnectionRefusedError); ++wantErr; timer = now + 1000; break; }
        case 2: if (!out) skip(); out = false; f->complete(QNetworkReply::NoError, "14", "x"); ++wantErr; timer = now + 1000; break;
        case 3: if (!out) skip(); f->complete(QNetworkReply::RemoteHostClosedError); ++req; break;
        case 4: if (!out) skip(); out = active = false; f->complete(QNetworkReply::NoError, "0"); break;
        case 5: if (!active) skip(); active = false; if (out) { int a0 = f->aborts; s->abort(); symx_check(f->aborts > a0, "the request is cancelled"); } else s->abort(); out = false; break;
        case 6: pump(500); now += 500; break;
        case 7: pump(1000); now += 1000; break; }
        if (timer >= 0 && timer <= now) { timer = -1; if (active) { ++req; out = true; } }
        symx_check(posts.size() == req, "requests"); symx_check(cerr == wantErr && msgs == wantMsgs, "errors and messages"); symx_check(fins == !active, "finished exactly when ended"); if (!gone[posts.size() - 1]) posts.back().reply->gone = &gone[posts.size() - 1]; }
    for (size_t i = 1; i < posts.size(); ++i) symx_check(posts[i].body == posts[0].body && posts[i].req.url().path() == QLatin1String("/s.S/m"), "the same request again");
    pump(); for (size_t i = 0; i + 1 < posts.size(); ++i) symx_check(gone[i] == 1, "replaced replies are released"); if (!active) symx_check(gone[posts.size() - 1] == 1, "the reply of an ended stream is released"); if (choose("order", 2)) s.reset(); delete c; pump(2000); symx_check(posts.size() == req, "no request after the client is gone"); s.reset(); pump(); symx_cover("done"); }
// ------------------------------------------------------------------ C16
static bool decodeRef(Rep &m, const QByteArray &b, Code &code) { QProtobufSerializer s; try { m.deserialize(&s, b); return true; } catch (const std::out_of_range &) { code = Code::OutOfRange; } catch (const std::invalid_argument &) { code = Code::InvalidArgument; } return false; }
struct Errs { int n = 0; Code code = Code::Ok; QString msg; void on(QAbstractGrpcClient *c) { QObject::connect(c, &QAbstractGrpcClient::error, [this](const QGrpcStatus &s) { ++n; code = s.code(); msg = s.message(); }); } };
static bool sameRep(const Rep &a, const Rep &b) { return a.r() == b.r() && same(a.t(), b.t()); }
static QByteArray wireRep() { int n = (int)symx_param("n", 4); return symBytes("reply", symx_param("exact", 0) ? n : (int)choose("n", n + 1)); }
// config: 0 no channel, 1 channel without serializer, 2 working channel
HARNESS(cli_sync) { setup(); EchoClient c; Errs e; e.on(&c); auto ch = std::make_shared<FakeChannel>(); unsigned cfg = choose("cfg", 3); bool null = choose("null", 2); if (cfg) c.attachChannel(ch); ch->noSerializer = cfg == 1; if (cfg == 2 && !null && choose("bad", 2)) { ch->code = (Code)(1 + choose("code", 16)); ch->message = QStringLiteral("srv"); } ch->data = wireRep(); Rep *ret = new Rep(5, QStringLiteral("old")); Req q(sym<int>("q"), QStringLiteral("s"));
    QGrpcStatus st = c.say(q, QPointer<Rep>(null ? nullptr : ret)); Rep before(5, QStringLiteral("old")), ref; Code want = Code::Ok; bool ok = false;
    if (null) want = Code::InvalidArgument; else if (cfg != 2) want = Code::Unknown; else if (ch->code != Code::Ok) want = ch->code; else ok = decodeRef(ref, ch->data, want);
    symx_check(st.code() == want, "status"); symx_check(e.n == !ok, "reported exactly once on failure, never on success"); symx_check(ok || (e.code == want && e.msg == st.message()), "the reported status is the returned one"); symx_check(!ok || sameRep(*ret, ref), "the return object is the decoded reply"); if (want != Code::Ok && !(cfg == 2 && !null && ch->code == Code::Ok)) symx_check(sameRep(*ret, before), "the return object is untouched"); symx_check(ch->calls.size() == (cfg == 2 && !null ? 1u : 0u), "requests"); delete ret; symx_cover("done"); }
HARNESS(cli_async) { setup(); EchoClient c; Errs e; e.on(&c); auto ch = std::make_shared<FakeChannel>(); unsigned cfg = choose("cfg", 3); if (cfg) c.attachChannel(ch); ch->noSerializer = cfg == 1; Req q; QGrpcCallReplyShared r = c.say(q);
    if (cfg != 2) { symx_check(!r && e.n == 1 && e.code == Code::Unknown, "no reply object, one error"); symx_check(ch->calls.empty(), "no request"); c.say(q, &c, [](QGrpcCallReplyShared) { symx_fail("callback without a call"); }); symx_check(e.n == 2 && e.code == Code::Unknown, "callback variant reports too"); symx_cover("done"); return; }
    symx_check(r && ch->calls.size() == 1 && e.n == 0, "one request"); QByteArray d = wireRep(); Rep ref, got; Code want = Code::Ok; bool ok = decodeRef(ref, d, want); int fin = 0; r->subscribe(&c, [&] { ++fin; got = r->read<Rep>(); }); bool lost = choose("lost", 2); if (lost) ch->noSerializer = true; r->setData(d); r->finished();
    symx_check(fin == 1, "finished"); if (lost) symx_check(e.n == 1 && e.code == Code::Unknown, "no serializer at read"); else if (ok) symx_check(e.n == 0 && sameRep(got, ref), "decoded reply, no error"); else symx_check(e.n == 1 && e.code == want, "decoding failure reported once"); symx_cover("done"); }
HARNESS(cli_stream) { setup(); EchoClient c; Errs e; e.on(&c); auto ch = std::make_shared<FakeChannel>(); unsigned cfg = choose("cfg", 3), kind = choose("kind", 3); if (cfg) c.attachChannel(ch); ch->noSerializer = cfg == 1; Req q; Rep *ret = new Rep(5, QStringLiteral("old")); QGrpcStreamShared s = kind == 0 ? c.streamWatch(q) : c.streamWatch(q, QPointer<Rep>(kind == 1 ? ret : nullptr));
    if (cfg != 2 || kind == 2) { symx_check(!s && e.n == 1 && e.code == (kind == 2 ? Code::InvalidArgument : Code::Unknown), "no stream, one error"); symx_check(ch->streams.empty(), "no request"); delete ret; symx_cover("done"); return; }
    symx_check(s && ch->streams.size() == 1 && e.n == 0, "one request"); QByteArray d = wireRep(); Rep ref; Code want = Code::Ok; bool ok = decodeRef(ref, d, want); unsigned how = kind == 1 ? choose("how", 3) : 0; if (how == 1) { delete ret; ret = nullptr; } if (how == 2) ch->noSerializer = true;
    if (kind == 0) { Rep got; QObject::connect(s.get(), &QGrpcStream::messageReceived, [&] { got = s->read<Rep>(); }); s->handler(d); if (ok) symx_check(e.n == 0 && sameRep(got, ref), "decoded message"); else symx_check(e.n == 1 && e.code == want, "decoding failure reported once"); }
    else { s->handler(d); if (how == 1) symx_check(e.n == 1 && e.code == Code::InvalidArgument, "return object is gone"); else if (how == 2) symx_check(e.n == 1 && e.code == Code::Unknown, "no serializer"); else if (ok) symx_check(e.n == 0 && sameRep(*ret, ref), "decoded message"); else symx_check(e.n == 1 && e.code == want, "decoding failure reported once"); }
    delete ret; symx_cover("done"); }
// the QML entry points report the same failures
#ifdef SYMX
extern "C" QObject *symx_jsengine; extern "C" void symx_js_function(QJSValue *, const std::function<void(int, const void *)> *); static void inEngine(QObject *) { symx_jsengine = new QObject; }
// a JS function that records what it is called with
struct JsLog { int n = 0; QObject *obj = nullptr; bool status = false; Code code = Code::Ok; QString msg; QJSValue fn() { QJSValue v; std::function<void(int, const void *)> f = [this](int t, const void *p) { ++n; obj = t == qMetaTypeId<Rep *>() ? (QObject *)*(Rep **)p : nullptr; status = t == qMetaTypeId<QGrpcStatus>(); if (status) { const QGrpcStatus &s = *(const QGrpcStatus *)p; code = s.code(); msg = s.message(); } }; symx_js_function(&v, &f); return v; } void sync() {} };
#else
static QQmlEngine *jsEng;
struct JsLog { int n = 0; QObject *obj = nullptr; bool status = false; Code code = Code::Ok; QString msg, name; QJSValue fn() { static int k; name = QStringLiteral("log%1").arg(k++); jsEng->globalObject().setProperty(name, jsEng->newArray()); return jsEng->evaluate(QStringLiteral("(function(x){ %1.push(x); })").arg(name)); } void sync() { QJSValue a = jsEng->globalObject().property(name); n = a.property(QStringLiteral("length")).toInt(); if (!n) return; QJSValue l = a.property(n - 1); obj = l.toQObject(); QVariant v = l.toVariant(); status = v.userType() == qMetaTypeId<QGrpcStatus>(); if (status) { code = v.value<QGrpcStatus>().code(); msg = v.value<QGrpcStatus>().message(); } } };
static void inEngine(QObject *c) { QQmlEngine *e = new QQmlEngine; jsEng = e; QQmlEngine::setContextForObject(c, e->rootContext()); QQmlEngine::setObjectOwnership(c, QQmlEngine::CppOwnership); new QJSValue(e->newQObject(c)); }
#endif
HARNESS(cli_qml) { setup(); PlainClient c; inEngine(&c); Errs e; e.on(&c); auto ch = std::make_shared<FakeChannel>(); unsigned cfg = choose("cfg", 3), op = choose("op", 2); if (cfg) c.attachChannel(ch); ch->noSerializer = cfg == 1; Top arg; Top tret; Rep *ret = new Rep(5, QStringLiteral("old")); Req q; bool null = choose("null", 2);
    if (op == 0) { c.ping(&arg, null ? nullptr : ret, QJSValue()); if (null) symx_check(ch->calls.empty(), "no request without a return object"); else if (cfg != 2) symx_check(e.n == 1 && e.code == Code::Unknown && ch->calls.empty(), "reported, no request"); else { symx_check(e.n == 0 && ch->calls.size() == 1, "one request"); QByteArray d = wireRep(); Rep ref; Code want = Code::Ok; bool ok = decodeRef(ref, d, want); bool dead = choose("dead", 2); if (dead) { delete ret; ret = nullptr; } ch->calls[0].reply->setData(d); ch->calls[0].reply->finished(); if (dead) symx_check(e.n == 0, "ignored without a return object"); else if (ok) symx_check(e.n == 0 && sameRep(*ret, ref), "decoded reply"); else symx_check(e.n == 1 && e.code == want, "decoding failure reported once"); } }
    else { QGrpcStreamShared s = c.qmlStreamTick_p(&q, null ? nullptr : &tret); if (cfg != 2 || null) symx_check(!s && e.n == 1 && e.code == (null ? Code::InvalidArgument : Code::Unknown) && ch->streams.empty(), "reported, no request"); else symx_check(s && e.n == 0 && ch->streams.size() == 1, "one request"); }
    delete ret; symx_cover("done"); }
// ------------------------------------------------------------------ C17
static Req symReq() { return Req(sym<int>("qn"), mk<QString>("qs")); }
static Other symOther() { return Other(sym<u64>("ou")); }
static QByteArray wReq(const Req &q) { Writer w; if (q.n()) { w.tag(1, 0); w.varint(zz32(q.n())); } QByteArray t = q.s().toUtf8(); if (t.size()) { w.tag(2, 2); w.bytes(t); } return w.b; }
static QByteArray wOther(u64 u) { Writer w; if (u) { w.tag(1, 0); w.varint(u); } return w.b; }
struct RepVal { int r; QString t; }; static QByteArray wRep(const RepVal &v) { Writer w; w.tag(1, 0); w.varint(zz32(v.r)); QByteArray t = v.t.toUtf8(); w.tag(2, 2); w.bytes(t); return w.b; }
static bool isRep(const Rep &m, const RepVal &v) { return m.r() == v.r && same(m.t(), v.t); }
// arguments are compared as an independent decoder reads them
struct Arg { int kind; int n; QString s; u64 u; }; // 0 Req, 1 Other, 2 Top, 3 Nothing
static Arg aReq(const Req &q) { return Arg{0, q.n(), q.s(), 0}; } static Arg aOther(u64 u) { return Arg{1, 0, QString(), u}; } static Arg aTop(u64 u) { return Arg{2, 0, QString(), u}; } static Arg aNothing() { return Arg{3, 0, QString(), 0}; }
static bool readsAs(const u8 *p, u32 len, const Arg &a) { Reader r(p, len); Rec x; u64 v = 0; QByteArray t; bool sub = a.kind != 2; while (r.next(x)) { if (a.kind <= 1 && x.field == 1 && x.wt == 0) v = x.val; else if (a.kind == 0 && x.field == 2 && x.wt == 2) t = QByteArray((const char *)x.p, (int)x.len); else if (a.kind == 2 && x.field == 1 && x.wt == 2) sub = readsAs(x.p, x.len, aOther(a.u)); else return false; }
    return r.ok && (sub || a.u == 0) && (a.kind == 0 ? (u32)v == zz32(a.n) && same(t, a.s.toUtf8()) : a.kind != 1 || v == a.u); }
static void checkCall(const FakeChannel::Call &k, const char *service, const char *method, const Arg &arg) { symx_check(k.service == QLatin1String(service), "service name of the .proto"); symx_check(k.method == QLatin1String(method), "method name of the .proto"); symx_check(readsAs((const u8 *)k.arg.constData(), k.arg.size(), arg), "serialized argument"); }
// run one unary method through its three entry points
template <class C, class A, class R, class CheckR> static void unary(const char *service, const char *method, QGrpcStatus (C::*sync)(const A &, const QPointer<R> &), QGrpcCallReplyShared (C::*async)(const A &), void (C::*cb)(const A &, const QObject *, const std::function<void(QGrpcCallReplyShared)> &), const A &arg, const Arg &warg, const QByteArray &reply, CheckR good) {
    C c; Errs e; e.on(&c); auto ch = std::make_shared<FakeChannel>(); c.attachChannel(ch); ch->data = reply; long how = symx_param("how", -1); unsigned h = how < 0 ? choose("how", 3) : (unsigned)how; int n = 0;
    if (h == 0) { R *r = new R; QGrpcStatus s = (c.*sync)(arg, QPointer<R>(r)); symx_check(s.code() == Code::Ok, "Ok"); good(*r); delete r; ++n; }
    else { QGrpcCallReplyShared r; if (h == 1) { r = (c.*async)(arg); symx_check(!!r, "reply"); r->subscribe(&c, [&] { ++n; good(r->template read<R>()); }); } else (c.*cb)(arg, &c, [&](QGrpcCallReplyShared x) { ++n; good(x->template read<R>()); }); symx_check(ch->calls.size() == 1 && n == 0, "one request"); ch->calls[0].reply->setData(reply); ch->calls[0].reply->finished(); }
    symx_check(n == 1 && e.n == 0, "one result, no error"); symx_check(ch->calls.size() == 1 && ch->streams.empty(), "one request"); checkCall(ch->calls[0], service, method, warg); pump(); symx_cover("done"); }
template <class C, class A, class R, class CheckR> static void streamy(const char *service, const char *method, QGrpcStreamShared (C::*plain)(const A &), QGrpcStreamShared (C::*into)(const A &, const QPointer<R> &), const A &arg, const Arg &warg, const QByteArray &reply, CheckR good) {
    C c; Errs e; e.on(&c); auto ch = std::make_shared<FakeChannel>(); c.attachChannel(ch); int n = 0; R *ret = new R; bool in = choose("into", 2); QGrpcStreamShared s = in ? (c.*into)(arg, QPointer<R>(ret)) : (c.*plain)(arg); symx_check(s && ch->streams.size() == 1 && ch->calls.empty(), "one request"); checkCall(ch->streams[0], service, method, warg); symx_check(ch->streams[0].client == &c && ch->streams[0].stream == s.get(), "of this client");
    QObject::connect(s.get(), &QGrpcStream::messageReceived, [&] { ++n; good(in ? *ret : s->template read<R>()); }); s->handler(reply); symx_check(n == 1 && e.n == 0, "one message, no error"); delete ret; s.reset(); pump(); symx_cover("done"); }
static RepVal symRep() { return RepVal{sym<int>("rr"), mk<QString>("rt")}; }
HARNESS(svc_say) { setup(); Req q = symReq(); RepVal v = symRep(); unary<EchoClient, Req, Rep>("vt.svc.Echo", "say", &EchoClient::say, &EchoClient::say, &EchoClient::say, q, aReq(q), wRep(v), [&](const Rep &m) { symx_check(isRep(m, v), "decoded reply"); }); }
HARNESS(svc_sayAgain) { setup(); Req q = symReq(); u64 u = sym<u64>("u"); unary<EchoClient, Req, Other>("vt.svc.Echo", "sayAgain", &EchoClient::sayAgain, &EchoClient::sayAgain, &EchoClient::sayAgain, q, aReq(q), wOther(u), [&](const Other &m) { symx_check((u64)m.u() == u, "decoded reply"); }); }
HARNESS(svc_upper) { setup(); u64 o = sym<u64>("o"); RepVal v = symRep(); unary<EchoClient, Other, Rep>("vt.svc.Echo", "SayLoud_2", &EchoClient::SayLoud_2, &EchoClient::SayLoud_2, &EchoClient::SayLoud_2, Other(o), aOther(o), wRep(v), [&](const Rep &m) { symx_check(isRep(m, v), "decoded reply"); }); }
HARNESS(svc_nothing) { setup(); unary<EchoClient, Nothing, Nothing>("vt.svc.Echo", "nothing", &EchoClient::nothing, &EchoClient::nothing, &EchoClient::nothing, Nothing(), aNothing(), QByteArray(), [&](const Nothing &) {}); }
HARNESS(svc_second) { setup(); u64 o = sym<u64>("o"); Req q = symReq(); unary<SecondClient, Other, Req>("vt.svc.Second", "say", &SecondClient::say, &SecondClient::say, &SecondClient::say, Other(o), aOther(o), wReq(q), [&](const Req &m) { symx_check(m.n() == q.n() && same(m.s(), q.s()), "decoded reply"); }); }
HARNESS(svc_plain) { setup(); u64 o = sym<u64>("o"); RepVal v = symRep(); Top t; t.setO(Other(o)); unary<PlainClient, Top, Rep>("Plain", "ping", &PlainClient::ping, &PlainClient::ping, &PlainClient::ping, t, aTop(o), wRep(v), [&](const Rep &m) { symx_check(isRep(m, v), "decoded reply"); }); }
HARNESS(svc_watch) { setup(); Req q = symReq(); RepVal v = symRep(); streamy<EchoClient, Req, Rep>("vt.svc.Echo", "watch", &EchoClient::streamWatch, &EchoClient::streamWatch, q, aReq(q), wRep(v), [&](const Rep &m) { symx_check(isRep(m, v), "decoded message"); }); }
HARNESS(svc_listen) { setup(); u64 o = sym<u64>("o"), u = sym<u64>("u"); streamy<EchoClient, Other, Other>("vt.svc.Echo", "listen", &EchoClient::streamListen, &EchoClient::streamListen, Other(o), aOther(o), wOther(u), [&](const Other &m) { symx_check((u64)m.u() == u, "decoded message"); }); }
HARNESS(svc_watchAll) { setup(); u64 o = sym<u64>("o"); Req q = symReq(); streamy<EchoClient, Other, Req>("vt.svc.Echo", "WatchAll", &EchoClient::streamWatchAll, &EchoClient::streamWatchAll, Other(o), aOther(o), wReq(q), [&](const Req &m) { symx_check(m.n() == q.n() && same(m.s(), q.s()), "decoded message"); }); }
HARNESS(svc_tick) { setup(); Req q = symReq(); u64 u = sym<u64>("u"); Writer w; w.tag(1, 2); w.bytes(wOther(u)); streamy<PlainClient, Req, Top>("Plain", "tick", &PlainClient::streamTick, &PlainClient::streamTick, q, aReq(q), w.b, [&](const Top &m) { symx_check((u64)m.o().u() == u, "decoded message"); }); }
// entry points for QML: a call with JS callbacks, a call into an object, a stream into an object
HARNESS(svc_qml) { setup(); PlainClient c; inEngine(&c); Errs e; e.on(&c); auto ch = std::make_shared<FakeChannel>(); c.attachChannel(ch); u64 o = sym<u64>("o"); RepVal v = symRep(); Top t; t.setO(Other(o)); JsLog good, bad; unsigned op = choose("op", 2), how = choose("how", 5); Rep *ret = new Rep(5, QStringLiteral("old")); RepVal before{5, QStringLiteral("old")}; QJSValue cb = good.fn(), er = bad.fn();
    if (how >= 3) { if (op == 0) c.ping(how == 3 ? nullptr : &t, how == 4 ? QJSValue() : cb, er); else c.ping(how == 3 ? nullptr : &t, how == 4 ? (Rep *)nullptr : ret, er); pump(); good.sync(); bad.sync(); symx_check(ch->calls.empty() && good.n == 0, "no request without an argument or a place for the result"); delete ret; symx_cover("done"); return; }
    if (op == 0) c.ping(&t, cb, er); else c.ping(&t, ret, er); symx_check(ch->calls.size() == 1 && ch->streams.empty(), "one request"); checkCall(ch->calls[0], "Plain", "ping", aTop(o)); auto r = ch->calls[0].reply; good.sync(); bad.sync(); symx_check(good.n == 0 && bad.n == 0 && isRep(*ret, before), "nothing before the reply");
    if (how == 0) { r->setData(wRep(v)); r->finished(); good.sync(); bad.sync(); symx_check(bad.n == 0 && e.n == 0, "no error"); if (op == 0) { symx_check(good.n == 1, "one callback"); Rep *m = qobject_cast<Rep *>(good.obj); symx_check(m != nullptr, "called with the declared return type"); symx_check(isRep(*m, v), "decoded reply"); } else symx_check(isRep(*ret, v), "decoded reply"); }
    else { int code = 1 + (int)choose("code", 16); r->error(QGrpcStatus((Code)code, QStringLiteral("srv"))); good.sync(); bad.sync(); symx_check(good.n == 0 && bad.n == 1 && bad.status, "one error callback"); symx_check(bad.code == (Code)code && bad.msg == QStringLiteral("srv"), "with the status"); symx_check(isRep(*ret, before), "result untouched"); }
    symx_check(ch->calls.size() == 1 && ch->streams.empty(), "one request"); delete ret; pump(); symx_cover("done"); }
HARNESS(svc_qmlstream) { setup(); PlainClient c; inEngine(&c); Errs e; e.on(&c); auto ch = std::make_shared<FakeChannel>(); c.attachChannel(ch); int n = 0; QGrpcStreamShared s; if (choose("rpc", 2)) { Req q = symReq(); u64 u = sym<u64>("u"); Writer w; w.tag(1, 2); w.bytes(wOther(u)); Top ret; s = c.qmlStreamTick_p(&q, &ret); symx_check(s && ch->streams.size() == 1 && ch->calls.empty(), "one request"); checkCall(ch->streams[0], "Plain", "tick", aReq(q)); QObject::connect(s.get(), &QGrpcStream::messageReceived, [&] { ++n; }); s->handler(w.b); symx_check((u64)ret.o().u() == u, "decoded message"); s.reset(); }
    else { u64 o = sym<u64>("o"); Top t; t.setO(Other(o)); RepVal v = symRep(); Rep ret; s = c.qmlStreamTock_p(&t, &ret); symx_check(s && ch->streams.size() == 1 && ch->calls.empty(), "one request"); checkCall(ch->streams[0], "Plain", "tock", aTop(o)); QObject::connect(s.get(), &QGrpcStream::messageReceived, [&] { ++n; }); s->handler(wRep(v)); symx_check(isRep(ret, v), "decoded message"); s.reset(); }
    symx_check(n == 1 && e.n == 0, "one message, no error"); pump(); symx_cover("done"); }
