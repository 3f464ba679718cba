// LIBS: protobuf grpc quick svc vt
// C26: the GrpcStream element of QML, against a reference model
#define NET_IMPL
#include "net.h"
#include "svc2.qpb.h"
#include "svc2_grpc.qpb.h"
#include <qquickgrpcstream_p.h>
#include <QPointer>
#include <QQmlEngine>
#include <QQmlContext>
using namespace vt::svc;
typedef QGrpcStatus::StatusCode Code;
static void skip() { symx_assume(false); }
#ifdef SYMX
extern "C" QObject *symx_jsengine; static void inEngine(QObject *) { if (!symx_jsengine) symx_jsengine = new QObject; } extern "C" QObject *symx_js_object(const QJSValue *); static QObject *jsObj(const QJSValue &v) { return symx_js_object(&v); }
#else
static QObject *jsObj(const QJSValue &v) { return v.toQObject(); }
static void inEngine(QObject *c) { static QQmlEngine *e = new QQmlEngine; QQmlEngine::setContextForObject(c, e->rootContext()); QQmlEngine::setObjectOwnership(c, QQmlEngine::CppOwnership); new QJSValue(e->newQObject(c)); }
#endif
// the channel: every stream it was asked to open, and which of them are still running
struct Chan : FakeChannel { struct S { QGrpcStream *s; int fin; bool gone; }; std::vector<S *> all;
    S *of(QGrpcStream *s) { for (S *x : all) if (x->s == s && !x->gone) return x; return nullptr; }
    void stream(QGrpcStream *st, const QString &s, QAbstractGrpcClient *c) override { FakeChannel::stream(st, s, c); if (of(st)) return; S *x = new S{st, 0, false}; all.push_back(x); QObject::connect(st, &QGrpcStream::finished, [x] { ++x->fin; }); QObject::connect(st, &QObject::destroyed, [x] { x->gone = true; }); }
    int running() { int n = 0; for (S *x : all) n += !x->gone && !x->fin; return n; } };
static const char *const methods[] = {"", "tick", "tock", "tocK", "ping", "Tick"};
struct Sigs { int err = 0, msg = 0, rv = 0, en = 0; Code code = Code::Ok; };
HARNESS(qml_hist) { setup(); qRegisterProtobufTypes(); qRegisterMetaType<Req>(); qRegisterMetaType<Top>(); qRegisterMetaType<Rep>();
    auto ch = std::make_shared<Chan>(); PlainClient *cl[2] = {new PlainClient, new PlainClient}; cl[0]->attachChannel(ch); cl[1]->attachChannel(ch); if (symx_param("nochannel", 0)) { delete cl[1]; cl[1] = new PlainClient; }
    QObject *args[4] = {nullptr, new Req(1, QString()), new Req(2, QString()), new Top}; int narg = 4;
    QQuickGrpcStream *e = new QQuickGrpcStream; inEngine(e); Sigs g;
    QObject::connect(e, &QQuickGrpcStream::error, [&](const QGrpcStatus &s) { ++g.err; g.code = s.code(); }); QObject::connect(e, &QQuickGrpcStream::messageReceived, [&, e](const QJSValue &v) { ++g.msg; symx_check(jsObj(v) && jsObj(v) == e->returnValue(), "the signal carries the return value"); }); QObject::connect(e, &QQuickGrpcStream::returnValueChanged, [&] { ++g.rv; }); QObject::connect(e, &QQuickGrpcStream::enabledChanged, [&] { ++g.en; });
    // the reference: settings, the stream that must be open, what was signalled
    bool enabled = false; int client = -1, method = 0, arg = 0; int oc = -1, om = 0, oa = 0; bool rv = false; int err = 0, msg = 0; Code code = Code::Ok; size_t opened = 0; bool failing = false, lost = false;
    auto fail = [&](Code c) { ++err; code = c; enabled = false; oc = -1; rv = false; };
    auto update = [&] { oc = -1; rv = false; failing = false; if (!enabled || client < 0 || !cl[client] || !method || !arg || !args[arg]) return;
        bool tick = method == 1 || method == 5; if (!tick && method != 2) return fail(Code::Unimplemented); if (tick ? arg == 3 : arg != 3) return fail(Code::InvalidArgument); if (client == 1 && symx_param("nochannel", 0)) return fail(Code::Unknown); oc = client; om = tick ? 1 : 2; oa = arg; rv = true; ++opened; };
    int steps = (int)symx_param("steps", 3); if (symx_param("open", 0)) { client = 0; method = 1; arg = 1; enabled = true; e->setClient(cl[0]); e->setMethod(QStringLiteral("tick")); e->setArgument(args[1]); e->setEnabled(true); update(); }
    for (int i = 0; i < steps; ++i) { QGrpcStream *cur = nullptr; if (oc >= 0 && ch->streams.size()) cur = ch->streams.back().stream; long e0 = i ? -1 : symx_param("e0", -1); switch (e0 < 0 ? choose("event", 11) : (unsigned)e0) {
        case 0: { bool on = choose("on", 2); e->setEnabled(on); if (on != enabled) { enabled = on; update(); } break; }
        case 1: { int m = (int)choose("method", 6); e->setMethod(QString::fromLatin1(methods[m])); if (m != method) { method = m; update(); } break; }
        case 2: { int a = (int)choose("arg", narg); if (a && !args[a]) skip(); e->setArgument(args[a]); if (a != arg && !(a == 0 && arg && !args[arg])) { arg = a; update(); } else arg = a; break; }
        case 3: { int c = (int)choose("client", 3) - 1; if (c >= 0 && !cl[c]) skip(); e->setClient(c < 0 ? nullptr : cl[c]); bool was = client >= 0 && cl[client]; if (c != client && (c >= 0 || was)) { client = c; update(); } else client = c; break; }
        case 4: { if (!cur || failing) skip(); u64 u = sym<u64>("u"); int r = sym<int>("r"); if (om == 1) { Top t; t.setO(Other(u)); cur->handler(enc(t)); } else cur->handler(enc(Rep(r, QString()))); ++msg; QObject *o = e->returnValue(); symx_check(o, "return value"); if (o) symx_check(om == 1 ? (u64)qobject_cast<Top *>(o)->o().u() == u : qobject_cast<Rep *>(o)->r() == r, "the return value is the message"); break; }
        case 5: if (!cur) skip(); cur->finished(); enabled = false; update(); break;
        case 6: if (!cur || failing) skip(); cur->error({QGrpcStatus::Unavailable, QStringLiteral("lost")}); ++err; code = Code::Unavailable; failing = true; break;
        case 7: if (!arg || !args[arg]) skip(); delete args[arg]; args[arg] = nullptr; break;
        case 8: { int c = (int)choose("client", 2); if (!cl[c]) skip(); delete cl[c]; cl[c] = nullptr; if (oc == c) { oc = -1; lost = true; } break; }
        case 9: pump(); break;
        case 10: pump(2000); if (oc >= 0 && failing) { failing = false; ++opened; } break; }
        if (oc >= 0) lost = false;
        symx_check(e->enabled() == enabled, "enabled"); symx_check(g.err == err && (!err || g.code == code), "errors, each once with its code"); symx_check(g.msg == msg, "messages, each once");
        if (!(client >= 0 && !cl[client] && oc < 0)) symx_check((e->returnValue() != nullptr) == rv, "a return value exactly while a stream is open");
        symx_check(ch->streams.size() == opened, "requests"); symx_check(ch->running() == (oc >= 0), "one stream while the element is enabled and complete, none otherwise");
        if (oc >= 0) { const FakeChannel::Call &k = ch->streams.back(); symx_check(k.client == cl[oc] && k.method == QLatin1String(om == 1 ? "tick" : "tock"), "the stream of the client and the method"); if (om == 1) { Req q; dec(q, k.arg); symx_check(q.n() == oa, "with the argument"); } } }
    if (choose("order", 2)) { delete e; symx_check(ch->running() == 0, "destroying the element cancels its stream"); delete cl[0]; delete cl[1]; } else { delete cl[0]; delete cl[1]; delete e; } pump(); pump(2000); symx_cover("done"); }
// two elements of one client with different streams do not disturb each other
HARNESS(qml_two) { setup(); qRegisterProtobufTypes(); auto ch = std::make_shared<Chan>(); PlainClient *cl = new PlainClient; cl->attachChannel(ch); Req a(1, QString()), b(2, QString()); Top t; QQuickGrpcStream *e[2]; Sigs g[2]; bool on[2] = {true, true}; int msg[2] = {0, 0}, err[2] = {0, 0}; QGrpcStream *s[2]; bool other = choose("methods", 2);
    for (int k = 0; k < 2; ++k) { e[k] = new QQuickGrpcStream; inEngine(e[k]); Sigs *p = &g[k]; QObject::connect(e[k], &QQuickGrpcStream::error, [p](const QGrpcStatus &x) { ++p->err; p->code = x.code(); }); QObject::connect(e[k], &QQuickGrpcStream::messageReceived, [p, el = e[k]](const QJSValue &v) { ++p->msg; symx_check(jsObj(v) && jsObj(v) == el->returnValue(), "the signal carries the return value"); }); e[k]->setClient(cl); e[k]->setMethod(k && other ? QStringLiteral("tock") : QStringLiteral("tick")); e[k]->setArgument(k ? other ? (QObject *)&t : &b : &a); e[k]->setEnabled(true); symx_check(ch->streams.size() == (size_t)k + 1, "a stream each"); s[k] = ch->streams.back().stream; }
    int steps = (int)symx_param("steps", 3); for (int i = 0; i < steps; ++i) { int k = (int)choose("which", 2); switch (choose("event", 5)) {
        case 0: if (!on[k]) skip(); else { QObject *o = e[!k]->returnValue(); u64 u = sym<u64>("u"); symx_assume(u < 128); if (k && other) s[k]->handler(enc(Rep((int)u, QString()))); else { Top m; m.setO(Other(u)); s[k]->handler(enc(m)); QObject *v = e[k]->returnValue(); symx_check(v && (u64)qobject_cast<Top *>(v)->o().u() == u, "its own message"); } ++msg[k]; symx_check(e[!k]->returnValue() == o, "the other value stays"); } break;
        case 1: if (!on[k]) skip(); s[k]->error({QGrpcStatus::Internal, QString()}); ++err[k]; break;
        case 2: if (!on[k]) skip(); s[k]->finished(); on[k] = false; break;
        case 3: if (!e[k]) skip(); e[k]->setEnabled(!on[k]); on[k] = !on[k]; if (on[k]) s[k] = ch->streams.back().stream; break;
        case 4: pump(); break; }
        for (int j = 0; j < 2; ++j) { symx_check(e[j]->enabled() == on[j], "enabled"); symx_check((e[j]->returnValue() != nullptr) == on[j], "return value"); symx_check(g[j].msg == msg[j] && g[j].err == err[j], "messages and errors of its own stream, each once"); } symx_check(ch->running() == on[0] + on[1], "a stream each while enabled"); }
    delete e[0]; symx_check(ch->running() == on[1], "the other stream goes on"); delete e[1]; delete cl; pump(); symx_cover("done"); }
