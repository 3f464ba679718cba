// LIBS: protobuf grpc svc vt
// C11, C12, C13: the HTTP/2 channel against a network whose behaviour is symbolic
#define NET_IMPL
#include "net.h"
struct Got { std::vector<QByteArray> v; void operator()(const QByteArray &d) { v.push_back(d); } };
// ------------------------------------------------------------------ C11
// n messages of 0..len bytes with any content, cut into at most `cuts`+1 chunks at any place, total possibly truncated
HARNESS(strm_chunks) { setup(); auto ch = http2(); Client c; c.attachChannel(ch); std::vector<QByteArray> got; int sig = 0, fin = 0, err = 0;
    auto s = c.stream(QStringLiteral("m"), QByteArray("x"), [&](const QByteArray &d) { got.push_back(d); }); QObject::connect(s.get(), &QGrpcStream::messageReceived, [&] { ++sig; }); QObject::connect(s.get(), &QGrpcStream::finished, [&] { ++fin; }); QObject::connect(s.get(), &QGrpcStream::error, [&](const QGrpcStatus &) { ++err; });
    symx_check(posts.size() == 1, "one request"); FakeReply *r = posts[0].reply;
    int n = 1 + (int)choose("n", (unsigned)symx_param("n", 2)); std::vector<QByteArray> msg; QByteArray all; std::vector<int> ends; for (int i = 0; i < n; ++i) { msg.push_back(symBytes("p", choose("len", (unsigned)symx_param("len", 2) + 1))); all.append(frame(msg.back())); ends.push_back(all.size()); }
    if (symx_param("trunc", 1)) { int t = choose("tail", 7); symx_assume(t <= all.size() - (n > 1 ? ends[n - 2] : 0)); all.chop(t); }
    int cuts = (int)symx_param("cuts", 2), at = 0; for (int i = 0; i <= cuts && at < all.size(); ++i) { int k = i == cuts ? all.size() - at : 1 + (int)choose("cut", 32); symx_assume(k <= all.size() - at); r->arrive(all.mid(at, k)); at += k; if (symx_param("turn", 0)) pump();
        int done = 0; while (done < n && ends[done] <= at) ++done; symx_check((int)got.size() == done, "every complete message is delivered at once, nothing else"); }
    for (size_t i = 0; i < got.size(); ++i) symx_check(same(got[i], msg[i]), "payload of the message"); symx_check(sig == (int)got.size(), "one messageReceived per message");
    size_t before = got.size(); r->complete(QNetworkReply::NoError, "0"); symx_check(got.size() == before, "completion delivers nothing"); symx_check(fin == 1 && err == 0, "finished once"); pump(); symx_check(posts.size() == 1, "no further request"); symx_cover("done"); }
// any length prefix, followed by a few bytes
HARNESS(strm_prefix) { setup(); auto ch = http2(); Client c; c.attachChannel(ch); std::vector<QByteArray> got; auto s = c.stream(QStringLiteral("m"), QByteArray(), [&](const QByteArray &d) { got.push_back(d); }); FakeReply *r = posts[0].reply;
    u8 h[5] = {0, sym<u8>("l3"), sym<u8>("l2"), sym<u8>("l1"), sym<u8>("l0")}; u32 L = (u32)h[1] << 24 | h[2] << 16 | h[3] << 8 | h[4]; int k = (int)symx_param("k", 3); QByteArray p = symBytes("p", k), d((const char *)h, 5); d.append(p); r->arrive(d);
    if (L > (u32)k) symx_check(got.empty(), "incomplete message produces no call"); else { symx_check(!got.empty() && same(got[0], p.left((int)L)), "first message"); }
    r->complete(QNetworkReply::NoError, "0"); pump(); symx_cover("done"); }
// a long message, whole or cut once, with a short one behind it in the same chunk
HARNESS(strm_long) { setup(); auto ch = http2(); Client c; c.attachChannel(ch); std::vector<QByteArray> got; auto s = c.stream(QStringLiteral("m"), QByteArray("x"), [&](const QByteArray &d) { got.push_back(d); }); FakeReply *r = posts[0].reply; static const int L[] = {255, 256, 1019, 4096, 16379, 16384, 65531, 65536, 70000}; int k = L[choose("len", (unsigned)symx_param("lens", 9))]; QByteArray p(k, 'z'), q = symBytes("q", 1); p.data()[0] = sym<char>("first"); p.data()[k - 1] = sym<char>("last"); QByteArray all = frame(p) + frame(q); int cut; switch (choose("cut", 5)) { case 0: cut = 0; break; case 1: cut = 3; break; case 2: cut = 5; break; case 3: cut = k; break; default: cut = k + 5 + 2; }
    if (cut) { r->arrive(all.left(cut)); symx_check((int)got.size() == (cut >= k + 5), "nothing before the message is complete"); } r->arrive(all.mid(cut)); symx_check(got.size() == 2, "both messages"); symx_check(got[0].size() == k && got[0].at(0) == p.at(0) && got[0].at(k - 1) == p.at(k - 1) && got[0].at(k / 2) == 'z', "payload of the long message"); symx_check(same(got[1], q), "payload of the short message"); r->complete(QNetworkReply::NoError, "0"); pump(); symx_cover("done"); }
// five messages (empty, short and long) in chunks of 1..9, 64 or 300 bytes, with and without turns of the event loop between them
HARNESS(strm_steps) { setup(); auto ch = http2(); Client c; c.attachChannel(ch); std::vector<QByteArray> got; auto s = c.stream(QStringLiteral("m"), QByteArray("x"), [&](const QByteArray &d) { got.push_back(d); }); FakeReply *r = posts[0].reply; QByteArray big((int)symx_param("big", 130), 'z'); big.data()[big.size() - 1] = sym<char>("last"); QByteArray msg[5] = {symBytes("p", 3), QByteArray(), big, symBytes("q", 1), QByteArray("end")}; QByteArray all; int ends[5]; unsigned rot = choose("rot", 5); for (int i = 0; i < 5; ++i) { all.append(frame(msg[(i + rot) % 5])); ends[i] = all.size(); } unsigned k = choose("step", 11); int step = k < 9 ? (int)k + 1 : k == 9 ? 64 : 300; bool turn = choose("turn", 2);
    for (int at = 0; at < all.size();) { QByteArray d = all.mid(at, step); r->arrive(d); at += d.size(); if (turn) pump(); int done = 0; while (done < 5 && ends[done] <= at) ++done; symx_check((int)got.size() == done, "every complete message is delivered at once, nothing else"); } for (int i = 0; i < 5; ++i) symx_check(same(got[i], msg[(i + rot) % 5]), "payload of the message"); r->complete(QNetworkReply::NoError, "0"); pump(); symx_check(got.size() == 5, "nothing more"); symx_cover("done"); }
// many messages in one chunk
HARNESS(strm_burst) { setup(); auto ch = http2(); Client c; c.attachChannel(ch); std::vector<QByteArray> got; auto s = c.stream(QStringLiteral("m"), QByteArray("x"), [&](const QByteArray &d) { got.push_back(d); }); FakeReply *r = posts[0].reply; static const int N[] = {3, 8, 17, 100, 257}; int n = N[choose("n", 5)]; QByteArray p = symBytes("p", 1), all; for (int i = 0; i < n; ++i) all.append(frame(i == n - 1 ? p : QByteArray(i % 3, (char)i))); int tail = choose("tail", 7); if (tail) all.append(frame(QByteArray("abcd")).left(tail)); r->arrive(all); symx_check((int)got.size() == n, "every message of the chunk"); for (int i = 0; i + 1 < n; ++i) symx_check(got[i] == QByteArray(i % 3, (char)i), "payload"); symx_check(same(got[n - 1], p), "last payload"); r->arrive(frame(QByteArray("abcd")).mid(tail)); symx_check((int)got.size() == n + 1 && got[n] == "abcd", "the message that follows"); symx_cover("done"); }
// two streams of one channel with interleaved chunks
HARNESS(strm_pair) { setup(); auto ch = http2(); Client c; c.attachChannel(ch); std::vector<QByteArray> ga, gb; auto a = c.stream(QStringLiteral("m"), QByteArray("a"), [&](const QByteArray &d) { ga.push_back(d); }); auto b = c.stream(QStringLiteral("m"), QByteArray("b"), [&](const QByteArray &d) { gb.push_back(d); });
    symx_check(posts.size() == 2, "two requests"); FakeReply *ra = posts[0].reply, *rb = posts[1].reply; QByteArray pa = symBytes("a", 2), pb = symBytes("b", 1), fa = frame(pa), fb = frame(pb); int ca = choose("ca", 8), cb = choose("cb", 7); unsigned order = choose("order", 6); static const char *const O[] = {"aabb", "abab", "abba", "baab", "baba", "bbaa"};
    int ia = 0, ib = 0; for (const char *o = O[order]; *o; ++o) if (*o == 'a') { ra->arrive(ia++ ? fa.mid(ca) : fa.left(ca)); } else { rb->arrive(ib++ ? fb.mid(cb) : fb.left(cb)); }
    symx_check(ga.size() == 1 && same(ga[0], pa), "message of the first stream"); symx_check(gb.size() == 1 && same(gb[0], pb), "message of the second stream"); symx_cover("done"); }
// partial data of one network reply never becomes part of a message of the reply that replaces it (error and retry, or reconnect)
HARNESS(strm_retry) { setup(); auto ch = http2(); Client c; c.attachChannel(ch); std::vector<QByteArray> got; auto s = c.stream(QStringLiteral("m"), QByteArray("a"), [&](const QByteArray &d) { got.push_back(d); }); QByteArray p = symBytes("p", 2), q = symBytes("q", 2), f = frame(p); int cut = choose("cut", 7); posts[0].reply->arrive(f.left(cut)); unsigned how = choose("how", 2);
    if (how) posts[0].reply->complete(QNetworkReply::TimeoutError); else posts[0].reply->complete(QNetworkReply::RemoteHostClosedError); pump(how ? 1000 : 0); symx_check(posts.size() == 2, "stream requested again"); symx_check(posts[1].body == posts[0].body, "with the same argument"); symx_check(got.empty(), "no message from partial data"); posts[1].reply->arrive(frame(q)); symx_check(got.size() == 1 && same(got[0], q), "message of the new reply"); symx_cover("done"); }
// a handler that aborts the stream: no later message of the same chunk is delivered
HARNESS(strm_abort) { setup(); auto ch = http2(); Client c; c.attachChannel(ch); int calls = 0, fin = 0; QGrpcStreamShared s; unsigned at = choose("at", 3); s = c.stream(QStringLiteral("m"), QByteArray("a"), [&](const QByteArray &) { if ((unsigned)calls++ == at) s->abort(); }); QObject::connect(s.get(), &QGrpcStream::finished, [&] { ++fin; }); FakeReply *r = posts[0].reply; QByteArray d = frame(symBytes("p", 1)) + frame(QByteArray()) + frame(symBytes("q", 2)); int cut = choose("cut", 19); r->arrive(d.left(cut)); if (calls <= (int)at) r->arrive(d.mid(cut));
    symx_check(calls == (int)at + 1, "no message after abort"); symx_check(fin == 1, "finished once"); pump(); symx_check(posts.size() == 1, "not requested again"); symx_cover("done"); }
// ------------------------------------------------------------------ C12
static QString symName(const char *n, int k) { QString s; for (int i = 0; i < k; ++i) { u8 c = sym<u8>(n); symx_assume(((c >= 'a') & (c <= 'z')) | ((c >= 'A') & (c <= 'Z')) | ((c >= '0') & (c <= '9')) | (c == '_') | ((i && i + 1 < k) & (c == '.'))); s.append(QLatin1Char((char)c)); } return s; }
struct SymCall : QGrpcCallCredentials { QGrpcCredentialMap m; QGrpcCredentialMap operator()() { return m; } };
static bool hdr(const QNetworkRequest &r, const QByteArray &k, const QByteArray &v) { return same(r.rawHeader(k), v); }
HARNESS(req_frame) { setup(); long kind = symx_param("kind", 0); bool big = symx_param("big", 0); QString service = big ? QStringLiteral("s.S") : symName("service", 1 + choose("sl", 3)), method = big ? QStringLiteral("m") : symName("method", 1 + choose("ml", 2)); QByteArray arg; if (symx_param("big", 0)) { static const int L[] = {255, 256, 65535, 65536, 65537}; arg = QByteArray(L[choose("big", 5)], 'z'); arg.data()[arg.size() - 1] = sym<char>("last"); } else arg = symBytes("arg", choose("al", (unsigned)symx_param("al", 4)));
    SymCall cc; int nc = symx_param("big", 0) ? 0 : (int)choose("nc", 3); QByteArray val[2]; static const char *const names[] = {"user-name", "x-token"}; for (int i = 0; i < nc; ++i) { u8 v[2] = {sym<u8>("cv"), sym<u8>("cv")}; symx_assume((v[0] > 32) & (v[0] < 127) & (v[1] > 32) & (v[1] < 127)); val[i] = QByteArray((const char *)v, 2); cc.m.insert(QLatin1String(names[i]), QVariant::fromValue(QString::fromLatin1(val[i]))); }
    auto ch = std::make_shared<QGrpcHttp2Channel>(QUrl(QStringLiteral("http://h:1")), cc | QGrpcInsecureChannelCredentials()); Client c; c.attachChannel(ch); QByteArray ret; std::unique_ptr<QGrpcCallReply, void (*)(QGrpcCallReply *)> rp(nullptr, [](QGrpcCallReply *r) { delete r; }); QGrpcStreamShared st;
    onPost = [](FakeReply *f) { f->setFinished(true); };
    if (kind == 0) ch->call(method, service, arg, ret); else { onPost = nullptr; if (kind == 1) { rp.reset(new QGrpcCallReply(&c)); ch->call(method, service, arg, rp.get()); } else { st.reset(new QGrpcStream(method, arg, StreamHandler(), &c), [](QGrpcStream *s) { delete s; }); ch->stream(st.get(), service, &c); } }
    symx_check(posts.size() == 1, "exactly one POST"); const Post &p = posts[0]; symx_check(same(p.req.url().path(), QLatin1Char('/') + service + QLatin1Char('/') + method), "path is /service/method"); symx_check(p.req.url().host() == QLatin1String("h") && p.req.url().port() == 1 && p.req.url().scheme() == QLatin1String("http"), "server of the channel");
    symx_check(big ? p.body.size() == arg.size() + 5 && p.body == frame(arg) : same(p.body, frame(arg)), "flag, big-endian length, payload"); symx_check(hdr(p.req, "content-type", "application/grpc") && hdr(p.req, "te", "trailers"), "gRPC headers"); for (int i = 0; i < nc; ++i) symx_check(hdr(p.req, names[i], val[i]), "call credential"); for (int i = nc; i < 2; ++i) symx_check(!p.req.hasRawHeader(names[i]), "no other credential"); symx_check(p.req.attribute(QNetworkRequest::Http2DirectAttribute).toBool(), "HTTP/2"); onPost = nullptr; symx_cover("done"); }
// user/password credentials of the library, empty and non-ASCII values
HARNESS(req_user) { setup(); QString u = mk<QString>("u"), w = mk<QString>("w"); auto ch = std::make_shared<QGrpcHttp2Channel>(QUrl(QStringLiteral("//h:1")), QGrpcUserPasswordCredentials<>(u, w) | QGrpcInsecureChannelCredentials()); QByteArray ret; onPost = [](FakeReply *f) { f->setFinished(true); }; ch->call(QStringLiteral("m"), QStringLiteral("s"), QByteArray(), ret); onPost = nullptr; const QNetworkRequest &r = posts[0].req; symx_check(posts.size() == 1 && hdr(r, "user-name", u.toUtf8()) && hdr(r, "user-password", w.toUtf8()), "user and password"); symx_check(r.url().scheme() == QLatin1String("http"), "default scheme"); symx_cover("done"); }
// a call from within the reply of another call
HARNESS(req_two) { setup(); auto ch = http2(); Client c; c.attachChannel(ch); QByteArray a = symBytes("a", choose("ka", 3)), b = symBytes("b", choose("kb", 3)); auto x = c.call(QStringLiteral("f"), a); auto y = c.call(QStringLiteral("g"), b); auto z = c.call(QStringLiteral("f"), a); symx_check(posts.size() == 3, "one request per call"); symx_check(same(posts[0].body, frame(a)) && same(posts[1].body, frame(b)) && same(posts[2].body, frame(a)), "own payload"); symx_check(posts[1].req.url().path() == QLatin1String("/s.S/g"), "own path"); symx_cover("done"); }
// ------------------------------------------------------------------ C13
struct ErrMap { QNetworkReply::NetworkError e; QGrpcStatus::StatusCode c; };
static const ErrMap EM[] = {{QNetworkReply::NoError, QGrpcStatus::Ok}, {QNetworkReply::ConnectionRefusedError, QGrpcStatus::Unavailable}, {QNetworkReply::RemoteHostClosedError, QGrpcStatus::Unavailable}, {QNetworkReply::HostNotFoundError, QGrpcStatus::Unavailable}, {QNetworkReply::TimeoutError, QGrpcStatus::DeadlineExceeded}, {QNetworkReply::OperationCanceledError, QGrpcStatus::Unavailable}, {QNetworkReply::SslHandshakeFailedError, QGrpcStatus::PermissionDenied}, {QNetworkReply::TemporaryNetworkFailureError, QGrpcStatus::Unknown},
    {QNetworkReply::NetworkSessionFailedError, QGrpcStatus::Unavailable}, {QNetworkReply::BackgroundRequestNotAllowedError, QGrpcStatus::Unknown}, {QNetworkReply::TooManyRedirectsError, QGrpcStatus::Unavailable}, {QNetworkReply::InsecureRedirectError, QGrpcStatus::PermissionDenied}, {QNetworkReply::UnknownNetworkError, QGrpcStatus::Unknown}, {QNetworkReply::ProxyConnectionRefusedError, QGrpcStatus::Unavailable}, {QNetworkReply::ProxyConnectionClosedError, QGrpcStatus::Unavailable}, {QNetworkReply::ProxyNotFoundError, QGrpcStatus::Unavailable}, {QNetworkReply::ProxyTimeoutError, QGrpcStatus::DeadlineExceeded},
    {QNetworkReply::ProxyAuthenticationRequiredError, QGrpcStatus::Unauthenticated}, {QNetworkReply::UnknownProxyError, QGrpcStatus::Unknown}, {QNetworkReply::ContentAccessDenied, QGrpcStatus::PermissionDenied}, {QNetworkReply::ContentOperationNotPermittedError, QGrpcStatus::PermissionDenied}, {QNetworkReply::ContentNotFoundError, QGrpcStatus::NotFound}, {QNetworkReply::AuthenticationRequiredError, QGrpcStatus::PermissionDenied}, {QNetworkReply::ContentReSendError, QGrpcStatus::DataLoss}, {QNetworkReply::ContentConflictError, QGrpcStatus::InvalidArgument}, {QNetworkReply::ContentGoneError, QGrpcStatus::DataLoss},
    {QNetworkReply::UnknownContentError, QGrpcStatus::Unknown}, {QNetworkReply::ProtocolUnknownError, QGrpcStatus::Unknown}, {QNetworkReply::ProtocolInvalidOperationError, QGrpcStatus::Unimplemented}, {QNetworkReply::ProtocolFailure, QGrpcStatus::Unknown}, {QNetworkReply::InternalServerError, QGrpcStatus::Internal}, {QNetworkReply::OperationNotImplementedError, QGrpcStatus::Unimplemented}, {QNetworkReply::ServiceUnavailableError, QGrpcStatus::Unavailable}, {QNetworkReply::UnknownServerError, QGrpcStatus::Unknown}};
enum { NEM = sizeof EM / sizeof *EM };
struct Outcome { QNetworkReply::NetworkError e; QGrpcStatus::StatusCode want; QByteArray status, msg, body; };
static Outcome symOutcome() { Outcome o; unsigned i = choose("err", NEM); o.e = EM[i].e; o.want = EM[i].c; if (i == 0 || choose("trailer", 2)) { unsigned v = choose("grpc", 18); if (v == 17) { u8 d = sym<u8>("digit"); symx_assume((d >= '0') & (d <= '9')); QByteArray t; t.append('4'); t.append((char)d); o.status = t; if (i == 0) o.want = (QGrpcStatus::StatusCode)(40 + d - '0'); } else { o.status = QByteArray::number(v); if (i == 0) o.want = (QGrpcStatus::StatusCode)v; } }
    unsigned m = choose("msg", 4); if (m == 3) { u8 c[2] = {sym<u8>("mc"), sym<u8>("mc")}; symx_assume((c[0] >= 0xc2) & (c[0] <= 0xdf) & (c[1] >= 0x80) & (c[1] <= 0xbf)); o.msg = QByteArray((const char *)c, 2); } else if (m) { QByteArray t; for (unsigned k = 0; k < m; ++k) { u8 c = sym<u8>("mc"); symx_assume((c >= 32) & (c < 127)); t.append((char)c); } o.msg = t; } QByteArray pay = symBytes("body", i == 0 ? (int)choose("bl", (unsigned)symx_param("bl", 4)) : 1); o.body = frame(pay); return o; }
static void feed(FakeReply *f, const Outcome &o) { f->buf = o.body; f->complete(o.e, o.status, o.msg); }
// synchronous call; the network answers before post() returns, or from the event loop
HARNESS(uni_sync) { setup(); Outcome o = symOutcome(); auto ch = http2(); Client c; c.attachChannel(ch); int errs = 0; QGrpcStatus::StatusCode ec = QGrpcStatus::Ok; QString em; QObject::connect(&c, &QAbstractGrpcClient::error, [&](const QGrpcStatus &s) { ++errs; ec = s.code(); em = s.message(); }); bool later = symx_param("later", 1);
    onPost = [&](FakeReply *f) { if (later) QTimer::singleShot(5, f, [f, &o] { feed(f, o); }); else feed(f, o); }; QByteArray ret("old"); QGrpcStatus st = c.call(QStringLiteral("m"), QByteArray("a"), ret); onPost = nullptr;
    symx_check(st.code() == o.want, "status of the outcome"); symx_check(o.want == QGrpcStatus::Ok || same(st.message(), QString::fromUtf8(o.msg)), "message of the server"); symx_check(o.want == QGrpcStatus::Ok ? same(ret, o.body.mid(5)) : ret.isEmpty(), "body without prefix if Ok, else no data"); symx_check(errs == (o.want != QGrpcStatus::Ok), "the client reports every failure once"); symx_check(!errs || (ec == o.want && em == st.message()), "with its status"); pump(); pump(6000); symx_check(errs == (o.want != QGrpcStatus::Ok), "nothing more"); symx_cover("done"); }
// the channel itself, as an application that implements its own client uses it
HARNESS(uni_channel) { setup(); Outcome o = symOutcome(); auto ch = http2(); onPost = [&](FakeReply *f) { QTimer::singleShot(5, f, [f, &o] { feed(f, o); }); }; QByteArray ret; QGrpcStatus st = ch->call(QStringLiteral("m"), QStringLiteral("s.S"), QByteArray("a"), ret); onPost = nullptr;
    symx_check(st.code() == o.want, "status of the outcome"); symx_check(same(st.message(), QString::fromUtf8(o.msg)), "message of the server"); symx_check(o.want == QGrpcStatus::Ok ? same(ret, o.body.mid(5)) : ret.isEmpty(), "body without prefix if Ok, else no data"); pump(6000); symx_cover("done"); }
HARNESS(uni_async) { setup(); Outcome o = symOutcome(); auto ch = http2(); Client c; c.attachChannel(ch); int errs = 0, fin = 0, er = 0; QGrpcStatus::StatusCode ec = QGrpcStatus::Ok; QString em; QByteArray data; QObject::connect(&c, &QAbstractGrpcClient::error, [&](const QGrpcStatus &) { ++errs; }); auto r = c.call(QStringLiteral("m"), QByteArray("a")); r->subscribe(&c, [&] { ++fin; data = r->read<Raw>().d; }, [&](const QGrpcStatus &s) { ++er; ec = s.code(); em = s.message(); });
    int gone = 0; posts[0].reply->gone = &gone; feed(posts[0].reply, o); bool ok = o.want == QGrpcStatus::Ok; symx_check(fin == ok && er == !ok, "exactly one completion of the right kind"); symx_check(ok ? same(data, o.body.mid(5)) : ec == o.want, "data or status"); symx_check(ok || same(em, QString::fromUtf8(o.msg)), "message of the server"); symx_check(ok || r->read<Raw>().d.isEmpty(), "no data with an error"); symx_check(errs == !ok, "the client reports a failure once"); pump(); symx_check(gone == 1, "network reply released"); pump(6000); symx_check(fin + er == 1 && errs == !ok, "nothing more"); symx_cover("done"); }
// long bodies, arriving in one or several parts
HARNESS(uni_long) { setup(); static const int L[] = {255, 256, 1019, 16379, 16384, 65531, 65536, 70000}; int k = L[choose("len", 8)]; QByteArray p(k, 'z'); p.data()[0] = sym<char>("first"); p.data()[k - 1] = sym<char>("last"); QByteArray all = frame(p); int cut; switch (choose("cut", 4)) { case 0: cut = all.size(); break; case 1: cut = 3; break; case 2: cut = 5; break; default: cut = k / 2; } auto ch = http2(); Client c; c.attachChannel(ch); QByteArray ret; auto deliver = [&](FakeReply *f) { f->arrive(all.left(cut)); QTimer::singleShot(5, f, [f, &all, cut] { if (cut < all.size()) f->arrive(all.mid(cut)); f->complete(QNetworkReply::NoError, "0"); }); };
    if (choose("async", 2)) { int fin = 0, er = 0; auto r = c.call(QStringLiteral("m"), QByteArray("a")); r->subscribe(&c, [&] { ++fin; ret = r->read<Raw>().d; }, [&](const QGrpcStatus &) { ++er; }); deliver(posts[0].reply); symx_check(fin == 0 && er == 0, "not before the reply is complete"); pump(30); symx_check(fin == 1 && er == 0, "one completion"); } else { onPost = deliver; QGrpcStatus st = c.call(QStringLiteral("m"), QByteArray("a"), ret); onPost = nullptr; symx_check(st.code() == QGrpcStatus::Ok, "status"); } symx_check(ret.size() == k && ret.at(0) == p.at(0) && ret.at(k - 1) == p.at(k - 1) && ret.at(k / 2) == 'z' && ret.mid(1, k - 2) == p.mid(1, k - 2), "body without prefix"); symx_cover("done"); }
// no answer at all: the call ends with an error status after the timeout
HARNESS(uni_silent) { setup(); auto ch = http2(); Client c; c.attachChannel(ch); QByteArray ret; bool async = choose("async", 2); if (async) { int fin = 0, er = 0; auto r = c.call(QStringLiteral("m"), QByteArray("a")); r->subscribe(&c, [&] { ++fin; }, [&](const QGrpcStatus &s) { ++er; symx_check(s.code() == QGrpcStatus::Unavailable, "status of a cancelled request"); }); pump(6000); symx_check(fin == 0 && er == 1, "one error"); } else { onPost = nullptr; QGrpcStatus s = c.call(QStringLiteral("m"), QByteArray("a"), ret); symx_check(s.code() == QGrpcStatus::Unavailable && ret.isEmpty(), "status of a cancelled request"); } symx_cover("done"); }
// several unary calls at once, answered in any order: each gets its own outcome
HARNESS(uni_many) { setup(); auto ch = http2(); Client c; c.attachChannel(ch); std::vector<QGrpcCallReplyShared> r; int fin[3] = {0, 0, 0}, er[3] = {0, 0, 0}; QByteArray pay[3]; for (int i = 0; i < 3; ++i) { r.push_back(c.call(QStringLiteral("m"), QByteArray(1, (char)('a' + i)))); r[i]->subscribe(&c, [&fin, i] { ++fin[i]; }, [&er, i](const QGrpcStatus &) { ++er[i]; }); pay[i] = symBytes("p", 1); } unsigned first = choose("first", 3), second = choose("second", 3); symx_assume(first != second); unsigned third = 3 - first - second; bool bad = choose("bad", 2); unsigned order[3] = {first, second, third};
    for (unsigned k = 0; k < 3; ++k) { unsigned i = order[k]; FakeReply *f = posts[i].reply; f->buf = frame(pay[i]); if (bad && k == 1) f->complete(QNetworkReply::NoError, "5"); else f->complete(QNetworkReply::NoError, "0"); for (unsigned j = 0; j < 3; ++j) { bool d = j == first || (k >= 1 && j == second) || (k >= 2 && j == third); symx_check(fin[j] + er[j] == d, "only its own reply completes"); } if (choose("turn", 2)) pump(); }
    for (unsigned j = 0; j < 3; ++j) { bool b = bad && j == second; symx_check(fin[j] == !b && er[j] == b, "own outcome"); symx_check(b || same(r[j]->read<Raw>().d, pay[j]), "own data"); } symx_cover("done"); }
