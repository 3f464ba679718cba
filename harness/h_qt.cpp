// LIBS: protobuf vt qttypes qt ts
// C19: Qt types as message fields; C22: Timestamp and QDateTime
#include "gen.h"
#include <QtGui>
#include "qt.qpb.h"
#include "QtProtobuf/QtCore.qpb.h"
#include "QtProtobuf/QtGui.qpb.h"
#include "google/protobuf/timestamp.qpb.h"
#include <qtprotobufqttypes.h>
#ifdef SYMX
namespace symxm { void initGui(); }
#else
namespace symxm { static void initGui() {} }
#endif
static void setupQt() { symxm::initGui(); setup(); QtProtobuf::qRegisterProtobufQtTypes(); }
// floating point: bit-exact except for the sign of zero and the payload of NaN
template <class F> bool feq(F a, F b) { return same(a, b) | (a == b); }
template <class M> struct Q;
template <class M, class T> void rt(const T &v) { M m; m.setV(v); T st = m.v(); QByteArray b = enc(m); M n; symx_check(dec(n, b), "accepted"); symx_check(Q<M>::eq(n.v(), st), "the Qt value survives the round trip"); M c(v); M d; symx_check(dec(d, enc(c)) && Q<M>::eqc(d.v(), v), "constructed message"); symx_cover("done"); }
#define QS(M, T, EQ) template <> struct Q<qtt::M> { static bool eq(const T &a, const T &b) { return EQ; } static bool eqc(const T &a, const T &b) { return EQ; } };
// comparison with the default in the setter is Qt's approximate comparison: a constructed value that Qt considers equal to the default may come back as the default
#define QF(M, T, EQ) template <> struct Q<qtt::M> { static bool eq(const T &a, const T &b) { return EQ; } static bool eqc(const T &a, const T &b) { return (EQ) | (same(a, T()) && b == T()); } };
QS(TUrl, QUrl, same(a.url(), b.url())) QS(TUuid, QUuid, same(a, b)) QS(TChar, QChar, a.unicode() == b.unicode()) QS(TTime, QTime, a.msecsSinceStartOfDay() == b.msecsSinceStartOfDay() && a.isValid() == b.isValid()) QS(TDate, QDate, (a.year() == b.year()) & (a.month() == b.month()) & (a.day() == b.day()))
QS(TDateTime, QDateTime, (a.date() == b.date()) & (a.time() == b.time())) QS(TSize, QSize, (a.width() == b.width()) & (a.height() == b.height())) QF(TSizeF, QSizeF, feq(a.width(), b.width()) & feq(a.height(), b.height())) QS(TPoint, QPoint, (a.x() == b.x()) & (a.y() == b.y())) QF(TPointF, QPointF, feq(a.x(), b.x()) & feq(a.y(), b.y()))
QS(TRect, QRect, (a.x() == b.x()) & (a.y() == b.y()) & (a.width() == b.width()) & (a.height() == b.height())) QF(TRectF, QRectF, feq(a.x(), b.x()) & feq(a.y(), b.y()) & feq(a.width(), b.width()) & feq(a.height(), b.height())) QS(TColor, QColor, a.rgba() == b.rgba() && a.isValid() == b.isValid())
QS(TVec2, QVector2D, feq(a.x(), b.x()) & feq(a.y(), b.y())) QS(TVec3, QVector3D, feq(a.x(), b.x()) & feq(a.y(), b.y()) & feq(a.z(), b.z())) QS(TVec4, QVector4D, feq(a.x(), b.x()) & feq(a.y(), b.y()) & feq(a.z(), b.z()) & feq(a.w(), b.w())) QS(TQuat, QQuaternion, feq(a.x(), b.x()) & feq(a.y(), b.y()) & feq(a.z(), b.z()) & feq(a.scalar(), b.scalar()))
QS(TTransform, QTransform, feq(a.m11(), b.m11()) & feq(a.m12(), b.m12()) & feq(a.m13(), b.m13()) & feq(a.m21(), b.m21()) & feq(a.m22(), b.m22()) & feq(a.m23(), b.m23()) & feq(a.m31(), b.m31()) & feq(a.m32(), b.m32()) & feq(a.m33(), b.m33()))
static bool meq(const QMatrix4x4 &a, const QMatrix4x4 &b) { bool r = true; for (int i = 0; i < 16; ++i) r &= feq(a.constData()[i], b.constData()[i]); return r; } QS(TMatrix, QMatrix4x4, meq(a, b))
template <class P> static bool peq(const P &a, const P &b) { if (a.size() != b.size()) return false; bool r = true; for (int i = 0; i < a.size(); ++i) r &= feq(a.at(i).x(), b.at(i).x()) & feq(a.at(i).y(), b.at(i).y()); return r; } QS(TPolygon, QPolygon, peq(a, b)) QS(TPolygonF, QPolygonF, peq(a, b))
static double D(const char *n) { return mk<double>(n); } static float F(const char *n) { return mk<float>(n); } static int I(const char *n) { return sym<int>(n); }
static int ranged(const char *n, int lo, int hi) { int v = sym<int>(n); symx_assume((v >= lo) & (v <= hi)); return v; }
static QDate someDate() { int y = ranged("y", -(int)symx_param("years", 9999), (int)symx_param("years", 9999)), m = ranged("m", 1, 12), d = ranged("d", 1, 31); QDate r(y, m, d); symx_assume(r.isValid()); return r; }
static QTime someTime() { return QTime::fromMSecsSinceStartOfDay(ranged("ms", 0, 86399999)); }
HARNESS(qt_url) { setupQt(); static const char *tpl[] = {"http://h/", "https://u:p@hh:81/a/b?q=c#f", "http://h?q", "ftp://u@h/a/", "http://h:8080/a#fr", "http://h/a?k=v&l=w", "http://h/a%25b", "http://h/a%2Fb", "http://h/%3Fa?c%23d", "http://h/A%2541b"}; QString s = QString::fromLatin1(tpl[choose("tpl", 10)]); int at = s.indexOf(QLatin1Char('h'), 5), k = choose("at", 2); u8 c = sym<u8>("c"); symx_assume(((c >= 'a') & (c <= 'z')) | ((k != 0) & (c >= 'A') & (c <= 'Z'))); if (k) at = s.size() - 1; if (s.at(at).isLetter()) s[at] = QLatin1Char((char)c); QUrl u(s); rt<qtt::TUrl>(u); qtt::TUrl e; rt<qtt::TUrl>(QUrl()); }
HARNESS(qt_uuid) { setupQt(); QUuid u(1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11); int k = (int)symx_param("part", 47); if (k == 16) u = QUuid(); if (k & 1) symx_make_symbolic(&u.data1, 4, "d1"); if (k & 2) symx_make_symbolic(&u.data2, 2, "d2"); if (k & 4) symx_make_symbolic(&u.data3, 2, "d3"); if (k & 8) symx_make_symbolic(u.data4, 4, "d4"); if (k & 32) symx_make_symbolic(u.data4 + 4, 4, "d5"); rt<qtt::TUuid>(u); }
HARNESS(qt_char) { setupQt(); rt<qtt::TChar>(QChar(sym<u16>("c"))); }
HARNESS(qt_time) { setupQt(); rt<qtt::TTime>(someTime()); }
HARNESS(qt_date) { setupQt(); rt<qtt::TDate>(someDate()); }
HARNESS(qt_datetime) { setupQt(); int k = (int)symx_param("part", 3); QDate d = k & 1 ? someDate() : QDate(2020, 2, 29); QTime t = k & 2 ? someTime() : QTime::fromMSecsSinceStartOfDay(0); symx_assume(!((d == QDate(1970, 1, 1)) & (t.msecsSinceStartOfDay() == 0))); rt<qtt::TDateTime>(QDateTime(d, t)); }
HARNESS(qt_size) { setupQt(); rt<qtt::TSize>(QSize(I("w"), I("h"))); }
HARNESS(qt_point) { setupQt(); rt<qtt::TPoint>(QPoint(I("x"), I("y"))); }
HARNESS(qt_rect) { setupQt(); int b = 1 << 29; int k = (int)symx_param("part", 15); rt<qtt::TRect>(QRect(k & 1 ? ranged("x", -b, b) : 3, k & 2 ? ranged("y", -b, b) : -4, k & 4 ? ranged("w", -b, b) : 5, k & 8 ? ranged("h", -b, b) : 60)); }
HARNESS(qt_sizef) { setupQt(); int k = (int)symx_param("part", 3); rt<qtt::TSizeF>(QSizeF(k & 1 ? D("w") : 2.5, k & 2 ? D("h") : 3.5)); }
HARNESS(qt_pointf) { setupQt(); rt<qtt::TPointF>(QPointF(D("x"), D("y"))); }
HARNESS(qt_rectf) { setupQt(); rt<qtt::TRectF>(QRectF(D("x"), D("y"), D("w"), D("h"))); }
HARNESS(qt_polygon) { setupQt(); QPolygon p; int n = choose("n", P_n() + 1); for (int i = 0; i < n; ++i) p.append(QPoint(I("x"), I("y"))); rt<qtt::TPolygon>(p); }
// longer polygons with coordinates 0 and 1: repeated points, closed polygons
HARNESS(qt_polysmall) { setupQt(); int n = (int)symx_param("n", 4); bool f = symx_param("f", 0); QPolygon p; QPolygonF q; for (int i = 0; i < n; ++i) { u8 b = sym<u8>("xy"); symx_assume(b < 4); int x = b & 1, y = b >> 1; if (f) q.append(QPointF(x, y)); else p.append(QPoint(x, y)); } if (f) rt<qtt::TPolygonF>(q); else rt<qtt::TPolygon>(p); }
HARNESS(qt_polygonf) { setupQt(); QPolygonF p; int n = choose("n", P_n() + 1); for (int i = 0; i < n; ++i) p.append(QPointF(D("x"), D("y"))); rt<qtt::TPolygonF>(p); }
HARNESS(qt_color) { setupQt(); int r = sym<u8>("r"), g = sym<u8>("g"), b = sym<u8>("b"), a = sym<u8>("a"); rt<qtt::TColor>(QColor(r, g, b, a)); }
HARNESS(qt_vec2) { setupQt(); rt<qtt::TVec2>(QVector2D(F("x"), F("y"))); }
HARNESS(qt_vec3) { setupQt(); rt<qtt::TVec3>(QVector3D(F("x"), F("y"), F("z"))); }
HARNESS(qt_vec4) { setupQt(); rt<qtt::TVec4>(QVector4D(F("x"), F("y"), F("z"), F("w"))); }
HARNESS(qt_quat) { setupQt(); rt<qtt::TQuat>(QQuaternion(F("s"), F("x"), F("y"), F("z"))); }
// `sym` selects which cell is symbolic; the others hold distinct constants
HARNESS(qt_transform) { setupQt(); double m[9]; int k = (int)symx_param("cell", 0); for (int i = 0; i < 9; ++i) m[i] = i == k || i == (k + 4) % 9 ? D("m") : i + 1.5; rt<qtt::TTransform>(QTransform(m[0], m[1], m[2], m[3], m[4], m[5], m[6], m[7], m[8])); }
HARNESS(qt_matrix) { setupQt(); float m[16]; int k = (int)symx_param("cell", 0); for (int i = 0; i < 16; ++i) m[i] = i == k || i == (k + 5) % 16 ? F("m") : i + 1.5f; rt<qtt::TMatrix>(QMatrix4x4(m[0], m[1], m[2], m[3], m[4], m[5], m[6], m[7], m[8], m[9], m[10], m[11], m[12], m[13], m[14], m[15])); }
// several Qt fields next to ordinary ones, any subset set
HARNESS(qt_mix) { setupQt(); qtt::TMix m, n; unsigned k = choose("set", 8); if (k & 1) m.setS(QSize(I("w"), ranged("h", 0, 63))); if (k & 2) m.setD(QDate(2000, ranged("mo", 1, 12), ranged("da", 1, 28))); if (k & 4) m.setP(QPoint(ranged("x", -64, 63), I("y"))); int a = ranged("a", -64, 63); m.setA(a); m.setB(QStringLiteral("b")); symx_check(dec(n, enc(m)), "accepted"); symx_check((n.a() == a) & same(n.b(), m.b()) & (n.s() == m.s()) & (n.d() == m.d()) & (n.p() == m.p()), "every field survives"); symx_check(n == m, "operator=="); symx_cover("done"); }
// the bytes hold the message declared in QtCore.proto / QtGui.proto, components under their declared numbers
template <class P, class M> P inner(const M &m) { QByteArray b = enc(m); Reader r(b); Rec c; P p; if (r.next(c)) { symx_check(c.field == 1 && c.wt == 2, "a length-delimited record"); symx_check(dec(p, QByteArray((const char *)c.p, c.len)), "a message"); symx_check(!r.next(c) && r.ok, "and nothing else"); } return p; }
template <class M, class T> M of(const T &t) { M m; m.setV(t); return m; }
HARNESS(qt_wire) { setupQt(); int x = I("x"), y = I("y"); switch (symx_param("t", 0)) {
    case 0: { auto p = inner<QtProtobuf::QSize>(of<qtt::TSize>(QSize(x, y))); symx_assume((x != -1) | (y != -1)); symx_check((p.width() == x) & (p.height() == y), "QSize"); break; }
    case 1: { auto p = inner<QtProtobuf::QPoint>(of<qtt::TPoint>(QPoint(x, y))); symx_check((p.x() == x) & (p.y() == y), "QPoint"); break; }
    case 2: { QDate d = someDate(); auto p = inner<QtProtobuf::QDate>(of<qtt::TDate>(d)); symx_check((p.year() == d.year()) & (p.month() == d.month()) & (p.day() == d.day()), "QDate"); break; }
    case 3: { QTime t = someTime(); auto p = inner<QtProtobuf::QTime>(of<qtt::TTime>(t)); symx_check(p.msec() == t.msecsSinceStartOfDay(), "QTime"); break; }
    case 4: { int b = 1 << 29; int k = (int)symx_param("part", 0); QRect r(k ? 7 : ranged("a", -b, b), k ? -8 : ranged("b", -b, b), k ? ranged("c", 0, b) : 9, k ? ranged("e", 0, b) : 10); auto p = inner<QtProtobuf::QRect>(of<qtt::TRect>(r)); symx_assume(r != QRect()); symx_check((p.position().x() == r.x()) & (p.position().y() == r.y()) & (p.size().width() == r.width()) & (p.size().height() == r.height()), "QRect"); break; }
    case 5: { u32 c = sym<u32>("c"); auto p = inner<QtProtobuf::QColor>(of<qtt::TColor>(QColor::fromRgba(c))); symx_check(p.rgba() == c, "QColor"); break; }
    case 6: { float a = F("a"), b = F("b"), c = F("c"); auto p = inner<QtProtobuf::QVector3D>(of<qtt::TVec3>(QVector3D(a, b, c))); symx_check(feq<float>(p.xpos(), a) & feq<float>(p.ypos(), b) & feq<float>(p.zpos(), c), "QVector3D"); break; }
    case 7: { float m[16]; for (int i = 0; i < 16; ++i) m[i] = i + 1.5f; auto p = inner<QtProtobuf::QMatrix4x4>(of<qtt::TMatrix>(QMatrix4x4(m[0], m[1], m[2], m[3], m[4], m[5], m[6], m[7], m[8], m[9], m[10], m[11], m[12], m[13], m[14], m[15]))); symx_check(p.m11() == 1.5f && p.m12() == 2.5f && p.m14() == 4.5f && p.m21() == 5.5f && p.m34() == 12.5f && p.m43() == 15.5f && p.m44() == 16.5f, "QMatrix4x4"); break; }
    case 8: { QPolygon g; g.append(QPoint(x, y)); g.append(QPoint(y, x)); auto p = inner<QtProtobuf::QPolygon>(of<qtt::TPolygon>(g)); symx_check(p.points().size() == 2 && (p.points().at(0)->x() == x) & (p.points().at(0)->y() == y) & (p.points().at(1)->x() == y), "QPolygon"); break; } }
    symx_cover("done"); }
// ---- C22
using google::protobuf::Timestamp;
static qint64 instant() { qint64 ms = sym<qint64>("ms"); symx_assume((ms >= -62135596800000LL) & (ms <= 253402300799999LL)); return ms; }
HARNESS(ts_rt) { setup(); qint64 ms = instant(); QDateTime d = QDateTime::fromMSecsSinceEpoch(ms, symx_param("utc", 0) ? Qt::UTC : Qt::LocalTime); Timestamp t(d); QDateTime r = t; symx_check(r.isValid() && r.toMSecsSinceEpoch() == ms, "the instant survives"); symx_check(r == d, "operator=="); symx_cover("done"); }
HARNESS(ts_wire) { setup(); Timestamp::registerTypes(); qint64 ms = instant(); Timestamp t(QDateTime::fromMSecsSinceEpoch(ms)), u, c(t), a; symx_check(dec(u, enc(t)), "accepted"); a = c; symx_check(u == t && a == t, "the message survives"); QDateTime r = u; symx_check(r.toMSecsSinceEpoch() == ms, "the instant survives serialization"); symx_cover("done"); }
