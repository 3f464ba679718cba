// QDate, QTime, QDateTime, QUuid, QUrl, QDataStream and the QtGui value types (the members the Qt type conversions and the Timestamp use)
#include "m.h"
#include <QtCore/QtCore>
#include <QtGui/QtGui>
#include <new>
typedef unsigned int u32;
// QDate: the value of `jd` is an order-preserving packing of year, month and day instead of the Julian day (exact for construction, access and
// comparison; years of +-10^9; anything that calculates with days is unmodelled)
static bool leap(int y) { if (y < 1) ++y; return (y % 4 == 0) & ((y % 100 != 0) | (y % 400 == 0)); }
bool QDate::isLeapYear(int y) { return leap(y); }
bool QDate::isValid(int y, int m, int d) { if ((y == 0) | (m < 1) | (m > 12) | (d < 1) | (d > 31)) return false; if (d < 29) return true; if ((m == 4) | (m == 6) | (m == 9) | (m == 11)) return d <= 30; return (m != 2) | ((d == 29) & leap(y)); }
static qint64 packDate(int y, int m, int d) { if (y > 1000000000 || y < -1000000000) symx_unmodelled("year range"); return (qint64)y * 512 + m * 32 + d; }
QDate::QDate(int y, int m, int d) : jd(nullJd()) { if (isValid(y, m, d)) jd = packDate(y, m, d); }
bool QDate::setDate(int y, int m, int d) { *this = QDate(y, m, d); return isValid(); }
int QDate::year() const { return isNull() ? 0 : (int)(jd >> 9); } int QDate::month() const { return isNull() ? 0 : (int)((jd >> 5) & 15); } int QDate::day() const { return isNull() ? 0 : (int)(jd & 31); }
void QDate::getDate(int *y, int *m, int *d) const { if (y) *y = year(); if (m) *m = month(); if (d) *d = day(); }
void QDate::getDate(int *y, int *m, int *d) { static_cast<const QDate *>(this)->getDate(y, m, d); }
// QTime
bool QTime::isValid() const { return (mds > NullTime) & (mds < 86400000); }
bool QTime::isValid(int h, int m, int s, int ms) { return ((uint)h < 24) & ((uint)m < 60) & ((uint)s < 60) & ((uint)ms < 1000); }
QTime::QTime(int h, int m, int s, int ms) { setHMS(h, m, s, ms); }
bool QTime::setHMS(int h, int m, int s, int ms) { if (!isValid(h, m, s, ms)) { mds = NullTime; return false; } mds = (h * 3600 + m * 60 + s) * 1000 + ms; return true; }
int QTime::hour() const { return isValid() ? ds() / 3600000 : -1; } int QTime::minute() const { return isValid() ? (ds() % 3600000) / 60000 : -1; } int QTime::second() const { return isValid() ? (ds() / 1000) % 60 : -1; } int QTime::msec() const { return isValid() ? ds() % 1000 : -1; }
// QDateTime: either date and time (local time, no offset: TZ=UTC in the native runs) or milliseconds since the epoch
struct DT { int kind; Qt::TimeSpec spec; qint64 ms; QDate d; QTime t; };     // kind 0 = null, 1 = date/time, 2 = ms
static DT *dt(const QDateTime *q) { return (DT *)q->d.d; }
static QDateTimePrivate *nd(const DT &x) { return (QDateTimePrivate *)new DT(x); }
QDateTime::Data::Data() : d(nullptr) {} QDateTime::Data::Data(Qt::TimeSpec) : d(nullptr) {} QDateTime::Data::Data(const Data &o) : d(nd(*(DT *)o.d)) {} QDateTime::Data::Data(Data &&o) : d(o.d) { o.d = nd(DT{0, Qt::LocalTime, 0, {}, {}}); } QDateTime::Data::~Data() { delete (DT *)d; }
QDateTime::Data &QDateTime::Data::operator=(const Data &o) { if (this != &o) *(DT *)d = *(DT *)o.d; return *this; }
QDateTime::QDateTime() noexcept { d.d = nd(DT{0, Qt::LocalTime, 0, {}, {}}); }
QDateTime::QDateTime(const QDate &da, const QTime &ti, Qt::TimeSpec s) { d.d = nd(DT{1, s, 0, da, ti.isValid() ? ti : (da.isValid() ? QTime::fromMSecsSinceStartOfDay(0) : QTime())}); }
QDateTime::QDateTime(const QDate &da, const QTime &ti, Qt::TimeSpec s, int off) : QDateTime(da, ti, s) { if (off) symx_unmodelled("QDateTime with an offset"); }
QDateTime::QDateTime(const QDateTime &o) noexcept : d(o.d) {} QDateTime::QDateTime(QDateTime &&o) noexcept : d(std::move(o.d)) {} QDateTime::~QDateTime() {}
QDateTime &QDateTime::operator=(const QDateTime &o) noexcept { d = o.d; return *this; }
bool QDateTime::isNull() const { return dt(this)->kind == 0 || (dt(this)->kind == 1 && !dt(this)->d.isValid() && !dt(this)->t.isValid()); }
bool QDateTime::isValid() const { return dt(this)->kind == 2 || (dt(this)->kind == 1 && (dt(this)->d.isValid() & dt(this)->t.isValid())); }
// proleptic Gregorian calendar (there is no year 0), as days since the epoch
static qint64 flr(qint64 a, qint64 b) { qint64 q = a / b; return q - (q * b > a); }
static qint64 daysOf(const QDate &q) { qint64 y = q.year(), m = q.month(), d = q.day(); if (y < 0) ++y; y -= m <= 2; qint64 era = flr(y, 400), yoe = y - era * 400, doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1; return era * 146097 + yoe * 365 + yoe / 4 - yoe / 100 + doy - 719468; }
static QDate dateOf(qint64 z) { z += 719468; qint64 era = flr(z, 146097), doe = z - era * 146097, yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365, doy = doe - (365 * yoe + yoe / 4 - yoe / 100), mp = (5 * doy + 2) / 153; int d = (int)(doy - (153 * mp + 2) / 5 + 1), m = (int)(mp < 10 ? mp + 3 : mp - 9); qint64 y = yoe + era * 400 + (m <= 2); return QDate((int)(y <= 0 ? y - 1 : y), m, d); }
QDate QDateTime::date() const { DT *x = dt(this); if (x->kind == 2) return dateOf(flr(x->ms, 86400000)); return x->kind ? x->d : QDate(); }
QTime QDateTime::time() const { DT *x = dt(this); if (x->kind == 2) return QTime::fromMSecsSinceStartOfDay((int)(x->ms - flr(x->ms, 86400000) * 86400000)); return x->kind ? x->t : QTime(); }
void QDateTime::setDate(const QDate &da) { DT *x = dt(this); if (x->kind == 2) { x->t = time(); x->kind = 1; } *x = DT{1, x->spec, 0, da, x->t.isValid() ? x->t : QTime::fromMSecsSinceStartOfDay(0)}; }
void QDateTime::setTime(const QTime &ti) { DT *x = dt(this); if (x->kind == 2) { x->d = date(); x->kind = 1; } *x = DT{1, x->spec, 0, x->d, ti}; }
Qt::TimeSpec QDateTime::timeSpec() const { return dt(this)->spec; } void QDateTime::setTimeSpec(Qt::TimeSpec s) { dt(this)->spec = s; }
qint64 QDateTime::toMSecsSinceEpoch() const { DT *x = dt(this); if (!isValid()) return 0; if (x->kind == 1) return daysOf(x->d) * 86400000 + x->t.msecsSinceStartOfDay(); return x->ms; }
static qint64 fdiv(qint64 a, qint64 b) { return a >= 0 ? a / b : -((-a + b - 1) / b); }
qint64 QDateTime::toSecsSinceEpoch() const { return fdiv(toMSecsSinceEpoch(), 1000); }       // rounds down (Qt 5.15)
void QDateTime::setMSecsSinceEpoch(qint64 ms) { *dt(this) = DT{2, dt(this)->spec, ms, {}, {}}; }
void QDateTime::setSecsSinceEpoch(qint64 s) { setMSecsSinceEpoch(s * 1000); }
QDateTime QDateTime::fromMSecsSinceEpoch(qint64 ms) { QDateTime q; q.setMSecsSinceEpoch(ms); return q; }
QDateTime QDateTime::fromMSecsSinceEpoch(qint64 ms, Qt::TimeSpec s, int off) { if (off) symx_unmodelled("QDateTime with an offset"); QDateTime q; dt(&q)->spec = s; q.setMSecsSinceEpoch(ms); return q; }
QDateTime QDateTime::fromSecsSinceEpoch(qint64 sec, Qt::TimeSpec s, int off) { return fromMSecsSinceEpoch(sec * 1000, s, off); }
QDateTime QDateTime::addMSecs(qint64 ms) const { DT *x = dt(this); if (!isValid()) return QDateTime(); QDateTime q(*this); if (x->kind != 2) q.setMSecsSinceEpoch(toMSecsSinceEpoch()); dt(&q)->ms += ms; return q; }
QDateTime QDateTime::addDays(qint64 n) const { return addMSecs(n * 86400000); }
qint64 QDateTime::msecsTo(const QDateTime &o) const { return isValid() && o.isValid() ? o.toMSecsSinceEpoch() - toMSecsSinceEpoch() : 0; }
qint64 QDateTime::secsTo(const QDateTime &o) const { return msecsTo(o) / 1000; }
qint64 QDateTime::daysTo(const QDateTime &o) const { return daysOf(o.date()) - daysOf(date()); }
QDate QDate::addDays(qint64 n) const { return isNull() ? QDate() : dateOf(daysOf(*this) + n); }
qint64 QDate::daysTo(const QDate &o) const { return isNull() || o.isNull() ? 0 : daysOf(o) - daysOf(*this); }
QTime QTime::addMSecs(int ms) const { if (!isValid()) return QTime(); qint64 v = (qint64)mds + ms; return QTime::fromMSecsSinceStartOfDay((int)(v - flr(v, 86400000) * 86400000)); }
QTime QTime::addSecs(int n) const { return addMSecs((n % 86400) * 1000); }
int QTime::msecsTo(const QTime &o) const { return isValid() && o.isValid() ? o.mds - mds : 0; }
int QTime::secsTo(const QTime &o) const { return isValid() && o.isValid() ? o.mds / 1000 - mds / 1000 : 0; }
QDateTime QDateTime::addSecs(qint64 s) const { return addMSecs(s * 1000); }
QDateTime QDateTime::toTimeSpec(Qt::TimeSpec s) const { QDateTime q(*this); if (s == Qt::OffsetFromUTC || s == Qt::TimeZone) symx_unmodelled("time zone"); dt(&q)->spec = s; return q; }
bool QDateTime::operator==(const QDateTime &o) const { DT *a = dt(this), *b = dt(&o); if (a->kind == 2 || b->kind == 2) return toMSecsSinceEpoch() == o.toMSecsSinceEpoch(); bool va = isValid(), vb = o.isValid(); if (va && vb) return (a->d == b->d) & (a->t == b->t); if (!va && !vb) return true; DT *v = va ? a : b; return (v->d == QDate(1970, 1, 1)) & (v->t == QTime::fromMSecsSinceStartOfDay(0)); }
bool QDateTime::operator<(const QDateTime &o) const { DT *a = dt(this), *b = dt(&o); if (a->kind == 1 && b->kind == 1) return (a->d < b->d) | ((a->d == b->d) & (a->t < b->t)); return toMSecsSinceEpoch() < o.toMSecsSinceEpoch(); }
// QUuid
static uchar hexd(uint v) { v &= 15; return (uchar)(v + '0' + (v > 9) * ('a' - '9' - 1)); }
static void uuidBytes(const QUuid &u, uchar *b) { b[0] = u.data1 >> 24; b[1] = u.data1 >> 16; b[2] = u.data1 >> 8; b[3] = u.data1; b[4] = u.data2 >> 8; b[5] = u.data2; b[6] = u.data3 >> 8; b[7] = u.data3; for (int i = 0; i < 8; ++i) b[8 + i] = u.data4[i]; }
static QUuid fromBytes(const uchar *b) { QUuid u; u.data1 = (uint)b[0] << 24 | (uint)b[1] << 16 | (uint)b[2] << 8 | b[3]; u.data2 = (ushort)(b[4] << 8 | b[5]); u.data3 = (ushort)(b[6] << 8 | b[7]); for (int i = 0; i < 8; ++i) u.data4[i] = b[8 + i]; return u; }
QByteArray QUuid::toByteArray(StringFormat f) const { uchar b[16]; uuidBytes(*this, b); QByteArray r; if (f == WithBraces) r.append('{'); for (int i = 0; i < 16; ++i) { if (f != Id128 && (i == 4 || i == 6 || i == 8 || i == 10)) r.append('-'); r.append((char)hexd(b[i] >> 4)); r.append((char)hexd(b[i])); } if (f == WithBraces) r.append('}'); return r; }
QByteArray QUuid::toByteArray() const { return toByteArray(WithBraces); }
QString QUuid::toString(StringFormat f) const { QByteArray a = toByteArray(f); QString s(a.size(), Qt::Uninitialized); for (int i = 0; i < a.size(); ++i) s.data()[i] = QChar((ushort)(uchar)a.constData()[i]); return s; }
QString QUuid::toString() const { return toString(WithBraces); }
template <class C> static QUuid parseUuid(const C *p, int n) { uchar b[16]; if (n < 36) return QUuid(); int k = 0; bool ok = true; if (p[0] == C('{')) { if (n < 38) return QUuid(); k = 1; ok &= p[37] == C('}'); }
    for (int i = 0; i < 16; ++i) { if (i == 4 || i == 6 || i == 8 || i == 10) ok &= p[k++] == C('-'); uint v = 0; for (int j = 0; j < 2; ++j) { uint c = (uint)p[k++]; bool dg = (c - '0') < 10u, lo = (c - 'a') < 6u, up = (c - 'A') < 6u; ok &= dg | lo | up; v = v * 16 + (dg ? c - '0' : lo ? c - 'a' + 10 : c - 'A' + 10); } b[i] = (uchar)v; }
    return ok ? fromBytes(b) : QUuid(); }
QUuid QUuid::fromString(QStringView s) noexcept { return parseUuid((const ushort *)s.data(), s.size()); }
QUuid::QUuid(const QString &s) : QUuid(fromString(s)) {}
QUuid::QUuid(const QByteArray &s) : QUuid(parseUuid((const uchar *)s.constData(), s.size())) {}
QUuid::QUuid(const char *s) : QUuid(s ? parseUuid((const uchar *)s, (int)strlen(s)) : QUuid()) {}
QByteArray QUuid::toRfc4122() const { QByteArray r(16, Qt::Uninitialized); uuidBytes(*this, (uchar *)r.data()); return r; }
QUuid QUuid::fromRfc4122(const QByteArray &a) { return a.isEmpty() || a.size() != 16 ? QUuid() : fromBytes((const uchar *)a.constData()); }
bool QUuid::isNull() const noexcept { uint x = data1 | data2 | data3; for (int i = 0; i < 8; ++i) x |= data4[i]; return x == 0; }
// QDataStream on a byte array
struct DS { QByteArray copy; QByteArray *buf; int pos; };
static DS *ds(QDataStream *s) { return (DS *)s->dev; }
class QDataStreamPrivate {};
QDataStream::QDataStream(const QByteArray &a) : d(nullptr), dev((QIODevice *)new DS{a, nullptr, 0}), owndev(true), noswap(false), byteorder(BigEndian), ver(Qt_DefaultCompiledVersion), q_status(Ok) { ds(this)->buf = &ds(this)->copy; }
QDataStream::QDataStream(QByteArray *a, QIODevice::OpenMode) : d(nullptr), dev((QIODevice *)new DS{QByteArray(), a, 0}), owndev(true), noswap(false), byteorder(BigEndian), ver(Qt_DefaultCompiledVersion), q_status(Ok) {}
QDataStream::Status QDataStream::status() const { return q_status; } void QDataStream::resetStatus() { q_status = Ok; }
int QDataStream::readRawData(char *p, int n) { DS *x = ds(this); int a = x->buf->size() - x->pos; if (n > a) n = a; memcpy(p, x->buf->constData() + x->pos, n); x->pos += n; return n; }
int QDataStream::skipRawData(int n) { DS *x = ds(this); int a = x->buf->size() - x->pos; if (n > a) n = a; x->pos += n; return n; }
int QDataStream::writeRawData(const char *p, int n) { DS *x = ds(this); if (x->pos != x->buf->size()) symx_unmodelled("writing into the middle of a stream"); x->buf->append(p, n); x->pos += n; return n; }
QDataStream::~QDataStream() { delete ds(this); }
bool QDataStream::atEnd() const { DS *x = ds(const_cast<QDataStream *>(this)); return x->pos >= x->buf->size(); }
void QDataStream::setByteOrder(ByteOrder b) { byteorder = b; }
template <class T> static QDataStream &rd(QDataStream &s, T &v, bool big) { DS *x = ds(&s); v = 0; if (x->buf->size() - x->pos < (int)sizeof(T)) { x->pos = x->buf->size(); s.setStatus(QDataStream::ReadPastEnd); return s; } const uchar *p = (const uchar *)x->buf->constData() + x->pos; typename std::make_unsigned<T>::type r = 0; for (int i = 0; i < (int)sizeof(T); ++i) r = (decltype(r))(r << (sizeof(T) > 1 ? 8 : 0) | p[big ? i : (int)sizeof(T) - 1 - i]); x->pos += sizeof(T); v = (T)r; return s; }
template <class T> static QDataStream &wr(QDataStream &s, T v, bool big) { DS *x = ds(&s); char b[sizeof(T)]; for (int i = 0; i < (int)sizeof(T); ++i) b[big ? (int)sizeof(T) - 1 - i : i] = (char)(v >> (8 * i)); if (x->pos >= x->buf->size()) { x->buf->append(b, sizeof(T)); } else symx_unmodelled("overwriting a byte array through QDataStream"); x->pos += sizeof(T); return s; }
void QDataStream::setStatus(Status st) { if (q_status == Ok) q_status = st; }
#define BIG (byteorder == BigEndian)
QDataStream &QDataStream::operator>>(qint8 &v) { return rd(*this, v, BIG); } QDataStream &QDataStream::operator>>(qint16 &v) { return rd(*this, v, BIG); } QDataStream &QDataStream::operator>>(qint32 &v) { return rd(*this, v, BIG); } QDataStream &QDataStream::operator>>(qint64 &v) { return rd(*this, v, BIG); }
QDataStream &QDataStream::operator<<(qint8 v) { return wr(*this, v, BIG); } QDataStream &QDataStream::operator<<(qint16 v) { return wr(*this, v, BIG); } QDataStream &QDataStream::operator<<(qint32 v) { return wr(*this, v, BIG); } QDataStream &QDataStream::operator<<(qint64 v) { return wr(*this, v, BIG); }
QDataStream &operator<<(QDataStream &o, QChar c) { return o << quint16(c.unicode()); }
QDataStream &operator>>(QDataStream &i, QChar &c) { quint16 u; i >> u; c.unicode() = u; return i; }
// QtGui value types
QColor QColor::fromRgba(QRgb v) noexcept { QColor c; c.setRgba(v); return c; }
QColor QColor::fromRgb(QRgb v) noexcept { return fromRgba(v | 0xff000000u); }
QColor QColor::fromRgb(int r, int g, int b, int a) { return QColor(r, g, b, a); }
QColor::QColor(QRgb v) noexcept { setRgba(v | 0xff000000u); }
void QColor::setRgba(QRgb v) noexcept { cspec = Rgb; ct.argb.alpha = (ushort)(qAlpha(v) * 0x101); ct.argb.red = (ushort)(qRed(v) * 0x101); ct.argb.green = (ushort)(qGreen(v) * 0x101); ct.argb.blue = (ushort)(qBlue(v) * 0x101); ct.argb.pad = 0; }
QRgb QColor::rgba() const noexcept { if (cspec != Invalid && cspec != Rgb) symx_unmodelled("colour conversion"); return qRgba(ct.argb.red >> 8, ct.argb.green >> 8, ct.argb.blue >> 8, ct.argb.alpha >> 8); }
QRgb QColor::rgb() const noexcept { return rgba() | 0xff000000u; }
int QColor::red() const noexcept { return qRed(rgba()); } int QColor::green() const noexcept { return qGreen(rgba()); } int QColor::blue() const noexcept { return qBlue(rgba()); } int QColor::alpha() const noexcept { return ct.argb.alpha >> 8; }
void QColor::setAlpha(int a) { ct.argb.alpha = (ushort)(a * 0x101); }
QColor &QColor::operator=(const QColor &o) noexcept { cspec = o.cspec; ct.argb = o.ct.argb; return *this; }
bool QColor::operator==(const QColor &o) const noexcept { return (cspec == o.cspec) & (ct.argb.alpha == o.ct.argb.alpha) & (ct.argb.red == o.ct.argb.red) & (ct.argb.green == o.ct.argb.green) & (ct.argb.blue == o.ct.argb.blue) & (ct.argb.pad == o.ct.argb.pad); }
bool QColor::operator!=(const QColor &o) const noexcept { return !(*this == o); }
QTransform::QTransform() : affine(true), m_13(0), m_23(0), m_33(1), m_type(TxNone), m_dirty(TxNone), d(nullptr) {}
QTransform::QTransform(qreal a, qreal b, qreal c, qreal e, qreal f, qreal g, qreal h, qreal i, qreal j) : affine(a, b, e, f, h, i, true), m_13(c), m_23(g), m_33(j), m_type(TxNone), m_dirty(TxProject), d(nullptr) {}
QTransform &QTransform::operator=(const QTransform &o) noexcept { memcpy((void *)this, (const void *)&o, sizeof(QTransform)); return *this; }
bool QTransform::operator==(const QTransform &o) const { return (affine._m11 == o.affine._m11) & (affine._m12 == o.affine._m12) & (affine._m21 == o.affine._m21) & (affine._m22 == o.affine._m22) & (affine._dx == o.affine._dx) & (affine._dy == o.affine._dy) & (m_13 == o.m_13) & (m_23 == o.m_23) & (m_33 == o.m_33); }
bool QTransform::operator!=(const QTransform &o) const { return !(*this == o); }
QMatrix &QMatrix::operator=(const QMatrix &o) noexcept { memcpy((void *)this, (const void *)&o, sizeof(QMatrix)); return *this; }
QMatrix::QMatrix() : _m11(1.), _m12(0.), _m21(0.), _m22(1.), _dx(0.), _dy(0.) {}
// meta types of QtGui
struct TI { const char *name; int size; u32 flags; void *(*ctor)(void *, const void *); void (*dtor)(void *); const QMetaObject *mo; };
template <class T> struct HG { static void *c(void *w, const void *s) { return s ? new (w) T(*static_cast<const T *>(s)) : new (w) T(); } static void d(void *w) { static_cast<T *>(w)->~T(); } };
#define BT(T) TI{#T, (int)sizeof(T), (QTypeInfo<T>::isRelocatable ? (u32)QMetaType::MovableType : 0u), &HG<T>::c, &HG<T>::d, nullptr}
static TI gui(int id) { switch (id) { case QMetaType::QColor: return BT(QColor); case QMetaType::QPolygon: return BT(QPolygon); case QMetaType::QPolygonF: return BT(QPolygonF); case QMetaType::QMatrix4x4: return BT(QMatrix4x4); case QMetaType::QTransform: return BT(QTransform); case QMetaType::QVector2D: return BT(QVector2D); case QMetaType::QVector3D: return BT(QVector3D); case QMetaType::QVector4D: return BT(QVector4D); case QMetaType::QQuaternion: return BT(QQuaternion); } return TI{nullptr, 0, 0, nullptr, nullptr, nullptr}; }
namespace symxm { extern TI (*guiType)(int); void initGui() { guiType = gui; } }
