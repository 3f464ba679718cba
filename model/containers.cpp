// QArrayData, QByteArray, QString, QListData, QMapDataBase, QHashData.
// Capacity is always exact (no growth slack), so an access beyond the size (plus Qt's terminating NUL) is out of bounds.
#include "m.h"
#include <QtCore/QByteArray>
#include <QtCore/QString>
#include <QtCore/QStringList>
#include <QtCore/QList>
#include <QtCore/QMap>
#include <QtCore/QHash>
#include <QtCore/QVector>
#include <QtCore/QChar>
#include <new>

// ---------------------------------------------------------------- QArrayData
const QArrayData QArrayData::shared_null[2] = {{Q_REFCOUNT_INITIALIZE_STATIC, 0, 0, 0, sizeof(QArrayData)}, {{Q_BASIC_ATOMIC_INITIALIZER(0)}, 0, 0, 0, 0}};
static const QArrayData qt_array_unsharable_[2] = {{{Q_BASIC_ATOMIC_INITIALIZER(0)}, 0, 0, 0, sizeof(QArrayData)}, {{Q_BASIC_ATOMIC_INITIALIZER(0)}, 0, 0, 0, 0}};
static const QArrayData qt_array_empty_[2] = {{Q_REFCOUNT_INITIALIZE_STATIC, 0, 0, 0, sizeof(QArrayData)}, {{Q_BASIC_ATOMIC_INITIALIZER(0)}, 0, 0, 0, 0}};
QArrayData *QArrayData::allocate(size_t objectSize, size_t alignment, size_t capacity, AllocationOptions options) noexcept {
    if (!(options & RawData) && !capacity) return const_cast<QArrayData *>(options & Unsharable ? qt_array_unsharable_ : qt_array_empty_);
    size_t header = sizeof(QArrayData); if (header % alignment) header = (header / alignment + 1) * alignment;
    QArrayData *h = static_cast<QArrayData *>(malloc(header + objectSize * capacity));
    h->ref.atomic.storeRelaxed(options & Unsharable ? 0 : 1); h->size = 0; h->alloc = capacity; h->capacityReserved = bool(options & CapacityReserved); h->offset = header;
    return h;
}
QArrayData *QArrayData::reallocateUnaligned(QArrayData *data, size_t objectSize, size_t capacity, AllocationOptions options) noexcept {
    QArrayData *h = static_cast<QArrayData *>(realloc(data, sizeof(QArrayData) + objectSize * capacity));
    h->capacityReserved = bool(options & CapacityReserved); h->alloc = capacity; return h;
}
void QArrayData::deallocate(QArrayData *data, size_t, size_t) noexcept { if (data == qt_array_empty_ || data == qt_array_unsharable_) return; free(data); }

// ---------------------------------------------------------------- QByteArray
typedef QTypedArrayData<char> BD;
static BD *newBA(int n) { // n bytes + NUL, uninitialised
    BD *d = static_cast<BD *>(QArrayData::allocate(1, alignof(BD), (unsigned)n + 1u)); d->size = n; d->data()[n] = 0; return d;
}
static BD *emptyBA() { return static_cast<BD *>(const_cast<QArrayData *>(qt_array_empty_)); }
static void dropBA(BD *d) { if (!d->ref.deref()) QArrayData::deallocate(d, 1, alignof(BD)); }
QByteArray::QByteArray(const char *data, int size) {
    if (!data) { d = Data::sharedNull(); return; }
    if (size < 0) size = int(strlen(data));
    if (!size) { d = emptyBA(); return; }
    symx_check_readable(data, (unsigned)size);
    size = (int)symx_concretize((unsigned)size);
    d = newBA(size); memcpy(d->data(), data, size);
}
QByteArray::QByteArray(int size, char ch) { if (size <= 0) { d = emptyBA(); return; } size = (int)symx_concretize((unsigned)size); d = newBA(size); memset(d->data(), ch, size); }
QByteArray::QByteArray(int size, Qt::Initialization) { if (size <= 0) { d = emptyBA(); return; } size = (int)symx_concretize((unsigned)size); d = newBA(size); }
QByteArray &QByteArray::operator=(const QByteArray &o) noexcept { o.d->ref.ref(); dropBA(static_cast<BD *>((QArrayData *)d)); d = o.d; return *this; }
QByteArray &QByteArray::operator=(const char *s) { QByteArray t(s); swap(t); return *this; }
void QByteArray::reallocData(uint alloc, Data::AllocationOptions) {
    alloc = (uint)symx_concretize(alloc);
    int n = qMin(int(alloc) - 1, d->size); if (n < 0) n = 0;
    Data *x = static_cast<Data *>(QArrayData::allocate(1, alignof(Data), alloc)); x->size = n; memcpy(x->data(), d->data(), n); x->data()[n] = 0;
    if (!d->ref.deref()) Data::deallocate(d);
    d = x;
}
void QByteArray::resize(int size) {
    if (size < 0) size = 0; size = (int)symx_concretize((unsigned)size);
    if (size == 0 && !d->capacityReserved) { Data *x = static_cast<Data *>((QArrayData *)emptyBA()); if (!d->ref.deref()) Data::deallocate(d); d = x; return; }
    Data *x = static_cast<Data *>((QArrayData *)newBA(size)); memcpy(x->data(), d->data(), qMin(size, d->size));
    if (!d->ref.deref()) Data::deallocate(d);
    d = x;
}
QByteArray &QByteArray::fill(char ch, int size) { resize(size < 0 ? d->size : size); if (d->size) memset(data(), ch, d->size); return *this; }
void QByteArray::expand(int i) { resize(qMax(i + 1, d->size)); }
void QByteArray::clear() { if (!d->ref.deref()) Data::deallocate(d); d = Data::sharedNull(); }
bool QByteArray::isNull() const { return d == QArrayData::sharedNull(); }
static void spliced(QByteArray &b, int pos, int cut, const char *s, int n) { // replace [pos,pos+cut) by s[0..n); s may alias b
    QByteArray r(b.size() - cut + n, Qt::Uninitialized); char *p = const_cast<char *>(r.constData());
    if (pos) memcpy(p, b.constData(), pos); if (n) memcpy(p + pos, s, n);
    int tail = b.size() - pos - cut; if (tail) memcpy(p + pos + n, b.constData() + pos + cut, tail);
    b.swap(r);
}
QByteArray &QByteArray::append(const QByteArray &o) {
    if ((d->size == 0) && !d->isMutable()) { *this = o; return *this; }
    if (o.d->size != 0) spliced(*this, d->size, 0, o.d->data(), o.d->size); return *this; }
QByteArray &QByteArray::append(const char *s) { if (s) { int n = int(strlen(s)); if (n) spliced(*this, d->size, 0, s, n); } return *this; }
QByteArray &QByteArray::append(const char *s, int len) { if (len < 0) len = qstrlen(s); if (s && len) { symx_check_readable(s, (unsigned)len); len = (int)symx_concretize((unsigned)len); spliced(*this, d->size, 0, s, len); } return *this; }
QByteArray &QByteArray::append(char c) { spliced(*this, d->size, 0, &c, 1); return *this; }
QByteArray &QByteArray::prepend(const QByteArray &o) {
    if ((d->size == 0) && !d->isMutable()) { *this = o; return *this; }
    if (o.d->size) spliced(*this, 0, 0, o.d->data(), o.d->size); return *this; }
QByteArray &QByteArray::prepend(const char *s) { return prepend(s, qstrlen(s)); }
QByteArray &QByteArray::prepend(const char *s, int len) { if (s && len) spliced(*this, 0, 0, s, len); return *this; }
QByteArray &QByteArray::prepend(char c) { spliced(*this, 0, 0, &c, 1); return *this; }
static void insertAt(QByteArray &b, int i, const char *s, int n) { if (i < 0 || n <= 0) return; if (i > b.size()) { int old = b.size(); b.resize(i); memset(b.data() + old, 0x20, i - old); } spliced(b, i, 0, s, n); }
QByteArray &QByteArray::insert(int i, const QByteArray &o) { QByteArray c(o); insertAt(*this, i, c.d->data(), c.d->size); return *this; }
QByteArray &QByteArray::insert(int i, const char *s) { if (s) insertAt(*this, i, s, int(strlen(s))); return *this; }
QByteArray &QByteArray::insert(int i, const char *s, int len) { insertAt(*this, i, s, len); return *this; }
QByteArray &QByteArray::insert(int i, char c) { insertAt(*this, i, &c, 1); return *this; }
QByteArray &QByteArray::insert(int i, int count, char c) { QByteArray t(count, c); return insert(i, t); }
QByteArray &QByteArray::remove(int pos, int len) {
    pos = (int)symx_concretize((unsigned)pos); len = (int)symx_concretize((unsigned)len);
    if (len <= 0 || uint(pos) >= uint(d->size)) return *this;
    if (len >= d->size - pos) resize(pos); else spliced(*this, pos, len, nullptr, 0);
    return *this; }
QByteArray &QByteArray::replace(int pos, int len, const char *after, int alen) {
    if (len < 0) len = 0; if (uint(pos) > uint(d->size)) return *this; if (len > d->size - pos) len = d->size - pos;
    QByteArray a(after, alen); spliced(*this, pos, len, a.constData(), a.size()); return *this; }
QByteArray &QByteArray::replace(int pos, int len, const QByteArray &a) { return replace(pos, len, a.constData(), a.size()); }
QByteArray &QByteArray::replace(int pos, int len, const char *a) { return replace(pos, len, a, qstrlen(a)); }
QByteArray &QByteArray::replace(char b, char a) { for (int i = 0; i < d->size; ++i) if (d->data()[i] == b) data()[i] = a; return *this; }
QByteArray QByteArray::left(int len) const { if (len >= d->size) return *this; if (len < 0) len = 0; return QByteArray(d->data(), len); }
QByteArray QByteArray::right(int len) const { if (len >= d->size) return *this; if (len < 0) len = 0; return QByteArray(d->data() + d->size - len, len); }
static int midPos(int size, int &pos, int &len) { // QContainerImplHelper::mid : 0 null, 1 empty, 2 full, 3 subset
    if (pos > size) return 0;
    if (pos < 0) { if (len < 0 || len + pos >= size) { pos = 0; len = size; return 2; } if (len + pos <= 0) { pos = len = 0; return 0; } len += pos; pos = 0; }
    else if (uint(len) > uint(size - pos)) len = size - pos;
    if (pos == 0 && len == size) return 2;
    return len > 0 ? 3 : 1; }
QByteArray QByteArray::mid(int pos, int len) const {
    switch (midPos(d->size, pos, len)) { case 0: return QByteArray(); case 1: { QByteArray r; r.d = static_cast<Data *>((QArrayData *)emptyBA()); return r; } case 2: return *this; default: return QByteArray(d->data() + pos, len); } }
bool QByteArray::startsWith(const QByteArray &a) const { if (d == a.d || a.d->size == 0) return true; if (d->size < a.d->size) return false; return memcmp(d->data(), a.d->data(), a.d->size) == 0; }
bool QByteArray::startsWith(const char *s) const { if (!s || !*s) return true; int n = strlen(s); return d->size >= n && memcmp(d->data(), s, n) == 0; }
bool QByteArray::startsWith(char c) const { return d->size != 0 && d->data()[0] == c; }
bool QByteArray::endsWith(const QByteArray &a) const { if (a.d->size == 0) return true; if (d->size < a.d->size) return false; return memcmp(d->data() + d->size - a.d->size, a.d->data(), a.d->size) == 0; }
bool QByteArray::endsWith(const char *s) const { if (!s || !*s) return true; int n = strlen(s); return d->size >= n && memcmp(d->data() + d->size - n, s, n) == 0; }
bool QByteArray::endsWith(char c) const { return d->size != 0 && d->data()[d->size - 1] == c; }
void QByteArray::truncate(int pos) { if (pos < d->size) resize(pos); }
void QByteArray::chop(int n) { if (n > 0) resize(d->size - n); }
int QByteArray::indexOf(char c, int from) const { if (from < 0) from = qMax(from + d->size, 0); for (int i = from; i < d->size; ++i) if (d->data()[i] == c) return i; return -1; }
int QByteArray::indexOf(const QByteArray &a, int from) const { int n = a.size(); if (from < 0) from = qMax(from + d->size, 0); for (int i = from; i + n <= d->size; ++i) if (!memcmp(d->data() + i, a.constData(), n)) return i; return -1; }
int QByteArray::indexOf(const char *c, int from) const { return indexOf(QByteArray(c), from); }
int QByteArray::lastIndexOf(char c, int from) const { if (from < 0) from += d->size; else if (from > d->size) from = d->size - 1; for (int i = from; i >= 0; --i) if (d->data()[i] == c) return i; return -1; }
int QByteArray::count(char c) const { int r = 0; for (int i = 0; i < d->size; ++i) r += d->data()[i] == c; return r; }
QByteArray QByteArray::toHex() const { QByteArray r(d->size * 2, Qt::Uninitialized); char *p = r.data(); for (int i = 0; i < d->size; ++i) { uchar c = d->data()[i]; p[2 * i] = "0123456789abcdef"[c >> 4]; p[2 * i + 1] = "0123456789abcdef"[c & 15]; } return r; }
QByteArray QByteArray::repeated(int t) const { QByteArray r; while (t-- > 0) r.append(*this); return r; }
QByteArray QByteArray::fromRawData(const char *data, int size) { return data && size ? QByteArray(data, size) : QByteArray(); }
QByteArray QByteArray::toLower_helper(const QByteArray &a) { QByteArray r(a.constData(), a.size()); for (int i = 0; i < r.size(); ++i) { char c = r.constData()[i]; if (c >= 'A' && c <= 'Z') r.data()[i] = c + 32; } return r; }
QByteArray QByteArray::toUpper_helper(const QByteArray &a) { QByteArray r(a.constData(), a.size()); for (int i = 0; i < r.size(); ++i) { char c = r.constData()[i]; if (c >= 'a' && c <= 'z') r.data()[i] = c - 32; } return r; }
static bool isSp(uchar c) { return c == 32 || (c >= 9 && c <= 13); }
QByteArray QByteArray::trimmed_helper(const QByteArray &a) { int b = 0, e = a.size(); while (b < e && isSp(a.constData()[b])) ++b; while (b < e && isSp(a.constData()[e - 1])) --e; return a.mid(b, e - b); }
// decimal/other base integer parse as Qt's bytearrayToLongLong: leading/trailing white space allowed, optional sign
static bool parseInt(const char *s, int n, int base, bool isSigned, quint64 &out, bool &neg) {
    int i = 0; while (i < n && isSp(s[i])) ++i; int e = n; while (e > i && isSp(s[e - 1])) --e; neg = false; out = 0;
    if (i < e && (s[i] == '-' || s[i] == '+')) { neg = s[i] == '-'; ++i; } if (i >= e) return false; if (neg && !isSigned) return false;
    for (; i < e; ++i) { int v; char c = s[i]; if (c >= '0' && c <= '9') v = c - '0'; else if (c >= 'a' && c <= 'z') v = c - 'a' + 10; else if (c >= 'A' && c <= 'Z') v = c - 'A' + 10; else return false; if (v >= base) return false; if (out > (~quint64(0) - v) / base) return false; out = out * base + v; }
    return true; }
static QByteArray prefixed(const QByteArray &a, int &base) { if (base && base != 16) return a; int i = 0; while (i < a.size() && (a.at(i) == ' ' || (a.at(i) >= 9 && a.at(i) <= 13))) ++i; if (i < a.size() && (a.at(i) == '-' || a.at(i) == '+')) ++i; if (i + 1 < a.size() && a.at(i) == '0' && (a.at(i + 1) == 'x' || a.at(i + 1) == 'X')) { base = 16; return a.left(i) + a.mid(i + 2); } if (!base) base = i < a.size() && a.at(i) == '0' ? 8 : 10; return a; }
static qlonglong toSigned(const QByteArray &a0, bool *ok, int base, qlonglong lo, qlonglong hi) { const QByteArray a = base == 10 ? a0 : prefixed(a0, base); quint64 v; bool neg; bool r = parseInt(a.constData(), a.size(), base ? base : 10, true, v, neg); if (r) { if (neg ? v > quint64(-(lo + 1)) + 1 : v > quint64(hi)) r = false; } if (ok) *ok = r; return r ? (neg ? qlonglong(-v) : qlonglong(v)) : 0; }
static qulonglong toUnsigned(const QByteArray &a0, bool *ok, int base, qulonglong hi) { const QByteArray a = base == 10 ? a0 : prefixed(a0, base); quint64 v; bool neg; bool r = parseInt(a.constData(), a.size(), base ? base : 10, false, v, neg); if (r && v > hi) r = false; if (ok) *ok = r; return r ? v : 0; }
int QByteArray::toInt(bool *ok, int base) const { return (int)toSigned(*this, ok, base, INT_MIN, INT_MAX); }
uint QByteArray::toUInt(bool *ok, int base) const { return (uint)toUnsigned(*this, ok, base, UINT_MAX); }
qlonglong QByteArray::toLongLong(bool *ok, int base) const { return toSigned(*this, ok, base, LLONG_MIN, LLONG_MAX); }
qulonglong QByteArray::toULongLong(bool *ok, int base) const { return toUnsigned(*this, ok, base, ULLONG_MAX); }
long QByteArray::toLong(bool *ok, int base) const { return toSigned(*this, ok, base, LONG_MIN, LONG_MAX); }
short QByteArray::toShort(bool *ok, int base) const { return (short)toSigned(*this, ok, base, SHRT_MIN, SHRT_MAX); }
ushort QByteArray::toUShort(bool *ok, int base) const { return (ushort)toUnsigned(*this, ok, base, USHRT_MAX); }
static int digits(char *buf, quint64 v, int base) { char t[72]; int n = 0; do { int q = int(v % base); t[n++] = q < 10 ? '0' + q : 'a' + q - 10; v /= base; } while (v); for (int i = 0; i < n; ++i) buf[i] = t[n - 1 - i]; return n; }
static QByteArray numS(qlonglong v, int base) { char b[80]; int n = 0; quint64 u = v; if (v < 0 && base == 10) { b[n++] = '-'; u = -u; } n += digits(b + n, u, base); return QByteArray(b, n); }
QByteArray &QByteArray::setNum(qlonglong v, int base) { *this = numS(v, base); return *this; }
QByteArray &QByteArray::setNum(qulonglong v, int base) { char b[80]; int n = digits(b, v, base); *this = QByteArray(b, n); return *this; }
QByteArray QByteArray::number(int v, int base) { return base == 10 ? numS(v, base) : numS((qlonglong)(uint)v, base); }
QByteArray QByteArray::number(uint v, int base) { QByteArray r; r.setNum(qulonglong(v), base); return r; }
QByteArray QByteArray::number(qlonglong v, int base) { return numS(v, base); }
QByteArray QByteArray::number(qulonglong v, int base) { QByteArray r; r.setNum(v, base); return r; }
int qstrcmp(const QByteArray &a, const QByteArray &b) { int l = qMin(a.size(), b.size()); int r = l ? memcmp(a.constData(), b.constData(), l) : 0; if (r) return r; return a.size() == b.size() ? 0 : a.size() < b.size() ? -1 : 1; }
int qstrcmp(const QByteArray &a, const char *b) { if (!b) return a.isEmpty() ? 0 : 1; return strcmp(a.constData(), b); }
int qstrcmp(const char *a, const char *b) { return (a && b) ? strcmp(a, b) : (a ? 1 : (b ? -1 : 0)); }
QList<QByteArray> QByteArray::split(char sep) const { QList<QByteArray> l; int s = 0; for (int i = 0; i < size(); ++i) if (constData()[i] == sep) { l.append(mid(s, i - s)); s = i + 1; } l.append(mid(s)); return l; }

// ---------------------------------------------------------------- QString
typedef QTypedArrayData<ushort> SD;
static SD *newStr(int n) { SD *d = static_cast<SD *>(QArrayData::allocate(2, alignof(SD), (unsigned)n + 1u)); d->size = n; d->data()[n] = 0; return d; }
static SD *emptyStr() { return static_cast<SD *>(const_cast<QArrayData *>(qt_array_empty_)); }
static void dropStr(QArrayData *d) { if (!d->ref.deref()) QArrayData::deallocate(d, 2, alignof(SD)); }
QString::QString(const QChar *u, int size) { if (!u) { d = Data::sharedNull(); return; } if (size < 0) { size = 0; while (!u[size].isNull()) ++size; } if (!size) { d = emptyStr(); return; } size = (int)symx_concretize((unsigned)size); d = newStr(size); memcpy(d->data(), u, size * 2); }
QString::QString(int size, QChar ch) { if (size <= 0) { d = emptyStr(); return; } d = newStr(size); for (int i = 0; i < size; ++i) d->data()[i] = ch.unicode(); }
QString::QString(int size, Qt::Initialization) { if (size <= 0) { d = emptyStr(); return; } d = newStr(size); }
QString::QString(QChar ch) { d = newStr(1); d->data()[0] = ch.unicode(); }
QString &QString::operator=(const QString &o) noexcept { o.d->ref.ref(); dropStr(d); d = o.d; return *this; }
QString &QString::operator=(QLatin1String o) { QString t(o); swap(t); return *this; }
QString &QString::operator=(QChar c) { QString t(c); swap(t); return *this; }
void QString::resize(int size) { if (size < 0) size = 0; size = (int)symx_concretize((unsigned)size); if (!size) { dropStr(d); d = emptyStr(); return; } SD *x = newStr(size); memcpy(x->data(), d->data(), 2 * qMin(size, d->size)); dropStr(d); d = x; }
void QString::reallocData(uint alloc, bool) { int n = qMin(int(alloc) - 1, d->size); SD *x = static_cast<SD *>(QArrayData::allocate(2, alignof(SD), alloc)); x->size = n; memcpy(x->data(), d->data(), 2 * n); x->data()[n] = 0; dropStr(d); d = x; }
void QString::expand(int i) { resize(qMax(i + 1, d->size)); }
static void sspl(QString &b, int pos, int cut, const QChar *s, int n) {
    QString r(b.size() - cut + n, Qt::Uninitialized); ushort *p = reinterpret_cast<ushort *>(const_cast<QChar *>(r.constData()));
    if (pos) memcpy(p, b.constData(), pos * 2); if (n) memcpy(p + pos, s, n * 2); int tail = b.size() - pos - cut; if (tail) memcpy(p + pos + n, b.constData() + pos + cut, tail * 2); b.swap(r); }
QString &QString::append(const QString &s) { if (s.isNull()) return *this; if (isNull()) { *this = s; return *this; } if (s.size()) sspl(*this, size(), 0, s.constData(), s.size()); return *this; }
QString &QString::append(const QChar *s, int n) { if (s && n > 0) sspl(*this, size(), 0, s, n); return *this; }
QString &QString::append(QLatin1String s) { return append(QString(s)); }
QString &QString::append(QChar c) { sspl(*this, size(), 0, &c, 1); return *this; }
QString &QString::insert(int i, const QChar *s, int n) { if (i < 0 || n <= 0) return *this; QString c(s, n); if (i > size()) { int o = size(); resize(i); for (; o < i; ++o) data()[o] = QLatin1Char(' '); } sspl(*this, i, 0, c.constData(), n); return *this; }
QString &QString::insert(int i, QChar c) { return insert(i, &c, 1); }
QString &QString::insert(int i, QLatin1String s) { QString t(s); return insert(i, t.constData(), t.size()); }
QString &QString::remove(int pos, int len) { if (pos < 0) pos += size(); if (pos >= 0 && pos < size() && len > 0) { if (len > size() - pos) len = size() - pos; sspl(*this, pos, len, nullptr, 0); } return *this; }
QString QString::mid(int pos, int len) const { switch (midPos(d->size, pos, len)) { case 0: return QString(); case 1: return QString(reinterpret_cast<const QChar *>(d->data()), 0); case 2: return *this; default: return QString(reinterpret_cast<const QChar *>(d->data()) + pos, len); } }
QString QString::left(int n) const { if (uint(n) >= uint(d->size)) return *this; return QString(constData(), n); }
QString QString::right(int n) const { if (uint(n) >= uint(d->size)) return *this; return QString(constData() + d->size - n, n); }
void QString::truncate(int pos) { if (pos < d->size) resize(pos); }
void QString::chop(int n) { if (n > 0) resize(d->size - n); }
// case folding: ASCII only
static ushort foldc(ushort c, Qt::CaseSensitivity cs) { if (cs == Qt::CaseSensitive) return c; if (c > 127) symx_unmodelled("case folding of a non-ASCII character"); return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static bool eqAt(const QChar *a, const QChar *b, int n, Qt::CaseSensitivity cs) { if (cs == Qt::CaseSensitive) return !n || memcmp(a, b, 2 * n) == 0; for (int i = 0; i < n; ++i) if (foldc(a[i].unicode(), cs) != foldc(b[i].unicode(), cs)) return false; return true; }
bool QString::startsWith(const QString &s, Qt::CaseSensitivity cs) const { if (isNull()) return s.isNull(); return s.size() <= size() && eqAt(constData() + 0, s.constData(), s.size(), cs); }
bool QString::startsWith(QLatin1String s, Qt::CaseSensitivity cs) const { return startsWith(QString(s), cs); }
bool QString::startsWith(QChar c, Qt::CaseSensitivity cs) const { return size() && eqAt(constData(), &c, 1, cs); }
bool QString::endsWith(const QString &s, Qt::CaseSensitivity cs) const { if (isNull()) return s.isNull(); return s.size() <= size() && eqAt(constData() + size() - s.size(), s.constData(), s.size(), cs); }
bool QString::endsWith(QLatin1String s, Qt::CaseSensitivity cs) const { return endsWith(QString(s), cs); }
bool QString::endsWith(QChar c, Qt::CaseSensitivity cs) const { return size() && eqAt(constData() + size() - 1, &c, 1, cs); }
int QString::indexOf(QChar c, int from, Qt::CaseSensitivity cs) const { if (from < 0) from = qMax(from + size(), 0); for (int i = from; i < size(); ++i) if (eqAt(constData() + i, &c, 1, cs)) return i; return -1; }
int QString::indexOf(const QString &s, int from, Qt::CaseSensitivity cs) const { if (from < 0) from += size(); for (int i = qMax(from, 0); i + s.size() <= size(); ++i) if (eqAt(constData() + i, s.constData(), s.size(), cs)) return i; return -1; }
int QString::indexOf(QLatin1String s, int from, Qt::CaseSensitivity cs) const { return indexOf(QString(s), from, cs); }
int QString::lastIndexOf(QChar c, int from, Qt::CaseSensitivity cs) const { if (from < 0) from += size(); for (int i = qMin(from, size() - 1); i >= 0; --i) if (eqAt(constData() + i, &c, 1, cs)) return i; return -1; }
static SD *latin1Data(const char *s, int n) { if (!s) return static_cast<SD *>(QArrayData::sharedNull()); if (n < 0) n = int(strlen(s)); if (!n) return emptyStr(); SD *d = newStr(n); for (int i = 0; i < n; ++i) d->data()[i] = (uchar)s[i]; return d; }
QString::Data *QString::fromLatin1_helper(const char *s, int n) { return latin1Data(s, n); }
QString::Data *QString::fromAscii_helper(const char *s, int n) { if (!s) return Data::sharedNull(); QString r = fromUtf8_helper(s, n < 0 ? (int)strlen(s) : n); Data *d = r.d; r.d = Data::sharedNull(); return d; }
// QUtf8::convertToUnicode (5.15): a leading BOM is dropped, every byte that starts no valid sequence becomes U+FFFD
static int seq(const uchar *s, const uchar *end, uint &cp, int &extra) { // number of continuation bytes consumed, or -1
    uchar b = s[0]; extra = 0;
    if (b < 0x80) { cp = b; return 0; }
    if (b <= 0xC1) return -1;
    int need; uint min, u; if (b < 0xE0) { need = 1; min = 0x80; u = b & 0x1f; } else if (b < 0xF0) { need = 2; min = 0x800; u = b & 0x0f; } else if (b < 0xF5) { need = 3; min = 0x10000; u = b & 0x07; } else return -1;
    if (end - s - 1 < need) return -1;
    for (int i = 1; i <= need; ++i) { if ((s[i] & 0xC0) != 0x80) return -1; u = (u << 6) | (s[i] & 0x3f); }
    if (u < min || (u >= 0xD800 && u <= 0xDFFF) || u > 0x10FFFF) return -1;
    cp = u; return need; }
QString QString::fromUtf8_helper(const char *str, int len) {
    if (!str) return QString(); if (len == 0) return QString(reinterpret_cast<const QChar *>(""), 0) ;
    const uchar *s = reinterpret_cast<const uchar *>(str), *end = s + len;
    if (len >= 3 && s[0] == 0xEF && s[1] == 0xBB && s[2] == 0xBF) s += 3;
    ushort *tmp = static_cast<ushort *>(malloc(2 * len + 2)); int n = 0;
    while (s < end) { uint cp = 0; int ex; int k = seq(s, end, cp, ex); if (k < 0) { tmp[n++] = 0xFFFD; ++s; } else { if (cp >= 0x10000) { tmp[n++] = 0xD7C0 + (cp >> 10); tmp[n++] = 0xDC00 + (cp & 0x3ff); } else tmp[n++] = ushort(cp); s += k + 1; } }
    QString r(reinterpret_cast<const QChar *>(tmp), n); free(tmp); return r; }
// QUtf8::convertFromUnicode: unpaired surrogates become '?'
QByteArray QString::toUtf8_helper(const QString &s) {
    if (s.isNull()) return QByteArray(); int len = s.size(); const ushort *u = s.utf16(); char *t = static_cast<char *>(malloc(3 * len + 1)); int n = 0;
    for (int i = 0; i < len; ++i) { uint c = u[i];
        if (c < 0x80) t[n++] = c; else if (c < 0x800) { t[n++] = 0xC0 | (c >> 6); t[n++] = 0x80 | (c & 0x3f); }
        else if (c >= 0xD800 && c <= 0xDFFF) { if (c < 0xDC00 && i + 1 < len && u[i + 1] >= 0xDC00 && u[i + 1] <= 0xDFFF) { uint cp = 0x10000 + ((c - 0xD800) << 10) + (u[i + 1] - 0xDC00); ++i; t[n++] = 0xF0 | (cp >> 18); t[n++] = 0x80 | ((cp >> 12) & 0x3f); t[n++] = 0x80 | ((cp >> 6) & 0x3f); t[n++] = 0x80 | (cp & 0x3f); } else t[n++] = '?'; }
        else { t[n++] = 0xE0 | (c >> 12); t[n++] = 0x80 | ((c >> 6) & 0x3f); t[n++] = 0x80 | (c & 0x3f); } }
    QByteArray r(t, n); free(t); return r; }
const ushort *QString::utf16() const { if (!d->isMutable()) const_cast<QString *>(this)->reallocData(uint(d->size) + 1u); return d->data(); }
QByteArray QString::toLatin1_helper(const QString &s) { if (s.isNull()) return QByteArray(); QByteArray r(s.size(), Qt::Uninitialized); for (int i = 0; i < s.size(); ++i) { ushort c = s.constData()[i].unicode(); r.data()[i] = c > 255 ? '?' : (char)c; } return r; }
QByteArray QString::toLatin1_helper_inplace(QString &s) { return toLatin1_helper(s); }
QByteArray QString::toLocal8Bit_helper(const QChar *u, int n) { return toUtf8_helper(QString(u, n)); }
QString QString::fromLocal8Bit_helper(const char *s, int n) { return fromUtf8_helper(s, n); }
QString QString::number(long long v, int base) { QByteArray b = QByteArray::number((qlonglong)v, base); return QString::fromLatin1(b.constData(), b.size()); }
QString QString::number(unsigned long long v, int base) { QByteArray b = QByteArray::number((qulonglong)v, base); return QString::fromLatin1(b.constData(), b.size()); }
QString QString::number(int v, int base) { return number((long long)v, base); }
QString QString::number(uint v, int base) { return number((unsigned long long)v, base); }
QString QString::number(long v, int base) { return number((long long)v, base); }
QString QString::number(ulong v, int base) { return number((unsigned long long)v, base); }
static int cmpStr(const QChar *a, int n, const QChar *b, int m, Qt::CaseSensitivity cs = Qt::CaseSensitive) { int l = qMin(n, m); if (cs != Qt::CaseSensitive) { for (int i = 0; i < l; ++i) { ushort x = foldc(a[i].unicode(), cs), y = foldc(b[i].unicode(), cs); if (x != y) return int(x) - int(y); } return n - m; } for (int i = 0; i < l; ++i) if (a[i] != b[i]) return int(a[i].unicode()) - int(b[i].unicode()); return n - m; }
bool operator==(const QString &a, const QString &b) noexcept { return a.size() == b.size() && (a.size() == 0 || memcmp(a.constData(), b.constData(), 2 * a.size()) == 0); }
bool operator<(const QString &a, const QString &b) noexcept { return cmpStr(a.constData(), a.size(), b.constData(), b.size()) < 0; }
bool QString::operator==(QLatin1String o) const noexcept { if (size() != o.size()) return false; for (int i = 0; i < size(); ++i) if (constData()[i].unicode() != (uchar)o.data()[i]) return false; return true; }
bool QString::operator<(QLatin1String o) const noexcept { return compare(QString(o)) < 0; }
bool QString::operator>(QLatin1String o) const noexcept { return compare(QString(o)) > 0; }
int QString::compare(const QString &o, Qt::CaseSensitivity cs) const noexcept { return cmpStr(constData(), size(), o.constData(), o.size(), cs); }
int QString::compare(QLatin1String o, Qt::CaseSensitivity cs) const noexcept { return compare(QString(o), cs); }
int QString::compare_helper(const QChar *a, int n, const QChar *b, int m, Qt::CaseSensitivity cs) noexcept { return cmpStr(a, n, b, m, cs); }
int QString::compare_helper(const QChar *a, int n, const char *b, int m, Qt::CaseSensitivity cs) { if (!b) return n; QString s = m < 0 ? QString::fromUtf8(b) : QString::fromUtf8(b, m); return cmpStr(a, n, s.constData(), s.size(), cs); }
int QString::compare_helper(const QChar *a, int n, QLatin1String b, Qt::CaseSensitivity cs) noexcept { QString s(b); return cmpStr(a, n, s.constData(), s.size(), cs); }
int QString::localeAwareCompare(const QString &o) const { return compare(o); }
QString QString::arg(const QString &a0, int w, QChar fill) const { const QString a = w > 0 ? a0.rightJustified(w, fill) : w < 0 ? a0.leftJustified(-w, fill) : a0; // single %n replacement of the lowest-numbered marker
    int best = 100; for (int i = 0; i + 1 < size(); ++i) if (at(i) == QLatin1Char('%') && at(i + 1).unicode() >= '1' && at(i + 1).unicode() <= '9') best = qMin(best, at(i + 1).unicode() - '0');
    QString r; for (int i = 0; i < size(); ++i) { if (i + 1 < size() && at(i) == QLatin1Char('%') && at(i + 1).unicode() == '0' + best) { r.append(a); ++i; } else r.append(at(i)); } return r; }
static bool wsp(ushort c) { if (c > 127) symx_unmodelled("white space test of a non-ASCII character"); return (c == 32) | ((c >= 9) & (c <= 13)); }
QString QString::trimmed_helper(const QString &s) { int b = 0, e = s.size(); while (b < e && wsp(s.at(b).unicode())) ++b; while (b < e && wsp(s.at(e - 1).unicode())) --e; return s.mid(b, e - b); }
QString QString::toLower_helper(const QString &s) { QString r; for (int i = 0; i < s.size(); ++i) { ushort c = s.at(i).unicode(); if (c > 127) symx_unmodelled("non-ASCII case change"); r.append(QChar(c >= 'A' && c <= 'Z' ? c + 32 : c)); } return r; }
int QString::toInt(bool *ok, int base) const { return toLatin1().toInt(ok, base); }
uint QString::toUInt(bool *ok, int base) const { return toLatin1().toUInt(ok, base); }
qlonglong QString::toLongLong(bool *ok, int base) const { return toLatin1().toLongLong(ok, base); }
qulonglong QString::toULongLong(bool *ok, int base) const { return toLatin1().toULongLong(ok, base); }
QString &QString::setUnicode(const QChar *u, int n) { *this = QString(u, n); return *this; }
QStringList QString::split(QChar sep, Qt::SplitBehavior b, Qt::CaseSensitivity cs) const { QStringList l; int s = 0; bool skip = b & Qt::SkipEmptyParts; for (int i = 0; i < size(); ++i) if (eqAt(constData() + i, &sep, 1, cs)) { if (!skip || i > s) l.append(mid(s, i - s)); s = i + 1; } if (!skip || s < size()) l.append(mid(s)); return l; }
QString QtPrivate::QStringList_join(const QStringList *that, const QChar *sep, int n) { QString r; for (int i = 0; i < that->size(); ++i) { if (i) r.append(QString(sep, n)); r.append(that->at(i)); } return r; }
bool QtPrivate::QStringList_contains(const QStringList *that, const QString &s, Qt::CaseSensitivity cs) { for (int i = 0; i < that->size(); ++i) if (that->at(i).size() == s.size() && eqAt(that->at(i).constData(), s.constData(), s.size(), cs)) return true; return false; }

// hash values: any deterministic function of the value is a valid qHash; the length keeps bucket indices concrete
uint qHash(const QString &s, uint seed) noexcept { return uint(s.size()) ^ seed; }
uint qHash(QLatin1String s, uint seed) noexcept { return uint(s.size()) ^ seed; }
uint qHash(QStringView s, uint seed) noexcept { return uint(s.size()) ^ seed; }
uint qHash(const QByteArray &s, uint seed) noexcept { return uint(s.size()) ^ seed; }

// ---------------------------------------------------------------- QListData
const QListData::Data QListData::shared_null = {Q_REFCOUNT_INITIALIZE_STATIC, 0, 0, 0, {nullptr}};
static QListData::Data *newLD(int n) { QListData::Data *d = static_cast<QListData::Data *>(malloc(QListData::DataHeaderSize + (n ? n : 1) * sizeof(void *))); d->ref.atomic.storeRelaxed(1); d->alloc = n; d->begin = 0; d->end = 0; return d; }
QListData::Data *QListData::detach(int n) { Data *x = d, *t = newLD(n); if (!n) { t->begin = t->end = 0; } else { t->begin = 0; t->end = x->end - x->begin; if (t->end > n) symx_fail("QListData::detach below size"); } d = t; return x; }
QListData::Data *QListData::detach_grow(int *idx, int num) { Data *x = d; int l = x->end - x->begin; int nl = l + num; Data *t = newLD(nl); t->end = nl; if (*idx < 0) *idx = 0; else if (*idx > l) *idx = l; d = t; return x; }
void QListData::realloc(int n) { Data *t = newLD(n); int l = d->end - d->begin; if (l > n) l = n; if (l) memcpy(t->array, d->array + d->begin, l * sizeof(void *)); t->end = l; free(d); d = t; }
void QListData::realloc_grow(int g) { realloc(d->end - d->begin + g); }
void QListData::dispose(Data *d) { free(d); }
static void **insN(QListData *q, int i, int n) { // insert n uninitialised slots at i (unshared data)
    QListData::Data *d = q->d, *t = newLD(d->end - d->begin + n); int l = d->end - d->begin; if (i) memcpy(t->array, d->array + d->begin, i * sizeof(void *)); if (l - i) memcpy(t->array + i + n, d->array + d->begin + i, (l - i) * sizeof(void *)); t->end = l + n; free(d); q->d = t; return t->array + i; }
void **QListData::append(int n) { return insN(this, size(), n); }
void **QListData::append() { return insN(this, size(), 1); }
void **QListData::append(const QListData &l) { int n = l.size(); Data *ld = l.d; if (!n) return end(); void **s = static_cast<void **>(malloc(n * sizeof(void *))); memcpy(s, ld->array + ld->begin, n * sizeof(void *)); void **p = insN(this, size(), n); memcpy(p, s, n * sizeof(void *)); free(s); return p; }
void **QListData::prepend() { return insN(this, 0, 1); }
void **QListData::insert(int i) { if (i <= 0) i = 0; else if (i > size()) i = size(); return insN(this, i, 1); }
void QListData::remove(int i) { remove(i, 1); }
void QListData::remove(int i, int n) { int l = size(); int k = l - i - n; if (k) memmove(d->array + d->begin + i, d->array + d->begin + i + n, k * sizeof(void *)); d->end -= n; }
void QListData::move(int from, int to) { if (from == to) return; void *t = d->array[d->begin + from]; void **a = d->array + d->begin; if (from < to) for (int i = from; i < to; ++i) a[i] = a[i + 1]; else for (int i = from; i > to; --i) a[i] = a[i - 1]; a[to] = t; }
void **QListData::erase(void **xi) { int i = xi - (d->array + d->begin); remove(i); return d->array + d->begin + i; }

// ---------------------------------------------------------------- QMapDataBase: an ordinary (unbalanced) search tree
const QMapDataBase QMapDataBase::shared_null = {Q_REFCOUNT_INITIALIZE_STATIC, 0, {0, nullptr, nullptr}, nullptr};
const QMapNodeBase *QMapNodeBase::nextNode() const { const QMapNodeBase *n = this; if (n->right) { n = n->right; while (n->left) n = n->left; } else { const QMapNodeBase *y = n->parent(); while (y && n == y->right) { n = y; y = n->parent(); } n = y; } return n; }
const QMapNodeBase *QMapNodeBase::previousNode() const { const QMapNodeBase *n = this; if (n->left) { n = n->left; while (n->right) n = n->right; } else { const QMapNodeBase *y = n->parent(); while (y && n == y->left) { n = y; y = n->parent(); } n = y; } return n; }
void QMapDataBase::recalcMostLeftNode() { mostLeftNode = &header; while (mostLeftNode->left) mostLeftNode = mostLeftNode->left; }
QMapNodeBase *QMapDataBase::createNode(int alloc, int, QMapNodeBase *parent, bool left) {
    QMapNodeBase *n = static_cast<QMapNodeBase *>(malloc(alloc)); n->p = 0; n->left = nullptr; n->right = nullptr; ++size;
    if (parent) { if (left) { parent->left = n; if (parent == mostLeftNode) mostLeftNode = n; } else parent->right = n; n->setParent(parent); n->setColor(QMapNodeBase::Black); }
    return n; }
void QMapDataBase::freeTree(QMapNodeBase *root, int align) { if (root->left) freeTree(root->left, align); if (root->right) freeTree(root->right, align); free(root); }
void QMapDataBase::freeNodeAndRebalance(QMapNodeBase *z) {
    auto repl = [](QMapNodeBase *a, QMapNodeBase *b) { QMapNodeBase *p = a->parent(); if (p->left == a) p->left = b; else p->right = b; if (b) b->setParent(p); };
    if (mostLeftNode == z) { if (z->right) { QMapNodeBase *m = z->right; while (m->left) m = m->left; mostLeftNode = m; } else mostLeftNode = z->parent(); }
    if (!z->left) repl(z, z->right); else if (!z->right) repl(z, z->left);
    else { QMapNodeBase *y = z->right; while (y->left) y = y->left; if (y->parent() != z) { repl(y, y->right); y->right = z->right; y->right->setParent(y); } repl(z, y); y->left = z->left; y->left->setParent(y); }
    free(z); --size; }
QMapDataBase *QMapDataBase::createData() { QMapDataBase *d = static_cast<QMapDataBase *>(malloc(sizeof(QMapDataBase))); d->ref.atomic.storeRelaxed(1); d->size = 0; d->header.p = 0; d->header.left = nullptr; d->header.right = nullptr; d->mostLeftNode = &d->header; return d; }
void QMapDataBase::freeData(QMapDataBase *d) { free(d); }

// ---------------------------------------------------------------- QHashData
const QHashData QHashData::shared_null = {nullptr, nullptr, Q_REFCOUNT_INITIALIZE_STATIC, 0, 0, 4, 0, 0, 0, true, false, 0};
void *QHashData::allocateNode(int) { return malloc(nodeSize); }
void QHashData::freeNode(void *n) { free(n); }
QHashData *QHashData::detach_helper(void (*dup)(Node *, void *), void (*)(Node *), int nodeSize, int) {
    QHashData *d = static_cast<QHashData *>(malloc(sizeof(QHashData))); d->fakeNext = nullptr; d->buckets = nullptr; d->ref.initializeOwned(); d->size = size; d->nodeSize = nodeSize; d->userNumBits = userNumBits; d->numBits = numBits; d->numBuckets = numBuckets; d->seed = 0; d->sharable = true; d->strictAlignment = false; d->reserved = 0;
    Node *e = reinterpret_cast<Node *>(d);
    if (numBuckets) { d->buckets = static_cast<Node **>(malloc(sizeof(Node *) * numBuckets)); Node *thisE = reinterpret_cast<Node *>(this);
        for (int i = 0; i < numBuckets; ++i) { Node **nn = &d->buckets[i]; Node *old = buckets[i]; while (old != thisE) { Node *c = static_cast<Node *>(malloc(nodeSize)); dup(old, c); c->h = old->h; *nn = c; nn = &c->next; old = old->next; } *nn = e; } }
    return d; }
void QHashData::free_helper(void (*del)(Node *)) { if (del) { Node *e = reinterpret_cast<Node *>(this); for (int i = 0; i < numBuckets; ++i) { Node *c = buckets[i]; while (c != e) { Node *n = c->next; del(c); free(c); c = n; } } } free(buckets); free(this); }
static int nbuckets(int bits) { static const int p[] = {1, 2, 5, 11, 17, 37, 67, 131, 257}; return bits < 9 ? p[bits] : (1 << bits) + 1; }
void QHashData::rehash(int hint) {
    if (hint < 0) { int b = 0; while (nbuckets(b) < -hint) ++b; if (b < 4) b = 4; userNumBits = b; while (nbuckets(b) < (size >> 1)) ++b; hint = b; } else if (hint < 4) hint = 4;
    if (numBits == hint) return; Node *e = reinterpret_cast<Node *>(this); Node **ob = buckets; int on = numBuckets; int nn = nbuckets(hint); Node **nb = static_cast<Node **>(malloc(sizeof(Node *) * nn)); for (int i = 0; i < nn; ++i) nb[i] = e;
    for (int i = 0; i < on; ++i) { Node *f = ob[i]; while (f != e) { Node *nx = f->next; Node **at = &nb[f->h % nn]; while (*at != e) at = &(*at)->next; f->next = *at; *at = f; f = nx; } }
    free(ob); buckets = nb; numBuckets = nn; numBits = hint; }
QHashData::Node *QHashData::nextNode(Node *node) { union { Node *next; Node *e; QHashData *d; }; next = node->next; if (next->next) return next; int start = (node->h % d->numBuckets) + 1; Node **b = d->buckets + start; int n = d->numBuckets - start; while (n--) { if (*b != e) return *b; ++b; } return e; }
QHashData::Node *QHashData::previousNode(Node *) { symx_unmodelled("QHashData::previousNode"); }

void qBadAlloc() { symx_fail("out of memory"); __builtin_unreachable(); }
extern "C" { extern const int qt_version_tag; const int qt_version_tag = 0x050f0d; }

QtPrivate::QContainerImplHelper::CutResult QtPrivate::QContainerImplHelper::mid(int originalLength, int *_position, int *_length) { int &position = *_position, &length = *_length; if (position > originalLength) return Null; if (position < 0) { if (length < 0 || length + position >= originalLength) return Full; if (length + position <= 0) return Null; length += position; position = 0; } else if (uint(length) > uint(originalLength - position)) length = originalLength - position; if (position == 0 && length == originalLength) return Full; return length > 0 ? Subset : Empty; }

QString QString::arg(qlonglong a, int w, int base, QChar f) const { return arg(QString::number(a, base), w, f); }
QString QString::arg(qulonglong a, int w, int base, QChar f) const { return arg(QString::number(a, base), w, f); }
QString QString::toLower_helper(QString &s) { const QString &c = s; return toLower_helper(c); }
QByteArray QByteArray::trimmed_helper(QByteArray &s) { const QByteArray &c = s; return trimmed_helper(c); }
QByteArray QByteArray::toUpper_helper(QByteArray &s) { const QByteArray &c = s; return toUpper_helper(c); }
QByteArray QByteArray::toLower_helper(QByteArray &s) { const QByteArray &c = s; return toLower_helper(c); }
uint QChar::toUpper(uint c) noexcept { if (c > 127) symx_unmodelled("QChar::toUpper of a non-ASCII character"); return c >= 'a' && c <= 'z' ? c - 32 : c; }
uint QChar::toLower(uint c) noexcept { if (c > 127) symx_unmodelled("QChar::toLower of a non-ASCII character"); return c >= 'A' && c <= 'Z' ? c + 32 : c; }
QString &QString::replace(int i, int n, const QString &s) { if (i < 0) symx_unmodelled("QString::replace at a negative position"); if (i > size()) return *this; if (n > size() - i) n = size() - i; QString r = left(i); r.append(s); r.append(mid(i + n)); *this = r; return *this; }
QString &QString::replace(int i, int n, QChar c) { return replace(i, n, QString(c)); }
