// Members of Qt classes the code under test does not use today but a changed version may: strings, byte arrays, devices, timers.
#include "m.h"
#include "objpriv.h"
#include <QtCore/QtCore>
// ---------------------------------------------------------------- QByteArray
QByteArray &QByteArray::replace(const char *b, int bn, const char *a, int an) {
    QByteArray from(b, bn), to(a, an); if (isNull() || (bn == an && from == to)) return *this; QByteArray r; int i = 0, n = size();
    if (!bn) { for (; i <= n; ++i) { r.append(to); if (i < n) r.append(at(i)); } *this = r; return *this; }
    while (i < n) { if (i + bn <= n && !memcmp(constData() + i, from.constData(), bn)) { r.append(to); i += bn; } else r.append(at(i++)); }
    if (r.isNull()) r = QByteArray(""); *this = r; return *this; }
QByteArray &QByteArray::replace(const QByteArray &b, const QByteArray &a) { return replace(b.constData(), b.size(), a.constData(), a.size()); }
QByteArray &QByteArray::replace(const char *b, const QByteArray &a) { return replace(b, qstrlen(b), a.constData(), a.size()); }
QByteArray &QByteArray::replace(char b, const QByteArray &a) { return replace(&b, 1, a.constData(), a.size()); }
int QByteArray::count(const QByteArray &a) const { if (a.isEmpty()) symx_unmodelled("QByteArray::count of nothing"); int n = 0; for (int i = 0; i + a.size() <= size(); ++i) n += !memcmp(constData() + i, a.constData(), a.size()); return n; }
int QByteArray::count(const char *a) const { return count(QByteArray(a)); }
int QByteArray::lastIndexOf(const QByteArray &a, int from) const { int n = a.size(), d = size() - n; if (n == 1) return lastIndexOf(a.at(0), from); if (from < 0) from = d; if (from < 0 || from > size()) return -1; if (from > d) from = d; for (int i = from; i >= 0; --i) if (!memcmp(constData() + i, a.constData(), n)) return i; return -1; }
int QByteArray::lastIndexOf(const char *a, int from) const { return lastIndexOf(QByteArray(a), from); }
static bool sp(uchar c) { return c == 32 || (c >= 9 && c <= 13); }
QByteArray QByteArray::simplified_helper(const QByteArray &a) { QByteArray r(""); for (int i = 0; i < a.size(); ++i) { if (sp(a.at(i))) { if (r.size() && r.at(r.size() - 1) != ' ') r.append(' '); } else r.append(a.at(i)); } if (r.size() && r.at(r.size() - 1) == ' ') r.chop(1); return r; }
QByteArray QByteArray::simplified_helper(QByteArray &a) { const QByteArray &c = a; return simplified_helper(c); }
bool QByteArray::isUpper() const { if (isEmpty()) return false; for (int i = 0; i < size(); ++i) if (!(at(i) >= 'A' && at(i) <= 'Z')) return false; return true; }
bool QByteArray::isLower() const { if (isEmpty()) return false; for (int i = 0; i < size(); ++i) if (!(at(i) >= 'a' && at(i) <= 'z')) return false; return true; }
ulong QByteArray::toULong(bool *ok, int base) const { return toULongLong(ok, base); }
QByteArray QByteArray::leftJustified(int w, char f, bool t) const { QByteArray r = *this; if (w > size()) r.append(QByteArray(w - size(), f)); else if (t) r.truncate(w); return r; }
QByteArray QByteArray::rightJustified(int w, char f, bool t) const { if (w > size()) return QByteArray(w - size(), f) + *this; return t ? left(w) : *this; }
static int hexv(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
QByteArray QByteArray::fromHex(const QByteArray &h) { QByteArray r; bool odd = true; int acc = 0; QByteArray rev; for (int i = h.size() - 1; i >= 0; --i) { int v = hexv(h.at(i)); if (v < 0) continue; if (odd) { acc = v; odd = false; } else { rev.append(char(acc | (v << 4))); odd = true; } } if (!odd) rev.append(char(acc)); for (int i = rev.size() - 1; i >= 0; --i) r.append(rev.at(i)); return r; }
QByteArray QByteArray::toHex(char s) const { QByteArray r; for (int i = 0; i < size(); ++i) { uchar c = at(i); if (i && s) r.append(s); r.append("0123456789abcdef"[c >> 4]); r.append("0123456789abcdef"[c & 15]); } return r; }
QByteArray QByteArray::toPercentEncoding(const QByteArray &ex, const QByteArray &in, char pc) const { if (isNull()) return QByteArray(); if (isEmpty()) return QByteArray(data(), 0); QByteArray r; QByteArray inc = in; for (int i = 0; i < size(); ++i) { uchar c = at(i); bool keep = (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == '-' || c == '.' || c == '_' || c == '~' || ex.contains((char)c); if (c != (uchar)pc && keep && !inc.contains((char)c)) r.append((char)c); else { r.append(pc); r.append("0123456789ABCDEF"[c >> 4]); r.append("0123456789ABCDEF"[c & 15]); } } return r; }
QByteArray QByteArray::fromPercentEncoding(const QByteArray &a, char pc) { if (a.isNull()) return QByteArray(); if (a.isEmpty()) return QByteArray(a.constData(), 0); QByteArray r; auto hx = [](uchar c) -> int { if (c >= '0' && c <= '9') return c - '0'; if (c >= 'a' && c <= 'f') return c - 'a' + 10; if (c >= 'A' && c <= 'F') return c - 'A' + 10; return c; }; for (int i = 0; i < a.size(); ++i) { if (a.at(i) == pc && i + 2 < a.size()) { r.append(char(hx(a.at(i + 1)) << 4 | hx(a.at(i + 2)))); i += 2; } else r.append(a.at(i)); } return r; }
static const char b64[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/", b64u[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";
QByteArray QByteArray::toBase64(Base64Options o) const { const char *al = o & Base64UrlEncoding ? b64u : b64; char pad = o & OmitTrailingEquals ? 0 : '='; QByteArray r(""); int i = 0, n = size(); while (i < n) { int ch = 0, p = 0; for (int k = 0; k < 3; ++k) { if (i < n) ch |= int(uchar(at(i++))) << (16 - 8 * k); else ++p; } for (int k = 0; k < 4; ++k) { if (p > 3 - k) { if (pad) r.append(pad); } else r.append(al[(ch >> (18 - 6 * k)) & 63]); } } return r; }
QByteArray QByteArray::toBase64() const { return toBase64(Base64Encoding); }
QByteArray QByteArray::fromBase64(const QByteArray &a, Base64Options o) { uint buf = 0; int nb = 0; QByteArray r; bool url = o & Base64UrlEncoding; for (int i = 0; i < a.size(); ++i) { int c = a.at(i), d; if (c >= 'A' && c <= 'Z') d = c - 'A'; else if (c >= 'a' && c <= 'z') d = c - 'a' + 26; else if (c >= '0' && c <= '9') d = c - '0' + 52; else if (c == '+' && !url) d = 62; else if (c == '-' && url) d = 62; else if (c == '/' && !url) d = 63; else if (c == '_' && url) d = 63; else d = -1; if (d != -1) { buf = (buf << 6) | d; nb += 6; if (nb >= 8) { nb -= 8; r.append(char(buf >> nb)); buf &= (1 << nb) - 1; } } } return r; }
QByteArray QByteArray::fromBase64(const QByteArray &a) { return fromBase64(a, Base64Encoding); }
// ---------------------------------------------------------------- QString
QString &QString::fill(QChar c, int n) { resize(n < 0 ? size() : n); for (int i = 0; i < size(); ++i) data()[i] = c; return *this; }
static bool seqAt(const QString &s, int i, const QString &w, Qt::CaseSensitivity cs) { for (int k = 0; k < w.size(); ++k) { ushort a = s.at(i + k).unicode(), b = w.at(k).unicode(); if (cs == Qt::CaseInsensitive) { if (a > 127 || b > 127) { if (a != b) symx_unmodelled("case folding of a non-ASCII character"); } else { if (a >= 'A' && a <= 'Z') a += 32; if (b >= 'A' && b <= 'Z') b += 32; } } if (a != b) return false; } return true; }
QString &QString::replace(const QString &b, const QString &a, Qt::CaseSensitivity cs) { QString from(b), to(a), r; int n = size(), i = 0; if (!from.size()) { if (cs == Qt::CaseSensitive && from == to) return *this; for (; i <= n; ++i) { r.append(to); if (i < n) r.append(at(i)); } *this = r; return *this; } bool hit = false; while (i < n) { if (i + from.size() <= n && seqAt(*this, i, from, cs)) { r.append(to); i += from.size(); hit = true; } else r.append(at(i++)); } if (hit) { if (r.isNull()) r = QString(reinterpret_cast<const QChar *>(""), 0); *this = r; } return *this; }
QString &QString::replace(QChar b, QChar a, Qt::CaseSensitivity cs) { for (int i = 0; i < size(); ++i) if (seqAt(*this, i, QString(b), cs)) data()[i] = a; return *this; }
QString &QString::replace(QChar b, const QString &a, Qt::CaseSensitivity cs) { return replace(QString(b), a, cs); }
QString &QString::replace(QChar b, QLatin1String a, Qt::CaseSensitivity cs) { return replace(QString(b), QString(a), cs); }
QString &QString::replace(QLatin1String b, QLatin1String a, Qt::CaseSensitivity cs) { return replace(QString(b), QString(a), cs); }
QString &QString::replace(QLatin1String b, const QString &a, Qt::CaseSensitivity cs) { return replace(QString(b), a, cs); }
QString &QString::replace(const QString &b, QLatin1String a, Qt::CaseSensitivity cs) { return replace(b, QString(a), cs); }
QString &QString::remove(const QString &s, Qt::CaseSensitivity cs) { if (s.size()) replace(s, QString(reinterpret_cast<const QChar *>(""), 0), cs); return *this; }
QString &QString::remove(QLatin1String s, Qt::CaseSensitivity cs) { return remove(QString(s), cs); }
QString &QString::remove(QChar c, Qt::CaseSensitivity cs) { return remove(QString(c), cs); }
int QString::count(const QString &s, Qt::CaseSensitivity cs) const { int n = 0; for (int i = 0; i + s.size() <= size(); ++i) n += seqAt(*this, i, s, cs); return n; }
int QString::count(QChar c, Qt::CaseSensitivity cs) const { return count(QString(c), cs); }
int QString::lastIndexOf(const QString &s, int from, Qt::CaseSensitivity cs) const { int d = size() - s.size(); if (from < 0) from += size(); if (from == size() && !s.size()) return from; if (from < 0 || from >= size() || d < 0) return -1; if (from > d) from = d; for (int i = from; i >= 0; --i) if (seqAt(*this, i, s, cs)) return i; return -1; }
int QString::lastIndexOf(QLatin1String s, int from, Qt::CaseSensitivity cs) const { return lastIndexOf(QString(s), from, cs); }
QStringList QString::split(const QString &s, Qt::SplitBehavior b, Qt::CaseSensitivity cs) const { QStringList l; int st = 0, ex = 0, e; while ((e = [&] { for (int i = st + ex; i + s.size() <= size(); ++i) if (seqAt(*this, i, s, cs)) return i; return -1; }()) != -1) { if (st != e || !(b & Qt::SkipEmptyParts)) l.append(mid(st, e - st)); st = e + s.size(); ex = s.size() == 0; } if (st != size() || !(b & Qt::SkipEmptyParts)) l.append(mid(st)); return l; }
QStringList QString::split(const QString &s, SplitBehavior b, Qt::CaseSensitivity cs) const { return split(s, b == SkipEmptyParts ? Qt::SkipEmptyParts : Qt::KeepEmptyParts, cs); }
QStringList QString::split(QChar c, SplitBehavior b, Qt::CaseSensitivity cs) const { return split(QString(c), b == SkipEmptyParts ? Qt::SkipEmptyParts : Qt::KeepEmptyParts, cs); }
long QString::toLong(bool *ok, int base) const { return toLongLong(ok, base); }
ulong QString::toULong(bool *ok, int base) const { return toULongLong(ok, base); }
QString &QString::setNum(qlonglong n, int base) { return *this = number(n, base); }
QString &QString::setNum(qulonglong n, int base) { return *this = number(n, base); }
QString QString::toUpper_helper(const QString &s) { QString r; for (int i = 0; i < s.size(); ++i) { ushort c = s.at(i).unicode(); if (c > 127) symx_unmodelled("non-ASCII case change"); r.append(QChar(ushort(c >= 'a' && c <= 'z' ? c - 32 : c))); } return r; }
QString QString::toUpper_helper(QString &s) { const QString &c = s; return toUpper_helper(c); }
QString QString::trimmed_helper(QString &s) { const QString &c = s; return trimmed_helper(c); }
QString QString::simplified_helper(const QString &a) { QString r(reinterpret_cast<const QChar *>(""), 0); for (int i = 0; i < a.size(); ++i) { ushort c = a.at(i).unicode(); if (c > 127) symx_unmodelled("white space test of a non-ASCII character"); if (sp(uchar(c))) { if (r.size() && r.at(r.size() - 1).unicode() != ' ') r.append(QLatin1Char(' ')); } else r.append(a.at(i)); } if (r.size() && r.at(r.size() - 1).unicode() == ' ') r.chop(1); return r; }
QString QString::simplified_helper(QString &s) { const QString &c = s; return simplified_helper(c); }
QString QString::arg(QChar a, int w, QChar f) const { return arg(QString(a), w, f); }
QString QString::arg(char a, int w, QChar f) const { return arg(QString(QLatin1Char(a)), w, f); }
QString QString::arg(QLatin1String a, int w, QChar f) const { return arg(QString(a), w, f); }
QString QString::arg(QStringView a, int w, QChar f) const { return arg(QString(a.data(), int(a.size())), w, f); }
QString QString::fromUtf16(const ushort *u, int n) { return QString(reinterpret_cast<const QChar *>(u), n); }
QString QString::fromRawData(const QChar *u, int n) { return u && n ? QString(u, n) : QString(u, 0); }
void QString::resize(int n, QChar c) { int o = size(); resize(n); for (int i = o; i < n; ++i) data()[i] = c; }
QString QString::leftJustified(int w, QChar f, bool t) const { QString r = *this; if (w > size()) r.append(QString(w - size(), f)); else if (t) r.truncate(w); return r; }
QString QString::rightJustified(int w, QChar f, bool t) const { if (w > size()) return QString(w - size(), f) + *this; return t ? left(w) : *this; }
struct Esc { int at, len, num; };
static bool nextEsc(const ushort *p, int n, int from, Esc &e) { for (int i = from; i + 1 < n; ++i) { if (p[i] != '%') continue; int k = i + 1; if (p[k] == 'L') ++k; if (k >= n || p[k] < '0' || p[k] > '9') continue; int v = p[k++] - '0'; if (k < n && p[k] >= '0' && p[k] <= '9') v = v * 10 + (p[k++] - '0'); e = Esc{i, k - i, v}; return true; } return false; }
QString QtPrivate::argToQString(QStringView pat, size_t n, const ArgBase **args) { const ushort *p = reinterpret_cast<const ushort *>(pat.data()); int len = int(pat.size()); QVector<int> nums; Esc e; for (int i = 0; nextEsc(p, len, i, e); i = e.at + e.len) { int k = 0; while (k < nums.size() && nums.at(k) < e.num) ++k; if (k == nums.size() || nums.at(k) != e.num) nums.insert(k, e.num); }
    QString r(reinterpret_cast<const QChar *>(u""), 0); int i = 0; while (nextEsc(p, len, i, e)) { r.append(QString(reinterpret_cast<const QChar *>(p + i), e.at - i)); int k = nums.indexOf(e.num); if (k < int(n)) { const ArgBase *a = args[k]; if (a->tag == ArgBase::L1) r.append(QString(static_cast<const QLatin1StringArg *>(a)->string)); else { QStringView v = static_cast<const QStringViewArg *>(a)->string; r.append(QString(v.data(), int(v.size()))); } } else r.append(QString(reinterpret_cast<const QChar *>(p + e.at), e.len)); i = e.at + e.len; } r.append(QString(reinterpret_cast<const QChar *>(p + i), len - i)); return r; }
QString QtPrivate::argToQString(QLatin1String pat, size_t n, const ArgBase **args) { QString s(pat); return argToQString(QStringView(s), n, args); }
QByteArray QtPrivate::QByteArrayList_join(const QByteArrayList *l, const char *sep, int n) { QByteArray r; for (int i = 0; i < l->size(); ++i) { if (i) r.append(sep, n); r.append(l->at(i)); } return r; }
int QtPrivate::QStringList_removeDuplicates(QStringList *l) { int n = 0; for (int i = 0; i < l->size(); ++i) for (int k = 0; k < i; ++k) if (l->at(k) == l->at(i)) { l->removeAt(i--); ++n; break; } return n; }
QStringList QtPrivate::QStringList_filter(const QStringList *l, const QString &s, Qt::CaseSensitivity cs) { QStringList r; for (const QString &x : *l) if (x.contains(s, cs)) r.append(x); return r; }
QString QStringRef::toString() const { return m_string ? QString(m_string->constData() + m_position, m_size) : QString(); }
static QStringRef sref(const QString *s, int p, int n) { int z = s->size(); if (p > z) return QStringRef(); if (p < 0) { if (n < 0 || n + p >= z) return QStringRef(s, 0, z); if (n + p <= 0) return QStringRef(s, 0, 0); n += p; p = 0; } else if (uint(n) > uint(z - p)) n = z - p; return QStringRef(s, p, n); }
QStringRef QString::midRef(int p, int n) const { return sref(this, p, n); } QStringRef QString::leftRef(int n) const { return uint(n) >= uint(size()) ? QStringRef(this, 0, size()) : QStringRef(this, 0, n); } QStringRef QString::rightRef(int n) const { return uint(n) >= uint(size()) ? QStringRef(this, 0, size()) : QStringRef(this, size() - n, n); }
QString QString::section(const QString &sep, int a, int b, SectionFlags f) const { if (f) symx_unmodelled("QString::section flags"); QStringList l = split(sep); int n = l.size(); if (a < 0) a += n; if (b < 0) b += n; if (a < 0) a = 0; QString r(reinterpret_cast<const QChar *>(u""), 0); if (a >= n || b < 0 || a > b) return QString(); for (int i = a; i <= b && i < n; ++i) { if (i > a) r.append(sep); r.append(l.at(i)); } return r; }
QString QString::toHtmlEscaped() const { QString r; for (int i = 0; i < size(); ++i) { ushort c = at(i).unicode(); if (c == '<') r.append(QLatin1String("&lt;")); else if (c == '>') r.append(QLatin1String("&gt;")); else if (c == '&') r.append(QLatin1String("&amp;")); else if (c == '"') r.append(QLatin1String("&quot;")); else r.append(at(i)); } return r; }
int QChar::digitValue(uint c) noexcept { if (c > 127) symx_unmodelled("digit value of a non-ASCII character"); return c >= '0' && c <= '9' ? int(c - '0') : -1; }
QRecursiveMutex::QRecursiveMutex() : QMutex(QMutex::Recursive) {} QRecursiveMutex::~QRecursiveMutex() {}
static int errnoV; extern "C" int *__errno_location() noexcept { return &errnoV; }
extern "C" unsigned long strtoullm(const char *p, char **e, int base, bool &neg, bool &over) { const char *s = p; while (sp(uchar(*s))) ++s; neg = *s == '-'; if (*s == '-' || *s == '+') ++s; if ((base == 0 || base == 16) && s[0] == '0' && (s[1] | 32) == 'x') { s += 2; base = 16; } else if (base == 0) base = *s == '0' ? 8 : 10; unsigned long v = 0; bool any = false; over = false; for (;; ++s) { uint c = uchar(*s), d = c - '0' < 10u ? c - '0' : (c | 32) - 'a' < 26u ? (c | 32) - 'a' + 10 : 99; if (d >= uint(base)) break; any = true; unsigned long w; if (__builtin_mul_overflow(v, (unsigned long)base, &w) || __builtin_add_overflow(w, (unsigned long)d, &w)) over = true; v = w; } if (e) *e = const_cast<char *>(any ? s : p); return v; }
static long strtolm(const char *p, char **e, int b) { bool n, o; unsigned long v = strtoullm(p, e, b, n, o); if (n) { if (o || v > 1ul << 63) { errnoV = 34; return long(1ul << 63); } return long(0 - v); } if (o || v >> 63) { errnoV = 34; return long(~0ul >> 1); } return long(v); }
static unsigned long strtoulm(const char *p, char **e, int b) { bool n, o; unsigned long v = strtoullm(p, e, b, n, o); if (o) { errnoV = 34; return ~0ul; } return n ? 0 - v : v; }
extern "C" { long __isoc23_strtol(const char *p, char **e, int b) noexcept { return strtolm(p, e, b); } long long __isoc23_strtoll(const char *p, char **e, int b) noexcept { return strtolm(p, e, b); } unsigned long __isoc23_strtoul(const char *p, char **e, int b) noexcept { return strtoulm(p, e, b); } unsigned long long __isoc23_strtoull(const char *p, char **e, int b) noexcept { return strtoulm(p, e, b); } int toupper(int c) noexcept { return c >= 'a' && c <= 'z' ? c - 32 : c; } }
// ---------------------------------------------------------------- QTimer
struct TimS { int gen = 0; long due = 0; };
static TimS *tim(const QTimer *t) { Priv *p = priv(t); if (!p->ext) { p->ext = calloc(1, sizeof(TimS)); p->extDel = free; } return (TimS *)p->ext; }
template <class F> static QtPrivate::QSlotObjectBase *slotOf(F f) { return new QtPrivate::QFunctorSlotObject<F, 0, QtPrivate::List<>, void>(f); }
QTimer::QTimer(QObject *p) : QObject(p), id(-1), inter(0), del(0), single(0), nulltimer(0) { type = Qt::CoarseTimer; tim(this); }
QTimer::~QTimer() { if (id >= 0) stop(); }
void QTimer::stop() { id = -1; ++tim(this)->gen; }
void QTimer::start() { if (id >= 0) stop(); int g = ++tim(this)->gen; id = g; QTimer *t = this; symxm::post(this, slotOf([t, g] { if (tim(t)->gen != g) return; if (t->single) t->stop(); else { t->start(); } t->timeout(QTimer::QPrivateSignal()); }), inter, nullptr, nullptr); }
void QTimer::start(int ms) { inter = ms; start(); }
void QTimer::setInterval(int ms) { inter = ms; if (id >= 0) start(); }
int QTimer::remainingTime() const { if (id >= 0) symx_unmodelled("QTimer::remainingTime"); return -1; }
void QTimer::timerEvent(QTimerEvent *) {}
