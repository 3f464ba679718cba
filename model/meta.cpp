// QMetaType, QVariant, QMetaObject, QMetaProperty, QMetaEnum (Qt 5.15 semantics)
#include "m.h"
#include <QtCore/QtCore>
#include <new>
typedef unsigned int u32;
// ---------------------------------------------------------------- QMetaType
struct TI { const char *name; int size; u32 flags; void *(*ctor)(void *, const void *); void (*dtor)(void *); const QMetaObject *mo; };
template <class T> struct H { static void *c(void *w, const void *s) { return s ? new (w) T(*static_cast<const T *>(s)) : new (w) T(); } static void d(void *w) { static_cast<T *>(w)->~T(); } };
#define BT(T) TI{#T, (int)sizeof(T), (QTypeInfo<T>::isRelocatable ? (u32)QMetaType::MovableType : 0u), &H<T>::c, &H<T>::d, nullptr}
static TI mkti(int id) {
    switch (id) {
    case QMetaType::Bool: return BT(bool); case QMetaType::Int: return BT(int); case QMetaType::UInt: return BT(uint); case QMetaType::LongLong: return BT(qlonglong); case QMetaType::ULongLong: return BT(qulonglong);
    case QMetaType::Double: return BT(double); case QMetaType::Long: return BT(long); case QMetaType::Short: return BT(short); case QMetaType::Char: return BT(char); case QMetaType::ULong: return BT(ulong);
    case QMetaType::UShort: return BT(ushort); case QMetaType::UChar: return BT(uchar); case QMetaType::Float: return BT(float); case QMetaType::SChar: return BT(signed char); case QMetaType::Nullptr: return BT(std::nullptr_t);
    case QMetaType::VoidStar: return BT(void *); case QMetaType::QObjectStar: { TI t = BT(QObject *); t.flags |= QMetaType::PointerToQObject; return t; }
    case QMetaType::QChar: return BT(QChar); case QMetaType::QString: return BT(QString); case QMetaType::QStringList: return BT(QStringList); case QMetaType::QByteArray: return BT(QByteArray);
    case QMetaType::QVariant: return BT(QVariant); case QMetaType::QVariantMap: return BT(QVariantMap); case QMetaType::QVariantList: return BT(QVariantList); case QMetaType::QVariantHash: return BT(QVariantHash); case QMetaType::QByteArrayList: return BT(QByteArrayList);
    case QMetaType::QDate: return BT(QDate); case QMetaType::QTime: return BT(QTime); case QMetaType::QDateTime: return BT(QDateTime); case QMetaType::QUrl: return BT(QUrl); case QMetaType::QUuid: return BT(QUuid);
    case QMetaType::QRect: return BT(QRect); case QMetaType::QRectF: return BT(QRectF); case QMetaType::QSize: return BT(QSize); case QMetaType::QSizeF: return BT(QSizeF); case QMetaType::QPoint: return BT(QPoint); case QMetaType::QPointF: return BT(QPointF);
    }
    return TI{nullptr, 0, 0, nullptr, nullptr, nullptr}; }
namespace symxm { TI (*guiType)(int) = nullptr; TI *core(int id) {
    static TI tab[128]; static bool have[128];
    if (!have[id]) { have[id] = true; tab[id] = mkti(id); if (!tab[id].name && guiType) tab[id] = guiType(id); }
    return &tab[id]; } }
#define QTN(N, ID, T) case ID: return #T;
static const char *builtinName(int id) { switch (id) { QT_FOR_EACH_STATIC_TYPE(QTN) } return nullptr; }
struct Alias { const char *name; int id; };
enum { MAXT = 2048, AH = 8192 };
static TI custom[MAXT]; static int nCustom; static Alias aliases[AH]; static bool seeded;
static u32 hs(const char *s) { u32 h = 5381; while (*s) h = h * 33 + (uchar)*s++; return h; }
static Alias *slot(const char *n) { u32 i = hs(n) % AH; while (aliases[i].name && strcmp(aliases[i].name, n)) i = (i + 1) % AH; return &aliases[i]; }
static void addName(const char *n, int id) { Alias *a = slot(n); if (!a->name) { a->name = n; a->id = id; } }
#define QTS(N, ID, T) addName(#T, ID);
#define QTA(ID, N, S) addName(S, N);
static void seed() { if (seeded) return; seeded = true; QT_FOR_EACH_STATIC_TYPE(QTS)
    addName("ulong", QMetaType::ULong); addName("unsigned long", QMetaType::ULong); addName("unsigned int", QMetaType::UInt); addName("unsigned short", QMetaType::UShort); addName("unsigned char", QMetaType::UChar);
    addName("long long", QMetaType::LongLong); addName("qlonglong", QMetaType::LongLong); addName("qint64", QMetaType::LongLong); addName("unsigned long long", QMetaType::ULongLong); addName("qulonglong", QMetaType::ULongLong); addName("quint64", QMetaType::ULongLong);
    addName("qint8", QMetaType::SChar); addName("signed char", QMetaType::SChar); addName("quint8", QMetaType::UChar); addName("qint16", QMetaType::Short); addName("quint16", QMetaType::UShort); addName("qint32", QMetaType::Int); addName("quint32", QMetaType::UInt);
    addName("QList<QVariant>", QMetaType::QVariantList); addName("QMap<QString,QVariant>", QMetaType::QVariantMap); addName("QHash<QString,QVariant>", QMetaType::QVariantHash); addName("QList<QByteArray>", QMetaType::QByteArrayList); addName("QList<QString>", QMetaType::QStringList); addName("QObjectStar", QMetaType::QObjectStar); addName("qreal", QMetaType::Double); }
static TI *ti(int id) { if (id <= 0) return nullptr; if (id < QMetaType::User) { if (id >= 128) return nullptr; TI *t = symxm::core(id); if (!t->name) symx_unmodelled("built-in meta type"); return t; } id -= QMetaType::User; return id < nCustom ? &custom[id] : nullptr; }
static char *dupName(const QByteArray &n) { char *p = (char *)malloc(n.size() + 1); memcpy(p, n.constData(), n.size() + 1); return p; }
int QMetaType::registerNormalizedType(const ::QByteArray &n, Destructor d, Constructor c, int size, TypeFlags f, const QMetaObject *mo) {
    seed(); if (n.isEmpty() || !d || !c) return -1;
    Alias *a = slot(n.constData()); if (a->name) return a->id;
    if (nCustom == MAXT) symx_unmodelled("too many meta types");
    int id = User + nCustom; char *nm = dupName(n); custom[nCustom++] = TI{nm, size, (u32)int(f), c, d, mo}; a->name = nm; a->id = id; return id; }
int QMetaType::registerNormalizedType(const ::QByteArray &n, Deleter, Creator, Destructor d, Constructor c, int size, TypeFlags f, const QMetaObject *mo) { return registerNormalizedType(n, d, c, size, f, mo); }
int QMetaType::registerType(const char *n, Deleter, Creator, Destructor d, Constructor c, int size, TypeFlags f, const QMetaObject *mo) { return registerNormalizedType(QMetaObject::normalizedType(n), d, c, size, f, mo); }
int QMetaType::registerNormalizedTypedef(const ::QByteArray &n, int id) { seed(); Alias *a = slot(n.constData()); if (a->name) return a->id; a->name = dupName(n); a->id = id; return id; }
int QMetaType::registerTypedef(const char *n, int id) { return registerNormalizedTypedef(QMetaObject::normalizedType(n), id); }
int QMetaType::type(const char *n) { if (!n || !*n) return UnknownType; seed(); Alias *a = slot(n); if (a->name) return a->id; ::QByteArray q = QMetaObject::normalizedType(n); a = slot(q.constData()); return a->name ? a->id : 0; }
int QMetaType::type(const ::QByteArray &n) { return type(n.constData()); }
const char *QMetaType::typeName(int id) { if (id <= 0) return nullptr; if (id < User) return builtinName(id); TI *t = ti(id); return t ? t->name : nullptr; }
int QMetaType::sizeOf(int id) { TI *t = ti(id); return t ? t->size : 0; }
QMetaType::TypeFlags QMetaType::typeFlags(int id) { TI *t = ti(id); return t ? TypeFlags(int(t->flags)) : TypeFlags(); }
const QMetaObject *QMetaType::metaObjectForType(int id) { TI *t = ti(id); return t ? t->mo : nullptr; }
bool QMetaType::isRegistered(int id) { return id > 0 && (id < User ? builtinName(id) != nullptr : id - User < nCustom); }
void *QMetaType::construct(int id, void *w, const void *c) { TI *t = ti(id); return t && w ? t->ctor(w, c) : nullptr; }
void QMetaType::destruct(int id, void *w) { TI *t = ti(id); if (t && w) t->dtor(w); }
void *QMetaType::create(int id, const void *c) { TI *t = ti(id); return t ? t->ctor(operator new(t->size), c) : nullptr; }
void QMetaType::destroy(int id, void *w) { TI *t = ti(id); if (t && w) { t->dtor(w); operator delete(w); } }
QMetaType::QMetaType(const int id) : m_typedConstructor(nullptr), m_typedDestructor(nullptr), m_saveOp(nullptr), m_loadOp(nullptr), m_constructor(nullptr), m_destructor(nullptr), m_extension(nullptr), m_size(0), m_typeFlags(0), m_extensionFlags(0), m_typeId(id), m_metaObject(nullptr) { TI *t = ti(id); if (t) { m_constructor = t->ctor; m_destructor = t->dtor; m_size = t->size; m_typeFlags = t->flags; m_metaObject = t->mo; } else m_typeId = 0; }
::QByteArray QMetaType::name() const { return ::QByteArray(typeName(m_typeId)); }
void QMetaType::dtor() {}
// converters
struct Cv { int from, to; const QtPrivate::AbstractConverterFunction *f; };
enum { CH = 8192 }; static Cv cvs[CH];
static Cv *cslot(int f, int t) { u32 i = ((u32)f * 131071u + (u32)t * 257u) % CH; while (cvs[i].from && (cvs[i].from != f || cvs[i].to != t)) i = (i + 1) % CH; return &cvs[i]; }
bool QMetaType::registerConverterFunction(const QtPrivate::AbstractConverterFunction *f, int from, int to) { Cv *c = cslot(from, to); if (c->from && c->f) return false; c->from = from; c->to = to; c->f = f; return true; }
void QMetaType::unregisterConverterFunction(int from, int to) { Cv *c = cslot(from, to); if (c->from) c->f = nullptr; }
bool QMetaType::hasRegisteredConverterFunction(int from, int to) { Cv *c = cslot(from, to); return c->from && c->f; }
bool QMetaType::convert(const void *from, int ft, void *to, int tt) {
    Cv *c = cslot(ft, tt); if (c->from && c->f) return c->f->convert(c->f, from, to);
    TI *a = ft >= User ? ti(ft) : nullptr, *b = tt >= User ? ti(tt) : nullptr; // enum conversions
    if (a && (a->flags & IsEnumeration) && tt < User) { qlonglong l = a->size == 4 ? *(const int *)from : a->size == 8 ? *(const qlonglong *)from : a->size == 2 ? *(const short *)from : *(const signed char *)from; class ::QVariant v(l); if (!v.convert(tt)) return false; TI *t = ti(tt); t->dtor(to); t->ctor(to, v.constData()); return true; }
    return false; }
bool QMetaType::registerComparatorFunction(const QtPrivate::AbstractComparatorFunction *, int) { return true; }
bool QMetaType::registerDebugStreamOperatorFunction(const QtPrivate::AbstractDebugStreamFunction *, int) { return true; }
bool QMetaType::hasRegisteredComparators(int) { return false; }
bool QMetaType::hasRegisteredDebugStreamOperator(int) { return false; }
// ---------------------------------------------------------------- QVariant
static bool inlineable(const TI *t) { return t->size <= 8 && (t->flags & (QMetaType::MovableType | QMetaType::IsEnumeration)); }
static void vcreate(QVariant::Private &d, int type, const void *copy) {
    d.type = type; d.is_shared = false; d.is_null = true; d.data.ptr = nullptr; if (!type) return;
    TI *t = ti(type); if (!t) { d.type = 0; return; }
    if (inlineable(t)) { t->ctor(&d.data.ptr, copy); d.is_null = !copy; }
    else { char *p = (char *)operator new(16 + t->size); t->ctor(p + 16, copy); d.data.shared = new (p) QVariant::PrivateShared(p + 16); d.is_shared = true; d.is_null = !copy; } }
static void vclear(QVariant::Private &d) { if (!d.type) return; TI *t = ti(d.type);
    if (d.is_shared) { if (!d.data.shared->ref.deref()) { t->dtor(d.data.shared->ptr); d.data.shared->~PrivateShared(); operator delete(d.data.shared); } }
    else t->dtor(&d.data.ptr); }
QVariant::QVariant(int t, const void *c) { vcreate(d, t, c); }
QVariant::QVariant(int t, const void *c, uint) { vcreate(d, t, c); }
QVariant::QVariant(Type t) { vcreate(d, t, nullptr); }
QVariant::QVariant(const QVariant &o) : d(o.d) { if (d.is_shared) d.data.shared->ref.ref(); else if (d.type) { TI *t = ti(d.type); d.data.ptr = nullptr; t->ctor(&d.data.ptr, &o.d.data.ptr); } }
QVariant::~QVariant() { vclear(d); }
QVariant &QVariant::operator=(const QVariant &o) { if (this == &o) return *this; QVariant c(o); swap(c); return *this; }
#define VC(T, ARG, ID) QVariant::QVariant(ARG v) { vcreate(d, ID, &v); }
VC(int, int, QMetaType::Int) VC(uint, uint, QMetaType::UInt) VC(qlonglong, qlonglong, QMetaType::LongLong) VC(qulonglong, qulonglong, QMetaType::ULongLong) VC(bool, bool, QMetaType::Bool) VC(double, double, QMetaType::Double) VC(float, float, QMetaType::Float)
VC(QByteArray, const QByteArray &, QMetaType::QByteArray) VC(QString, const QString &, QMetaType::QString) VC(QStringList, const QStringList &, QMetaType::QStringList) VC(QChar, QChar, QMetaType::QChar) VC(QDate, const QDate &, QMetaType::QDate) VC(QTime, const QTime &, QMetaType::QTime) VC(QDateTime, const QDateTime &, QMetaType::QDateTime)
VC(QVariantList, const QVariantList &, QMetaType::QVariantList) VC(QVariantMap, const QVariantMap &, QMetaType::QVariantMap) VC(QVariantHash, const QVariantHash &, QMetaType::QVariantHash) VC(QUuid, const QUuid &, QMetaType::QUuid) VC(QUrl, const QUrl &, QMetaType::QUrl)
VC(QSize, const QSize &, QMetaType::QSize) VC(QSizeF, const QSizeF &, QMetaType::QSizeF) VC(QPoint, const QPoint &, QMetaType::QPoint) VC(QPointF, const QPointF &, QMetaType::QPointF) VC(QRect, const QRect &, QMetaType::QRect) VC(QRectF, const QRectF &, QMetaType::QRectF)
QVariant::QVariant(const char *s) { QString v = QString::fromUtf8(s); vcreate(d, QMetaType::QString, &v); }
QVariant::QVariant(QLatin1String s) { QString v(s); vcreate(d, QMetaType::QString, &v); }
QVariant::Type QVariant::type() const { return d.type >= QMetaType::User ? UserType : Type(d.type); }
int QVariant::userType() const { return d.type; }
const char *QVariant::typeName() const { return QMetaType::typeName(d.type); }
const char *QVariant::typeToName(int t) { return QMetaType::typeName(t); }
const void *QVariant::constData() const { return d.is_shared ? d.data.shared->ptr : &d.data.ptr; }
void QVariant::detach() { if (!d.is_shared || d.data.shared->ref.loadRelaxed() == 1) return; Private n; vcreate(n, d.type, constData()); n.is_null = d.is_null; vclear(d); d = n; }
void *QVariant::data() { detach(); d.is_null = false; return const_cast<void *>(constData()); }
void QVariant::clear() { vclear(d); d = Private(); }
void QVariant::create(int t, const void *c) { vcreate(d, t, c); }
bool QVariant::isNull() const {
    if (d.type == QMetaType::QString) return ((const QString *)constData())->isNull();
    if (d.type == QMetaType::QByteArray) return ((const QByteArray *)constData())->isNull();
    if (d.type == QMetaType::QDate) return ((const QDate *)constData())->isNull();
    if (d.type == QMetaType::QTime) return ((const QTime *)constData())->isNull();
    if (d.type == QMetaType::QSize) return ((const QSize *)constData())->isNull(); if (d.type == QMetaType::QSizeF) return ((const QSizeF *)constData())->isNull();
    if (d.type == QMetaType::QPoint) return ((const QPoint *)constData())->isNull(); if (d.type == QMetaType::QPointF) return ((const QPointF *)constData())->isNull();
    if (d.type == QMetaType::QRect) return ((const QRect *)constData())->isNull(); if (d.type == QMetaType::QRectF) return ((const QRectF *)constData())->isNull();
    if (d.type == QMetaType::QObjectStar) return d.is_null || *(void *const *)constData() == nullptr;
    if (d.type < QMetaType::User) return d.is_null;
    if (d.is_null) return true;
    const char *n = QMetaType::typeName(d.type); int l = (int)strlen(n); return l > 0 && n[l - 1] == '*' && *(void *const *)constData() == nullptr; }
static int kind(int t) { switch (t) { case QMetaType::Bool: case QMetaType::Int: case QMetaType::Long: case QMetaType::Short: case QMetaType::Char: case QMetaType::SChar: case QMetaType::LongLong: return 1; case QMetaType::UInt: case QMetaType::ULong: case QMetaType::UShort: case QMetaType::UChar: case QMetaType::ULongLong: return 2; case QMetaType::Double: case QMetaType::Float: return 3; } return 0; }
static qlonglong geti(int t, const void *p) { switch (t) { case QMetaType::Bool: return *(const bool *)p; case QMetaType::Int: return *(const int *)p; case QMetaType::UInt: return *(const uint *)p; case QMetaType::Long: case QMetaType::LongLong: return *(const qlonglong *)p; case QMetaType::ULong: case QMetaType::ULongLong: return *(const qlonglong *)p; case QMetaType::Short: return *(const short *)p; case QMetaType::UShort: return *(const ushort *)p; case QMetaType::Char: case QMetaType::SChar: return *(const signed char *)p; case QMetaType::UChar: return *(const uchar *)p; case QMetaType::Double: return qRound64(*(const double *)p); case QMetaType::Float: return qRound64((double)*(const float *)p); } return 0; }
static void puti(int t, void *p, qlonglong v) { switch (t) { case QMetaType::Bool: *(bool *)p = v != 0; break; case QMetaType::Int: *(int *)p = (int)v; break; case QMetaType::UInt: *(uint *)p = (uint)v; break; case QMetaType::Long: case QMetaType::LongLong: case QMetaType::ULong: case QMetaType::ULongLong: *(qlonglong *)p = v; break; case QMetaType::Short: case QMetaType::UShort: *(short *)p = (short)v; break; case QMetaType::Char: case QMetaType::SChar: case QMetaType::UChar: *(char *)p = (char)v; break; } }
static bool vconv(int ft, const void *from, int tt, void *to) {
    if (ft == tt) { TI *t = ti(tt); t->dtor(to); t->ctor(to, from); return true; }
    if (ft >= QMetaType::User || tt >= QMetaType::User) { if (QMetaType::convert(from, ft, to, tt)) return true; TI *a = ft >= QMetaType::User ? ti(ft) : nullptr; if (a && (a->flags & QMetaType::IsEnumeration)) return false; if (tt >= QMetaType::User) return false; if (tt == QMetaType::QVariantList || tt == QMetaType::QVariantMap || tt == QMetaType::QString || kind(tt) || tt == QMetaType::QByteArray) return false; return false; }
    int a = kind(ft), b = kind(tt);
    if (a && b) {
        if (b == 3) { double dv = a == 3 ? (ft == QMetaType::Float ? (double)*(const float *)from : *(const double *)from) : a == 2 ? (double)(qulonglong)geti(ft, from) : (double)geti(ft, from); if (tt == QMetaType::Float) *(float *)to = (float)dv; else *(double *)to = dv; return true; }
        if (a == 3 && tt == QMetaType::Bool) { *(bool *)to = ft == QMetaType::Float ? *(const float *)from != 0 : *(const double *)from != 0; return true; }
        puti(tt, to, geti(ft, from)); return true; }
    if (tt == QMetaType::QString) { QString &s = *(QString *)to; if (a == 3) symx_unmodelled("double to QString"); if (ft == QMetaType::Bool) { s = QString::fromLatin1(*(const bool *)from ? "true" : "false"); return true; } if (a == 1) { s = QString::number(geti(ft, from)); return true; } if (a == 2) { s = QString::number((qulonglong)geti(ft, from)); return true; } if (ft == QMetaType::QByteArray) { s = QString::fromUtf8(*(const QByteArray *)from); return true; } if (ft == QMetaType::QChar) { s = QString(*(const QChar *)from); return true; } if (ft == QMetaType::QStringList) { const QStringList &l = *(const QStringList *)from; if (l.size() != 1) return false; s = l.first(); return true; } if (ft == QMetaType::QVariantList || ft == QMetaType::QVariantMap) return false; symx_unmodelled("QVariant to QString"); }
    if (tt == QMetaType::QByteArray) { if (ft == QMetaType::QString) { *(QByteArray *)to = ((const QString *)from)->toUtf8(); return true; } if (a == 1 && ft != QMetaType::Bool) { *(QByteArray *)to = QByteArray::number(geti(ft, from)); return true; } if (a == 2) { *(QByteArray *)to = QByteArray::number((qulonglong)geti(ft, from)); return true; } }
    if (b && b != 3 && (ft == QMetaType::QString || ft == QMetaType::QByteArray)) { if (tt == QMetaType::Bool) { QByteArray t = (ft == QMetaType::QString ? ((const QString *)from)->toUtf8() : *(const QByteArray *)from).toLower(); *(bool *)to = !(t.isEmpty() || t == "0" || t == "false"); return true; } bool ok; qlonglong v = ft == QMetaType::QString ? (b == 2 ? (qlonglong)((const QString *)from)->toULongLong(&ok) : ((const QString *)from)->toLongLong(&ok)) : ((const QByteArray *)from)->toLongLong(&ok); puti(tt, to, v); return ok; }
    if (tt == QMetaType::QVariantList && (ft == QMetaType::QStringList || ft == QMetaType::QByteArrayList)) { QVariantList &l = *(QVariantList *)to; if (ft == QMetaType::QStringList) for (const QString &s : *(const QStringList *)from) l.append(QVariant(s)); else for (const QByteArray &s : *(const QByteArrayList *)from) l.append(QVariant(s)); return true; }
    if (tt == QMetaType::QStringList && ft == QMetaType::QVariantList) { for (const QVariant &v : *(const QVariantList *)from) ((QStringList *)to)->append(v.toString()); return true; }
    if (ft == 0 || ft == QMetaType::QVariantList || ft == QMetaType::QVariantMap || tt == QMetaType::QVariantList || tt == QMetaType::QVariantMap) return false;
    symx_unmodelled("QVariant conversion"); }
bool QVariant::convert(const int t, void *p) const { return vconv(d.type, constData(), t, p); }
bool QVariant::convert(int t) { if ((int)d.type == t) return true; QVariant old = *this; clear(); vcreate(d, t, nullptr); if (old.d.is_null && old.d.type != QMetaType::Nullptr) return false; bool ok = vconv(old.d.type, old.constData(), t, data()); d.is_null = !ok; return ok; }
bool QVariant::canConvert(int t) const { if ((int)d.type == t) return true; if (QMetaType::hasRegisteredConverterFunction(d.type, t)) return true; if (d.type < QMetaType::User && t < QMetaType::User) { int a = kind(d.type), b = kind(t); if (a && b) return true; if ((a || d.type == QMetaType::QByteArray) && t == QMetaType::QString) return true; if (d.type == QMetaType::QString && (b || t == QMetaType::QByteArray)) return true; if (d.type == QMetaType::QStringList && t == QMetaType::QVariantList) return true; } return false; }
template <class T> static T vto(const QVariant &v, int id, bool *ok = nullptr) { if ((int)v.d.type == id) { if (ok) *ok = true; return *(const T *)v.constData(); } T r = T(); bool k = v.d.type && vconv(v.d.type, v.constData(), id, &r); if (ok) *ok = k; return r; }
int QVariant::toInt(bool *ok) const { return vto<int>(*this, QMetaType::Int, ok); }
uint QVariant::toUInt(bool *ok) const { return vto<uint>(*this, QMetaType::UInt, ok); }
qlonglong QVariant::toLongLong(bool *ok) const { return vto<qlonglong>(*this, QMetaType::LongLong, ok); }
qulonglong QVariant::toULongLong(bool *ok) const { return vto<qulonglong>(*this, QMetaType::ULongLong, ok); }
bool QVariant::toBool() const { return vto<bool>(*this, QMetaType::Bool); }
double QVariant::toDouble(bool *ok) const { return vto<double>(*this, QMetaType::Double, ok); }
float QVariant::toFloat(bool *ok) const { return vto<float>(*this, QMetaType::Float, ok); }
qreal QVariant::toReal(bool *ok) const { return vto<double>(*this, QMetaType::Double, ok); }
QByteArray QVariant::toByteArray() const { return vto<QByteArray>(*this, QMetaType::QByteArray); }
QString QVariant::toString() const { return vto<QString>(*this, QMetaType::QString); }
QStringList QVariant::toStringList() const { return vto<QStringList>(*this, QMetaType::QStringList); }
QChar QVariant::toChar() const { return vto<QChar>(*this, QMetaType::QChar); }
QVariantList QVariant::toList() const { return vto<QVariantList>(*this, QMetaType::QVariantList); }
QVariantMap QVariant::toMap() const { return vto<QVariantMap>(*this, QMetaType::QVariantMap); }
QVariantHash QVariant::toHash() const { return vto<QVariantHash>(*this, QMetaType::QVariantHash); }
QUrl QVariant::toUrl() const { return vto<QUrl>(*this, QMetaType::QUrl); }
bool QVariant::cmp(const QVariant &o) const { if (d.type != o.d.type) { int a = kind(d.type), b = kind(o.d.type); if (a && b && a != 3 && b != 3) return geti(d.type, constData()) == geti(o.d.type, o.constData()); if (!d.type || !o.d.type) return false; symx_unmodelled("QVariant compare of different types"); }
    if (!d.type) return true; const void *a = constData(), *b = o.constData(); int k = kind(d.type);
    if (k == 3) return d.type == QMetaType::Float ? *(const float *)a == *(const float *)b : *(const double *)a == *(const double *)b; if (k) return geti(d.type, a) == geti(d.type, b);
    if (d.type == QMetaType::QString) return *(const QString *)a == *(const QString *)b; if (d.type == QMetaType::QByteArray) return *(const QByteArray *)a == *(const QByteArray *)b;
    if (d.type >= QMetaType::User) { TI *t = ti(d.type); if (d.is_null && o.d.is_null) return true; return !memcmp(a, b, t->size); }
    symx_unmodelled("QVariant compare"); }
QDebug operator<<(QDebug s, const QVariant &) { return s; }
QDebug operator<<(QDebug s, const QVariant::Type) { return s; }
// ---------------------------------------------------------------- QMetaObject (moc revision 8)
enum { P_revision, P_class, P_ciC, P_ciD, P_mC, P_mD, P_pC, P_pD, P_eC, P_eD, P_cC, P_cD, P_flags, P_sigC };
static const char *str(const QMetaObject *m, u32 i) { return (const char *)m->d.stringdata[i].data(); }
const char *QMetaObject::className() const { return str(this, d.data[P_class]); }
static int off(const QMetaObject *m, int f) { int r = 0; for (m = m->d.superdata; m; m = m->d.superdata) r += m->d.data[f]; return r; }
int QMetaObject::methodOffset() const { return off(this, P_mC); }
int QMetaObject::enumeratorOffset() const { return off(this, P_eC); }
int QMetaObject::propertyOffset() const { return off(this, P_pC); }
int QMetaObject::methodCount() const { return off(this, P_mC) + d.data[P_mC]; }
int QMetaObject::enumeratorCount() const { return off(this, P_eC) + d.data[P_eC]; }
int QMetaObject::propertyCount() const { return off(this, P_pC) + d.data[P_pC]; }
bool QMetaObject::inherits(const QMetaObject *o) const noexcept { for (const QMetaObject *m = this; m; m = m->d.superdata) if (m == o) return true; return false; }
QObject *QMetaObject::cast(QObject *o) const { return o && o->metaObject()->inherits(this) ? o : nullptr; }
const QObject *QMetaObject::cast(const QObject *o) const { return o && o->metaObject()->inherits(this) ? o : nullptr; }
int QMetaObject::indexOfEnumerator(const char *n) const {
    for (const QMetaObject *m = this; m; m = m->d.superdata) for (int i = (int)m->d.data[P_eC] - 1; i >= 0; --i) { const char *s = str(m, m->d.data[m->d.data[P_eD] + 5 * i]); if (!strcmp(n, s)) return i + m->enumeratorOffset(); }
    for (const QMetaObject *m = this; m; m = m->d.superdata) for (int i = (int)m->d.data[P_eC] - 1; i >= 0; --i) { const char *s = str(m, m->d.data[m->d.data[P_eD] + 5 * i + 1]); if (!strcmp(n, s)) return i + m->enumeratorOffset(); }
    return -1; }
QMetaEnum QMetaObject::enumerator(int i) const { int o = enumeratorOffset(), k = i - o; if (k < 0 && d.superdata) return d.superdata->enumerator(i); QMetaEnum r; if (k >= 0 && k < (int)d.data[P_eC]) { r.mobj = this; r.handle = d.data[P_eD] + 5 * k; } return r; }
int QMetaObject::indexOfProperty(const char *n) const { for (const QMetaObject *m = this; m; m = m->d.superdata) for (int i = (int)m->d.data[P_pC] - 1; i >= 0; --i) if (!strcmp(n, str(m, m->d.data[m->d.data[P_pD] + 3 * i]))) return i + m->propertyOffset(); return -1; }
QByteArray QMetaObject::normalizedType(const char *t) { // whitespace only matters between identifier characters; const/& stripping as in normalizeTypeInternal
    int n = (int)strlen(t), k = 0; char *b = (char *)malloc(2 * n + 1); auto id = [](char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == '_'; }; char last = 0; bool sp = false;
    for (int i = 0; i < n; ++i) { char c = t[i]; if (c == ' ' || c == '\t') { sp = true; continue; } if ((sp && id(last) && id(c)) || (last == '>' && c == '>')) b[k++] = ' '; sp = false; b[k++] = c; last = c; }
    if (k && b[k - 1] == '&') --k; int f = k > 6 && !memcmp(b, "const ", 6) && b[k - 1] != '*' ? 6 : 0; QByteArray r(b + f, k - f); free(b); if (r == "unsigned int" || r == "unsigned") r = "uint"; else if (r == "unsigned long") r = "ulong"; else if (r == "unsigned char") r = "uchar"; else if (r == "unsigned short") r = "ushort"; return r; }
// QMetaEnum
const char *QMetaEnum::name() const { return mobj ? str(mobj, mobj->d.data[handle]) : nullptr; }
const char *QMetaEnum::enumName() const { return mobj ? str(mobj, mobj->d.data[handle + 1]) : nullptr; }
const char *QMetaEnum::scope() const { return mobj ? mobj->className() : nullptr; }
int QMetaEnum::keyCount() const { return mobj ? mobj->d.data[handle + 3] : 0; }
const char *QMetaEnum::key(int i) const { return mobj && i >= 0 && i < keyCount() ? str(mobj, mobj->d.data[mobj->d.data[handle + 4] + 2 * i]) : nullptr; }
int QMetaEnum::value(int i) const { return mobj && i >= 0 && i < keyCount() ? mobj->d.data[mobj->d.data[handle + 4] + 2 * i + 1] : -1; }
const char *QMetaEnum::valueToKey(int v) const { for (int i = 0; i < keyCount(); ++i) if (value(i) == v) return key(i); return nullptr; }
int QMetaEnum::keyToValue(const char *k, bool *ok) const { for (int i = 0; i < keyCount(); ++i) if (!strcmp(key(i), k)) { if (ok) *ok = true; return value(i); } if (ok) *ok = false; return -1; }
// QMetaProperty
QMetaProperty::QMetaProperty() : mobj(nullptr), handle(0), idx(0) {}
static const char *ptype(const QMetaObject *m, u32 h) { u32 t = m->d.data[h + 1]; return t & 0x80000000u ? str(m, t & 0x7fffffff) : QMetaType::typeName(t); }
static const QMetaObject *findScope(const QMetaObject *s, const char *name) { while (s) { if (!strcmp(s->className(), name)) return s; if (s->d.relatedMetaObjects) for (const auto *e = s->d.relatedMetaObjects; *e; ++e) if (const QMetaObject *m = findScope(*e, name)) return m; s = s->d.superdata; } return nullptr; }
QMetaProperty QMetaObject::property(int i) const {
    int o = propertyOffset(), k = i - o; if (k < 0 && d.superdata) return d.superdata->property(i);
    QMetaProperty r; if (k >= 0 && k < (int)d.data[P_pC]) { r.mobj = this; r.handle = d.data[P_pD] + 3 * k; r.idx = k;
        if (d.data[r.handle + 2] & 8) { const char *t = ptype(this, r.handle); r.menum = enumerator(indexOfEnumerator(t));
            if (!r.menum.isValid()) { const char *en = t, *sc = className(); QByteArray b; const char *colon = nullptr; for (const char *p = t; *p; ++p) if (*p == ':') colon = p; if (colon && colon > t) { b = QByteArray(t, (int)(colon - t) - 1); sc = b.constData(); en = colon + 1; }
                if (const QMetaObject *s = findScope(this, sc)) r.menum = s->enumerator(s->indexOfEnumerator(en)); } } }
    return r; }
QMetaProperty QMetaObject::userProperty() const { return QMetaProperty(); }
const char *QMetaProperty::name() const { return mobj ? str(mobj, mobj->d.data[handle]) : nullptr; }
const char *QMetaProperty::typeName() const { return mobj ? ptype(mobj, handle) : nullptr; }
bool QMetaProperty::isReadable() const { return mobj && (mobj->d.data[handle + 2] & 1); }
bool QMetaProperty::isWritable() const { return mobj && (mobj->d.data[handle + 2] & 2); }
bool QMetaProperty::isEnumType() const { return mobj && (mobj->d.data[handle + 2] & 8) && menum.name(); }
bool QMetaProperty::isFlagType() const { return isEnumType() && menum.isFlag(); }
bool QMetaEnum::isFlag() const { return mobj && (mobj->d.data[handle + 2] & 1); }
bool QMetaProperty::isConstant() const { return mobj && (mobj->d.data[handle + 2] & 0x400); }
QMetaEnum QMetaProperty::enumerator() const { return menum; }
int QMetaProperty::propertyIndex() const { return mobj ? idx + mobj->propertyOffset() : -1; }
int QMetaProperty::relativePropertyIndex() const { return mobj ? idx : -1; }
int QMetaProperty::registerPropertyType() const { int r = -1; void *argv[] = {&r}; mobj->d.static_metacall(nullptr, QMetaObject::RegisterPropertyMetaType, idx, argv); return r == -1 ? 0 : r; }
static QByteArray qualified(const QMetaEnum &e) { return QByteArray(e.scope()) + "::" + e.name(); }
static int resolveType(const QMetaProperty &p, const QMetaObject *m, u32 h) { u32 t = m->d.data[h + 1]; if (!(t & 0x80000000u)) return t; int id = QMetaType::type(str(m, t & 0x7fffffff)); if (!id) id = p.registerPropertyType(); return id; }
int QMetaProperty::userType() const { if (!mobj) return 0; if (isEnumType()) { int t = QMetaType::type(qualified(menum)); if (t) return t; t = registerPropertyType(); return t ? t : QMetaType::Int; } return resolveType(*this, mobj, handle); }
QVariant::Type QMetaProperty::type() const { int t = userType(); return isEnumType() ? QVariant::Int : t >= QMetaType::User ? QVariant::UserType : QVariant::Type(t); }
static void metacall(const QMetaObject *m, QObject *o, QMetaObject::Call c, int idx, void **argv) { if ((m->d.data[P_flags] & 4) && m->d.static_metacall) m->d.static_metacall(o, c, idx, argv); else QMetaObject::metacall(o, c, idx + m->propertyOffset(), argv); }
QVariant QMetaProperty::read(const QObject *o) const {
    if (!o || !mobj) return QVariant(); int t = QMetaType::Int;
    if (isEnumType()) { int e = QMetaType::type(qualified(menum)); if (e) t = e; } else { t = resolveType(*this, mobj, handle); if (!t) return QVariant(); }
    int status = -1; QVariant value; void *argv[] = {nullptr, &value, &status};
    if (t == QMetaType::QVariant) argv[0] = &value; else { value = QVariant(t, (const void *)nullptr); argv[0] = value.data(); }
    metacall(mobj, const_cast<QObject *>(o), QMetaObject::ReadProperty, idx, argv);
    if (status != -1) return value; if (t != QMetaType::QVariant && argv[0] != value.data()) return QVariant(t, argv[0]); return value; }
bool QMetaProperty::write(QObject *o, const QVariant &val) const {
    if (!o || !isWritable()) return false; QVariant v = val; int t = 0;
    if (isEnumType()) { if (v.type() == QVariant::String) { bool ok; v = QVariant(menum.keyToValue(v.toString().toLatin1().constData(), &ok)); if (!ok) return false; }
        else if (v.type() != QVariant::Int && v.type() != QVariant::UInt) { int e = QMetaType::type(qualified(menum)); if (!e || v.userType() != e || !v.constData()) return false; v = QVariant(*reinterpret_cast<const int *>(v.constData())); }
        v.convert(QVariant::Int); }
    else { t = resolveType(*this, mobj, handle); if (!t) return false; if (t != QMetaType::QVariant && t != val.userType() && (t < QMetaType::User && !v.convert(t))) return false; }
    int status = -1, flags = 0; void *argv[] = {nullptr, &v, &status, &flags};
    argv[0] = t == QMetaType::QVariant ? (void *)&v : v.data();
    metacall(mobj, o, QMetaObject::WriteProperty, idx, argv); return status != 0; }
bool QMetaProperty::hasNotifySignal() const { return mobj && (mobj->d.data[handle + 2] & 0x00400000); }
int QMetaObject::metacall(QObject *o, Call c, int i, void **a) { return o->qt_metacall(c, i, a); }
// QMetaMethod
static u32 mtype(const QMetaObject *m, u32 h, int i) { return m->d.data[m->d.data[h + 2] + i]; } // 0: return type, then the parameters
static const char *mtypeName(const QMetaObject *m, u32 t) { return t & 0x80000000u ? str(m, t & 0x7fffffff) : QMetaType::typeName(t); }
QMetaMethod QMetaObject::method(int i) const { int o = methodOffset(), k = i - o; if (k < 0 && d.superdata) return d.superdata->method(i); QMetaMethod r; if (k >= 0 && k < (int)d.data[P_mC]) { r.mobj = this; r.handle = d.data[P_mD] + 5 * k; } return r; }
QByteArray QMetaMethod::name() const { return mobj ? QByteArray(str(mobj, mobj->d.data[handle])) : QByteArray(); }
int QMetaMethod::parameterCount() const { return mobj ? (int)mobj->d.data[handle + 1] : 0; }
int QMetaMethod::methodIndex() const { return mobj ? (int)(handle - mobj->d.data[P_mD]) / 5 + mobj->methodOffset() : -1; }
int QMetaMethod::parameterType(int i) const { if (!mobj || i < 0 || i >= parameterCount()) return QMetaType::UnknownType; u32 t = mtype(mobj, handle, i + 1); int type = t & 0x80000000u ? QMetaType::type(str(mobj, t & 0x7fffffff)) : (int)t; if (type) return type; void *argv[] = {&type, &i}; mobj->d.static_metacall(nullptr, QMetaObject::RegisterMethodArgumentMetaType, (int)(handle - mobj->d.data[P_mD]) / 5, argv); return type == -1 ? 0 : type; }
QList<QByteArray> QMetaMethod::parameterTypes() const { QList<QByteArray> r; for (int i = 0; i < parameterCount(); ++i) r.append(QByteArray(mtypeName(mobj, mtype(mobj, handle, i + 1)))); return r; }
const char *QMetaMethod::typeName() const { return mobj ? mtypeName(mobj, mtype(mobj, handle, 0)) : nullptr; }
bool QMetaMethod::invoke(QObject *o, Qt::ConnectionType t, QGenericReturnArgument ret, QGenericArgument a0, QGenericArgument a1, QGenericArgument a2, QGenericArgument a3, QGenericArgument a4, QGenericArgument a5, QGenericArgument a6, QGenericArgument a7, QGenericArgument a8, QGenericArgument a9) const {
    if (!o || !mobj) return false; if (t != Qt::DirectConnection) symx_unmodelled("queued QMetaMethod::invoke"); if (ret.data() && strcmp(ret.name(), typeName()) && QMetaObject::normalizedType(ret.name()) != typeName()) return false;
    const QGenericArgument *a[] = {&a0, &a1, &a2, &a3, &a4, &a5, &a6, &a7, &a8, &a9}; int n = 0; while (n < 10 && a[n]->name() && *a[n]->name()) ++n; if (n < parameterCount()) return false;
    void *argv[11]; argv[0] = ret.data(); for (int i = 0; i < 10; ++i) argv[i + 1] = a[i]->data(); int k = (int)(handle - mobj->d.data[P_mD]) / 5; if ((mobj->d.data[P_flags] & 4) && mobj->d.static_metacall) { mobj->d.static_metacall(o, QMetaObject::InvokeMetaMethod, k, argv); return true; } return QMetaObject::metacall(o, QMetaObject::InvokeMetaMethod, k + mobj->methodOffset(), argv) < 0; }
void *QMetaType::createExtended(const void *c) const { return m_typeId ? QMetaType::create(m_typeId, c) : nullptr; }
void QMetaType::destroyExtended(void *p) const { QMetaType::destroy(m_typeId, p); }
