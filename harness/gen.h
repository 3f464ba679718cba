// Symbolic values of every field type, bit-exact comparison, and an independent reference reader of the protobuf wire format.
#pragma once
#include "symx.h"
#include "vt.qpb.h"
#include <qprotobufserializer.h>
#include <cstring>
#include <type_traits>
typedef unsigned char u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64;
using QtProtobuf::QProtobufSerializer;
#ifdef SYMX
#define NOOPT
#endif
// ---- bounds (overridable per job)
inline int P_len() { static int v = (int)symx_param("len", 3); return v; }    // string / bytes length
inline int P_n() { static int v = (int)symx_param("n", 2); return v; }        // list / map size
// ---- symbolic values
template <class T> struct Mk { static T make(const char *n) { T t; symx_make_symbolic(&t, sizeof t, n); return t; } };
template <> struct Mk<bool> { static bool make(const char *n) { return sym<u8>(n) & 1; } };
// valid UTF-16 of at most P_len() units; U+FEFF as first character is outside the claim (Qt's UTF-8 decoder treats it as a byte order mark)
template <> struct Mk<QString> { static QString make(const char *n) {
    int k = choose("slen", P_len() + 1); u16 c[8]; if (k) symx_make_symbolic(c, 2 * k, n);
    for (int i = 0; i < k; ++i) { bool hi = c[i] >= 0xd800 && c[i] <= 0xdbff, lo = c[i] >= 0xdc00 && c[i] <= 0xdfff; if (hi) symx_assume(i + 1 < k && c[i + 1] >= 0xdc00 && c[i + 1] <= 0xdfff); if (lo) symx_assume(i > 0 && c[i - 1] >= 0xd800 && c[i - 1] <= 0xdbff); }
    if (k) symx_assume(c[0] != 0xfeff); return QString(reinterpret_cast<const QChar *>(c), k); } };
template <> struct Mk<QByteArray> { static QByteArray make(const char *n) { int k = choose("blen", P_len() + 1); u8 c[16]; if (k) symx_make_symbolic(c, k, n); return QByteArray((const char *)c, k); } };
template <class M, class F> M withV(const F &f) { M m; m.setV(f); return m; }
template <> struct Mk<vt::MSInt32> { static vt::MSInt32 make(const char *n) { vt::MSInt32 m; m.setV(sym<int>(n)); return m; } };
template <> struct Mk<vt::MInt32> { static vt::MInt32 make(const char *n) { vt::MInt32 m; m.setV(sym<int>(n)); return m; } };
template <class T> T mk(const char *n) { return Mk<typename std::remove_cv<T>::type>::make(n); }
// ---- bit-exact equality
template <class T> typename std::enable_if<!std::is_base_of<QObject, T>::value, bool>::type same(const T &a, const T &b) { return !memcmp(&a, &b, sizeof a); }
inline bool same(const QString &a, const QString &b) { if (a.size() != b.size()) return false; bool r = true; for (int i = 0; i < a.size(); ++i) r &= a.at(i).unicode() == b.at(i).unicode(); return r; }
inline bool same(const QByteArray &a, const QByteArray &b) { if (a.size() != b.size()) return false; bool r = true; for (int i = 0; i < a.size(); ++i) r &= a.at(i) == b.at(i); return r; }
inline bool same(const bool &a, const bool &b) { return a == b; }
inline bool same(const vt::MSInt32 &a, const vt::MSInt32 &b) { return a.v() == b.v(); }
inline bool same(const vt::MInt32 &a, const vt::MInt32 &b) { return a.v() == b.v(); }
template <class T> bool same(const QSharedPointer<T> &a, const QSharedPointer<T> &b) { return !a.isNull() && !b.isNull() && same(*a, *b); }
template <class T> bool sameList(const QList<T> &a, const QList<T> &b) { if (a.size() != b.size()) return false; bool r = true; for (int i = 0; i < a.size(); ++i) r &= same(a.at(i), b.at(i)); return r; }
// ---- reference reader of the wire format: any well-formed input -> flat list of records
struct Rec { u32 field; int wt; u64 val; const u8 *p; u32 len; int vlen; };
struct Reader { const u8 *p, *e; bool ok; Reader(const u8 *b, u32 n) : p(b), e(b + n), ok(true) {} explicit Reader(const QByteArray &a) : Reader((const u8 *)a.constData(), a.size()) {}
    bool varint(u64 &v, int *n = nullptr) { v = 0; int k = 0; for (;; ++k) { if (p == e || k == 10) return ok = false; u8 b = *p++; v |= (u64)(b & 127) << (7 * k); if (!(b & 128)) { if (n) *n = k + 1; if (k == 9 && b > 1) return ok = false; return true; } } }
    bool next(Rec &r) { if (p == e || !ok) return false; u64 h, l; if (!varint(h)) return false; r.field = (u32)(h >> 3); r.wt = h & 7; if (!r.field || h >> 32) return ok = false;
        r.vlen = 0; r.len = 0; r.val = 0;
        switch (r.wt) { case 0: return varint(r.val, &r.vlen); case 1: case 5: { r.len = r.wt == 1 ? 8 : 4; if (e - p < (long)r.len) return ok = false; r.p = p; for (u32 i = 0; i < r.len; ++i) r.val |= (u64)p[i] << (8 * i); p += r.len; return true; }
            case 2: if (!varint(l, &r.vlen)) return false; if ((u64)(e - p) < l) return ok = false; r.p = p; r.len = (u32)l; p += l; return true; } return ok = false; } };
inline int minimalLen(u64 v) { int n = 1; while (v >>= 7) ++n; return n; }
// ---- reference writer
struct Writer { QByteArray b; void byte(u8 c) { b.append((char)c); } void varint(u64 v) { while (v >> 7) { byte((u8)(v & 127) | 128); v >>= 7; } byte((u8)v); }
    void varintN(u64 v, int n) { for (int i = 0; i < n; ++i) byte((u8)((v >> (7 * i)) & 127) | (i + 1 < n ? 128 : 0)); }   // exactly n bytes, possibly over-long
    void tag(u32 f, int wt) { varint((u64)f << 3 | wt); } void fixed(u64 v, int n) { for (int i = 0; i < n; ++i) byte((u8)(v >> (8 * i))); } void bytes(const QByteArray &d) { varint(d.size()); b.append(d); } };
// wire value of a scalar of declared proto type (by C++ type)
template <class T> struct Wire; 
#define WIRE(T, WT, N, ENC) template <> struct Wire<T> { enum { wt = WT, n = N }; static u64 enc(const T &t) { ENC; } };
inline u64 zz64(int64_t v) { return ((u64)v << 1) ^ (u64)(v >> 63); } inline u32 zz32(int32_t v) { return ((u32)v << 1) ^ (u32)(v >> 31); }
template <class T> inline T raw(const void *p) { T t; memcpy(&t, p, sizeof t); return t; }
WIRE(QtProtobuf::int32, 0, 4, return (u64)(int64_t)raw<int32_t>(&t)) WIRE(QtProtobuf::int64, 0, 8, return raw<u64>(&t)) WIRE(QtProtobuf::uint32, 0, 4, return t) WIRE(QtProtobuf::uint64, 0, 8, return t)
WIRE(QtProtobuf::sint32, 0, 4, return zz32(t)) WIRE(QtProtobuf::sint64, 0, 8, return zz64(t)) WIRE(QtProtobuf::fixed32, 5, 4, return raw<u32>(&t)) WIRE(QtProtobuf::fixed64, 1, 8, return raw<u64>(&t)) WIRE(QtProtobuf::sfixed32, 5, 4, return raw<u32>(&t)) WIRE(QtProtobuf::sfixed64, 1, 8, return raw<u64>(&t))
WIRE(bool, 0, 8, return t) WIRE(float, 5, 4, return raw<u32>(&t)) WIRE(double, 1, 8, return raw<u64>(&t)) WIRE(vt::MEnum::Kind, 0, 4, return (u64)(int64_t)raw<int32_t>(&t))
template <> struct Wire<QString> { enum { wt = 2 }; static QByteArray enc(const QString &s) { return s.toUtf8(); } };
template <> struct Wire<QByteArray> { enum { wt = 2 }; static QByteArray enc(const QByteArray &s) { return s; } };
// value carried by a varint/fixed record, as an independent decoder of the declared type reads it (32-bit varint types keep the low 32 bits)
template <class T> u64 low(u64 v) { return Wire<T>::n == 4 ? (u32)v : v; }
#define SCALARS(X) X(0, MInt32) X(1, MInt64) X(2, MUInt32) X(3, MUInt64) X(4, MSInt32) X(5, MSInt64) X(6, MFixed32) X(7, MFixed64) X(8, MSFixed32) X(9, MSFixed64) X(10, MBool) X(11, MFloat) X(12, MDouble) X(13, MString) X(14, MBytes) X(15, MEnum)
#define LISTS(X) X(0, RInt32) X(1, RInt64) X(2, RUInt32) X(3, RUInt64) X(4, RSInt32) X(5, RSInt64) X(6, RFixed32) X(7, RFixed64) X(8, RSFixed32) X(9, RSFixed64) X(10, RFloat) X(11, RDouble) X(12, RString) X(13, RBytes) X(14, REnum) X(15, RMsg)
#define MAPS(X) X(0, MapInt32) X(1, MapSInt32) X(2, MapUInt32) X(3, MapInt64) X(4, MapSInt64) X(5, MapUInt64) X(6, MapFixed32) X(7, MapFixed64) X(8, MapSFixed32) X(9, MapSFixed64) X(10, MapString) X(11, MapStringBytes) X(12, MapMsg) X(13, MapStringMsg) X(14, MapEnum) X(15, MapFloat) X(16, MapDouble)
template <class M> using FieldOf = typename std::decay<decltype(((const M *)nullptr)->v())>::type;
inline void setup() { QtProtobuf::qRegisterProtobufTypes(); }
template <class M> QByteArray enc(const M &m) { QProtobufSerializer s; return m.serialize(&s); }
template <class M> bool dec(M &m, const QByteArray &b) { QProtobufSerializer s; try { m.deserialize(&s, b); return true; } catch (const std::out_of_range &) { return false; } catch (const std::invalid_argument &) { return false; } }
