// C28: schemas with unusual shapes (names, numbers, nesting, imports, enums of every scope) and generator options.
// Included after the generated headers; the field chosen by parameter `f` is symbolic, the others hold fixed values.
#pragma once
#include "gen.h"
#include <QVariant>
// ---- reference: records of the declared field numbers and types
struct Parts { QByteArray r[16]; int n = 0; void add(const Writer &w) { r[n++] = w.b; }
    QByteArray fwd() const { QByteArray b; for (int i = 0; i < n; ++i) b.append(r[i]); return b; } QByteArray rev() const { QByteArray b; for (int i = n; i--;) b.append(r[i]); return b; }
    void num(u32 f, int wt, u64 v, int bytes = 0) { Writer w; w.tag(f, wt); if (wt == 0) w.varint(v); else w.fixed(v, bytes); add(w); }
    void blob(u32 f, const QByteArray &b) { Writer w; w.tag(f, 2); w.bytes(b); add(w); }
    void blobs(u32 f, const QByteArray &a, const QByteArray &b) { Writer w; w.tag(f, 2); w.bytes(a); w.tag(f, 2); w.bytes(b); add(w); }
    template <class T> void sc(u32 f, const T &t) { num(f, Wire<T>::wt, Wire<T>::enc(t), Wire<T>::n); } void en(u32 f, int v) { num(f, 0, (u64)(int64_t)v); } void pack(u32 f, u64 a, u64 b) { Writer w; w.varint(a); w.varint(b); blob(f, w.b); } };
inline u64 sx(int v) { return (u64)(int64_t)v; }
// ---- canonical form: records in order of field number at every level, absent instead of default singular values
enum K { One, Msg, Pack, Each, Entry, One32, Pack32 };   // singular scalar, singular message, packed list, repeated message, map; ..32: varints of int32 and enums, of which readers use the low 32 bits
struct Schema; struct Fld { u32 num; K k; const Schema *sub; }; struct Schema { int n; Fld f[12]; };
inline void canon(QByteArray &out, const QByteArray &in, const Schema &s) { Reader r(in); Rec x[24]; int n = 0; for (; n < 24 && r.next(x[n]); ++n) ; symx_check(r.ok && n < 24, "well-formed"); int used = 0;
    for (int i = 0; i < s.n; ++i) { int seen = 0; for (int j = 0; j < n; ++j) if (x[j].field == s.f[i].num) { ++used; ++seen; Writer w; w.tag(x[j].field, x[j].wt);
            if (x[j].wt == 2) { QByteArray b((const char *)x[j].p, (int)x[j].len); if (s.f[i].sub) { QByteArray c; canon(c, b, *s.f[i].sub); b = c; } if (s.f[i].k == Pack32) { Writer c; Reader q(b); u64 v; while (q.p != q.e && q.varint(v)) c.varint((u32)v); symx_check(q.ok, "well-formed packed list"); b = c.b; } if (b.isEmpty() && (s.f[i].k == One || s.f[i].k == Msg || s.f[i].k == Pack || s.f[i].k == Pack32)) continue; w.bytes(b); }
            else { if (s.f[i].k == One32) x[j].val = (u32)x[j].val; if (!x[j].val && (s.f[i].k == One || s.f[i].k == One32)) continue; if (x[j].wt == 0) w.varint(x[j].val); else w.fixed(x[j].val, x[j].len); } out.append(w.b); }
        if (s.f[i].k != Each && s.f[i].k != Entry) symx_check(seen <= 1, "one record per singular field"); }
    symx_check(used == n, "only declared field numbers"); }
inline QByteArray canon(const QByteArray &in, const Schema &s) { QByteArray o; canon(o, in, s); return o; }
// ---- values
// field number `f`, or any of fa..fb
inline int fsel() { static int v = (int)symx_param("f", 0) ? (int)symx_param("f", 0) : (int)(symx_param("fa", 1) + choose("field", (unsigned)(symx_param("fb", 1) - symx_param("fa", 1) + 1))); return v; }
template <class T> T pick(int i, const T &fixed) { return i == fsel() ? mk<T>("v") : fixed; }
template <class E> E pickE(int i, E fixed, E a, E b, E c) { if (i != fsel()) return fixed; switch (choose("e", 3)) { case 0: return a; case 1: return b; } return c; }
inline QString S(const char *s) { return QString::fromLatin1(s); }
template <class T> QSharedPointer<T> sp(const T &t) { return QSharedPointer<T>(new T(t)); }
// ---- the check of one message type: fill() sets every field and writes the reference records
template <class M> void oddRound(const Schema &s) { setup(); M m; Parts p; fill(m, p); QByteArray e = enc(m), want = canon(p.fwd(), s); symx_check(same(canon(e, s), want), "encoding has the declared numbers, types and values");
    M n; symx_check(dec(n, symx_param("rev", 1) ? p.rev() : p.fwd()), "reference encoding accepted"); symx_check(n == m && m == n && !(n != m), "decoded message equals the one that was set"); symx_check(same(canon(enc(n), s), want), "and encodes the same"); M k; symx_check(dec(k, e) && k == m, "own encoding accepted"); symx_cover("done"); }
template <class M> void oddValue(const Schema &s) { setup(); M m; Parts p; fill(m, p); QByteArray want = canon(enc(m), s); M c(m); symx_check(c == m && same(canon(enc(c), s), want), "copy"); M d; bool dflt = d == m; d = m; symx_check(d == m && same(canon(enc(d), s), want), "assignment"); M e(std::move(c)); symx_check(e == m && same(canon(enc(e), s), want), "move"); M f; f = std::move(e); symx_check(f == m && same(canon(enc(f), s), want), "move assignment"); f = M(); symx_check((f == m) == dflt && (f != m) == !dflt && canon(enc(f), s).isEmpty(), "a default message"); symx_check(same(canon(enc(m), s), want), "source unchanged"); symx_cover("done"); }
// ---- option QML
#ifdef ODD_QML
#include <QtQml/QQmlListProperty>
// list views act on the list of the message itself
template <class M, class T, class Get> void oddList(QQmlListProperty<T> (M::*view)(), const char *prop, Get get, T *(*make)(int), int (*value)(const T &)) { setup(); M m; int want[8], n = 0, dead = 0; QQmlListProperty<T> v = (m.*view)(); int steps = (int)symx_param("steps", 3);
    for (int s = 0; s < steps; ++s) { switch (choose("op", 3)) {
        case 0: { int x = want[n++] = sym<int8_t>("x"); T *t = make(x); QObject::connect(t, &QObject::destroyed, [&dead] { ++dead; }); if (s & 1) { QQmlListProperty<T> w = m.property(prop).template value<QQmlListProperty<T>>(); w.append(&w, t); symx_check(w.at(&w, n - 1) == t, "the element itself is in the list"); } else { v.append(&v, t); symx_check(v.at(&v, n - 1) == t, "the element itself is in the list"); } break; }
        case 1: { int before = dead; v.clear(&v); symx_check(dead == before + n, "elements are released"); n = 0; break; }
        case 2: { M c(m); symx_check(c == m, "copy"); QQmlListProperty<T> w = (c.*view)(); w.append(&w, make(1)); break; } }
        symx_check(v.count(&v) == n, "count"); auto l = get(m); symx_check(l.size() == n, "list of the message"); for (int i = 0; i < n; ++i) symx_check(value(*v.at(&v, i)) == want[i] && l.at(i).data() == v.at(&v, i), "elements"); }
    M k; symx_check(dec(k, enc(m)), "decodes"); auto l = get(k); symx_check(l.size() == n, "encoded with the elements of the view"); for (int i = 0; i < n; ++i) symx_check(value(*l.at(i)) == want[i], "encoded with their values"); symx_cover("done"); }
// script-friendly aliases of transparent integer types
template <class A, class T, class M, class Get, class Set> void oddAlias(M &m, const char *name, int &n, Get get, Set set) { A a = sym<A>("a"), b = sym<A>("b"); QByteArray full(name); full.append("_p"); symx_check(m.setProperty(name, QVariant::fromValue(a)), "property write"); symx_check((A)get(m) == a && n == (a != 0), "stored, with a signal exactly if the value changed"); symx_check(m.property(name).template value<A>() == a && (A)m.property(full.constData()).template value<T>() == a, "property read"); symx_check(m.property(name).toLongLong() == (qlonglong)a, "read as a number"); n = 0; m.setProperty(name, QVariant::fromValue(a)); symx_check(n == 0, "no signal for the same value"); set(m, T(b)); symx_check(n == (a != b) && m.property(name).template value<A>() == b, "setter is visible through the property"); symx_check(m.setProperty(full.constData(), QVariant::fromValue(T(a))) && (A)get(m) == a && m.property(name).template value<A>() == a, "write of the typed property"); symx_check(m.setProperty(name, QVariant((qlonglong)b)) && (A)get(m) == b && m.setProperty(name, QVariant((qlonglong)a)) && (A)get(m) == a, "write of a number"); M k; set(k, T(a)); symx_check(k == m && same(enc(k), enc(m)), "the message has only this field"); }
#endif
