// LIBS: protobuf vt
// C01-C05: round trips and wire conformance of the encoder
#include "gen.h"
// ------------------------------------------------------------------ C01 / C05 singular
template <class T> typename std::enable_if<Wire<T>::wt != 2, bool>::type wireHolds(const Rec &r, const T &v) { return r.wt == Wire<T>::wt && low<T>(r.val) == low<T>(Wire<T>::enc(v)) && (r.wt != 0 || r.vlen == minimalLen(r.val)); }
template <class T> typename std::enable_if<Wire<T>::wt == 2, bool>::type wireHolds(const Rec &r, const T &v) { return r.wt == 2 && same(QByteArray((const char *)r.p, r.len), Wire<T>::enc(v)) && r.vlen == minimalLen(r.len); }
template <class T> typename std::enable_if<Wire<T>::wt != 2, bool>::type isDefault(const T &v) { return low<T>(Wire<T>::enc(v)) == 0; }
template <class T> typename std::enable_if<Wire<T>::wt == 2, bool>::type isDefault(const T &v) { return v.size() == 0; }
template <class M> void rtSingular() {
    setup(); typedef FieldOf<M> T; T v = mk<T>("v"); M m, n; m.setV(v); QByteArray b = enc(m);
    bool ok = dec(n, b); symx_check(ok, "serialized message is accepted"); symx_check(same(n.v(), m.v()), "field value survives the round trip"); symx_check(b == enc(n), "re-serialization is stable"); symx_cover("done"); }
template <class M> void wireSingular() {
    setup(); typedef FieldOf<M> T; T v = mk<T>("v"); M m; m.setV(v); QByteArray b = enc(m); T w = m.v();
    Reader r(b); Rec c; bool seen = false; while (r.next(c)) { symx_check(!seen, "a singular field is emitted once"); seen = true; symx_check(c.field == 1, "declared field number"); symx_check(wireHolds<T>(c, w), "wire type and value of the record"); }
    symx_check(r.ok, "well-formed wire format"); symx_check(seen || isDefault(w), "a non-default field is emitted"); symx_cover("done"); }
HARNESS(rt_singular) { switch (symx_param("t", 0)) {
#define X(I, M) case I: return rtSingular<vt::M>();
    SCALARS(X)
#undef X
} }
HARNESS(wire_singular) { switch (symx_param("t", 0)) {
#define X(I, M) case I: return wireSingular<vt::M>();
    SCALARS(X)
#undef X
} }
// a stored negative zero (the setters drop the sign because they compare with !=, so it is stored through the constructor)
template <class M, class F> void rtNegZero() { setup(); F v = mk<F>("v"); symx_assume(v == 0); M m(v), n; QByteArray b = enc(m); symx_check(dec(n, b), "accepted"); symx_check(n.v() == m.v(), "zero stays zero"); symx_check(same(n.v(), m.v()), "sign of zero"); symx_cover("done"); }
HARNESS(rt_negzero) { if (symx_param("t", 0)) rtNegZero<vt::MDouble, double>(); else rtNegZero<vt::MFloat, float>(); }
// several fields at once, 1..5 byte headers; the parameter selects which fields are symbolic
static void fillMulti(vt::Multi &m) { long t = symx_param("mask", 63);
    if (t & 1) m.setS(mk<QString>("s")); if (t & 2) m.setA(sym<int>("a")); if (t & 4) m.setB(sym<u64>("b")); if (t & 8) { u32 c = sym<u32>("c"); m.setC(QtProtobuf::fixed32(c)); } if (t & 16) m.setD(mk<bool>("d")); if (t & 32) m.setE(mk<QByteArray>("e")); }
HARNESS(rt_multi) { setup(); vt::Multi m, n; fillMulti(m); QByteArray b = enc(m); symx_check(dec(n, b), "accepted");
    symx_check(same(n.s(), m.s()) & (n.a() == m.a()) & (n.b() == m.b()) & (n.c() == m.c()) & (n.d() == m.d()) & same(n.e(), m.e()), "every field survives"); symx_check(n == m, "operator=="); symx_cover("done"); }
HARNESS(wire_multi) { setup(); vt::Multi m; fillMulti(m); QByteArray b = enc(m); Reader r(b); Rec c; u32 last = 0; u32 seen = 0;
    while (r.next(c)) { symx_check(c.field != last, "emitted once"); last = c.field;
        switch (c.field) { case 2047: seen |= 1; symx_check(wireHolds<QString>(c, m.s()), "s"); break; case 15: seen |= 2; symx_check(wireHolds<QtProtobuf::sint32>(c, m.a()), "a"); break; case 16: seen |= 4; symx_check(wireHolds<QtProtobuf::uint64>(c, m.b()), "b"); break; case 2048: seen |= 8; symx_check(wireHolds<QtProtobuf::fixed32>(c, m.c()), "c"); break; case 3: seen |= 16; symx_check(wireHolds<bool>(c, m.d()), "d"); break; case 536870911: seen |= 32; symx_check(wireHolds<QByteArray>(c, m.e()), "e"); break; default: symx_fail("undeclared field number"); } }
    symx_check(r.ok, "well-formed"); symx_check((seen & 1 || m.s().isEmpty()) && (seen & 2 || m.a() == 0) && (seen & 4 || m.b() == 0) && (seen & 8 || raw<u32>(&(const QtProtobuf::fixed32 &)m.c()) == 0) && (seen & 16 || !m.d()) && (seen & 32 || m.e().isEmpty()), "non-default fields are emitted"); symx_cover("done"); }
// long strings / byte arrays: length prefixes of 1, 2 and 3 bytes, a symbolic byte at a symbolic place
HARNESS(rt_long) { setup(); static const int L[] = {126, 127, 128, 129, 255, 256, 300, 16383, 16384, 16385, 65535, 65536, 2097151, 2097152}; int k = L[choose("len", (unsigned)symx_param("lens", 7))]; unsigned pos = sym<u32>("pos"); symx_assume(pos < (unsigned)k); pos = symx_param("fix", 0) ? (unsigned)k - 1 : (unsigned)symx_concretize(pos == 0 ? 0 : pos == (unsigned)k - 1 ? (unsigned)k - 1 : (unsigned)k / 2); u8 c = sym<u8>("c");
    QByteArray d(k, 'x'); d.data()[pos] = (char)c; vt::MBytes m, n; m.setV(d); QByteArray b = enc(m); symx_check(dec(n, b), "accepted"); symx_check(same(n.v(), d), "long bytes survive"); Reader r(b); Rec q; symx_check(r.next(q) && q.wt == 2 && q.field == 1 && (int)q.len == k && !r.next(q) && r.ok, "exact length prefix");
    vt::MString s, t; QString str(k, QLatin1Char('y')); symx_assume(c > 0 && c < 128); str[(int)pos] = QChar(c); s.setV(str); QByteArray e = enc(s); symx_check(dec(t, e), "accepted"); symx_check(same(t.v(), str), "long string survives"); symx_cover("done"); }
// ------------------------------------------------------------------ C02 repeated
template <class T> struct El { static T make(const char *n) { return mk<T>(n); } static bool holds(const Rec &r, const T &v) { return wireHolds<T>(r, v); } static bool def(const T &v) { return isDefault(v); } };
template <class T> struct El<QSharedPointer<T>> { static QSharedPointer<T> make(const char *n) { return QSharedPointer<T>(new T(mk<T>(n))); } static bool holds(const Rec &r, const QSharedPointer<T> &v) { if (r.wt != 2) return false; Reader q(r.p, r.len); Rec c; bool s = false; while (q.next(c)) { if (c.field != 1 || s || !wireHolds<FieldOf<T>>(c, v->v())) return false; s = true; } return q.ok && (s || v->v() == 0); } static bool def(const QSharedPointer<T> &v) { return isDefault<FieldOf<T>>(v->v()); } };
template <class M> void fillList(M &m) { typedef FieldOf<M> L; typedef typename std::decay<decltype(L().first())>::type T; int k = choose("n", P_n() + 1); L l; for (int i = 0; i < k; ++i) l.append(El<T>::make("v")); m.setV(l); }
template <class M> void rtList() { setup(); M m, n; fillList(m); QByteArray b = enc(m); symx_check(dec(n, b), "accepted"); const M &cm = m, &cn = n; symx_check(cn.v().size() == cm.v().size(), "list length survives"); symx_check(sameList(cn.v(), cm.v()), "list elements survive in order"); symx_check(enc(n) == b, "stable"); symx_cover("done"); }
// packed scalars: one length-delimited record; strings, bytes and messages: one record per element
template <class T, bool packed> struct WL { static void check(const QByteArray &b, const QList<T> &l, u32 field) { Reader r(b); Rec c; int i = 0; while (r.next(c)) { symx_check(i < l.size() && c.field == field, "one record per element"); symx_check(El<T>::holds(c, l.at(i)), "element record"); ++i; } symx_check(r.ok && i == l.size(), "every element is emitted"); } };
template <class T> struct WL<T, true> { static void check(const QByteArray &b, const QList<T> &l, u32 field) { Reader r(b); Rec c; if (!r.next(c)) { symx_check(r.ok && l.isEmpty(), "a non-empty list is emitted"); return; } symx_check(c.field == field && c.wt == 2 && c.vlen == minimalLen(c.len), "one packed record"); Rec d; symx_check(!r.next(d) && r.ok, "nothing follows"); Reader q(c.p, c.len); int i = 0;
    while (q.p != q.e) { Rec e; e.wt = Wire<T>::wt; e.vlen = 0; e.val = 0; if (e.wt == 0) { if (!q.varint(e.val, &e.vlen)) break; } else { int n = e.wt == 1 ? 8 : 4; if (q.e - q.p < n) { q.ok = false; break; } for (int k = 0; k < n; ++k) e.val |= (u64)q.p[k] << (8 * k); q.p += n; } symx_check(i < l.size(), "no extra element"); symx_check(El<T>::holds(e, l.at(i)), "packed element"); ++i; } symx_check(q.ok && i == l.size(), "every element is emitted"); } };
template <class T> struct Packed { enum { v = Wire<T>::wt != 2 }; }; template <class T> struct Packed<QSharedPointer<T>> { enum { v = 0 }; };
template <class M> void wireList(u32 field) { setup(); M m; fillList(m); typedef FieldOf<M> L; typedef typename std::decay<decltype(L().first())>::type T; const M &cm = m; WL<T, Packed<T>::v>::check(enc(m), cm.v(), field); symx_cover("done"); }
static const u32 listField[] = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 17, 18};
HARNESS(rt_list) { switch (symx_param("t", 0)) {
#define X(I, M) case I: return rtList<vt::M>();
    LISTS(X)
#undef X
} }
HARNESS(wire_list) { switch (symx_param("t", 0)) {
#define X(I, M) case I: return wireList<vt::M>(listField[I]);
    LISTS(X)
#undef X
} }
// several repeated fields in one message
HARNESS(rt_two) { setup(); vt::RTwo m, n; int k = choose("ka", (unsigned)symx_param("na", 2) + 1); for (int i = 0; i < k; ++i) m.a().append(sym<int>("a")); k = choose("kb", (unsigned)symx_param("nb", 2) + 1); for (int i = 0; i < k; ++i) m.b().append(i ? QString("x") : mk<QString>("b")); k = choose("kc", (unsigned)symx_param("nc", 2) + 1); for (int i = 0; i < k; ++i) m.c().append(QSharedPointer<vt::MInt32>(new vt::MInt32(i ? vt::MInt32(QtProtobuf::int32(7)) : mk<vt::MInt32>("c")))); m.setD(3);
    QByteArray b = enc(m); symx_check(dec(n, b), "accepted"); const vt::RTwo &x = m, &y = n; symx_check(sameList(x.a(), y.a()), "a"); symx_check(sameList(x.b(), y.b()), "b"); symx_check(sameList(x.c(), y.c()), "c"); symx_check(n.d() == 3, "d"); symx_cover("done"); }
// longer lists: length prefix of two bytes
HARNESS(rt_longlist) { setup(); int k = symx_param("far", 0) ? 4094 + (int)choose("k", 4) : 126 + (int)choose("k", 4); int at = symx_param("last", 0) ? k - 1 : 0; vt::RFixed32 m, n; vt::RSInt32 p, q; u32 v = sym<u32>("v"); QtProtobuf::fixed32List l; QtProtobuf::sint32List s; for (int i = 0; i < k; ++i) { l.append(QtProtobuf::fixed32(i == at ? v : (u32)i)); s.append(i == at ? (int)v : i % 50); } m.setV(l); p.setV(s); symx_check(dec(n, enc(m)) && dec(q, enc(p)), "accepted"); symx_check(sameList(((const vt::RFixed32 &)n).v(), l), "fixed list"); symx_check(sameList(((const vt::RSInt32 &)q).v(), s), "varint list"); symx_cover("done"); }
// ------------------------------------------------------------------ C03 maps
template <class T> typename std::enable_if<Wire<T>::wt == 0>::type narrow(T &v) { symx_assume(Wire<T>::enc(v) < 128); }
template <class T> typename std::enable_if<Wire<T>::wt != 0>::type narrow(T &) {}
template <class T> typename std::enable_if<Wire<T>::wt == 0>::type narrowV(T &v, int) { symx_assume(Wire<T>::enc(v) < 128); }
template <class T> typename std::enable_if<Wire<T>::wt != 0>::type narrowV(T &, int) {}
template <class T> void narrowV(QSharedPointer<T> &v, int) { narrowV<FieldOf<T>>(const_cast<FieldOf<T> &>(static_cast<const FieldOf<T> &>(v->v())), 0); }
template <class M> void fillMap(M &m) { typedef FieldOf<M> L; typedef typename L::key_type K; typedef typename L::mapped_type T; int k = choose("n", P_n() + 1); L l; for (int i = 0; i < k; ++i) { K key = mk<K>("k"); if (symx_param("narrow", 0)) narrow(key); l[key] = El<T>::make("v"); if (symx_param("narrow", 0)) narrowV(l[key], i); } m.setV(l); }
template <class L> bool sameMap(const L &a, const L &b) { if (a.size() != b.size()) return false; bool r = true; auto i = a.constBegin(), j = b.constBegin(); for (; i != a.constEnd(); ++i, ++j) r &= same(i.key(), j.key()) & same(i.value(), j.value()); return r; }
template <class M> void rtMap() { setup(); M m, n; fillMap(m); QByteArray b = enc(m); symx_check(dec(n, b), "accepted"); const M &cm = m, &cn = n; symx_check(cn.v().size() == cm.v().size(), "number of entries survives"); symx_check(sameMap(cn.v(), cm.v()), "every key maps to its value"); symx_check(enc(n) == b, "stable"); symx_cover("done"); }
template <class M> void wireMap(u32 field) { setup(); M m; fillMap(m); typedef FieldOf<M> L; typedef typename L::key_type K; typedef typename L::mapped_type T; const L l = ((const M &)m).v(); QByteArray b = enc(m); Reader r(b); Rec c; auto it = l.constBegin(); int i = 0;
    while (r.next(c)) { symx_check(i < l.size() && c.field == field && c.wt == 2 && c.vlen == minimalLen(c.len), "one entry record per pair"); Reader q(c.p, c.len); Rec e; bool k = false, v = false; while (q.next(e)) { if (e.field == 1) { symx_check(!k && !v && El<K>::holds(e, it.key()), "key record"); k = true; } else { symx_check(e.field == 2 && !v && El<T>::holds(e, it.value()), "value record"); v = true; } } symx_check(q.ok, "well-formed entry"); symx_check(k || El<K>::def(it.key()), "a non-default key is emitted"); symx_check(v || El<T>::def(it.value()), "a non-default value is emitted"); ++it; ++i; }
    symx_check(r.ok && i == l.size(), "every pair is emitted"); symx_cover("done"); }
static const u32 mapField[] = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 13, 14, 15, 16, 17, 18, 19};
HARNESS(rt_map) { switch (symx_param("t", 0)) {
#define X(I, M) case I: return rtMap<vt::M>();
    MAPS(X)
#undef X
} }
HARNESS(wire_map) { switch (symx_param("t", 0)) {
#define X(I, M) case I: return wireMap<vt::M>(mapField[I]);
    MAPS(X)
#undef X
} }
// ------------------------------------------------------------------ C04 nested
HARNESS(rt_nested) { setup(); vt::Deep m, n; vt::Outer o; vt::Inner in; long t = symx_param("mask", 7);
    if (t & 1) { in.setI(sym<int>("i")); o.setIn(in); } if (t & 2) o.setHead(sym<u32>("head")); if (t & 4) o.setTail(sym<u32>("tail")); if (t & 8) { in.setT(mk<QString>("t")); o.setIn(in); } if (t & 15) m.setO(o); if (t & 16) m.setX(sym<int>("x"));
    symx_check(dec(n, enc(m)), "accepted"); symx_check(n.x() == m.x() && n.o().head() == m.o().head() && n.o().tail() == m.o().tail() && n.o().in().i() == m.o().in().i() && same(n.o().in().t(), m.o().in().t()), "nested values survive"); symx_check(n == m, "equal"); symx_cover("done"); }
HARNESS(rt_siblings) { setup(); vt::Siblings m, n; unsigned s = choose("present", 4); if (s & 1) { vt::Inner a; a.setI(sym<int>("a")); m.setA(a); } if (s & 2) { vt::Inner b; b.setI(sym<int>("b")); m.setB(b); } symx_check(dec(n, enc(m)), "accepted"); symx_check(n.a().i() == m.a().i() && n.b().i() == m.b().i(), "siblings stay apart"); symx_cover("done"); }
static void fillRec(vt::Rec &r, int depth) { r.setV(depth ? (int)(sym<u8>("v") & 63) : symx_param("flat", 0) ? (int)(sym<u8>("v") & 127) : sym<int>("v")); unsigned s = depth > 0 ? choose("shape", 4) : 0; if (depth == symx_param("depth", 2) && symx_param("top", 0)) symx_assume(s == (unsigned)symx_param("top", 0)); if (s & 1) { QSharedPointer<vt::Rec> c(new vt::Rec); fillRec(*c, depth - 1); QMap<QtProtobuf::uint32, QSharedPointer<vt::Rec>> l; l[depth - 1] = c; r.setSub(l); } if (s & 2) { QSharedPointer<vt::Rec> c(new vt::Rec); fillRec(*c, depth - 1); r.kids().append(c); if (symx_param("two", 0)) r.kids().append(QSharedPointer<vt::Rec>(new vt::Rec)); } }
static bool sameRec(const vt::Rec &a, const vt::Rec &b) { if (a.v() != b.v() || a.kids().size() != b.kids().size() || a.sub().size() != b.sub().size()) return false; for (int i = 0; i < a.kids().size(); ++i) if (!sameRec(*a.kids().at(i), *b.kids().at(i))) return false; auto l = a.sub(), m = b.sub(); for (auto i = l.constBegin(), j = m.constBegin(); i != l.constEnd(); ++i, ++j) if (i.key() != j.key() || !sameRec(*i.value(), *j.value())) return false; return true; }
HARNESS(rt_rec) { setup(); int d = (int)symx_param("depth", 2); vt::Rec m, n; fillRec(m, d); QByteArray b = enc(m); symx_check(dec(n, b), "accepted"); symx_check(enc(n) == b, "stable"); symx_check(sameRec(m, n), "recursive values survive"); symx_check(m == n, "equal"); symx_cover("done"); }
// a message with a singular field of its own type: decoding (serializing one never ends, see known-findings.json)
HARNESS(rt_selfdec) { setup(); vt::SelfRec m; int a = sym<int>("a"), b = sym<int>("b"), c = sym<int>("c"); Writer x, y, w; x.tag(1, 0); x.varint(zz32(c)); y.tag(1, 0); y.varint(zz32(b)); y.tag(2, 2); y.bytes(x.b); w.tag(1, 0); w.varint(zz32(a)); w.tag(2, 2); w.bytes(y.b); symx_check(dec(m, w.b), "accepted"); symx_check(m.v() == a && m.next().v() == b && m.next().next().v() == c && m.next().next().next().v() == 0, "every level has its value"); symx_cover("done"); }
HARNESS(rt_selfrec) { setup(); vt::SelfRec m; m.setV(sym<int>("v")); QByteArray b = enc(m); (void)b; symx_cover("done"); }
// nested payloads around the one/two byte length boundary, at two levels
HARNESS(rt_longnested) { setup(); int k = symx_param("far", 0) ? 16360 + 3 * (int)choose("k", 10) : 118 + (int)choose("k", 14); vt::Deep m, n; vt::Outer o; vt::Inner in; QString t(k, QLatin1Char('t')); u8 c = sym<u8>("c"); symx_assume(c < 128 && c); t[k - 1] = QChar(c); in.setT(t); in.setI(5); o.setIn(in); o.setTail(sym<u8>("tail")); m.setO(o); m.setX(-3); symx_check(dec(n, enc(m)), "accepted"); symx_check(same(n.o().in().t(), t) && n.o().in().i() == 5 && n.o().tail() == m.o().tail() && n.x() == -3, "long nested values survive"); symx_cover("done"); }
HARNESS(rt_nestedtypes) { setup(); vt::NestedHolder m, n; vt::NestedHolder_QtProtobufNested::In1 in; vt::NestedHolder_QtProtobufNested::In1_QtProtobufNested::In2 d, e; d.setZ(sym<int>("d")); e.setZ(sym<int>("e")); in.setIn(d); in.setY(sym<int>("y")); m.setIn(in); m.setDeep(e); symx_check(dec(n, enc(m)), "accepted"); symx_check(n.in().in().z() == m.in().in().z() && n.in().y() == m.in().y() && n.deep().z() == m.deep().z(), "nested type values survive"); symx_cover("done"); }
HARNESS(rt_empty) { setup(); vt::HoldEmpty m, n; if (choose("e", 2)) m.setE(vt::Empty()); int k = choose("k", 4); for (int i = 0; i < k; ++i) m.r().append(QSharedPointer<vt::Empty>(new vt::Empty)); symx_check(dec(n, enc(m)), "accepted"); symx_check(n.r().size() == k, "number of empty messages survives"); symx_check(n == m, "equal"); symx_cover("done"); }
// wire form of nested messages: exact lengths, declared numbers
HARNESS(wire_nested) { setup(); vt::Outer m; vt::Inner in; in.setI(sym<int>("i")); in.setT(mk<QString>("t")); m.setIn(in); m.setHead(sym<u32>("head")); m.setTail(sym<u32>("tail")); QByteArray b = enc(m); Reader r(b); Rec c; u32 seen = 0;
    while (r.next(c)) { symx_check(c.field >= 1 && c.field <= 3 && !(seen & 1u << c.field), "declared fields, each once"); seen |= 1u << c.field; if (c.field == 2) { symx_check(c.wt == 2, "length-delimited"); Reader q(c.p, c.len); Rec e; u32 s2 = 0; while (q.next(e)) { s2 |= 1u << e.field; if (e.field == 1) symx_check(wireHolds<QtProtobuf::sint32>(e, in.i()), "inner i"); else symx_check(e.field == 2 && wireHolds<QString>(e, in.t()), "inner t"); } symx_check(q.ok && (s2 & 2 || in.i() == 0) && (s2 & 4 || in.t().isEmpty()), "inner record complete"); } else symx_check(wireHolds<QtProtobuf::uint32>(c, c.field == 1 ? m.head() : m.tail()), "outer scalar"); }
    symx_check(r.ok && (seen & 2 || m.head() == 0) && (seen & 4) && (seen & 8 || m.tail() == 0), "complete"); symx_cover("done"); }
// ------------------------------------------------------------------ larger shapes with a single symbolic value
static const int longN[] = {3, 5, 16, 33, 129};
// maps of 3..129 entries, the symbolic value at the first, a middle or the last key
HARNESS(rt_longmap) { setup(); int k = longN[choose("k", 5)], at = 0; switch (choose("at", 3)) { case 1: at = k / 2; break; case 2: at = k - 1; break; } int t = (int)symx_param("t", 0); u32 v = sym<u32>("v");
    if (t == 0) { vt::MapUInt32 m, n; FieldOf<vt::MapUInt32> l; for (int i = 0; i < k; ++i) l[i * 3] = i == at ? v : (u32)i; m.setV(l); symx_check(dec(n, enc(m)), "accepted"); symx_check(sameMap(((const vt::MapUInt32 &)n).v(), l), "every entry"); }
    else if (t == 1) { vt::MapMsg m, n; FieldOf<vt::MapMsg> l; for (int i = 0; i < k; ++i) { vt::MSInt32 e; e.setV(i == at ? (int)v : -i); l[QtProtobuf::int32(i - 5)] = QSharedPointer<vt::MSInt32>::create(e); } m.setV(l); symx_check(dec(n, enc(m)), "accepted"); symx_check(sameMap(((const vt::MapMsg &)n).v(), l) && n == m, "every entry"); }
    else { vt::MapSInt32 m, n; FieldOf<vt::MapSInt32> l; u16 c = (u16)v; symx_assume((c < 0xd800) | ((c > 0xdfff) & (c != 0xfeff))); for (int i = 0; i < k; ++i) l[i * 7 - 60] = i == at ? QString(QChar(c)) : QString(i % 5, QLatin1Char('a')); m.setV(l); symx_check(dec(n, enc(m)), "accepted"); symx_check(sameMap(((const vt::MapSInt32 &)n).v(), l), "every entry"); }
    symx_cover("done"); }
// lists of 3..129 messages, strings and byte arrays, with empty ones among them
HARNESS(rt_longmsgs) { setup(); int k = longN[choose("k", 5)], at = 0; switch (choose("at", 3)) { case 1: at = k / 2; break; case 2: at = k - 1; break; } int t = (int)symx_param("t", 0); u32 v = sym<u32>("v");
    if (t == 0) { vt::RMsg m, n; for (int i = 0; i < k; ++i) { vt::MSInt32 e; e.setV(i == at ? (int)v : i % 3); m.v().append(QSharedPointer<vt::MSInt32>::create(e)); } symx_check(dec(n, enc(m)), "accepted"); symx_check(sameList(((const vt::RMsg &)n).v(), ((const vt::RMsg &)m).v()) && n == m, "every message"); }
    else if (t == 1) { vt::RString m, n; u16 c = (u16)v; symx_assume((c < 0xd800) | ((c > 0xdfff) & (c != 0xfeff))); for (int i = 0; i < k; ++i) m.v().append(i == at ? QString(QChar(c)) : QString(i % 4, QLatin1Char('s'))); symx_check(dec(n, enc(m)), "accepted"); symx_check(sameList<QString>(((const vt::RString &)n).v(), ((const vt::RString &)m).v()), "every string"); }
    else { vt::RBytes m, n; for (int i = 0; i < k; ++i) m.v().append(i == at ? QByteArray((const char *)&v, 4) : QByteArray(i % 4, 'b')); symx_check(dec(n, enc(m)), "accepted"); symx_check(sameList<QByteArray>(((const vt::RBytes &)n).v(), ((const vt::RBytes &)m).v()), "every byte array"); }
    symx_cover("done"); }
// chains of 4..40 messages inside each other, through a repeated or a map field
HARNESS(rt_deep) { setup(); static const int L[] = {4, 5, 8, 12, 20, 40}; int d = L[choose("d", (unsigned)symx_param("ds", 5))]; bool map = choose("map", 2); QSharedPointer<vt::Rec> r(new vt::Rec); int v = sym<int>("v"); r->setV(v); for (int i = 0; i < d; ++i) { QSharedPointer<vt::Rec> o(new vt::Rec); o->setV(i % 7); if (map) { QMap<QtProtobuf::uint32, QSharedPointer<vt::Rec>> l; l[i % 3] = r; o->setSub(l); } else o->kids().append(r); r = o; }
    vt::Rec n; QByteArray b = enc(*r); symx_check(dec(n, b), "accepted"); const vt::Rec *p = &n; for (int i = d; i-- > 0;) { symx_check(p->v() == i % 7 && p->kids().size() == !map && p->sub().size() == map, "every level"); p = map ? p->sub().value(i % 3).data() : p->kids().at(0).data(); symx_check(p != nullptr, "every level"); } symx_check(p->v() == v && p->kids().isEmpty() && p->sub().isEmpty(), "the innermost message"); symx_check(enc(n) == b, "stable"); symx_cover("done"); }
