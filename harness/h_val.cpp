// LIBS: protobuf vt
// C18: value semantics of generated messages
#include "gen.h"
#include <QVariant>
template <class T> struct V { static T make(const char *n) { return mk<T>(n); } static bool eq(const T &a, const T &b) { return same(a, b); } static bool holds(const T &got, const T &given) { return same(got, given); } enum { byPointer = 0, list = 0 }; };
// floating point: IEEE equality; the sign of zero is outside the claim
template <class F> struct VF { static F make(const char *n) { return mk<F>(n); } static bool eq(const F &a, const F &b) { return a == b; } static bool holds(const F &g, const F &v) { return same(g, v) | (g == v); } enum { byPointer = 0, list = 0 }; };
template <> struct V<float> : VF<float> {}; template <> struct V<double> : VF<double> {};
template <class M> struct V<QSharedPointer<M>> { typedef QSharedPointer<M> T; static T make(const char *n) { return T(new M(mk<M>(n))); } static bool eq(const T &a, const T &b) { return same(*a, *b); } static bool holds(const T &a, const T &b) { return a.data() == b.data(); } enum { byPointer = 1, list = 0 }; };
template <class T> struct VL { typedef typename std::decay<decltype(T().first())>::type E; static T make(const char *n) { T l; int k = choose("n", P_n() + 1); for (int i = 0; i < k; ++i) l.append(V<E>::make(n)); return l; } template <bool (*F)(const E &, const E &)> static bool all(const T &a, const T &b) { if (a.size() != b.size()) return false; bool r = true; for (int i = 0; i < a.size(); ++i) r &= F(a.at(i), b.at(i)); return r; } static bool eq(const T &a, const T &b) { return all<V<E>::eq>(a, b); } static bool holds(const T &a, const T &b) { return all<V<E>::holds>(a, b); } enum { byPointer = V<E>::byPointer, list = 1 }; };
template <class E> struct V<QList<E>> : VL<QList<E>> {}; template <> struct V<QStringList> : VL<QStringList> {};
template <class K, class W> struct V<QMap<K, W>> { typedef QMap<K, W> T; static T make(const char *n) { T l; int k = choose("n", P_n() + 1); for (int i = 0; i < k; ++i) { K key = mk<K>("k"); l[key] = V<W>::make(n); } return l; } template <bool (*F)(const W &, const W &)> static bool all(const T &a, const T &b) { if (a.size() != b.size()) return false; bool r = true; auto i = a.constBegin(), j = b.constBegin(); for (; i != a.constEnd(); ++i, ++j) r &= same(i.key(), j.key()) & F(i.value(), j.value()); return r; } static bool eq(const T &a, const T &b) { return all<V<W>::eq>(a, b); } static bool holds(const T &a, const T &b) { return all<V<W>::holds>(a, b); } enum { byPointer = V<W>::byPointer, list = 0 }; };
template <class M> const FieldOf<M> get(const M &m) { return m.v(); }
template <class M> void valSet() { setup(); typedef FieldOf<M> T; T a = V<T>::make("a"), b = V<T>::make("b"); M m; symx_check(V<T>::eq(get(m), T()), "default value"); m.setV(a); symx_check(V<T>::holds(get(m), a), "getter returns what was set"); M k(a); symx_check(V<T>::holds(get(k), a), "constructor argument"); int n = 0; QObject::connect(&m, &M::vChanged, [&] { ++n; });
    m.setV(b); bool e = V<T>::eq(a, b); if (!V<T>::byPointer) symx_check(n == !e, "changed signal exactly when the value changes"); else symx_check(n <= 1 && (e || n == 1), "changed signal when the value changes"); symx_check(V<T>::holds(get(m), b), "getter returns what was set last"); n = 0; m.setV(get(m)); bool nan = !V<T>::eq(b, b); symx_check(n <= nan, "no signal when the same value is set");
    const char *name = V<T>::byPointer && V<T>::list ? "vData" : "v"; QVariant p = m.property(name); symx_check(p.isValid() && V<T>::holds(p.template value<T>(), b), "property read"); symx_check(m.setProperty(name, QVariant::fromValue(a)), "property write"); symx_check(V<T>::holds(get(m), a), "property write stores the value"); symx_cover("done"); }
template <class M> void valEq() { setup(); typedef FieldOf<M> T; T a = V<T>::make("a"), b = V<T>::make("b"); M x, y; x.setV(a); y.setV(b); bool e = V<T>::eq(a, b); symx_check((x == y) == e, "operator== compares the fields"); symx_check((x != y) == !e, "operator!= is its negation"); symx_check((y == x) == e, "symmetric"); symx_cover("done"); }
template <class M> void valCopy() { setup(); typedef FieldOf<M> T; T a = V<T>::make("a"), b = V<T>::make("b"); M m; m.setV(a);
    M c(m); symx_check(V<T>::holds(get(c), a), "copy construction"); M d; d.setV(b); d = m; symx_check(V<T>::holds(get(d), a) || !V<T>::eq(a, a), "copy assignment"); d.setV(b); symx_check(V<T>::holds(get(m), a) && V<T>::holds(get(d), b), "copies are independent"); M e(std::move(c)); symx_check(V<T>::holds(get(e), a), "move construction"); M f; f.setV(b); f = std::move(e); symx_check(V<T>::holds(get(f), a), "move assignment"); M &g = f; f = g; symx_check(V<T>::holds(get(f), a), "self assignment"); f = std::move(g); symx_check(V<T>::holds(get(f), a), "self move"); c.setV(b); symx_check(V<T>::holds(get(c), b) && V<T>::holds(get(f), a), "a moved-from message can be used again"); symx_cover("done"); }
#define F1(I, M) case I: return valSet<vt::M>();
#define F2(I, M) case I: return valEq<vt::M>();
#define F3(I, M) case I: return valCopy<vt::M>();
HARNESS(val_set_s) { switch (symx_param("t", 0)) { SCALARS(F1) } }
HARNESS(val_set_l) { switch (symx_param("t", 0)) { LISTS(F1) } }
HARNESS(val_set_m) { switch (symx_param("t", 0)) { MAPS(F1) } }
HARNESS(val_eq_s) { switch (symx_param("t", 0)) { SCALARS(F2) } }
HARNESS(val_eq_l) { switch (symx_param("t", 0)) { LISTS(F2) } }
HARNESS(val_eq_m) { switch (symx_param("t", 0)) { MAPS(F2) } }
HARNESS(val_copy_s) { switch (symx_param("t", 0)) { SCALARS(F3) } }
HARNESS(val_copy_l) { switch (symx_param("t", 0)) { LISTS(F3) } }
HARNESS(val_copy_m) { switch (symx_param("t", 0)) { MAPS(F3) } }
// ---- messages with every field kind; field `f` differs symbolically, the others hold fixed values
using vt::All; using vt::AllB;
typedef QSharedPointer<vt::MSInt32> PM; static PM pm(int v) { vt::MSInt32 *m = new vt::MSInt32; m->setV(v); return PM(m); }
static void base(All &m) { m.setF1(1); m.setF2(-2); m.setF3(QtProtobuf::fixed32(3)); m.setF4(QtProtobuf::fixed64(4)); m.setF5(true); m.setF6(QStringLiteral("six")); m.setF7("seven"); m.setF8(vt::MEnum::ONE); m.setF9({9, -9}); m.setF10({QStringLiteral("x")}); m.setF11(vt::MSInt32(11)); m.setF12({pm(12), pm(13)}); m.setF13({{1, 2}}); m.setF14(1.5); }
static void base(AllB &m) { m.setF1({QtProtobuf::fixed32(1), QtProtobuf::fixed32(2)}); m.setF2({QByteArray("a")}); m.setF3({{QStringLiteral("k"), pm(3)}}); m.setF4({vt::MEnum::ONE, vt::MEnum::TWO}); m.setF5({0.5}); m.setF6({{QtProtobuf::int32(1), QStringLiteral("v")}}); m.setF7(7.5f); m.setF8(QtProtobuf::sfixed64(8)); }
template <class T> T mkf(T) { return V<T>::make("f"); }
static void setField(All &m, int f) { const All &c = m; switch (f) { case 1: m.setF1(mkf(+[](QtProtobuf::int32 x) { return x; }(c.f1()))); break; case 2: m.setF2(sym<qint64>("f")); break; case 3: m.setF3(sym<QtProtobuf::fixed32>("f")); break; case 4: m.setF4(sym<QtProtobuf::fixed64>("f")); break; case 5: m.setF5(mk<bool>("f")); break; case 6: m.setF6(mk<QString>("f")); break; case 7: m.setF7(mk<QByteArray>("f")); break; case 8: m.setF8(sym<vt::MEnum::Kind>("f")); break; case 9: m.setF9(V<QtProtobuf::sint32List>::make("f")); break; case 10: m.setF10(V<QStringList>::make("f")); break; case 11: if (choose("present", 2)) m.setF11(mk<vt::MSInt32>("f")); break; case 12: m.setF12(V<vt::MSInt32Repeated>::make("f")); break; case 13: m.setF13(V<All::F13Entry>::make("f")); break; case 14: m.setF14(mk<double>("f")); break; } }
static void setField(AllB &m, int f) { switch (f) { case 1: m.setF1(V<QtProtobuf::fixed32List>::make("f")); break; case 2: m.setF2(V<QByteArrayList>::make("f")); break; case 3: m.setF3(V<AllB::F3Entry>::make("f")); break; case 4: m.setF4(V<QList<vt::MEnum::Kind>>::make("f")); break; case 5: m.setF5(V<QList<double>>::make("f")); break; case 6: m.setF6(V<AllB::F6Entry>::make("f")); break; case 7: m.setF7(mk<float>("f")); break; case 8: m.setF8(sym<QtProtobuf::sfixed64>("f")); break; } }
static void clearField(All &m, int f) { const All z; All keep(m); switch (f) { case 1: m.setF1(z.f1()); break; case 2: m.setF2(z.f2()); break; case 3: m.setF3(z.f3()); break; case 4: m.setF4(z.f4()); break; case 5: m.setF5(z.f5()); break; case 6: m.setF6(z.f6()); break; case 7: m.setF7(z.f7()); break; case 8: m.setF8(z.f8()); break; case 9: m.setF9(z.f9()); break; case 10: m.setF10(z.f10()); break; case 11: m.setF11(vt::MSInt32()); break; case 12: m.setF12(z.f12()); break; case 13: m.setF13(z.f13()); break; case 14: m.setF14(z.f14()); break; } }
template <class T> T dc(const T &t) { return t; }
#define D(N, M) V<decltype(dc(x.N()))>::M(x.N(), y.N())
static bool eqAll(const All &x, const All &y) { return D(f1, eq) & D(f2, eq) & D(f3, eq) & D(f4, eq) & D(f5, eq) & D(f6, eq) & D(f7, eq) & D(f8, eq) & D(f9, eq) & D(f10, eq) & (x.f11().v() == y.f11().v()) & D(f12, eq) & D(f13, eq) & D(f14, eq); }
static bool holdsAll(const All &x, const All &y) { return D(f1, holds) & D(f2, holds) & D(f3, holds) & D(f4, holds) & D(f5, holds) & D(f6, holds) & D(f7, holds) & D(f8, holds) & D(f9, holds) & D(f10, holds) & (x.f11().v() == y.f11().v()) & D(f12, holds) & D(f13, holds) & D(f14, holds); }
static bool eqAll(const AllB &x, const AllB &y) { return D(f1, eq) & D(f2, eq) & D(f3, eq) & D(f4, eq) & D(f5, eq) & D(f6, eq) & D(f7, eq) & D(f8, eq); }
static bool holdsAll(const AllB &x, const AllB &y) { return D(f1, holds) & D(f2, holds) & D(f3, holds) & D(f4, holds) & D(f5, holds) & D(f6, holds) & D(f7, holds) & D(f8, holds); }
template <class M> void allEq() { setup(); int f = (int)symx_param("f", 1), g = (int)symx_param("g", f); M a, b; bool sparse = symx_param("sparse", 0); if (!sparse) { base(a); base(b); } setField(a, f); setField(b, g); bool e = eqAll(a, b); symx_check((a == b) == e, "operator== is true exactly when all fields are equal"); symx_check((a != b) == !e && (b == a) == e, "operator!= and symmetry"); symx_cover("done"); }
template <class M> void allCopy() { setup(); int f = (int)symx_param("f", 1), g = (int)symx_param("g", f); bool sparse = symx_param("sparse", 0); M a, b; base(a); if (!sparse) base(b); setField(a, f); setField(b, g); M ref(a); symx_check(holdsAll(ref, a), "copy construction preserves every field"); M c(b); c = a; symx_check(eqAll(c, ref) || holdsAll(c, ref), "copy assignment preserves every field"); M d(b); d = c; symx_check(holdsAll(d, c), "assignment chain"); symx_check(holdsAll(a, ref), "the source is unchanged");
    M m(std::move(c)); symx_check(holdsAll(m, ref), "move construction preserves every field"); M n(b); n = std::move(m); symx_check(holdsAll(n, ref), "move assignment preserves every field"); M &self = n; n = self; symx_check(holdsAll(n, ref), "self assignment"); n = std::move(self); symx_check(holdsAll(n, ref), "self move"); m = b; symx_check(holdsAll(m, b), "a moved-from message can be assigned"); M w(a); w = M(); symx_check(eqAll(w, M()), "assignment of a default message"); symx_check(holdsAll(a, ref), "copies are independent"); symx_cover("done"); }
HARNESS(all_eq) { if (symx_param("b", 0)) allEq<AllB>(); else allEq<All>(); }
HARNESS(all_copy) { if (symx_param("b", 0)) allCopy<AllB>(); else allCopy<All>(); }
// constructors with a prefix of the fields; the rest has default values
HARNESS(val_ctor) { setup(); QtProtobuf::int32 a = mk<QtProtobuf::int32>("a"); qint64 b = sym<qint64>("b"); bool d = mk<bool>("d"); QString s = mk<QString>("s"); QByteArray y = mk<QByteArray>("y"); vt::MSInt32 in = mk<vt::MSInt32>("in"); double z = mk<double>("z"); QtProtobuf::fixed32 c3(3); QtProtobuf::fixed64 c4(4); vt::MEnum::Kind k = sym<vt::MEnum::Kind>("k"); QtProtobuf::sint32List l{1, sym<int>("l")}; QStringList sl{s}; vt::MSInt32Repeated r{pm(5)}; All::F13Entry mp{{7, 8}}; All want; want.setF1(a); want.setF2(b);
    { All m(a, b); symx_check(holdsAll(m, want), "two fields, rest default"); } want.setF3(c3); want.setF4(c4); want.setF5(d); want.setF6(s); { All m(a, b, c3, c4, d, s); symx_check(holdsAll(m, want), "six fields, rest default"); } want.setF7(y); want.setF8(k); want.setF9(l); want.setF10(sl); want.setF11(in); { All m(a, b, c3, c4, d, s, y, k, l, sl, in); symx_check(holdsAll(m, want), "eleven fields, rest default"); } want.setF12(r); want.setF13(mp); want.setF14(z); { All m(a, b, c3, c4, d, s, y, k, l, sl, in, r, mp, z); symx_check(holdsAll(m, want), "all fields"); } symx_cover("done"); }
// setters of one field leave the others alone and signal once
HARNESS(val_other) { setup(); int f = (int)symx_param("f", 1); All m; base(m); All before(m); int n[15] = {0}; 
#define S(N) QObject::connect(&m, &All::f##N##Changed, [&n] { ++n[N]; });
    S(1) S(2) S(3) S(4) S(5) S(6) S(7) S(8) S(9) S(10) S(11) S(12) S(13) S(14)
    setField(m, f); bool changed = !eqAll(m, before); if (f != 12) symx_check(n[f] == changed, "signal exactly when the value changes"); int other = 0; for (int i = 1; i < 15; ++i) if (i != f) other += n[i]; symx_check(other == 0, "no signal of another field"); clearField(m, f); All rest(before); clearField(rest, f); symx_check(holdsAll(m, rest), "other fields are untouched"); symx_cover("done"); }
// list and map references add elements in place
HARNESS(val_add) { setup(); All m; const All &c = m; int a = sym<int>("a"), b = sym<int>("b"); m.f9().append(a); m.f9() << b; symx_check(c.f9().size() == 2 && c.f9().at(0) == a && c.f9().at(1) == b, "scalar list"); QString s = mk<QString>("s"); m.f10() << s << QStringLiteral("t"); symx_check(c.f10().size() == 2 && same(c.f10().at(0), s), "string list"); m.f12().append(pm(a)); m.f12().append(pm(b)); symx_check(c.f12().size() == 2 && c.f12().at(0)->v() == a && c.f12().at(1)->v() == b, "message list"); u32 k = sym<u32>("k"); m.f13()[k] = a; m.f13().insert(k, b); symx_check(c.f13().size() == 1 && c.f13().value(k) == b, "map"); m.f11().setV(a); symx_check(c.f11().v() == a, "embedded message by reference"); All n(m); n.f9().append(1); n.f10().append(s); n.f11().setV(b); n.f13().remove(k); symx_check(c.f9().size() == 2 && c.f10().size() == 2 && c.f11().v() == a && c.f13().size() == 1, "copies are independent"); symx_cover("done"); }
// embedded message by pointer property: ownership and identity
// lists and maps whose elements are the same shared objects: equal exactly if the element values are, position by position
HARNESS(val_shared) { setup(); QSharedPointer<vt::MSInt32> pool[3]; int v[3]; for (int i = 0; i < 3; ++i) { v[i] = sym<int>("v"); pool[i].reset(new vt::MSInt32(v[i])); } vt::RMsg a, b; vt::MapMsg c, d; QMap<QtProtobuf::int32, QSharedPointer<vt::MSInt32>> x, y; int n = (int)symx_param("n", 3); bool eq = true; for (int i = 0; i < n; ++i) { unsigned p = choose("p", 2), q = choose("q", 2) ? p : 2; a.v().append(pool[p]); b.v().append(pool[q]); x[i] = pool[p]; y[i] = pool[q]; eq = eq && v[p] == v[q]; } c.setV(x); d.setV(y); symx_check((a == b) == eq && (b == a) == eq && (a != b) == !eq, "lists with shared elements"); symx_check((c == d) == eq && (d == c) == eq && (c != d) == !eq, "maps with shared elements"); vt::RMsg k(a); symx_check(k == a && a == k, "copy"); symx_cover("done"); }
HARNESS(val_ptr) { setup(); int a = sym<int>("a"), b = sym<int>("b"); All *m = new All; int n = 0; QObject::connect(m, &All::f11Changed, [&] { ++n; }); vt::MSInt32 *p = new vt::MSInt32(a), *q = new vt::MSInt32(b); symx_check(m->setProperty("f11", QVariant::fromValue(p)), "property write"); symx_check(n == 1 && m->f11().v() == a && m->property("f11").value<vt::MSInt32 *>() == p, "the object itself is the field"); p->setV(b); symx_check(m->f11().v() == b, "visible through the message"); unsigned what = choose("what", 4); int alive = 1; QObject::connect(q, &QObject::destroyed, [&] { alive = 0; });
    switch (what) { case 0: m->setProperty("f11", QVariant::fromValue(q)); symx_check(n == 2 && &m->f11() == q, "replaced"); break; case 1: delete p; symx_check(m->f11().v() == 0, "default after the object is destroyed"); m->f11().setV(a); symx_check(m->f11().v() == a, "usable again"); break; case 2: m->setProperty("f11", QVariant::fromValue(p)); symx_check(n == 1, "no signal for the same object"); break; case 3: { All c(*m); symx_check(c.f11().v() == b && &c.f11() != p, "copy"); c.f11().setV(a); symx_check(p->v() == b, "independent"); break; } }
    delete m; symx_check(alive == (what != 0), "the message owns its field"); if (what != 0) delete q; symx_cover("done"); }
// nested and recursive types
HARNESS(val_rec) { setup(); vt::Rec a, b; a.setV(1); b.setV(1); int x = sym<int>("x"), y = sym<int>("y"); u32 k = sym<u32>("k"), l = sym<u32>("l"); auto kid = [](int v) { vt::Rec *r = new vt::Rec; r->setV(v); return QSharedPointer<vt::Rec>(r); }; unsigned shape = choose("shape", 4); a.kids().append(kid(x)); if (shape != 1) b.kids().append(kid(y)); if (shape == 2) b.kids().append(kid(y)); if (shape == 3) { a.sub()[k] = kid(x); b.sub()[l] = kid(y); } bool e = shape == 0 ? x == y : shape == 3 && ((x == y) & (k == l)); symx_check((a == b) == e && (a != b) == !e, "recursive comparison"); vt::Rec c(a); symx_check(c == a, "copy"); vt::Rec d; d = std::move(c); symx_check(d == a && (d == b) == e, "move"); 
    vt::Deep p, q; bool pp = choose("pp", 2), qq = choose("qq", 2); if (pp) p.o().in().setI(x); if (qq) q.o().in().setI(y); bool f = (pp ? x : 0) == (qq ? y : 0); symx_check((p == q) == f && (q == p) == f, "absent equals default"); vt::Deep r(p); r = q; symx_check(r == q, "assignment replaces nested content"); vt::Deep s; s = p; s = std::move(r); symx_check(s == q, "move replaces nested content"); symx_cover("done"); }
