// messages of oddm.proto
#pragma once
#include "odd.h"
using namespace vt::multi; using far::multi::Thing; typedef First::Leaf Leaf; typedef far::multi::Thing::Part Part; using namespace QtProtobuf;
static const Schema sPart{1, {{4, One, nullptr}}}, sThing{2, {{1, One, nullptr}, {3, Msg, &sPart}}}, sLeaf{2, {{1, One, nullptr}, {9, One, nullptr}}}, sEntryLeaf{2, {{1, One, nullptr}, {2, Msg, &sLeaf}}}, sFirst{5, {{1, One, nullptr}, {2, Each, &sLeaf}, {3, One32, nullptr}, {4, Msg, &sLeaf}, {5, Entry, &sEntryLeaf}}}, sEntryFirst{2, {{1, One, nullptr}, {2, Msg, &sFirst}}},
    sSecond{7, {{1, Msg, &sFirst}, {2, Each, &sFirst}, {3, Entry, &sEntryFirst}, {4, Msg, &sThing}, {5, Each, &sThing}, {6, Pack32, nullptr}, {8, One32, nullptr}}};
template <class T> QByteArray filled(T &t, int b) { Parts q; fill(t, q, b); return symx_param("rev", 1) ? q.rev() : q.fwd(); }
static QByteArray entry(const Writer &key, const QByteArray &v) { Writer w; w.b = key.b; w.tag(2, 2); w.bytes(v); return w.b; }
static void fill(Leaf &m, Parts &p, int b) { int z = pick<int>(b + 1, b + 3); m.setZ(z); p.num(1, 0, zz32(z)); QString t = pick<QString>(b + 2, S("t")); m.setT(t); p.blob(9, t.toUtf8()); }
static void fill(Part &m, Parts &p, int b) { QString l = pick<QString>(b + 1, S("L")); m.setLabel(l); p.blob(4, l.toUtf8()); }
static void fill(Thing &m, Parts &p, int b) { int n = pick<int>(b + 1, b + 5); m.setN(n); p.num(1, 0, zz32(n)); Part t; QByteArray q = filled(t, b + 1); m.setPart(t); p.blob(3, q); }
static void fill(First &m, Parts &p, int b = 0) { Leaf l; QByteArray x = filled(l, b); m.setLeaf(l); p.blob(4, x); Leaf l1, l2; QByteArray x1 = filled(l1, b + 2), x2 = filled(l2, b + 4); m.setLeaves({sp(l1), sp(l2)}); p.blobs(2, x1, x2); auto o = pickE(b + 7, First::ON, First::OFF, First::ON, First::AUTO); m.setMode(o); p.en(3, o); int n = pick<int>(b + 8, -4); m.setN(n); p.num(1, 0, zz32(n)); Leaf l3; QByteArray x3 = filled(l3, b + 8); QString k = pick<QString>(b + 11, S("k")); First::NamedEntry e; e[k] = sp(l3); m.setNamed(e); Writer w; w.tag(1, 2); w.bytes(k.toUtf8()); p.blob(5, entry(w, x3)); }
static void fill(Second &m, Parts &p) { First a; QByteArray x = filled(a, 0); m.setOne(a); p.blob(1, x); First a1, a2; QByteArray x1 = filled(a1, 20), x2 = filled(a2, 40); m.setMany({sp(a1), sp(a2)}); p.blobs(2, x1, x2); First a3; QByteArray x3 = filled(a3, 60); int k = pick<int>(72, -5); Second::AllEntry e; e[k] = sp(a3); m.setAll(e); { Writer w; w.tag(1, 0); w.varint(zz32(k)); p.blob(3, entry(w, x3)); } Thing t; QByteArray c = filled(t, 80); m.setThing(t); p.blob(4, c); Thing t1, t2; QByteArray c1 = filled(t1, 82), c2 = filled(t2, 84); m.setThings({sp(t1), sp(t2)}); p.blobs(5, c1, c2); auto o = pickE(87, First::ON, First::OFF, First::ON, First::AUTO); m.setModes({o, First::ON}); p.pack(6, sx(o), 2); auto id = pick<int32>(88, int32(4)); m.setId_proto(id); p.sc(8, id); }
static Leaf *mkLeaf(int v) { Leaf *l = new Leaf; l->setZ(v); return l; } static int leafV(const Leaf &l) { return l.z(); } static Thing *mkThing(int v) { Thing *t = new Thing; t->setN(v); return t; } static int thingV(const Thing &t) { return t.n(); } static First *mkFirst(int v) { First *f = new First; f->setN(v); return f; } static int firstV(const First &f) { return f.n(); }
#define ODDMSG(F) switch (symx_param("m", 0)) { case 0: F<First>(sFirst); break; case 1: F<Second>(sSecond); break; }
inline void oddConsts() { setup(); symx_check(First::OFF == 0 && First::ON == 2 && First::AUTO == -1, "enums of messages"); symx_cover("done"); }
