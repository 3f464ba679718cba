// messages of odd.proto
#pragma once
#include "odd.h"
#ifdef ODD_X
using namespace Xn::vt::odd; using Xn::far::away::Thing; using Xn::far::away::ColourGadget;
#else
using namespace vt::odd; using far::away::Thing; using far::away::ColourGadget;
#endif
typedef Holder::Leaf Leaf; typedef Thing::Part Part; using namespace QtProtobuf;
static const Schema sPart{1, {{4, One, nullptr}}}, sThing{3, {{1, One, nullptr}, {2, One32, nullptr}, {3, Msg, &sPart}}}, sLeaf{2, {{1, One, nullptr}, {2, One32, nullptr}}}, sEntryV{2, {{1, One, nullptr}, {2, One32, nullptr}}}, sEntryK32{2, {{1, One32, nullptr}, {2, One32, nullptr}}}, sEntryLeaf{2, {{1, One, nullptr}, {2, Msg, &sLeaf}}}, sEntryThing{2, {{1, One, nullptr}, {2, Msg, &sThing}}}, sLower{1, {{1, One, nullptr}}}, sEntryLower{2, {{1, One, nullptr}, {2, Msg, &sLower}}},
    sNames{9, {{1, One, nullptr}, {2, One, nullptr}, {3, One, nullptr}, {6, One, nullptr}, {7, One32, nullptr}, {16, One, nullptr}, {20, One, nullptr}, {70000, One, nullptr}, {536870911, One, nullptr}}},
    sHolder{7, {{1, Msg, &sLeaf}, {2, Each, &sLeaf}, {3, Entry, &sEntryLeaf}, {4, Msg, &sThing}, {5, Each, &sThing}, {6, Entry, &sEntryThing}, {7, Msg, &sPart}}},
    sEnums{9, {{1, One32, nullptr}, {2, Pack32, nullptr}, {3, Entry, &sEntryV}, {4, One32, nullptr}, {6, One32, nullptr}, {7, Pack32, nullptr}, {8, One32, nullptr}, {9, Pack32, nullptr}, {11, One32, nullptr}}},
    sEnumsB{4, {{1, Pack32, nullptr}, {5, Pack32, nullptr}, {10, Entry, &sEntryV}, {11, Entry, &sEntryK32}}}, sUse{5, {{1, Msg, &sLower}, {2, Each, &sLower}, {3, Each, &sLeaf}, {4, Entry, &sEntryLower}, {5, Msg, &sNames}}};
static ShadeGadget::Shade shade(int i, ShadeGadget::Shade d) { if (i == fsel() && choose("low", 2)) return ShadeGadget::LIGHT; return pickE(i, d, ShadeGadget::MIDDLE, ShadeGadget::GREY, ShadeGadget::DEEP); }
static ColourGadget::Colour colour(int i, ColourGadget::Colour d) { return pickE(i, d, ColourGadget::RED, ColourGadget::GREEN, ColourGadget::DARK); }
static void fill(Names &m, Parts &p, int b = 0) { auto id = pick<int32>(b + 1, int32(5)); m.setId_proto(id); p.sc(7, id); auto pr = pick<QString>(b + 2, S("p")); m.setProperty_proto(pr); p.blob(3, pr.toUtf8()); auto sn = pick<sint64>(b + 3, -6); m.setSnakeCaseName(sn); p.num(20, 0, zz64(sn)); auto un = pick<fixed32>(b + 4, fixed32(7)); m.setUpperName(un); p.sc(2, un); bool wd = pick<bool>(b + 5, true); m.setWithDigit1(wd); p.num(16, 0, wd); auto mc = pick<sfixed32>(b + 6, sfixed32(-8)); m.setMixedCaseX(mc); p.sc(70000, mc); auto im = pick<QByteArray>(b + 7, "i"); m.setImport_proto(im); p.blob(1, im); auto a = pick<sfixed64>(b + 8, sfixed64(9)); m.setA(a); p.sc(536870911, a); auto bb = pick<quint32>(b + 9, 10u); m.setB(bb); p.num(6, 0, bb); }
static void fill(Leaf &m, Parts &p, int b) { int z = pick<int>(b + 1, b + 3); m.setZ(z); p.num(1, 0, zz32(z)); auto k = shade(b + 2, ShadeGadget::MIDDLE); m.setKind(k); p.en(2, k); }
static void fill(Part &m, Parts &p, int b) { QString l = pick<QString>(b + 1, S("L")); m.setLabel(l); p.blob(4, l.toUtf8()); }
static void fill(Thing &m, Parts &p, int b) { int n = pick<int>(b + 1, b + 5); m.setN(n); p.num(1, 0, zz32(n)); auto s = pickE(b + 2, Thing::LARGE, Thing::SMALL, Thing::LARGE, Thing::TINY); m.setSize(s); p.en(2, s); Part t; Parts q; fill(t, q, b + 2); m.setPart(t); p.blob(3, q.fwd()); }
static void fill(Lower &m, Parts &p, int b) { int v = pick<int>(b + 1, b + 7); m.setV(v); p.num(1, 0, zz32(v)); }
template <class T> QByteArray filled(T &t, int b) { Parts q; fill(t, q, b); return symx_param("rev", 1) ? q.rev() : q.fwd(); }
static QByteArray entry(const Writer &key, const QByteArray &v) { Writer w; w.b = key.b; w.tag(2, 2); w.bytes(v); return w.b; }
static void fill(Holder &m, Parts &p) { Leaf l; QByteArray b = filled(l, 0); m.setLeaf(l); p.blob(1, b); Leaf l1, l2; QByteArray b1 = filled(l1, 10), b2 = filled(l2, 12); if (symx_param("add", 0)) { m.leaves().append(sp(l1)); m.leaves() << sp(l2); } else m.setLeaves({sp(l1), sp(l2)}); p.blobs(2, b1, b2); Leaf l3; QByteArray b3 = filled(l3, 20); QString k = pick<QString>(23, S("k")); Holder::NamedEntry ne; ne[k] = sp(l3); m.setNamed(ne); { Writer w; w.tag(1, 2); w.bytes(k.toUtf8()); p.blob(3, entry(w, b3)); }
    Thing t; QByteArray c = filled(t, 30); m.setThing(t); p.blob(4, c); Thing t1, t2; QByteArray c1 = filled(t1, 40), c2 = filled(t2, 45); m.setThings({sp(t1), sp(t2)}); p.blobs(5, c1, c2); Thing t3; QByteArray c3 = filled(t3, 50); auto n = pick<QtProtobuf::int64>(54, QtProtobuf::int64(-3)); Holder::ByNumberEntry be; be[n] = sp(t3); m.setByNumber(be); { Writer w; w.tag(1, 0); w.varint(Wire<QtProtobuf::int64>::enc(n)); p.blob(6, entry(w, c3)); } Part pt; QByteArray d = filled(pt, 60); m.setPart(pt); p.blob(7, d); }
static void fill(Enums &m, Parts &p) { auto a = shade(1, ShadeGadget::MIDDLE); m.setShade(a); p.en(1, a); auto b = shade(2, ShadeGadget::GREY), c = shade(3, ShadeGadget::MIDDLE); m.setShades({b, c}); p.pack(2, sx(b), sx(c)); int k = pick<int>(4, -9); auto d = shade(5, ShadeGadget::GREY); Enums::ByKeyEntry e; e[k] = d; m.setByKey(e); { Writer w; w.tag(1, 0); w.varint(zz32(k)); w.tag(2, 0); w.varint(sx(d)); p.blob(3, w.b); } auto o = pickE(6, Enums::SOME, Enums::NONE, Enums::SOME, Enums::LESS); m.setOwn(o); p.en(4, o);
    auto co = colour(7, ColourGadget::GREEN); m.setColour(co); p.en(6, co); auto c1 = colour(8, ColourGadget::DARK), c2 = colour(9, ColourGadget::RED); m.setColours({c1, c2}); p.pack(7, sx(c1), sx(c2)); auto i = pickE(10, Holder::IN_B, Holder::IN_A, Holder::IN_B, Holder::IN_LOW); m.setInside(i); p.en(8, i); auto i1 = pickE(11, Holder::IN_B, Holder::IN_A, Holder::IN_B, Holder::IN_LOW); m.setInsides({i1, Holder::IN_A}); p.pack(9, sx(i1), 0); auto s = pickE(12, Thing::LARGE, Thing::SMALL, Thing::LARGE, Thing::TINY); m.setSize(s); p.en(11, s); }
static void fill(EnumsB &m, Parts &p) { auto o = pickE(1, EnumsB::OTHER_B, EnumsB::OTHER_A, EnumsB::OTHER_B, EnumsB::OTHER_TOP); m.setOthers({EnumsB::OTHER_A, o}); p.pack(1, 0, sx(o)); auto w1 = pickE(2, Enums::SOME, Enums::NONE, Enums::SOME, Enums::LESS); m.setOwns({w1, Enums::SOME}); p.pack(5, sx(w1), 1); quint32 k = pick<quint32>(3, 300u); auto w2 = pickE(4, Enums::SOME, Enums::NONE, Enums::SOME, Enums::LESS); EnumsB::OwnMapEntry e; e[k] = w2; m.setOwnMap(e); Writer w; w.tag(1, 0); w.varint(k); w.tag(2, 0); w.varint(sx(w2)); p.blob(10, w.b); auto ik = pick<int32>(5, int32(-1)); auto th = pickE(6, EnumsB::T_B, EnumsB::T_A, EnumsB::T_B, EnumsB::T_C); EnumsB::ThirdsEntry te; te[ik] = th; m.setThirds(te); Writer x; x.tag(1, 0); x.varint(Wire<int32>::enc(ik)); x.tag(2, 0); x.varint(sx(th)); p.blob(11, x.b); }
static void fill(UseLower &m, Parts &p) { Lower a; QByteArray b = filled(a, 0); m.setOne(a); p.blob(1, b); Lower a1, a2; QByteArray b1 = filled(a1, 1), b2 = filled(a2, 2); m.setMany({sp(a1), sp(a2)}); p.blobs(2, b1, b2); Leaf l1, l2; QByteArray c1 = filled(l1, 5), c2 = filled(l2, 8); m.setLeaf({sp(l1), sp(l2)}); p.blobs(3, c1, c2); Lower v; QByteArray d = filled(v, 11); auto k = pick<sint64>(13, -70); UseLower::AllEntry e; e[k] = sp(v); m.setAll(e); { Writer w; w.tag(1, 0); w.varint(zz64(k)); p.blob(4, entry(w, d)); } Names n; QByteArray nb = filled(n, 20); m.setNames(n); p.blob(5, nb); }
#define ODDMSG(F) switch (symx_param("m", 0)) { case 0: F<Names>(sNames); break; case 1: F<Holder>(sHolder); break; case 2: F<Enums>(sEnums); break; case 3: F<EnumsB>(sEnumsB); break; case 4: F<UseLower>(sUse); break; }
// enumerators have the declared numbers
inline void oddConsts() { setup(); symx_check(ShadeGadget::LIGHT == 0 && ShadeGadget::MIDDLE == 4 && ShadeGadget::GREY == -2 && ShadeGadget::DEEP == 2147483647 && ColourGadget::RED == 0 && ColourGadget::GREEN == 5 && ColourGadget::DARK == -7, "package enums"); symx_check(Holder::IN_A == 0 && Holder::IN_B == 2 && Holder::IN_LOW == (Holder::Inside)(-2147483647 - 1) && Enums::NONE == 0 && Enums::SOME == 1 && Enums::LESS == -1 && EnumsB::OTHER_A == 0 && EnumsB::OTHER_B == 9 && EnumsB::OTHER_TOP == 2147483647 && EnumsB::T_A == 0 && EnumsB::T_B == 1 && EnumsB::T_C == 70000 && Thing::SMALL == 0 && Thing::LARGE == 3 && Thing::TINY == -4, "enums of messages"); symx_cover("done"); }
