// LIBS: protobuf vt oddq
// C28: options QML, FIELDENUM and COMMENTS
#define ODD_QML
#include "oddq/odd.qpb.h"
#include "odds.h"
HARNESS(odd_round) { ODDMSG(oddRound) }
HARNESS(odd_consts) { oddConsts(); }
HARNESS(odd_value) { ODDMSG(oddValue) }
static Leaf *mkLeaf(int v) { Leaf *l = new Leaf; l->setZ(v); return l; } static int leafV(const Leaf &l) { return l.z(); } static Thing *mkThing(int v) { Thing *t = new Thing; t->setN(v); return t; } static int thingV(const Thing &t) { return t.n(); } static Lower *mkLower(int v) { return new Lower(v); } static int lowerV(const Lower &l) { return l.v(); }
HARNESS(odd_list) { switch (symx_param("m", 0)) { case 0: oddList<Holder, Leaf>(&Holder::leaves_l, "leaves", [](const Holder &m) { return m.leaves(); }, mkLeaf, leafV); break; case 1: oddList<Holder, Thing>(&Holder::things_l, "things", [](const Holder &m) { return m.things(); }, mkThing, thingV); break; case 2: oddList<UseLower, Lower>(&UseLower::many_l, "many", [](const UseLower &m) { return m.many(); }, mkLower, lowerV); break; case 3: oddList<UseLower, Leaf>(&UseLower::leaf_l, "leaf", [](const UseLower &m) { return m.leaf(); }, mkLeaf, leafV); break; } }
HARNESS(odd_alias) { setup(); Names m; int n = 0, other = 0;
#define C(S, N) QObject::connect(&m, &Names::S, [&] { ++N; });
    C(property_protoChanged, other) C(snakeCaseNameChanged, other) C(withDigit1Changed, other) C(import_protoChanged, other) C(aChanged, other) C(bChanged, other)
    switch (symx_param("m", 0)) { case 0: C(id_protoChanged, n) C(upperNameChanged, other) C(mixedCaseXChanged, other) oddAlias<int, QtProtobuf::int32>(m, "id_proto", n, [](const Names &s) { return s.id_proto(); }, [](Names &s, QtProtobuf::int32 v) { s.setId_proto(v); }); break;
    case 1: C(id_protoChanged, other) C(upperNameChanged, n) C(mixedCaseXChanged, other) oddAlias<unsigned, QtProtobuf::fixed32>(m, "upperName", n, [](const Names &s) { return s.upperName(); }, [](Names &s, QtProtobuf::fixed32 v) { s.setUpperName(v); }); break;
    case 2: C(id_protoChanged, other) C(upperNameChanged, other) C(mixedCaseXChanged, n) oddAlias<int, QtProtobuf::sfixed32>(m, "mixedCaseX", n, [](const Names &s) { return s.mixedCaseX(); }, [](Names &s, QtProtobuf::sfixed32 v) { s.setMixedCaseX(v); }); break; }
    symx_check(other == 0, "no signal of another field"); symx_cover("done"); }
// embedded messages as object properties: the object itself becomes the field, and is released with it
template <class M, class T> void oddPtr(const char *name, T *(*make)(int), int (*value)(const T &), T &(M::*get)() const) { setup(); int a = sym<int>("a"), b = sym<int>("b"), dead = 0; { M m; T *p = make(a), *q = make(b); QObject::connect(p, &QObject::destroyed, [&] { ++dead; }); QObject::connect(q, &QObject::destroyed, [&] { ++dead; }); symx_check(m.setProperty(name, QVariant::fromValue(p)) && &(m.*get)() == p && m.property(name).template value<T *>() == p, "the object is the field"); M k; symx_check(dec(k, enc(m)) && value((k.*get)()) == a, "encoded"); symx_check(m.setProperty(name, QVariant::fromValue(q)) && value((m.*get)()) == b && dead == 1, "replaced, the former is released"); M c(m); c = m; symx_check(&(c.*get)() != q && value((c.*get)()) == b && c == m, "copies have objects of their own"); } symx_check(dead == 2, "released with the message"); symx_cover("done"); }
HARNESS(odd_ptr) { switch (symx_param("m", 0)) { case 0: oddPtr<Holder, Leaf>("leaf", mkLeaf, leafV, &Holder::leaf); break; case 1: oddPtr<Holder, Thing>("thing", mkThing, thingV, &Holder::thing); break; case 2: oddPtr<UseLower, Lower>("one", mkLower, lowerV, &UseLower::one); break; } }
// enums of every scope as properties; field number constants
HARNESS(odd_prop) { setup(); Enums m; Parts p; Enums w; fill(w, p); symx_check(m.setProperty("shade", QVariant::fromValue(w.shade())) && m.setProperty("own", QVariant::fromValue(w.own())) && m.setProperty("colour", QVariant::fromValue(w.colour())) && m.setProperty("inside", QVariant::fromValue(w.inside())) && m.setProperty("size", QVariant::fromValue(w.size())) && m.setProperty("shades", QVariant::fromValue(((const Enums &)w).shades())) && m.setProperty("colours", QVariant::fromValue(((const Enums &)w).colours())) && m.setProperty("insides", QVariant::fromValue(((const Enums &)w).insides())) && m.setProperty("byKey", QVariant::fromValue(((const Enums &)w).byKey())), "property writes"); symx_check(m == w && same(enc(m), enc(w)), "same as the setters"); symx_check(m.property("shade").value<ShadeGadget::Shade>() == w.shade() && m.property("colour").value<ColourGadget::Colour>() == w.colour() && m.property("own").value<Enums::Own>() == w.own(), "property reads");
    symx_check(Names::Id_protoProtoFieldNumber == 7 && Names::Property_protoProtoFieldNumber == 3 && Names::SnakeCaseNameProtoFieldNumber == 20 && Names::UpperNameProtoFieldNumber == 2 && Names::WithDigit1ProtoFieldNumber == 16 && Names::MixedCaseXProtoFieldNumber == 70000 && Names::Import_protoProtoFieldNumber == 1 && Names::AProtoFieldNumber == 536870911 && Names::BProtoFieldNumber == 6 && Holder::ByNumberProtoFieldNumber == 6 && EnumsB::OwnMapProtoFieldNumber == 10 && UseLower::NamesProtoFieldNumber == 5, "field number constants"); symx_check(ShadeGadget::GREY == -2 && ShadeGadget::MIDDLE == 4 && ColourGadget::DARK == -7 && EnumsB::OTHER_B == 9 && Holder::IN_B == 2, "enum constants"); symx_cover("done"); }
