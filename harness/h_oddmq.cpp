// LIBS: protobuf vt oddmq
// C28: one file per message, option QML
#define ODD_QML
#include "oddmq/second.h"
#include "oddms.h"
HARNESS(odd_round) { ODDMSG(oddRound) }
HARNESS(odd_consts) { oddConsts(); }
HARNESS(odd_value) { ODDMSG(oddValue) }
HARNESS(odd_list) { switch (symx_param("m", 0)) { case 0: oddList<First, First::Leaf>(&First::leaves_l, "leaves", [](const First &m) { return m.leaves(); }, mkLeaf, leafV); break; case 1: oddList<Second, First>(&Second::many_l, "many", [](const Second &m) { return m.many(); }, mkFirst, firstV); break; case 2: oddList<Second, Thing>(&Second::things_l, "things", [](const Second &m) { return m.things(); }, mkThing, thingV); break; } }
HARNESS(odd_alias) { setup(); Second m; int n = 0; QObject::connect(&m, &Second::id_protoChanged, [&] { ++n; }); oddAlias<int, QtProtobuf::int32>(m, "id_proto", n, [](const Second &s) { return s.id_proto(); }, [](Second &s, QtProtobuf::int32 v) { s.setId_proto(v); }); symx_cover("done"); }
