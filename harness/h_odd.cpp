// LIBS: protobuf vt odd
// C28: one file per .proto, default options
#include "odd/odd.qpb.h"
#include "odds.h"
HARNESS(odd_round) { ODDMSG(oddRound) }
HARNESS(odd_consts) { oddConsts(); }
HARNESS(odd_value) { ODDMSG(oddValue) }
