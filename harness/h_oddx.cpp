// LIBS: protobuf vt oddx
// C28: option EXTRA_NAMESPACE
#define ODD_X
#include "oddx/odd.qpb.h"
#include "odds.h"
HARNESS(odd_round) { ODDMSG(oddRound) }
HARNESS(odd_consts) { oddConsts(); }
HARNESS(odd_value) { ODDMSG(oddValue) }
