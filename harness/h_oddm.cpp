// LIBS: protobuf vt oddm
// C28: one file per message
#include "oddm/second.h"
#include "oddms.h"
HARNESS(odd_round) { ODDMSG(oddRound) }
HARNESS(odd_consts) { oddConsts(); }
HARNESS(odd_value) { ODDMSG(oddValue) }
