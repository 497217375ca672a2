#include "sim.h"
#define LIST P(C01) P(C02) P(C03) P(C04) P(C05) P(C06) P(C07) P(C08) P(C09) P(C10) P(C12) P(C13) P(C14) P(C16) P(BENCH)
#define P(x) extern const Prop P_##x;
LIST
#undef P
#define P(x) P_##x,
const Prop PROPS[] = {LIST};
const int NPROPS = sizeof(PROPS) / sizeof(PROPS[0]);
