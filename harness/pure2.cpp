#include "purecommon.h"
PU2(mul, a * b)
PU2(add, a + b)
PU2(sub, a - b)
#define F(A, Z) PF2(mul, A, Z) PF2(add, A, Z) PF2(sub, A, Z)
PAIRS(F)
