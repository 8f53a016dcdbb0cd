#include "common.h"
OP2(add, a + b)
OP2(sub, a - b)
#define F(A, Z) FUN2(add, A, Z) FUN2(sub, A, Z)
PAIRS(F)
