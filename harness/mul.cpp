#include "common.h"
OP2(mul, a * b)
#define F(A, Z) FUN2(mul, A, Z)
PAIRS(F)
