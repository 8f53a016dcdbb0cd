#include "common.h"
OP1(neg, -a)
OP1(rev, g3::reverse(a))
OP1(odd, g3::oddverse(a))
OP1(dir, g3::dirverse(a))
OP1(dual, g3::dual(a))
#define F(A) FUN1(neg, A) FUN1(rev, A) FUN1(odd, A) FUN1(dir, A) FUN1(dual, A)
TYPES(F)
