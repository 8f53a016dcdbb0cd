#include "common.h"
OP1(magSq, g3::magSq(a))
OP1(magnitude, g3::magnitude(a))
OP1(ampSq, g3::ampSq(a))
OP1(amplitude, g3::amplitude(a))
OP1(inverse, g3::inverse<Q>(a))
OP1(direction, g3::direction(a))
OP1(sq, g3::sq(a))
OP1(cube, g3::cube(a))
#define F(A) FUN1(magSq, A) FUN1(ampSq, A)
TYPES(F)
#undef F
#define F(A) FUN1(magnitude, A)
TYPES(F)
#undef F
#define NTYPES(F) F(S) F(V) F(B) F(T) F(P) F(I) F(C) F(X) F(M)
#define F(A) FUN1(amplitude, A)
NTYPES(F)
#undef F
#define F(A) FUN1(inverse, A)
F(S) F(V) F(B) F(T) F(C) F(M)
#undef F
#define BTYPES(F) F(S) F(V) F(B) F(T) F(P)
#define F(A) FUN1(direction, A) \
	extern "C" int h_magdir_##A(double const *pa, double *o) \
	{ A a; get(a, pa); auto const r = g3::pairMagDirFrom(a); o[0] = r.first; out(r.second, o + 1); return 0; }
BTYPES(F)
#undef F
#define F(A) FUN1(sq, A) FUN1(cube, A)
F(D) F(S) F(P) F(C) F(M)
#undef F
OP1(exp, g3::exp(a))
FUN1(exp, B) FUN1(exp, P) FUN1(exp, M)
OP1(log, g3::logG2(a))
OP1(root, g3::sqrtG2(a))
FUN1(log, P) FUN1(root, P)
OP2(logp, g3::logG2(a, b))
OP2(rootp, g3::sqrtG2(a, b))
FUN2(logp, P, B) FUN2(rootp, P, B)
