// Binary operations with one object standing for both operands, or a part of the first operand as
// the second, next to the same operation on separate objects of the same values.
// o[0..7]: shared objects; o[8..15]: separate objects
#include "common.h"
namespace part
{
struct self { template <class Q> static Q const &of(Q const &a) { return a; } };
struct sca { template <class Q> static auto of(Q const &a) -> decltype((a.theSca)) { return a.theSca; } };
struct vec { template <class Q> static auto of(Q const &a) -> decltype((a.theVec)) { return a.theVec; } };
struct biv { template <class Q> static auto of(Q const &a) -> decltype((a.theBiv)) { return a.theBiv; } };
struct tri { template <class Q> static auto of(Q const &a) -> decltype((a.theTri)) { return a.theTri; } };
inline double const &first(S const &x) { return x.theData[0]; }
inline double const &first(V const &x) { return x.theData[0]; }
inline double const &first(B const &x) { return x.theData[0]; }
inline double const &first(T const &x) { return x.theData[0]; }
inline double const &first(P const &x) { return x.theSca.theData[0]; }
inline double const &first(I const &x) { return x.theVec.theData[0]; }
inline double const &first(C const &x) { return x.theSca.theData[0]; }
inline double const &first(X const &x) { return x.theVec.theData[0]; }
inline double const &first(M const &x) { return x.theSca.theData[0]; }
struct num { template <class Q> static double const &of(Q const &a) { return first(a); } };
}
inline void res(bool y, double *o) { zero8(o); o[0] = y; }
template <typename Y> inline void res(Y const &y, double *o) { zero8(o); put(y, o); }
#define OP(NAME, EXPR) struct op_##NAME { template <class Q, class R> static auto of(Q const &a, R const &b, double const &t) -> decltype(EXPR) { return EXPR; } };
OP(mul, a * b)
OP(add, a + b)
OP(sub, a - b)
OP(eq, a == b)
OP(near, g3::nearlyEquals(a, b))
OP(neart, g3::nearlyEquals(a, b, t))
OP(neartol, g3::nearlyEquals(a, a, b))
OP(nearabs, g3::nearlyEqualsAbs(a, b, t))
OP(nearrel, g3::nearlyEqualsRel(a, b, t))
OP(both, g3::bothAreValid(a, b))
OP(log, g3::logG2(a, b))
OP(root, g3::sqrtG2(a, b))
template <class O, class Q, class W, class = void> struct al { static int f(double const *, double const *, double *) { return -1; } };
template <class O, class Q, class W> struct al<O, Q, W, std::void_t<decltype(O::of(std::declval<Q const &>(), W::of(std::declval<Q const &>()), 1.))>>
{
	static int f(double const *pa, double const *pt, double *o)
	{
		Q a; get(a, pa);
		double const t1 = pt[0];
		res(O::of(a, W::of(a), t1), o);
		Q b, c; get(b, pa); get(c, pa);
		auto const d = W::of(c);
		double const t2 = pt[0];
		res(O::of(b, d, t2), o + 8);
		return 0;
	}
};
#define AL(NAME, Q, W) extern "C" int al_##NAME##_##Q##_##W(double const *a, double const *t, double *o) { return al<op_##NAME, Q, part::W>::f(a, t, o); }
#define ARITH(Q, W) AL(mul, Q, W) AL(add, Q, W) AL(sub, Q, W)
#define SAME(Q) ARITH(Q, self) ARITH(Q, num) AL(eq, Q, self) AL(near, Q, self) AL(neart, Q, self) AL(neartol, Q, num)
SAME(S) SAME(V) SAME(B) SAME(T) SAME(P) SAME(I) SAME(C) SAME(X) SAME(M)
ARITH(P, sca) ARITH(P, biv) ARITH(I, vec) ARITH(I, tri) ARITH(C, sca) ARITH(C, tri) ARITH(X, vec) ARITH(X, biv)
ARITH(M, sca) ARITH(M, vec) ARITH(M, biv) ARITH(M, tri)
AL(near, D, self) AL(neart, D, self) AL(nearabs, D, self) AL(nearrel, D, self) AL(both, D, self)
AL(log, P, biv) AL(root, P, biv)
