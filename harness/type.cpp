#include "common.h"
#define NTYPES(F) F(S) F(V) F(B) F(T) F(P) F(I) F(C) F(X) F(M)
// const subscripts; the component array is checked to be unchanged through o[1..8]
#define F(Y) \
	extern "C" int h_sub_##Y(double const *pa, std::size_t n, double *o) \
	{ Y a; get(a, pa); Y const &r = a; o[0] = r[n]; out(a, o + 1); return 0; }
NTYPES(F)
#undef F
extern "C" int h_subset_M(double const *pa, std::size_t n, double const *v, double *o)
{ M a; get(a, pa); a[n] = *v; out(a, o + 1); M const &r = a; o[0] = r[n]; return 0; }
extern "C" int h_subget_M(double const *pa, std::size_t n, double *o)
{ M a; get(a, pa); o[0] = a[n]; out(a, o + 1); return 0; }
// construction and promotion
#define F(Y) extern "C" int h_mv_##Y(double const *pa, double *o) { Y a; get(a, pa); return out(M(a), o); }
F(D) F(S) F(V) F(B) F(T) F(P) F(I) F(C) F(X) F(M)
#undef F
extern "C" int h_mv_CX(double const *pa, double *o) { C c; X d; get(c, pa); get(d, pa + 2); return out(M(c, d), o); }
extern "C" int h_mv_SVBT(double const *p, double *o)
{ S s; V v; B b; T t; get(s, p); get(v, p + 1); get(b, p + 4); get(t, p + 7); return out(M(s, v, b, t), o); }
extern "C" int h_mv_8(double const *p, double *o) { return out(M(p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7]), o); }
extern "C" int h_mv_b8(double const *p, double *o) { return out(M{p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7]}, o); }
extern "C" int h_mk_S(double const *p, double *o) { return out(S{p[0]}, o); }
extern "C" int h_mk_V(double const *p, double *o) { return out(V{p[0], p[1], p[2]}, o); }
extern "C" int h_mk_B(double const *p, double *o) { return out(B{p[0], p[1], p[2]}, o); }
extern "C" int h_mk_T(double const *p, double *o) { return out(T{p[0]}, o); }
extern "C" int h_mk_P(double const *p, double *o) { return out(P{S{p[0]}, B{p[1], p[2], p[3]}}, o); }
extern "C" int h_mk_I(double const *p, double *o) { return out(I{V{p[0], p[1], p[2]}, T{p[3]}}, o); }
extern "C" int h_mk_C(double const *p, double *o) { return out(C{S{p[0]}, T{p[1]}}, o); }
extern "C" int h_mk_X(double const *p, double *o) { return out(X{V{p[0], p[1], p[2]}, B{p[3], p[4], p[5]}}, o); }
extern "C" int h_cplx_from(double const *p, double *o) { std::complex<double> z(p[0], p[1]); return out(C::from(z), o); }
extern "C" int h_cplx_to(double const *p, double *o)
{ C c; get(c, p); std::complex<double> const z = static_cast<std::complex<double>>(c); o[0] = z.real(); o[1] = z.imag(); return 0; }
extern "C" int h_cplx_rt(double const *p, double *o)
{ C c; get(c, p); return out(C::from(static_cast<std::complex<double>>(c)), o); }
// constants
#define F(Y) \
	extern "C" int h_zero_##Y(double *o) { return out(g3::zero<Y>(), o); } \
	extern "C" int h_null_##Y(double *o) { return out(g3::null<Y>(), o); } \
	extern "C" int h_nullvalid_##Y() { return g3::isValid(g3::null<Y>()); } \
	extern "C" int h_zerovalid_##Y() { return g3::isValid(g3::zero<Y>()); } \
	extern "C" int h_addz_##Y(double const *pa, double *o) { Y a; get(a, pa); return out(a + g3::zero<Y>(), o); } \
	extern "C" int h_zmul_##Y(double const *pa, double *o) { Y a; get(a, pa); return out(g3::zero<Y>() * a, o); } \
	extern "C" int h_mulz_##Y(double const *pa, double *o) { Y a; get(a, pa); return out(a * g3::zero<Y>(), o); }
NTYPES(F) F(D)
#undef F
#define F(Y) \
	extern "C" int h_one_##Y(double *o) { return out(g3::one<Y>(), o); } \
	extern "C" int h_onevalid_##Y() { return g3::isValid(g3::one<Y>()); } \
	extern "C" int h_onemul_##Y(double const *pa, double *o) { Y a; get(a, pa); return out(g3::one<Y>() * a, o); } \
	extern "C" int h_mulone_##Y(double const *pa, double *o) { Y a; get(a, pa); return out(a * g3::one<Y>(), o); }
F(D) F(S) F(P) F(C) F(M)
#undef F
#define F(N) extern "C" int h_const_##N(double *o) { return out(g3::N, o); }
F(e0) F(e1) F(e2) F(e3) F(e23) F(e31) F(e12) F(e123)
F(pi) F(piHalf) F(piQtr) F(turnFull) F(turnHalf) F(turnQtr) F(nan)
extern "C" int h_constsq(double *o)
{ out(g3::e1 * g3::e1, o); out(g3::e2 * g3::e2, o + 8); out(g3::e3 * g3::e3, o + 16); return 0; }
extern "C" int h_constpr(double *o)
{ out(g3::e1 * g3::e2, o); out(g3::e2 * g3::e3, o + 8); out(g3::e3 * g3::e1, o + 16); return 0; }
extern "C" int h_constps(double *o) { return out(g3::e1 * g3::e2 * g3::e3, o); }
