#include "common.h"
#include <array>
template <std::size_t N> using A = std::array<double, N>;
template <std::size_t N> A<N> arr(double const *a) { A<N> r; for (std::size_t k = 0; k < N; ++k) r[k] = a[k]; return r; }
#define NTYPES(F) F(S) F(V) F(B) F(T) F(P) F(I) F(C) F(X) F(M)
// nearlyEquals with explicit and default tolerance
#define F(Y) \
	extern "C" int h_near_##Y(double const *pa, double const *pb, double const *t) \
	{ Y a, b; get(a, pa); get(b, pb); return g3::nearlyEquals(a, b, *t); } \
	extern "C" int h_near0_##Y(double const *pa, double const *pb) \
	{ Y a, b; get(a, pa); get(b, pb); return g3::nearlyEquals(a, b); } \
	extern "C" int h_valid_##Y(double const *pa) { Y a; get(a, pa); return g3::isValid(a); }
TYPES(F)
#undef F
#define F(N) \
	extern "C" int h_near_a##N(double const *pa, double const *pb, double const *t) \
	{ return g3::nearlyEquals(arr<N>(pa), arr<N>(pb), *t); } \
	extern "C" int h_near0_a##N(double const *pa, double const *pb) \
	{ return g3::nearlyEquals(arr<N>(pa), arr<N>(pb)); } \
	extern "C" int h_valid_a##N(double const *pa) { return g3::isValid(arr<N>(pa)); }
F(1) F(2) F(3) F(4) F(6)
#undef F
extern "C" int h_nearabs_D(double const *a, double const *b, double const *t) { return g3::nearlyEqualsAbs(*a, *b, *t); }
extern "C" int h_nearabs0_D(double const *a, double const *b) { return g3::nearlyEqualsAbs(*a, *b); }
extern "C" int h_nearrel_D(double const *a, double const *b, double const *t) { return g3::nearlyEqualsRel(*a, *b, *t); }
extern "C" int h_nearrel0_D(double const *a, double const *b) { return g3::nearlyEqualsRel(*a, *b); }
extern "C" int h_both_D(double const *a, double const *b) { return g3::bothAreValid(*a, *b); }
extern "C" int h_nearbool(int a, int b) { return g3::nearlyEquals(a != 0, b != 0); }
// operator==
template <class Q, class = void> struct eq_t { static int f(double const *, double const *) { return -1; } };
template <class Q> struct eq_t<Q, std::void_t<decltype(std::declval<Q const &>() == std::declval<Q const &>())>>
{ static int f(double const *pa, double const *pb) { Q a, b; get(a, pa); get(b, pb); return a == b; } };
#define F(Y) extern "C" int h_eq_##Y(double const *pa, double const *pb) { return eq_t<Y>::f(pa, pb); }
F(S) F(V) F(B) F(T) F(P) F(I) F(M)
extern "C" int h_eq_a3(double const *pa, double const *pb) { return engabra::g3::operator==(arr<3>(pa), arr<3>(pb)); }
