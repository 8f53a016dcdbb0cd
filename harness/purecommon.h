// Every expression on plain lvalues; results and the operands afterwards are handed back:
// o[0..7] result, o[8..15] first operand after, o[16..23] second operand after, o[24] extra.
#pragma once
#include "common.h"
#include <string>
#include <sstream>
template <typename Y> inline void res(Y const &y, double *o) { zero8(o); put(y, o); }
inline void res(bool y, double *o) { zero8(o); o[0] = y; }
#ifdef ENGV_IR
inline void res(std::string const &, double *o) { zero8(o); }
#else
// text as numbers, so that native replays compare it
inline void res(std::string const &s, double *o)
{
	zero8(o); o[0] = double(s.size());
	for (std::size_t k = 0; k < s.size(); ++k) { double &x = o[1 + k % 7]; x = double((static_cast<unsigned long long>(x) * 257u + static_cast<unsigned char>(s[k])) % 9007199254740881ull); }
}
#endif
template <typename Y> inline void res(std::pair<double, Y> const &y, double *o) { zero8(o); put(y.second, o); o[24] = y.first; }
#define PU1(NAME, EXPR) \
	template <class Q> auto NAME##_e(Q &a) -> decltype(EXPR) { return EXPR; } \
	template <class Q, class = void> struct NAME##_t { static int f(double const *, double const *, double *) { return -1; } }; \
	template <class Q> struct NAME##_t<Q, std::void_t<decltype(NAME##_e(std::declval<Q &>()))>> \
	{ static int f(double const *pa, double const *, double *o) { Q a; get(a, pa); o[24] = 0.; res(NAME##_e(a), o); out(a, o + 8); return 0; } };
#define PU2(NAME, EXPR) \
	template <class Q, class R> auto NAME##_e(Q &a, R &b) -> decltype(EXPR) { return EXPR; } \
	template <class Q, class R, class = void> struct NAME##_t { static int f(double const *, double const *, double *) { return -1; } }; \
	template <class Q, class R> struct NAME##_t<Q, R, std::void_t<decltype(NAME##_e(std::declval<Q &>(), std::declval<R &>()))>> \
	{ static int f(double const *pa, double const *pb, double *o) { Q a; R b; get(a, pa); get(b, pb); o[24] = 0.; res(NAME##_e(a, b), o); out(a, o + 8); out(b, o + 16); return 0; } };
#define PF1(NAME, A) extern "C" int p_##NAME##_##A(double const *a, double const *b, double *o) { return NAME##_t<A>::f(a, b, o); }
#define PF2(NAME, A, Z) extern "C" int p_##NAME##_##A##_##Z(double const *a, double const *b, double *o) { return NAME##_t<A, Z>::f(a, b, o); }
