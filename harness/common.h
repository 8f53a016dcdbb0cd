// Common part of all verification harnesses: component arrays <-> engabra types.
// Members are accessed directly (public data), so no library function is involved
// in moving values in and out.
#pragma once
#include "engabra.hpp"
#include <type_traits>
#include <utility>
namespace g3 = engabra::g3;
using D = double;
using S = g3::Scalar;
using V = g3::Vector;
using B = g3::BiVector;
using T = g3::TriVector;
using P = g3::Spinor;
using I = g3::ImSpin;
using C = g3::ComPlex;
using X = g3::DirPlex;
using M = g3::MultiVector;

// result type codes returned by the harness functions; -1: expression not supported
template <typename Y> struct Code { static constexpr int v = -2; };
template <> struct Code<D> { static constexpr int v = 0; };
template <> struct Code<S> { static constexpr int v = 1; };
template <> struct Code<V> { static constexpr int v = 2; };
template <> struct Code<B> { static constexpr int v = 3; };
template <> struct Code<T> { static constexpr int v = 4; };
template <> struct Code<P> { static constexpr int v = 5; };
template <> struct Code<I> { static constexpr int v = 6; };
template <> struct Code<C> { static constexpr int v = 7; };
template <> struct Code<X> { static constexpr int v = 8; };
template <> struct Code<M> { static constexpr int v = 9; };
template <> struct Code<bool> { static constexpr int v = 10; };
template <typename Y> constexpr int code() { return Code<std::decay_t<Y>>::v; }

inline void get(D &x, double const *a) { x = a[0]; }
inline void get(S &x, double const *a) { x.theData[0] = a[0]; }
inline void get(V &x, double const *a) { x.theData[0] = a[0]; x.theData[1] = a[1]; x.theData[2] = a[2]; }
inline void get(B &x, double const *a) { x.theData[0] = a[0]; x.theData[1] = a[1]; x.theData[2] = a[2]; }
inline void get(T &x, double const *a) { x.theData[0] = a[0]; }
inline void get(P &x, double const *a) { get(x.theSca, a); get(x.theBiv, a + 1); }
inline void get(I &x, double const *a) { get(x.theVec, a); get(x.theTri, a + 3); }
inline void get(C &x, double const *a) { get(x.theSca, a); get(x.theTri, a + 1); }
inline void get(X &x, double const *a) { get(x.theVec, a); get(x.theBiv, a + 3); }
inline void get(M &x, double const *a) { get(x.theSca, a); get(x.theVec, a + 1); get(x.theBiv, a + 4); get(x.theTri, a + 7); }

// components into the eight grade slots {e0,e1,e2,e3,e23,e31,e12,e123}
inline void zero8(double *o) { for (int k = 0; k < 8; ++k) o[k] = 0.; }
inline void put(D const &x, double *o) { o[0] = x; }
inline void put(S const &x, double *o) { o[0] = x.theData[0]; }
inline void put(V const &x, double *o) { o[1] = x.theData[0]; o[2] = x.theData[1]; o[3] = x.theData[2]; }
inline void put(B const &x, double *o) { o[4] = x.theData[0]; o[5] = x.theData[1]; o[6] = x.theData[2]; }
inline void put(T const &x, double *o) { o[7] = x.theData[0]; }
inline void put(P const &x, double *o) { put(x.theSca, o); put(x.theBiv, o); }
inline void put(I const &x, double *o) { put(x.theVec, o); put(x.theTri, o); }
inline void put(C const &x, double *o) { put(x.theSca, o); put(x.theTri, o); }
inline void put(X const &x, double *o) { put(x.theVec, o); put(x.theBiv, o); }
inline void put(M const &x, double *o) { put(x.theSca, o); put(x.theVec, o); put(x.theBiv, o); put(x.theTri, o); }
template <typename Y> inline int out(Y const &y, double *o) { zero8(o); put(y, o); return code<Y>(); }

#define TYPES(F) F(D) F(S) F(V) F(B) F(T) F(P) F(I) F(C) F(X) F(M)
#define TYPES2(F, a) F(a, D) F(a, S) F(a, V) F(a, B) F(a, T) F(a, P) F(a, I) F(a, C) F(a, X) F(a, M)
#define PAIRS(F) TYPES2(F, D) TYPES2(F, S) TYPES2(F, V) TYPES2(F, B) TYPES2(F, T) \
	TYPES2(F, P) TYPES2(F, I) TYPES2(F, C) TYPES2(F, X) TYPES2(F, M)

// wrappers for an expression in one or two operands, with detection of support
#define OP1(NAME, EXPR) \
	template <class Q> auto NAME##_e(Q const &a) -> decltype(EXPR) { return EXPR; } \
	template <class Q, class = void> struct NAME##_t { static int f(double const *, double *) { return -1; } }; \
	template <class Q> struct NAME##_t<Q, std::void_t<decltype(NAME##_e(std::declval<Q const &>()))>> \
	{ static int f(double const *pa, double *o) { Q a; get(a, pa); return out(NAME##_e(a), o); } };
#define OP2(NAME, EXPR) \
	template <class Q, class R> auto NAME##_e(Q const &a, R const &b) -> decltype(EXPR) { return EXPR; } \
	template <class Q, class R, class = void> struct NAME##_t { static int f(double const *, double const *, double *) { return -1; } }; \
	template <class Q, class R> struct NAME##_t<Q, R, std::void_t<decltype(NAME##_e(std::declval<Q const &>(), std::declval<R const &>()))>> \
	{ static int f(double const *pa, double const *pb, double *o) { Q a; R b; get(a, pa); get(b, pb); return out(NAME##_e(a, b), o); } };
#define FUN1(NAME, A) extern "C" int h_##NAME##_##A(double const *a, double *o) { return NAME##_t<A>::f(a, o); }
#define FUN2(NAME, A, Z) extern "C" int h_##NAME##_##A##_##Z(double const *a, double const *b, double *o) { return NAME##_t<A, Z>::f(a, b, o); }
