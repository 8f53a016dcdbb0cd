#include "purecommon.h"
#include <cfenv>
#include <clocale>
#include <locale>
#include <cstring>
PU1(neg, -a)
PU1(rev, g3::reverse(a))
PU1(odd, g3::oddverse(a))
PU1(dir, g3::dirverse(a))
PU1(dual, g3::dual(a))
PU1(magSq, g3::magSq(a))
PU1(magnitude, g3::magnitude(a))
PU1(ampSq, g3::ampSq(a))
PU1(amplitude, g3::amplitude(a))
PU1(inverse, g3::inverse<Q>(a))
PU1(direction, g3::direction(a))
PU1(magdir, g3::pairMagDirFrom(a))
PU1(sq, g3::sq(a))
PU1(cube, g3::cube(a))
PU1(exp, g3::exp(a))
PU1(log, g3::logG2(a))
PU1(root, g3::sqrtG2(a))
PU1(valid, g3::isValid(a))
PU1(sub0, double(const_cast<Q const &>(a)[0]))
PU1(mv, M(a))
PU1(fixed, g3::io::fixed(a))
PU1(fixedn, g3::io::fixed(a, 4u, 9u))
PU1(enote, g3::io::enote(a))
template <class Q> inline std::string text(Q &a) { std::ostringstream os; os << a; return os.str(); }
PU1(print, text(a))
PU2(near, g3::nearlyEquals(a, b))
PU2(neart, g3::nearlyEquals(a, b, 1.e-6))
PU2(nearabs, g3::nearlyEqualsAbs(a, b))
PU2(nearrel, g3::nearlyEqualsRel(a, b))
PU2(both, g3::bothAreValid(a, b))
PU2(eq, a == b)
PU2(logp, g3::logG2(a, b))
PU2(rootp, g3::sqrtG2(a, b))
#define F(A) PF1(neg, A) PF1(rev, A) PF1(odd, A) PF1(dir, A) PF1(dual, A) PF1(magSq, A) PF1(magnitude, A) PF1(ampSq, A) \
	PF1(valid, A) PF1(mv, A) PF2(near, A, A) PF2(neart, A, A)
TYPES(F)
#undef F
#define F(A) PF1(amplitude, A) PF1(sub0, A) PF1(print, A)
F(S) F(V) F(B) F(T) F(P) F(I) F(C) F(X) F(M)
#undef F
#define F(A) PF1(inverse, A)
F(S) F(V) F(B) F(T) F(C) F(M)
#undef F
#define F(A) PF1(direction, A) PF1(magdir, A)
F(S) F(V) F(B) F(T) F(P)
#undef F
#define F(A) PF1(sq, A) PF1(cube, A)
F(D) F(S) F(P) F(C) F(M)
#undef F
#define F(A) PF1(fixed, A) PF1(fixedn, A) PF1(enote, A)
F(D) F(S) F(V) F(B) F(T) F(P) F(I) F(M)
#undef F
#define F(A) PF2(eq, A, A)
F(S) F(V) F(B) F(T) F(P) F(I) F(M)
#undef F
PF1(exp, B) PF1(exp, P) PF1(exp, M) PF1(log, P) PF1(root, P)
PF2(logp, P, B) PF2(rootp, P, B) PF2(nearabs, D, D) PF2(nearrel, D, D) PF2(both, D, D)
extern "C" int p_from_C(double const *pa, double const *, double *o)
{ std::complex<double> z(pa[0], pa[1]); res(C::from(z), o); zero8(o + 8); o[8] = z.real(); o[15] = z.imag(); o[24] = 0.; return 0; }
extern "C" int p_to_C(double const *pa, double const *, double *o)
{ C c; get(c, pa); std::complex<double> const z = static_cast<std::complex<double>>(c); zero8(o); o[0] = z.real(); o[7] = z.imag(); out(c, o + 8); o[24] = 0.; return 0; }
#ifndef ENGV_IR
#include <cstdio>
#include <iostream>
extern "C" void n_flush() { std::cout.flush(); std::cerr.flush(); std::clog.flush(); std::fflush(nullptr); }
// settings of the process and of the standard streams that an operation could change
extern "C" void n_reset() { std::fesetenv(FE_DFL_ENV); }
static int stream(char * p, int n, std::ios & s)
{
	return std::snprintf(p, n, " %lx/%ld/%ld/%d/%d/%d", (unsigned long)s.flags(), (long)s.precision(), (long)s.width(), (int)s.rdstate(), (int)s.exceptions(), (int)s.fill());
}
extern "C" void n_env(char * p, int n)
{
	unsigned int mx; unsigned short cw; __asm__ __volatile__ ("stmxcsr %0" : "=m"(mx)); __asm__ __volatile__ ("fnstcw %0" : "=m"(cw));
	int k = std::snprintf(p, n, "round %d mxcsr %x x87 %x locale %s %s", std::fegetround(), mx & 0xffc0u, cw, std::setlocale(LC_ALL, nullptr), std::locale().name().c_str());
	k += stream(p + k, n - k, std::cout); k += stream(p + k, n - k, std::cerr); k += stream(p + k, n - k, std::clog); stream(p + k, n - k, std::cin);
}
extern "C" void __attribute__((noinline)) n_poison(int c) { volatile char b[65536]; for (unsigned k = 0; k < sizeof b; ++k) b[k] = (char)c; }
#endif
