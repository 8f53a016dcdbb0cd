// Stream insertion, formatting and extraction.
#include "common.h"
#include <sstream>
#include <string>
#include <cstring>
#include <locale>
#include <vector>
#define NTYPES(F) F(S) F(V) F(B) F(T) F(P) F(I) F(C) F(X) F(M)
#define FTYPES(F) F(D) F(S) F(V) F(B) F(T) F(P) F(I) F(M)
namespace io = engabra::g3::io;
// ---- insertion into the given stream
#define F(Y) extern "C" int h_put_##Y(double const *pa, std::ostream *os) { Y a; get(a, pa); *os << a; return 0; }
NTYPES(F)
#undef F
// two values one after the other on one stream
#define F(Y) extern "C" int h_put2_##Y(double const *pa, double const *pb, std::ostream *os) { Y a, b; get(a, pa); get(b, pb); *os << a << b; return 0; }
NTYPES(F)
#undef F
// ---- formatted strings, sent to the given stream as text
#define F(Y) \
	extern "C" int h_fixed_##Y(double const *pa, std::size_t n, std::size_t m, std::string *s) { Y a; get(a, pa); new (s) std::string(io::fixed(a, n, m)); return 0; } \
	extern "C" int h_fixed1_##Y(double const *pa, std::size_t n, std::string *s) { Y a; get(a, pa); new (s) std::string(io::fixed(a, n)); return 0; } \
	extern "C" int h_fixed0_##Y(double const *pa, std::string *s) { Y a; get(a, pa); new (s) std::string(io::fixed(a)); return 0; } \
	extern "C" int h_enote_##Y(double const *pa, std::size_t n, std::string *s) { Y a; get(a, pa); new (s) std::string(io::enote(a, n)); return 0; } \
	extern "C" int h_enote0_##Y(double const *pa, std::string *s) { Y a; get(a, pa); new (s) std::string(io::enote(a)); return 0; }
FTYPES(F)
#undef F
// ---- extraction
#define F(Y) extern "C" int h_get_##Y(double const *pa, std::istream *is, double *o) { Y a; get(a, pa); *is >> a; return out(a, o); }
NTYPES(F)
#undef F
#define F(N) extern "C" int h_get_a##N(double const *pa, std::istream *is, double *o) \
	{ std::array<double, N> a; for (std::size_t k = 0; k < N; ++k) a[k] = pa[k]; *is >> a; for (std::size_t k = 0; k < N; ++k) o[k] = a[k]; return 0; }
F(1) F(2) F(3) F(4) F(5)
#undef F
#ifndef ENGV_IR
// ---- native drivers
static std::size_t give(std::string const &s, char *buf, std::size_t cap)
{ std::size_t const n = s.size() < cap ? s.size() : cap; std::memcpy(buf, s.data(), n); return s.size(); }
static void setup(std::ostream &os, int flags, int prec, int width)
{ os.flags(std::ios_base::fmtflags(flags)); os.precision(prec); os.width(width); }
#define F(Y) \
	extern "C" std::size_t n_put_##Y(double const *pa, int fl, int pr, int wi, char *b, std::size_t cap) { std::ostringstream os; setup(os, fl, pr, wi); h_put_##Y(pa, &os); return give(os.str(), b, cap); } \
	extern "C" std::size_t n_put2_##Y(double const *pa, double const *pb, int fl, int pr, int wi, char *b, std::size_t cap) { std::ostringstream os; setup(os, fl, pr, wi); h_put2_##Y(pa, pb, &os); return give(os.str(), b, cap); } \
	extern "C" int n_read_##Y(double const *pa, char const *t, double *o) { std::istringstream is(t); return h_get_##Y(pa, &is, o); }
NTYPES(F)
#undef F
#define F(Y) \
	extern "C" std::size_t n_fixed_##Y(double const *pa, std::size_t n, std::size_t m, char *b, std::size_t cap) { Y a; get(a, pa); return give(io::fixed(a, n, m), b, cap); } \
	extern "C" std::size_t n_fixed1_##Y(double const *pa, std::size_t n, char *b, std::size_t cap) { Y a; get(a, pa); return give(io::fixed(a, n), b, cap); } \
	extern "C" std::size_t n_fixed0_##Y(double const *pa, char *b, std::size_t cap) { Y a; get(a, pa); return give(io::fixed(a), b, cap); } \
	extern "C" std::size_t n_enote_##Y(double const *pa, std::size_t n, char *b, std::size_t cap) { Y a; get(a, pa); return give(io::enote(a, n), b, cap); } \
	extern "C" std::size_t n_enote0_##Y(double const *pa, char *b, std::size_t cap) { Y a; get(a, pa); return give(io::enote(a), b, cap); }
FTYPES(F)
#undef F
// a stream whose number parser follows a script: per read the iostate it raises and the value it stores
struct Script : std::num_get<char>
{
	double const *vals; int const *errs; int n; mutable int k = 0;
	Script(double const *v, int const *e, int c) : vals(v), errs(e), n(c) {}
	iter_type do_get(iter_type i, iter_type, std::ios_base &, std::ios_base::iostate &err, double &v) const override
	{
		if (k >= n) { err |= std::ios_base::failbit; v = 0.; return i; }
		int const e = errs[k];
		if (!(e & 8)) v = vals[k];
		++k;
		if (e & 1) err |= std::ios_base::failbit;
		if (e & 2) err |= std::ios_base::eofbit;
		if (e & 4) err |= std::ios_base::badbit;
		return i;
	}
};
struct Ones : std::streambuf
{
	char c = '1';
	int_type underflow() override { setg(&c, &c, &c + 1); return traits_type::to_int_type(c); }
};
template <class G> static int scripted(G g, double const *pa, double const *vals, int const *errs, int n, int state, double *o, double *used)
{
	Ones buf; std::istream is(&buf);
	Script *s = new Script(vals, errs, n);
	is.imbue(std::locale(std::locale::classic(), s));
	std::ios_base::iostate st = std::ios_base::goodbit;
	if (state & 1) st |= std::ios_base::failbit;
	if (state & 2) st |= std::ios_base::eofbit;
	if (state & 4) st |= std::ios_base::badbit;
	is.clear(st);
	g(pa, &is, o);
	*used = s->k;
	return (is.rdstate() & (std::ios_base::failbit | std::ios_base::badbit)) ? 1 : 0;
}
#define F(Y) extern "C" int n_get_##Y(double const *pa, double const *vals, int const *errs, int n, int state, double *o, double *used) \
	{ return scripted(h_get_##Y, pa, vals, errs, n, state, o, used); }
NTYPES(F) F(a1) F(a2) F(a3) F(a4) F(a5)
#undef F
#endif
