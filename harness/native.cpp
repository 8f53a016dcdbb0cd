// complex helper functions of the C library, for the concrete evaluation of encoded terms


extern "C" {
#define F1(N) void n_##N(double a, double b, double *o) { _Complex double z; __real__ z = a; __imag__ z = b; z = __builtin_##N(z); o[0] = __real__ z; o[1] = __imag__ z; }
F1(csqrt) F1(cexp) F1(clog) F1(csin) F1(ccos) F1(ctan) F1(csinh) F1(ccosh) F1(ctanh)
F1(casin) F1(cacos) F1(catan) F1(casinh) F1(cacosh) F1(catanh)
void n_divdc3(double a, double b, double c, double d, double *o)
{ _Complex double x, y; __real__ x = a; __imag__ x = b; __real__ y = c; __imag__ y = d; x = x / y; o[0] = __real__ x; o[1] = __imag__ x; }
void n_cpow(double a, double b, double c, double d, double *o)
{ _Complex double x, y; __real__ x = a; __imag__ x = b; __real__ y = c; __imag__ y = d; x = __builtin_cpow(x, y); o[0] = __real__ x; o[1] = __imag__ x; }
}
