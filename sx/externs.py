"""Models of external functions (LLVM intrinsics, libm, libgcc, C++ runtime)."""
import re
from . import term as tm
from .term import T, TRUE, FALSE, F, I, B, band, bor, bnot, ite, fop

def install(ex):
    from .exec import Unsupported, Agg, Ptr, FuncPtr
    E = ex.externals
    ex.ext_rx = []
    def reg(name, h):
        E[name] = h
    def rx(pat, h):
        ex.ext_rx.append((re.compile(pat), h))

    def unary(op):
        return lambda ex, st, nm, a, rt: (Agg(fop(op, z) for z in a[0]) if isinstance(a[0], Agg) else fop(op, a[0]))
    def binary(op):
        return lambda ex, st, nm, a, rt: fop(op, a[0], a[1])

    for n in tm.LIBM1:
        if n == "nearbyint": pass
        reg(n, unary(n)); reg("llvm.%s.f64" % n, unary(n))
        # long double variants (treated as the double function)
        reg(n + "l", unary(n))
        reg(n + "f", (lambda op: lambda ex, st, nm, a, rt: fop("to32", fop(op, a[0])))(n))
    for n in tm.LIBM2:
        reg(n, binary(n)); reg(n + "l", binary(n))
        reg(n + "f", (lambda op: lambda ex, st, nm, a, rt: fop("to32", fop(op, a[0], a[1])))(n))
    reg("llvm.pow.f64", binary("pow"))
    for suffix in ("f64", "v2f64", "f80"):
        reg("llvm.fabs." + suffix, unary("fabs"))
        reg("llvm.sqrt." + suffix, unary("sqrt"))
    reg("fabs", unary("fabs")); reg("sqrt", unary("sqrt")); reg("fabsl", unary("fabs")); reg("sqrtl", unary("sqrt"))
    reg("llvm.fabs.f32", unary("fabs")); reg("fabsf", unary("fabs"))
    reg("sqrtf", lambda ex, st, nm, a, rt: fop("to32", fop("sqrt", a[0])))
    reg("llvm.copysign.f64", binary("copysign")); reg("copysign", binary("copysign"))
    reg("llvm.minnum.f64", binary("fmin")); reg("llvm.maxnum.f64", binary("fmax"))
    reg("fma", lambda ex, st, nm, a, rt: fop("fma", *a)); reg("llvm.fma.f64", E["fma"])
    reg("llvm.fmuladd.f64", lambda ex, st, nm, a, rt: fop("fadd", fop("fmul", a[0], a[1]), a[2]))
    def pow2(k):
        """2^k for -1022 <= k <= 1023"""
        return tm.bitsd(tm.iop("shl", tm.iop("add", tm.sext(k, 64), I(1023, 64)), I(52, 64)))
    def clamp(k, lo, hi):
        w = k.w
        return ite(tm.icmp("slt", k, I(lo, w)), I(lo, w), ite(tm.icmp("sgt", k, I(hi, w)), I(hi, w), k))
    def h_ldexp(ex, st, nm, a, rt):
        x, k = a[0], a[1]
        if tm.isc(k) and -1022 <= tm.sval(k) <= 1023: return fop("fmul", x, F(2.0 ** tm.sval(k)))
        # at most one of the factors rounds
        w = k.w; k = clamp(k, -3000, 3000)
        k1 = clamp(k, -1022, 1023); k2 = tm.iop("sub", k, k1)
        k21 = clamp(k2, -1022, 1023); k3 = clamp(tm.iop("sub", k2, k21), -1022, 1023)
        near = fop("fmul", x, pow2(k1))
        far = fop("fmul", fop("fmul", fop("fmul", x, pow2(k3)), pow2(k21)), pow2(k1))
        return ite(tm.icmp("eq", k2, I(0, w)), near, far)
    for n in ("ldexp", "scalbn", "scalbln", "llvm.ldexp.f64.i32", "ldexpl"): reg(n, h_ldexp)
    def split(x):
        """(zero, infinite or NaN, exponent e with |x| in [2^(e-1), 2^e), fraction)"""
        sub = tm.fpclass(0x90, x)
        y = ite(sub, fop("fmul", x, F(2.0 ** 54)), x)
        b = tm.dbits(y)
        e = tm.iop("sub", tm.iop("and", tm.iop("lshr", b, I(52, 64)), I(0x7ff, 64)), ite(sub, I(1022 + 54, 64), I(1022, 64)))
        fr = tm.bitsd(tm.iop("or", tm.iop("and", b, I(~(0x7ff << 52) & (2 ** 64 - 1), 64)), I(1022 << 52, 64)))
        return tm.fpclass(0x60, x), tm.fpclass(0x207, x), tm.trunc(e, 32), fr
    def frexp(ex, st, nm, a, rt):
        z, s, e, fr = split(a[0])
        ex.store(st, a[1], ("i", 32), ite(bor(z, s), I(0, 32), e))
        return ite(bor(z, s), a[0], fr)
    for n in ("frexp", "frexpl"): reg(n, frexp)
    def ilogb(ex, st, nm, a, rt):
        z, s, e, fr = split(a[0])
        return ite(z, I(-2147483648, 32), ite(tm.fpclass(3, a[0]), I(-2147483648, 32), ite(s, I(2147483647, 32), tm.iop("sub", e, I(1, 32)))))
    for n in ("ilogb", "ilogbl"): reg(n, ilogb)
    def modf(ex, st, nm, a, rt):
        t = fop("trunc", a[0])
        ex.store(st, a[1], ("double",), t)
        return fop("copysign", ite(tm.fpclass(0x204, a[0]), F(0.0), fop("fsub", a[0], t)), a[0])
    reg("modf", modf)
    for n in ("lrint", "llrint", "lround", "llround"):
        reg(n, (lambda op: lambda ex, st, nm, a, rt: tm.ftoi(fop(op, a[0]), 64, True))("rint" if "rint" in n else "round"))
    # floating-point environment and similar settings of the process
    def setting(value):
        def h(ex, st, nm, a, rt):
            ex.effects.append(("setting", ex.pcterm(st), nm))
            return value
        return h
    for n in ("fesetround", "feenableexcept", "fedisableexcept"): reg(n, setting(I(0, 32)))
    reg("llvm.x86.sse.ldmxcsr", setting(None)); reg("_mm_setcsr", setting(None)); reg("llvm.set.rounding", setting(None))
    reg("fegetround", lambda ex, st, nm, a, rt: I(0, 32)); reg("llvm.get.rounding", lambda ex, st, nm, a, rt: I(1, 32))
    reg("feclearexcept", lambda ex, st, nm, a, rt: I(0, 32)); reg("feraiseexcept", lambda ex, st, nm, a, rt: I(0, 32))

    # three argument hypot of libstdc++ is inline code; two-argument goes through LIBM2
    reg("cabs", binary("hypot"))
    reg("carg", lambda ex, st, nm, a, rt: fop("atan2", a[1], a[0]))
    for n in "csqrt cexp clog csin ccos ctan csinh ccosh ctanh casin cacos catan casinh cacosh catanh".split():
        reg(n, (lambda op: lambda ex, st, nm, a, rt: Agg((fop(op + "_re", *a), fop(op + "_im", *a))))(n))
    reg("cpow", lambda ex, st, nm, a, rt: Agg((fop("cpow_re", *a), fop("cpow_im", *a))))
    def cproj(ex, st, nm, a, rt):
        inf = bor(tm.fpclass(0x204, a[0]), tm.fpclass(0x204, a[1]))
        return Agg((ite(inf, F(float("inf")), a[0]), ite(inf, fop("copysign", F(0.0), a[1]), a[1])))
    reg("cproj", cproj)
    # complex product of finite values; libgcc's recovery only concerns infinities (stated assumption)
    def muldc3(ex, st, nm, a, rt):
        x, y, u, v = a
        return Agg((fop("fsub", fop("fmul", x, u), fop("fmul", y, v)), fop("fadd", fop("fmul", x, v), fop("fmul", y, u))))
    reg("__muldc3", muldc3)
    reg("__divdc3", lambda ex, st, nm, a, rt: Agg((fop("divdc3_re", *a), fop("divdc3_im", *a))))
    def sincos(ex, st, nm, a, rt):
        ex.store(st, a[1], ("double",), fop("sin", a[0])); ex.store(st, a[2], ("double",), fop("cos", a[0]))
        return None
    reg("sincos", sincos)

    def isfpclass(ex, st, nm, a, rt):
        return tm.fpclass(tm.cval(a[1]), a[0])
    reg("llvm.is.fpclass.f64", isfpclass)
    def fpclassify(pred):
        return lambda ex, st, nm, a, rt: tm.zext(tm.fpclass(pred, a[0]), 32)
    reg("__isnan", fpclassify(3)); reg("isnan", fpclassify(3)); reg("__isinf", fpclassify(0x204)); reg("isinf", fpclassify(0x204))
    reg("__finite", fpclassify(0x3ff & ~0x207)); reg("__signbit", lambda ex, st, nm, a, rt: tm.zext(tm.signbit(a[0]), 32))

    def memcpy(ex, st, nm, a, rt):
        if not tm.isc(a[2]): raise Unsupported("memcpy of symbolic length")
        ex.memcpy(st, a[0], a[1], tm.cval(a[2]))
        return a[0]
    for n in ("llvm.memcpy.p0.p0.i64", "llvm.memmove.p0.p0.i64", "memcpy", "memmove", "llvm.memcpy.inline.p0.p0.i64"):
        reg(n, memcpy)
    def memset(ex, st, nm, a, rt):
        if not (tm.isc(a[2]) and tm.isc(a[1])): raise Unsupported("symbolic memset")
        n = tm.cval(a[2]); b = tm.cval(a[1]) & 255
        p = ex.concptr(st, a[0])
        if not tm.isc(p.off): raise Unsupported("memset at symbolic offset")
        if n == 0: return a[0]
        o = ex._obj(st, p.obj); off = tm.sval(p.off)
        if off < 0 or off + n > o.size:
            ex.fault(st, "oob-store", TRUE, "memset"); return a[0]
        if o.kind == "glob" and not ex.initialising:
            ex.effects.append(("global-write", ex.pcterm(st), (o.name, None, ex.in_guard > 0)))
        o = st.w(p.obj)
        if b == 0:
            ex.zerofill(o, off, n)
        else:
            ex.clear(o, off, n)
            for k in range(n): o.cells[off + k] = (1, I(b, 8))
        return a[0]
    reg("llvm.memset.p0.i64", memset); reg("memset", memset)

    def memcmp(ex, st, nm, a, rt):
        if not tm.isc(a[2]): raise Unsupported("memcmp of symbolic length")
        n = tm.cval(a[2]); k = 0; parts = []
        while k < n:
            w = next(x for x in (8, 4, 2, 1) if k + x <= n)
            x, y = (ex.load(st, ex.padd(q, I(k, 64)), ("i", 8 * w)) for q in a[:2])
            parts.append((x, y, w)); k += w
        def swap(v, w):
            r = I(0, 8 * w)
            for j in range(w):
                b = tm.iop("and", tm.iop("lshr", v, I(8 * j, 8 * w)), I(255, 8 * w))
                r = tm.iop("or", r, tm.iop("shl", b, I(8 * (w - 1 - j), 8 * w)))
            return r
        r = I(0, 32)
        for x, y, w in reversed(parts):
            if nm == "bcmp": d = I(1, 32)
            else: d = ite(tm.icmp("ult", swap(x, w), swap(y, w)), I(-1, 32), I(1, 32))
            r = ite(tm.icmp("eq", x, y), r, d)
        return r
    reg("memcmp", memcmp); reg("bcmp", memcmp)

    nop = lambda ex, st, nm, a, rt: None
    rx(r"llvm\.(lifetime|dbg|assume|experimental\.noalias|invariant|stackrestore|prefetch|donothing|var\.annotation)", nop)
    reg("llvm.stacksave", lambda ex, st, nm, a, rt: Ptr(None, I(0, 64)))
    reg("llvm.stacksave.p0", E["llvm.stacksave"])
    rx(r"llvm\.expect\.", lambda ex, st, nm, a, rt: a[0])
    rx(r"llvm\.objectsize\.", lambda ex, st, nm, a, rt: I(-1, 64))
    rx(r"llvm\.is\.constant\.", lambda ex, st, nm, a, rt: FALSE)
    def minmax(ex, st, nm, a, rt):
        k = nm.split(".")[1]
        p = {"umin": "ult", "umax": "ugt", "smin": "slt", "smax": "sgt"}[k]
        return ite(tm.icmp(p, a[0], a[1]), a[0], a[1])
    rx(r"llvm\.[us](min|max)\.i", minmax)
    def iabs(ex, st, nm, a, rt):
        return ite(tm.icmp("slt", a[0], I(0, a[0].w)), tm.iop("sub", I(0, a[0].w), a[0]), a[0])
    rx(r"llvm\.abs\.i", iabs)
    def withov(ex, st, nm, a, rt):
        op = nm.split(".")[1][1:]
        w = a[0].w; s = nm.split(".")[1][0] == "s"
        x2 = (tm.sext if s else tm.zext)(a[0], 2 * w); y2 = (tm.sext if s else tm.zext)(a[1], 2 * w)
        r2 = tm.iop(op, x2, y2); r = tm.trunc(r2, w)
        return Agg((r, bnot(tm.icmp("eq", (tm.sext if s else tm.zext)(r, 2 * w), r2))))
    rx(r"llvm\.[us](add|sub|mul)\.with\.overflow", withov)
    def trap(ex, st, nm, a, rt):
        ex.fault(st, "abort", TRUE, nm); return "noreturn"
    for n in ("abort", "_ZSt9terminatev", "exit", "_exit", "__assert_fail", "_ZSt17__throw_bad_allocv", "_ZSt21__glibcxx_assert_failPKciS0_S0_",
              "__cxa_throw", "__cxa_rethrow", "__cxa_allocate_exception", "llvm.trap", "__cxa_pure_virtual", "_ZSt28__throw_bad_array_new_lengthv"):
        reg(n, trap)
    rx(r"_ZSt\d+__throw_", trap)
    rx(r"llvm\.u?b?san", trap)
    reg("__cxa_atexit", lambda ex, st, nm, a, rt: I(0, 32))
    reg("atexit", lambda ex, st, nm, a, rt: I(0, 32))
    # function-local statics
    def guard_acq(ex, st, nm, a, rt):
        v = ex.load(st, a[0], ("i", 8))
        r = tm.zext(tm.icmp("eq", v, I(0, 8)), 32)
        ex.in_guard += 1
        return r
    def guard_rel(ex, st, nm, a, rt):
        ex.store(st, a[0], ("i", 8), I(1, 8))
        ex.in_guard -= 1
        return None
    reg("__cxa_guard_acquire", guard_acq); reg("__cxa_guard_release", guard_rel); reg("__cxa_guard_abort", nop)
    # errno
    def errno_loc(ex, st, nm, a, rt):
        if "errno" not in ex.glob:
            p = ex.new(ex.base, 4, "errno", "errno")
            ex.store(ex.base, p, ("i", 32), I(0, 32))
            ex.glob["errno"] = p
        return ex.glob["errno"]
    reg("__errno_location", errno_loc)
    # heap
    def op_new(ex, st, nm, a, rt):
        if not tm.isc(a[0]): raise Unsupported("allocation of symbolic size")
        return ex.new(st, tm.cval(a[0]), "heap", "heap")
    for n in ("_Znwm", "_Znam", "malloc"): reg(n, op_new)
    for n in ("_ZdlPv", "_ZdlPvm", "_ZdaPv", "free", "_ZdaPvm"): reg(n, nop)
    from . import iomodel
    iomodel.install(ex)
