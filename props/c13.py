"""Squared amplitude is x*dirverse(x); amplitude is its principal square root."""
from .alg import *

def task(gs, t):
    gf, gu, gm = gs
    def run(rec):
        S, N, X = Sym(*gs), Nat(*gs), Exact()
        nm = ga.names("a", t); v = V(t, ga.ins("a", t))
        q = S.fun("ampSq", v)
        if q.t != "C": rec.note("ampSq(%s) is a %s" % (NAME[t], NAME[q.t]))
        A = ga.embed(t, v.c, ga.Terms)
        want = ga.z(ga.gp(A, ga.ginv("dir", A, ga.Terms), ga.Terms))
        def judge(m):
            xs = V(t, ga.vals(m, "a", t))
            if not indomain(xs.c): return False, None
            w = X.fun("ampSq", X.lift(xs)); p = N.fun("ampSq", xs).full()
            for k in range(8):
                if not fin(p[k]) or abs(Fr(p[k]) - w.c[k]) > 32 * U * w.a[k]: return True, dict(x=xs.c, component=SLOTNAME[k], ampSq=p[k], expected=float(w.c[k]))
            return False, None
        qf = q.full()
        p = Prover(dom(nm), judge, qt=6.0)
        p.prove([Eq(SLOTNAME[k], qf[k], want[k]) for k in range(8)], label="ampSq(%s)" % NAME[t])
        env = spread(nm, "c13" + t)
        bad, d = judge(env)
        if bad and not p.violations: rec.bad("ampSq", env, d)
        validate(rec, gf, "h_ampSq_" + t, [ga.vals(env, "a", t), 8], qf, env)
        rec.prover(p)
        # the library's own product (vector and bivector parts vanish)
        try: identity(rec, gs, "ampSq=x*dirverse(x) %s" % NAME[t], [("a", t)], lambda o, a: o.fun("ampSq", a), lambda o, a: o.mul(a, o.uni("dir", a)), (Fr(10) ** -150, Fr(10) ** 150))
        except KeyError: pass
        outside(rec, gf, "ampSq(%s)" % NAME[t], qf, v.c, judge)
        if not gf.has("h_amplitude_" + t): return
        r = gf.sym("h_amplitude_" + t, v.c, 8)
        nofaults(rec, r, "h_amplitude_" + t)
        am = r.outs[0]
        def judge2(m):
            xs = ga.vals(m, "a", t)
            if not indomain(xs): return False, None
            w = X.fun("ampSq", X.lift(V(t, xs)))
            o = gf.native("h_amplitude_" + t, xs, 8)[1][0]
            d = dict(x=xs, amplitude=o, ampSq=[float(w.c[0]), float(w.c[7])])
            if any(not fin(y) for y in o) or any(o[k] != 0 for k in range(1, 7)) or o[0] < 0: return True, d
            a, b = Fr(o[0]), Fr(o[7])
            tol = 128 * U * (w.a[0] + w.a[7])
            return abs(a * a - b * b - w.c[0]) > tol or abs(2 * a * b - w.c[7]) > tol, d
        mul, add, sub = ga.Terms.mul, ga.Terms.add, lambda x, y: fop("fsub", x, y)
        p = Prover(dom(nm), judge2, qt=6.0)
        p.prove([Eq("real part of the square", sub(mul(am[0], am[0]), mul(am[7], am[7])), want[0]),
                 Eq("imaginary part of the square", mul(F(2.0), mul(am[0], am[7])), want[7]),
                 Holds("scalar part not negative", tm.fcmp("oge", am[0], F(0.0)))] +
                [Eq("no " + SLOTNAME[k], am[k], F(0.0)) for k in range(1, 7)], label="amplitude(%s)" % NAME[t])
        for s in range(4):
            env = spread(nm, "c13a%d" % s + t)
            bad, d = judge2(env)
            if bad and not p.violations: rec.bad("amplitude", env, d); break
            validate(rec, gf, "h_amplitude_" + t, [ga.vals(env, "a", t), 8], am, env)
        rec.prover(p)
    return t, run

def multiplicative(gs):
    def run(rec):
        def amp(o, a): return o.fun("ampSq", a)
        identity(rec, gs, "ampSq(x*y)=ampSq(x)*ampSq(y)", [("a", "M"), ("b", "M")],
                 lambda o, a, b: amp(o, o.mul(a, b)), lambda o, a, b: o.mul(amp(o, a), amp(o, b)), (Fr(10) ** -70, Fr(10) ** 70), n=512)
    return "multiplicative", run

def run(ctx):
    gs = ctx.load("func", "uni", "mul")
    ctx.method = "symbolic execution; ampSq as polynomial identity (z3), amplitude via the defining equations of the principal complex square root (QF_NRA)"
    ctx.bounds = dict(components="zero or 1e-150..1e150 (multiplicativity: 1e-70..1e70)", types="the nine types")
    ctx.assume("std::sqrt(std::complex<double>) is the C library csqrt, modelled by re>=0, (re+i im)^2 = z, im >= 0 on the cut", "real-number semantics; rounding bounded under C10")
    ctx.par([multiplicative(gs)] + [task(gs, t) for t in TYPES if t != "D"])
