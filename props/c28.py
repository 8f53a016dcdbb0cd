"""sq and cube equal repeated products."""
from .alg import *
LO, HI = Fr(10) ** -90, Fr(10) ** 90

def powers(gs, t):
    gf, gm = gs
    def run(rec):
        S, N, X = Sym(*gs), Nat(*gs), Exact()
        nm = ga.names("a", t); a = ga.ins("a", t); v = V(t, a)
        xx = S.mul(v, v)
        s = S.fun("sq", v); c = S.fun("cube", v)
        def jsq(m):
            xs = V(t, ga.vals(m, "a", t))
            p, q = N.fun("sq", xs).full(), N.mul(xs, xs).full()
            return any(not same(x, y) for x, y in zip(p, q)), dict(x=xs.c, sq=p, product=q)
        for k, (x, y) in enumerate(zip(s.full(), xx.full())):
            fp.prove(rec, "sq(%s)=x*x.%s" % (NAME[t], SLOTNAME[k]), fp.same(x, y), jsq, inputs=nm)
        def jc(m):
            xs = V(t, ga.vals(m, "a", t))
            if not indomain(xs.c, 1e-90, 1e90): return False, None
            e = X.lift(xs); w = X.mul(X.mul(e, e), e); p = N.fun("cube", xs).full()
            for k in range(8):
                if not fin(p[k]) or abs(Fr(p[k]) - w.c[k]) > 64 * U * w.a[k]: return True, dict(x=xs.c, component=SLOTNAME[k], cube=p[k], expected=float(w.c[k]))
            return False, None
        def js(m):
            xs = V(t, ga.vals(m, "a", t))
            if not indomain(xs.c, 1e-90, 1e90): return False, None
            e = X.lift(xs); w = X.mul(e, e); p = N.fun("sq", xs).full()
            for k in range(8):
                if not fin(p[k]) or abs(Fr(p[k]) - w.c[k]) > 32 * U * w.a[k]: return True, dict(x=xs.c, component=SLOTNAME[k], sq=p[k], expected=float(w.c[k]))
            return False, None
        A = ga.embed(t, a, ga.Terms); A2 = ga.gp(A, A, ga.Terms)
        for lab, got, want, j in (("sq", s.full(), ga.z(A2), js), ("cube", c.full(), ga.z(ga.gp(A2, A, ga.Terms)), jc),
                                  ("cube=x*(x*x)", c.full(), S.mul(v, xx).full(), jc), ("cube=(x*x)*x", c.full(), S.mul(xx, v).full(), jc)):
            p = Prover(dom(nm, LO, HI), j, qt=6.0)
            p.prove([Eq(SLOTNAME[k], got[k], want[k]) for k in range(8)], label="%s %s" % (lab, NAME[t]))
            rec.prover(p)
        env = spread(nm, "c28" + t)
        for j in (jsq, jc, js):
            bad, d = j(env)
            if bad and not rec.violations: rec.bad("sq/cube " + NAME[t], env, d)
        for f, r in (("sq", s), ("cube", c)):
            validate(rec, gf, "h_%s_%s" % (f, t), [ga.vals(env, "a", t), 8], r.full(), env)
    return "powers " + t, run

def blade(gs, t, sign):
    gf, gm = gs
    def run(rec):
        S, N = Sym(*gs), Nat(*gs)
        nm = ga.names("a", t); v = V(t, ga.ins("a", t))
        x = S.mul(v, v).full(); q = S.fun("magSq", v).c[0]; mg = S.fun("magnitude", v).c[0]
        def judge(m):
            xs = V(t, ga.vals(m, "a", t))
            if not indomain(xs.c): return False, None
            p = N.mul(xs, xs).full(); w = sign * sum(Fr(y) ** 2 for y in xs.c); mag = N.fun("magnitude", xs).c[0]
            d = dict(x=xs.c, product=p, expected=float(w), magnitude=mag)
            if not all(fin(y) for y in p) or not fin(mag) or any(abs(Fr(y)) > 32 * U * abs(w) for y in p[1:]): return True, d
            return abs(Fr(p[0]) - w) > 32 * U * abs(w) or abs(Fr(mag) ** 2 - abs(w)) > 64 * U * abs(w), d
        p = Prover(dom(nm), judge, qt=6.0)
        mul = ga.Terms.mul
        sg = lambda y: y if sign > 0 else fop("fneg", y)
        p.prove([Eq("scalar part is %s|x|^2" % ("" if sign > 0 else "-"), x[0], sg(q)), Eq("scalar part is the signed square of magnitude", x[0], sg(mul(mg, mg)))] +
                [Eq("no " + SLOTNAME[k], x[k], F(0.0)) for k in range(1, 8)], label="%s*%s" % (NAME[t], NAME[t]))
        env = spread(nm, "c28b" + t)
        bad, d = judge(env)
        if bad and not p.violations: rec.bad("square of " + NAME[t], env, d)
        rec.prover(p)
    return "blade " + t, run

def run(ctx):
    gs = ctx.load("func", "mul")
    ctx.method = "symbolic execution; sq compared with x*x as IEEE terms (exact rewriting, FP SMT); cube and blade squares as polynomial identities decided by z3"
    ctx.bounds = dict(sq="all bit patterns", cube="zero or 1e-90..1e90", blades="zero or 1e-150..1e150")
    ctx.assume("cube and blade squares: real-number semantics, rounding bounded under C10")
    ctx.par([powers(gs, t) for t in ("D", "S", "P", "C", "M")] + [blade(gs, t, s) for t, s in (("S", 1), ("V", 1), ("B", -1), ("T", -1))])
