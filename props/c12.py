"""Squared magnitude is the sum of squared components; magnitude its root."""
from .alg import *
LO, HI = Fr(10) ** -150, Fr(10) ** 150

def ssq(c):
    mul, add = ga.Terms.mul, ga.Terms.add
    o = mul(c[0], c[0])
    for x in c[1:]: o = add(o, mul(x, x))
    return o

def task(gs, t):
    gf, gu, gm = gs
    def run(rec):
        nm = ga.names("a", t); a = ga.ins("a", t)
        def jmag(fn):
            def judge(m):
                xs = ga.vals(m, "a", t)
                if not indomain(xs): return False, None
                v = gf.native(fn, xs, 8)[1][0][0]
                s = sum(Fr(x) ** 2 for x in xs)
                d = dict(function=fn, x=xs, got=v)
                if not fin(v) or v < 0: return True, d
                if (v == 0) != (s == 0): return True, d
                if fn.startswith("h_magSq"): return abs(Fr(v) - s) > 32 * U * s, dict(d, expected=float(s))
                return abs(Fr(v) ** 2 - s) > 64 * U * s, dict(d, expected=float(mpmath.sqrt(mpf(s))))
            return judge
        q = gf.sym("h_magSq_" + t, a, 8); nofaults(rec, q, "h_magSq_" + t)
        mg = gf.sym("h_magnitude_" + t, a, 8); nofaults(rec, mg, "h_magnitude_" + t)
        qs, ms = q.outs[0][0], mg.outs[0][0]
        allz = band(*[tm.fcmp("oeq", x, F(0.0)) for x in a])
        for fn, r, v in (("h_magSq_" + t, q, qs), ("h_magnitude_" + t, mg, ms)):
            j = jmag(fn)
            p = Prover(dom(nm), j, qt=6.0)
            cl = [Holds("non-negative", tm.fcmp("oge", v, F(0.0))), Holds("zero only for zero", bnot(tm.bxor(allz, tm.fcmp("oeq", v, F(0.0)))))]
            if r is q: cl.append(Eq("sum of squares", v, ssq(a)))
            else: cl.append(Eq("square is the sum of squares", ga.Terms.mul(v, v), ssq(a)))
            p.validate = lambda m, fn=fn, r=r: validate(rec, gf, fn, [ga.vals(m, "a", t), 8], r.outs[0], m)
            p.prove(cl, label=fn)
            env = spread(nm, fn)
            validate(rec, gf, fn, [ga.vals(env, "a", t), 8], r.outs[0], env)
            bad, d = j(env)
            if bad and not p.violations: rec.bad(fn, env, d)
            rec.prover(p)
            outside(rec, gf, fn, [v], a, j)
        # invariance, also as IEEE values
        S, N = Sym(*gs), Nat(*gs)
        for k in ("neg", "rev", "odd", "dir", "dual"):
            try: b = S.uni(k, V(t, a))
            except Missing: rec.note("%s(%s) not provided" % (k, NAME[t])); continue
            for f, ref, fi in (("magSq", qs, 32), ("magnitude", ms, 32)):
                got = gf.sym("h_%s_%s" % (f, b.t), b.c, 8).outs[0][0]
                def judge(m, k=k, f=f):
                    xs = ga.vals(m, "a", t)
                    if not indomain(xs): return False, None
                    x = N.fun(f, V(t, xs)).c[0]; y = N.fun(f, N.uni(k, V(t, xs))).c[0]
                    return not (fin(x) and fin(y)) or abs(Fr(x) - Fr(y)) > 64 * U * abs(Fr(x)), dict(function=f, of=k, x=xs, before=x, after=y)
                p = Prover(dom(nm), judge, qt=6.0)
                p.prove([Eq("unchanged", got, ref)] if f == "magSq" else
                        [Eq("unchanged (squares)", ga.Terms.mul(got, got), ga.Terms.mul(ref, ref)), Holds("non-negative", tm.fcmp("oge", got, F(0.0)))], label="%s(%s(%s))" % (f, k, NAME[t]))
                rec.prover(p)
        # homogeneity
        s = tm.inp("s")
        for order in ("s*x", "x*s"):
            try: b = S.mul(V("D", [s]), V(t, a)) if order == "s*x" else S.mul(V(t, a), V("D", [s]))
            except Missing: continue
            got = gf.sym("h_magnitude_" + b.t, b.c, 8).outs[0][0]
            def judge(m, order=order):
                xs, sv = ga.vals(m, "a", t), m["s"]
                if not indomain(xs + [sv], 1e-70, 1e70): return False, None
                y = N.mul(V("D", [sv]), V(t, xs)) if order == "s*x" else N.mul(V(t, xs), V("D", [sv]))
                v = N.fun("magnitude", y).c[0]; w = N.fun("magnitude", V(t, xs)).c[0]
                e = abs(Fr(sv)) * Fr(w) if fin(w) else 0
                return not (fin(v) and fin(w)) or abs(Fr(v) - e) > 128 * U * e, dict(s=sv, x=xs, magnitude_sx=v, magnitude_x=w, order=order)
            mul = ga.Terms.mul
            p = Prover(dom(nm + ["s"], Fr(10) ** -70, Fr(10) ** 70), judge, qt=6.0)
            p.prove([Eq("squares", mul(got, got), mul(mul(s, s), mul(ms, ms))), Holds("non-negative", tm.fcmp("oge", got, F(0.0)))], label="magnitude(%s) %s" % (order, NAME[t]))
            rec.prover(p)
    return t, run

def run(ctx):
    gs = ctx.load("func", "uni", "mul")
    ctx.method = "symbolic execution; real-arithmetic identities and sign conditions with sqrt axiomatised, decided by z3 (QF_NRA); intermediate range checked"
    ctx.bounds = dict(components="zero or 1e-150..1e150 (homogeneity: 1e-70..1e70)", types="all ten")
    ctx.assume("real-number semantics; rounding of the squared magnitude is bounded under C10, sqrt is correctly rounded")
    ctx.par([task(gs, t) for t in TYPES])
