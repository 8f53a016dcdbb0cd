"""Norms and amplitudes of products are products of norms and amplitudes."""
from .alg import *
LO, HI = Fr(10) ** -60, Fr(10) ** 60
VERSOR = "DSVBTPIC"      # reverse(a)*a is a scalar for every a of these types
INV = "SVBTC"

def pair(gs, t1, t2):
    def run(rec):
        v = [("a", t1), ("b", t2)]
        nm = "%s,%s" % (NAME[t1], NAME[t2])
        if t1 in VERSOR or t2 in VERSOR:
            identity(rec, gs, "magSq(a*b)=magSq(a)magSq(b) " + nm, v, lambda o, a, b: o.fun("magSq", o.mul(a, b)),
                     lambda o, a, b: o.mul(o.fun("magSq", a), o.fun("magSq", b)), (LO, HI), n=256)
        identity(rec, gs, "ampSq(a*b)=ampSq(a)ampSq(b) " + nm, v, lambda o, a, b: o.fun("ampSq", o.mul(a, b)),
                 lambda o, a, b: o.mul(o.fun("ampSq", a), o.fun("ampSq", b)), (LO, HI), n=512)
    return "%s*%s" % (t1, t2), run

def magnitude(gs, t1, t2):
    """magnitude(a*b) = magnitude(a) magnitude(b)"""
    def run(rec):
        S, N = Sym(*gs), Nat(*gs)
        a, b = V(t1, ga.ins("a", t1)), V(t2, ga.ins("b", t2))
        nm = ga.names("a", t1) + ga.names("b", t2)
        try: p, x, y = [S.fun("magnitude", v).c[0] for v in (S.mul(a, b), a, b)]
        except Missing: return
        for fn, res in S.results: nofaults(rec, res, fn)
        def judge(m):
            u, v = V(t1, ga.vals(m, "a", t1)), V(t2, ga.vals(m, "b", t2))
            if not indomain(u.c + v.c, 1e-60, 1e60): return False, None
            g, i, j = [N.fun("magnitude", w).c[0] for w in (N.mul(u, v), u, v)]
            e = mpmath.sqrt(sum(mpf(w) ** 2 for w in u.c)) * mpmath.sqrt(sum(mpf(w) ** 2 for w in v.c))
            bad = not all(fin(w) and w >= 0 for w in (g, i, j)) or abs(mpf(g) - mpf(i) * mpf(j)) > 1e-13 * e
            return bad, dict(a=u.c, b=v.c, magnitude_ab=g, magnitude_a=i, magnitude_b=j)
        mul = ga.Terms.mul
        pr = Prover(dom(nm, LO, HI), judge, qt=6.0)
        pr.prove([Eq("squares", mul(p, p), mul(mul(x, x), mul(y, y)))] + [Holds("not negative", tm.fcmp("oge", v, F(0.0))) for v in (p, x, y)],
                 label="magnitude(a*b) %s,%s" % (NAME[t1], NAME[t2]))
        env = spread(nm, "c32" + t1 + t2); rec.replays += 1
        bad, d = judge(env)
        if bad and not pr.violations: rec.bad("magnitude of product", env, d)
        rec.prover(pr)
    return "magnitude %s*%s" % (t1, t2), run

def inverses(gs, t1, t2):
    """inverse(a*b) = inverse(b)*inverse(a); inverse(inverse(a)) = a"""
    def run(rec):
        S, N = Sym(*gs), Nat(*gs)
        a, b = V(t1, ga.ins("a", t1)), V(t2, ga.ins("b", t2))
        nm = ga.names("a", t1) + ga.names("b", t2)
        ab = S.mul(a, b)
        if not gs[0].has("h_inverse_" + ab.t): return
        lo, hi = Fr(10) ** -30, Fr(10) ** 30
        l = S.fun("inverse", ab).full(); r = S.mul(S.fun("inverse", b), S.fun("inverse", a)).full()
        for fn, res in S.results: nofaults(rec, res, fn)
        def ssq(v):
            s = None
            for x in v.c: s = ga.Terms.mul(x, x) if s is None else ga.Terms.add(s, ga.Terms.mul(x, x))
            return s
        def judge(m):
            u, v = V(t1, ga.vals(m, "a", t1)), V(t2, ga.vals(m, "b", t2))
            if not indomain(u.c + v.c, 1e-30, 1e30) or not any(u.c) or not any(v.c): return False, None
            p = N.fun("inverse", N.mul(u, v)).full(); q = N.mul(N.fun("inverse", v), N.fun("inverse", u)).full()
            e = 1 / (mpmath.sqrt(sum(mpf(w) ** 2 for w in u.c)) * mpmath.sqrt(sum(mpf(w) ** 2 for w in v.c)))
            bad = any(not (fin(x) and fin(y)) or abs(mpf(x) - mpf(y)) > 1e-12 * e for x, y in zip(p, q))
            return bad, dict(a=u.c, b=v.c, inverse_of_product=p, product_of_inverses=q)
        some = [bor(*[bnot(tm.fcmp("oeq", x, F(0.0))) for x in w.c]) for w in (a, b)]
        sc = fop("fdiv", F(1.0), fop("fmul", fop("sqrt", ssq(a)), fop("sqrt", ssq(b))))
        pr = Prover(dom(nm, lo, hi), judge, qt=6.0)
        pr.prove([Eq(SLOTNAME[k], l[k], r[k]) for k in range(8)], assume=some, label="inverse(a*b) %s,%s" % (NAME[t1], NAME[t2]))
        env = spread(nm, "c32i" + t1 + t2); rec.replays += 1
        bad, d = judge(env)
        if bad and not pr.violations: rec.bad("inverse of product", env, d)
        rec.prover(pr)
        if t1 != t2: return
        x = V(t1, ga.ins("a", t1)); y = S.fun("inverse", S.fun("inverse", x)).full(); z = x.full()
        def judge2(m):
            u = V(t1, ga.vals(m, "a", t1))
            if not indomain(u.c, 1e-30, 1e30) or not any(u.c): return False, None
            p = N.fun("inverse", N.fun("inverse", u)).full(); w = u.full()
            e = mpmath.sqrt(sum(mpf(q) ** 2 for q in u.c))
            return any(not fin(q) or abs(mpf(q) - mpf(r)) > 1e-12 * e for q, r in zip(p, w)), dict(a=u.c, inverse_of_inverse=p)
        pr = Prover(dom(ga.names("a", t1), lo, hi), judge2, qt=6.0)
        pr.prove([Eq(SLOTNAME[k], y[k], z[k]) for k in range(8)], assume=some[:1], label="inverse(inverse(a)) %s" % NAME[t1])
        rec.prover(pr)
    return "inverse %s*%s" % (t1, t2), run

def run(ctx):
    gs = ctx.load("func", "mul", "uni")
    ctx.method = ("composition of the encoded product, magSq, magnitude, ampSq and inverse functions on symbolic operands; degree-4 polynomial identities and "
                  "identities with square roots and quotients decided exactly by normalisation and z3 (QF_NRA)")
    ctx.bounds = dict(components="zero or 1e-60..1e60 (inverse: 1e-30..1e30)", types="all pairs of the ten types for ampSq; pairs with a versor type (all but DirPlex, MultiVector) for magSq and magnitude; Scalar Vector BiVector TriVector ComPlex for inverse")
    ctx.assume("real-number semantics; rounding is bounded under C10")
    ts = [pair(gs, a, b) for a in reversed(TYPES) for b in reversed(TYPES)]
    ts += [magnitude(gs, a, b) for a in TYPES for b in TYPES if (a in VERSOR or b in VERSOR)]
    ts += [inverses(gs, a, b) for a in INV for b in INV]
    ctx.par(ts)
