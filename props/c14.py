"""inverse yields a two-sided inverse, and null when none exists."""
from .alg import *
LO, HI = Fr(10) ** -60, Fr(10) ** 60
COND = Fr(1, 10 ** 4)

def nz(a): return bor(*[bnot(tm.fcmp("oeq", x, F(0.0))) for x in a])

def cutproof(rec, g, a, A, inv, nm):
    """The inverse as a function of ampSq(m) = u + v I with u, v free, plus the polynomial identities
    dirverse(m) m = m dirverse(m) = u + v I.  True when both parts are established."""
    mul, add = ga.Terms.mul, ga.Terms.add
    q = g.sym("h_ampSq_M", a, 8).outs[0]
    D = ga.ginv("dir", A, ga.Terms)
    u, v = tm.inp("u"), tm.inp("v")
    if q[0].op == "in" or q[7].op == "in": return False
    c = tm.subst([F(0.0) if x is None else x for x in inv], {q[0]: u, q[7]: v})
    n = add(mul(u, u), mul(v, v))
    w = ga.z(ga.gp(ga.z([u] + [None] * 6 + [fop("fneg", v)]), ga.z(D), ga.Terms))
    d = dom(nm, LO, HI); d["u"] = d["v"] = (Fr(0), HI * HI * 16, True)
    p = Prover(d, None, qt=6.0)
    p.prove([Eq("inverse.%s" % SLOTNAME[k], c[k], fop("fdiv", w[k], n)) for k in range(8)],
            assume=[tm.fcmp("oge", n, tm.mk("ratc", (1, 10 ** 250), "F"))], label="h_inverse_M from ampSq")
    if p.undecided or p.violations or len(p.proved) == 0: return False
    p2 = Prover(dom(nm, LO, HI), None, qt=6.0)
    cl = []
    for side, pr in (("dirverse*x", ga.z(ga.gp(D, A, ga.Terms))), ("x*dirverse", ga.z(ga.gp(A, D, ga.Terms)))):
        cl += [Eq("%s.%s" % (side, SLOTNAME[k]), pr[k], q[k] if k in (0, 7) else F(0.0)) for k in range(8)]
    p2.prove(cl, label="h_inverse_M")
    if p2.undecided or p2.violations: return False
    rec.prover(p); rec.prover(p2)
    return True

def task(g, t):
    fn = "h_inverse_" + t
    def run(rec):
        X = Exact()
        nm = ga.names("a", t); a = ga.ins("a", t)
        r = g.sym(fn, a, 8); nofaults(rec, r, fn)
        o = r.outs[0]
        A = ga.embed(t, a, ga.Terms)
        inv = [o[k] if k in SLOTS[t] else None for k in range(8)]
        def amp(xs): return X.fun("ampSq", X.lift(V(t, xs)))
        def judge(m):
            xs = ga.vals(m, "a", t)
            if not indomain(xs, 1e-60, 1e60) or not any(xs): return False, None
            e = amp(xs)
            if t == "M" and e.c[0] ** 2 + e.c[7] ** 2 < COND ** 2 * sum(Fr(x) ** 2 for x in xs) ** 2: return False, None
            y = g.native(fn, xs, 8)[1][0]
            d = dict(function=fn, x=xs, inverse=y)
            if not all(fin(v) for v in y): return True, d
            if any(y[k] != 0 for k in range(8) if k not in SLOTS[t]): return True, d
            E0 = ga.embed(t, frs(xs)); E1 = frs(y)
            for side, pr in (("inverse*x", ga.gp(E1, E0)), ("x*inverse", ga.gp(E0, E1))):
                for k in range(8):
                    if abs(pr[k] - (1 if k == 0 else 0)) > Fr(1, 10 ** 9): return True, dict(d, side=side, product=[float(v) for v in pr])
            return False, None
        p = Prover(dom(nm, LO, HI), judge, qt=6.0); p.fastt = 0.5 if t == "M" else 4.0
        p.validate = lambda m: validate(rec, g, fn, [ga.vals(m, "a", t), 8], o, m)
        one = F(1.0)
        assume = [nz(a)]
        if t == "M":
            mul, add = ga.Terms.mul, ga.Terms.add
            w = ga.z(ga.gp(A, ga.ginv("dir", A, ga.Terms), ga.Terms))
            q = None
            for x in a: q = mul(x, x) if q is None else add(q, mul(x, x))
            k = tm.mk("ratc", ((COND ** 2).numerator, (COND ** 2).denominator), "F")
            assume = [tm.fcmp("oge", add(mul(w[0], w[0]), mul(w[7], w[7])), mul(k, mul(q, q))), tm.fcmp("oge", mul(q, q), tm.mk("ratc", (1, 10 ** 240), "F"))]
        cut = t == "M" and cutproof(rec, g, a, A, inv, nm)
        broken = False
        if t == "M" and not cut:
            for s in range(40):
                env = spread(nm, "c14q%d" % s)
                bad, d = judge(env)
                if bad: rec.bad(fn, env, d); broken = True; break
        if not cut and not broken:
            cl = []
            for side, pr in (("inverse*x", ga.z(ga.gp(inv, A, ga.Terms))), ("x*inverse", ga.z(ga.gp(A, inv, ga.Terms)))):
                cl += [Eq("%s.%s" % (side, SLOTNAME[k]), pr[k], one if k == 0 else F(0.0), one) for k in range(8)]
            p.prove(cl, assume=assume, label=fn)
        for s in range(3):
            env = spread(nm, "c14%d%s" % (s, t))
            bad, d = judge(env)
            validate(rec, g, fn, [ga.vals(env, "a", t), 8], o, env)
            if bad and not p.violations: rec.bad(fn, env, d); break
        rec.prover(p)
        outside(rec, g, fn, o, a, judge, dom(nm, LO, HI))
        # no inverse
        z = g.sym(fn, [F(0.0)] * NC[t], 8)
        y = g.native(fn, [0.0] * NC[t], 8)[1][0]; rec.replays += 1
        def j0(m):
            y = g.native(fn, [0.0] * NC[t], 8)[1][0]
            return all(isvalid(v) for v in y), dict(function=fn, x=[0.0] * NC[t], inverse=y)
        fp.prove(rec, fn + ":zero element", bnot(valid_t(*z.outs[0])), j0)
        if t == "M":
            w = ga.z(ga.gp(A, ga.ginv("dir", A, ga.Terms), ga.Terms))
            def j1(m):
                xs = ga.vals(m, "a", t)
                if not indomain(xs, 1e-60, 1e60): return False, None
                q = g.native("h_ampSq_M", xs, 8)[1][0]
                if any(q): return False, None
                y = g.native(fn, xs, 8)[1][0]
                return all(isvalid(v) for v in y), dict(function=fn, x=xs, ampSq=q, inverse=y)
            q = g.sym("h_ampSq_M", a, 8).outs[0]
            cases = [tm.subst(o, {q[0]: F(x), q[7]: F(y)}) for x in (0.0, -0.0) for y in (0.0, -0.0)]
            p = Prover(dom(nm, LO, HI), j1, qt=6.0)
            if all(fp.check(valid_t(*c), timeout=10.0, abstract=fp.ABS)[0] == "unsat" for c in cases): rec.ok(fn + ":ampSq zero")
            else:
                p.prove([Invalid("ampSq zero", o)], assume=[tm.fcmp("oeq", q[0], F(0.0)), tm.fcmp("oeq", q[7], F(0.0))], label=fn)
            for xs in ([1, 1, 0, 0, 0, 0, 0, 0], [5, 3, 4, 0, 0, 0, 0, 0], [0, 1, 0, 0, 0, 1, 0, 0], [2, 0, 0, 0, 0, 0, 0, 0]):
                rec.replays += 1
                bad, d = j1(dict(zip(nm, [float(x) for x in xs])))
                if bad and not p.violations: rec.bad(fn + ":ampSq zero", dict(zip(nm, xs)), d); break
            rec.prover(p)
    return fn, run

def run(ctx):
    g = ctx.load("func")
    ctx.method = "symbolic execution; both products with the encoded inverse compared with 1 as rational functions on every path (QF_NRA); zero cases over IEEE"
    ctx.bounds = dict(components="zero or 1e-60..1e60", multivector="|ampSq(m)| >= 1e-4 magSq(m)", types="four blades, ComPlex, MultiVector")
    ctx.assume("real-number semantics with tolerance 1e-9 for rounding", "complex division modelled on its finite fast path")
    ctx.par([task(g, t) for t in "MCSVBT"])
