"""exp of a MultiVector is the exponential series."""
from .alg import *
LO, HI = Fr(10) ** -100, Fr(8)
TOL = Fr(1, 10 ** 9)
mpmath.mp.dps = max(mpmath.mp.dps, 40)

def gpm(a, b):
    o = [mpmath.mpf(0)] * 8
    for i in range(8):
        if not a[i]: continue
        for j in range(8):
            if not b[j]: continue
            s, k = ga.TABLE[i][j]
            o[k] += s * a[i] * b[j]
    return o

def series(xs):
    """Sum of x^k / k! in 60 digits (scaling and squaring of the argument keeps the series short)."""
    old = mpmath.mp.dps
    mpmath.mp.dps = 60
    try:
        x = [mpf(v) for v in xs]
        n = sum(abs(v) for v in x); k = 0
        while n > 1: n /= 2; k += 1
        x = [v / 2 ** k for v in x]
        s = [mpmath.mpf(1)] + [mpmath.mpf(0)] * 7; t = list(s)
        for i in range(1, 60):
            t = [v / i for v in gpm(t, x)]
            s = [p + q for p, q in zip(s, t)]
        for _ in range(k): s = gpm(s, s)
        return s
    finally: mpmath.mp.dps = old

def judge_exp(g, xs):
    if not indomain(xs, 1e-100, 8.0): return False, None
    y = g.native("h_exp_M", xs, 8)[1][0]
    w = series(xs)
    # exponential of the size (norm of left multiplication by x is at most |vector-like parts| + ...)
    size = mpmath.exp(mpmath.sqrt(sum(mpf(v) ** 2 for v in xs)))
    d = dict(M=xs, exp=y, expected=[float(v) for v in w])
    return any(not fin(p) or abs(mpf(p) - q) > mpf(TOL) * size for p, q in zip(y, w)), d

def spec(a, root=None, circ=False):
    """e^C (cosh z + sinh z / z D), z z = D D, on terms; series of sinh z / z below 1e-4.
    root: symbols standing for z; circ: the root is that of -D D (cos, sin instead of cosh, sinh)."""
    T = ga.Terms
    v, u = a[1:4], a[4:7]
    mul, add, sub = T.mul, T.add, (lambda x, y: fop("fsub", x, y))
    def dot(x, y):
        s = None
        for p, q in zip(x, y): s = mul(p, q) if s is None else add(s, mul(p, q))
        return s
    wr = sub(dot(v, v), dot(u, u)); wi = mul(F(2.0), dot(v, u))
    z = root or (fop("csqrt_re", wr, wi), fop("csqrt_im", wr, wi))
    def cm(p, q): return sub(mul(p[0], q[0]), mul(p[1], q[1])), add(mul(p[0], q[1]), mul(p[1], q[0]))
    ch, sh = [(fop(f + "_re", *z), fop(f + "_im", *z)) for f in (("ccos", "csin") if circ else ("ccosh", "csinh"))]
    sc = fop("divdc3_re", sh[0], sh[1], *z), fop("divdc3_im", sh[0], sh[1], *z)
    w2 = cm((wr, wi), (wr, wi))
    c6, c120 = tm.mk("ratc", (1, 6), "F"), tm.mk("ratc", (1, 120), "F")
    ser = add(add(F(1.0), mul(wr, c6)), mul(w2[0], c120)), add(mul(wi, c6), mul(w2[1], c120))
    small = tm.fcmp("olt", fop("hypot", *z), F(1e-4))
    sc = ite(small, ser[0], sc[0]), ite(small, ser[1], sc[1])
    ex = fop("cexp_re", a[0], a[7]), fop("cexp_im", a[0], a[7])
    c = cm(ex, ch); s = cm(ex, sc)
    # (s0 + I s1)(v + I u) = (s0 v - s1 u) + I (s0 u + s1 v)
    if root is None and circ is None: return wr, wi
    return ([c[0]] + [sub(mul(s[0], v[k]), mul(s[1], u[k])) for k in range(3)] +
            [add(mul(s[0], u[k]), mul(s[1], v[k])) for k in range(3)] + [c[1]])

def cutproof(rec, o, a, nm, label):
    """The complex root replaced by free symbols: proves the identity for any value of the root.
    True when established; requires that the code takes one complex root, of D D or of -D D."""
    roots = {t.args for t in tm.postorder(o) if t.sort == "F" and t.op in ("csqrt_re", "csqrt_im")}
    if len(roots) != 1: return False
    (x, y), = roots
    if x.op == "c" and y.op == "c": return False
    w = spec(a, None, None)
    for circ in (False, True):
        s = (lambda t: fop("fneg", t)) if circ else (lambda t: t)
        p = Prover(dom(nm, LO, HI, False), None, qt=3.0)
        p.prove([Eq("radicand re", x, s(w[0])), Eq("radicand im", y, s(w[1]))], label=label)
        if not (p.undecided or p.violations): break
    else: return False
    z = tm.inp("zr"), tm.inp("zi")
    cut = tm.subst(o, {fop("csqrt_re", x, y): z[0], fop("csqrt_im", x, y): z[1]})
    d = dom(nm, LO, HI, False); d["zr"] = d["zi"] = (Fr(0), Fr(100), True)
    p2 = Prover(d, None, qt=4.0)
    sp = spec(a, z, circ)
    p2.prove([Eq(SLOTNAME[k], cut[k], sp[k], F(1.0), TOL) for k in range(8)], assume=[bor(tm.fcmp("ogt", fop("fabs", z[0]), F(0.0)), tm.fcmp("ogt", fop("fabs", z[1]), F(0.0)))], label=label)
    if p2.undecided or p2.violations or not p2.proved: return False
    p3 = Prover(d, None, qt=4.0)
    zero = {z[0]: F(0.0), z[1]: F(0.0)}
    cz, sz = tm.subst(cut, zero), tm.subst(sp, zero)
    p3.prove([Eq("root zero " + SLOTNAME[k], cz[k], sz[k], F(1.0), TOL) for k in range(8)], label=label)
    if p3.undecided or p3.violations or not p3.proved: return False
    for q in (p, p2, p3): rec.prover(q)
    return True

def task(g, support):
    label = "exp(MultiVector) support %s" % (list(support),)
    def run(rec):
        nm = ["a%d" % k for k in support]
        a = [tm.inp("a%d" % k) if k in support else F(0.0) for k in range(8)]
        r = g.sym("h_exp_M", a, 8); nofaults(rec, r, "h_exp_M")
        o = r.outs[0]
        def arr(m): return [m["a%d" % k] if k in support else 0.0 for k in range(8)]
        def judge(m): return judge_exp(g, arr(m))
        p = Prover(dom(nm, LO, HI, False), judge, qt=6.0)
        val = lambda m: validate(rec, g, "h_exp_M", [arr(m), 8], o, m)
        p.validate = val
        w = spec(a)
        if not cutproof(rec, o, a, nm, label): p.prove([Eq(SLOTNAME[k], o[k], w[k], F(1.0), TOL) for k in range(8)], label=label)
        for s in range(5):
            env = spread(nm, "c30%d%s" % (s, label), 1.0)
            sc = (1.0, 1.0, 1e-6, 4.0, 0.02)[s]
            env = {k: max(-8.0, min(8.0, v * sc)) for k, v in env.items()}
            if s < 2: val(env)
            bad, d = judge(env)
            rec.replays += 1
            if bad and not p.violations: rec.bad(label, env, d); break
        rec.prover(p)
    return label, run

def invalid(g):
    def run(rec):
        nm = ["a%d" % k for k in range(8)]
        o = g.sym("h_exp_M", [tm.inp(x) for x in nm], 8).outs[0]
        def judge(m):
            xs = [m[x] for x in nm]
            if all(isvalid(v) for v in xs): return False, None
            y = g.native("h_exp_M", xs, 8)[1][0]
            return any(v == v for v in y), dict(M=xs, exp=y)
        fp.prove(rec, "invalid argument gives null", band(*[tm.fpclass(3, o[k]) for k in range(8)]), judge,
                 assume=bnot(valid_t(*[tm.inp(x) for x in nm])), inputs=nm)
    return "invalid", run

def run(ctx):
    g = ctx.load("func")
    ctx.method = "symbolic execution per support pattern; outputs compared on every path with e^C (cosh z + sinh(z)/z D), z^2 = D^2 (complex functions expanded into exp, sin, cos, csqrt generators; QF_NRA)"
    ctx.bounds = dict(components="zero or 1e-100..8", support="all 256 patterns of zero components")
    ctx.assume("libm exp, sin, cos, sqrt, std::complex functions correct to a few ulp", "real-number semantics with tolerance 1e-9",
               "1 + w/6 + w^2/120 equals sinh(sqrt w)/sqrt w to 1e-27 for |w| < 1e-8 (Taylor remainder)")
    sup = {tuple(k for k in range(8) if m >> k & 1) for m in range(256)}
    ctx.par([invalid(g)] + [task(g, s) for s in sorted(sup, key=lambda s: (-len(s), s))])
