"""logG2 is the principal logarithm of a spinor."""
from .alg import *
LO, HI = Fr(10) ** -12, Fr(10) ** 60
PLO, PHI = Fr(10) ** -60, Fr(10) ** 60
TOL = Fr(1, 10 ** 7)

def sq_(xs):
    s = None
    for v in xs: s = ga.Terms.mul(v, v) if s is None else ga.Terms.add(s, ga.Terms.mul(v, v))
    return s

def nat(g, xs, plane, fn="log"):
    return (g.native("h_%s_P" % fn, xs, 8) if plane is None else g.native("h_%sp_P_B" % fn, xs, plane, 8))[1][-1]

def judge_log(xs, plane, y):
    """Principal logarithm up to 1e-7, computed with mpmath."""
    q = [mpf(v) for v in xs]
    n = mpmath.sqrt(sum(v * v for v in q))
    if not all(fin(v) for v in y): return True
    if any(y[k] != 0 for k in (1, 2, 3, 7)): return True
    o = [mpf(y[k]) for k in (0, 4, 5, 6)]
    t = mpf(TOL)
    if abs(o[0] - mpmath.log(n)) > t * (1 + abs(mpmath.log(n))): return True
    th = mpmath.sqrt(sum(v * v for v in o[1:]))
    if th > mpmath.pi * (1 + t): return True
    sc = mpmath.sin(th) / th if th else mpmath.mpf(1)
    if abs(mpmath.cos(th) * n - q[0]) > t * n: return True
    if any(abs(sc * v * n - b) > t * n for v, b in zip(o[1:], q[1:])): return True
    if not any(xs[1:]):
        if xs[0] > 0: return any(v != 0 for v in o[1:])
        p = [mpf(v) for v in (plane or [1.0, 0.0, 0.0])]
        m = mpmath.sqrt(sum(v * v for v in p))
        return any(abs(v - mpmath.pi * b / m) > t for v, b in zip(o[1:], p))
    # short of a half turn by more than the special-case threshold: the plane is the spinor's own
    s = mpmath.sqrt(sum(v * v for v in q[1:]))
    if s > mpf(1e-6) * n:
        w = mpmath.atan2(s, q[0])
        return any(abs(v - w * b / s) > t * 10 for v, b in zip(o[1:], q[1:]))
    return False

def setup(g, support, planed, fn):
    nm = ["a%d" % k for k in support]
    a = [tm.inp("a%d" % k) if k in support else F(0.0) for k in range(4)]
    pn = ["b0", "b1", "b2"] if planed else []
    if planed: r = g.sym("h_%sp_P_B" % fn, a, ga.ins("b", "B"), 8)
    else: r = g.sym("h_%s_P" % fn, a, 8)
    def arr(m): return [m["a%d" % k] if k in support else 0.0 for k in range(4)], ([m[x] for x in pn] if planed else None)
    return nm, a, pn, r, arr

def task(g, support, planed):
    label = "logG2 support %s%s" % (list(support), " plane" if planed else "")
    def run(rec):
        nm, a, pn, r, arr = setup(g, support, planed, "log")
        nofaults(rec, r, label)
        o = r.outs[0]
        def judge(m):
            xs, pl = arr(m)
            if not indomain(xs, 1e-12, 1e60) or math.hypot(*xs) <= 1e-12 or (planed and (not indomain(pl, 1e-60, 1e60) or not any(pl))): return False, None
            y = nat(g, xs, pl)
            return judge_log(xs, pl, y), dict(q=xs, plane=pl, logG2=y)
        d = dom(nm, LO, HI, False)
        for x in pn: d[x] = (PLO, PHI, True)
        p = Prover(d, judge, qt=6.0)
        def val(m):
            xs, pl = arr(m)
            return validate(rec, g, "h_log%s" % ("p_P_B" if planed else "_P"), [xs] + ([pl] if planed else []) + [8], o, m)
        p.validate = val
        mul, add = ga.Terms.mul, ga.Terms.add
        n2 = sq_([x for x in a if x.op == "in"]); n = fop("sqrt", n2)
        ln = fop("log", n)
        one = F(1.0)
        cl = [Eq("scalar ln|q|", o[0], ln, add(one, fop("fabs", ln)), TOL)]
        v = o[4:7]
        sp = [k for k in support if k]
        cl += [Eq("no " + SLOTNAME[k], o[k], F(0.0)) for k in (1, 2, 3, 7)]
        assume = [tm.fcmp("ogt", n2, tm.mk("ratc", (1, 10 ** 24), "F"))]
        if planed: assume.append(bor(*[bnot(tm.fcmp("oeq", tm.inp(x), F(0.0))) for x in pn]))
        if not sp:
            pl = ga.ins("b", "B") if planed else [one, F(0.0), F(0.0)]
            pm = fop("sqrt", sq_(pl))
            neg = tm.fcmp("olt", a[0], F(0.0))
            for k in range(3):
                cl.append(Eq("turn " + SLOTNAME[4 + k], v[k], ite(neg, fop("fdiv", mul(F(math.pi), pl[k]), pm), F(0.0)), one, TOL))
        else:
            th = fop("sqrt", sq_(v))
            cl.append(Holds("theta<=pi", tm.fcmp("ole", th, F(3.1415927))))
            cl.append(Eq("|q|cos", mul(n, fop("cos", th)), a[0], n, TOL))
            # sin(theta)/theta, one when theta is zero
            z = tm.fcmp("oeq", th, F(0.0))
            sc = ite(z, one, fop("fdiv", fop("sin", th), ite(z, one, th)))
            for k in range(3): cl.append(Eq("|q|sin D " + SLOTNAME[4 + k], mul(n, mul(sc, v[k])), a[1 + k], n, TOL))
        if planed and sp:
            # same as with the default plane, unless that gave a half turn: then a half turn in the supplied plane
            r0 = g.sym("h_log_P", a, 8).outs[0]
            pm = fop("sqrt", sq_([tm.inp(x) for x in pn])); pi = F(math.pi)
            def near(x, y): return band(tm.fcmp("ole", fop("fsub", x, y), F(1e-8)), tm.fcmp("ole", fop("fsub", y, x), F(1e-8)))
            half = band(near(r0[4], pi), near(r0[5], F(0.0)), near(r0[6], F(0.0)), *[near(v[k], fop("fdiv", mul(pi, tm.inp(x)), pm)) for k, x in enumerate(pn)])
            cl = [Eq("scalar", o[0], r0[0], add(one, fop("fabs", r0[0])), TOL)] + [Eq("no " + SLOTNAME[k], o[k], F(0.0)) for k in (1, 2, 3, 7)]
            cl.append(Holds("supplied plane used for the half turn only", bor(band(*[tm.fcmp("oeq", x, y) for x, y in zip(v, r0[4:7])]), half)))
        p.prove(cl, assume=assume, label=label)
        for s in range(6):
            env = spread(nm + pn, "c17%d%s" % (s, label), 2.5)
            if s == 3 and "a0" in env: env["a0"] = -abs(env["a0"]) * 1e5
            if s == 4 and "a0" in env: env["a0"] = abs(env["a0"]) * 3e6
            if s == 5 and "a0" in env: env["a0"] = -abs(env["a0"]) * 1e-9 * 3
            bad, dd = judge(env)
            if s < 3: val(env)
            rec.replays += 1
            if bad and not p.violations: rec.bad(label, env, dd); break
        rec.prover(p)
    return label, run

def special(g, fn):
    """Zero spinor and invalid arguments."""
    def run(rec):
        for planed in (False, True):
            h = "h_%sp_P_B" % fn if planed else "h_%s_P" % fn
            nm = ["a%d" % k for k in range(4)]
            a = [tm.inp(x) for x in nm]; b = ga.ins("b", "B")
            ext = [b] if planed else []
            sl = (0, 4, 5, 6)
            o = g.sym(h, a, *(ext + [8])).outs[0]
            def plv(m): return [[m["b%d" % k] for k in range(3)]] if planed else []
            def judge(m, h=h, planed=planed, plv=plv):
                xs = [m[x] for x in nm]
                if all(isvalid(x) for x in xs): return False, None
                y = g.native(h, xs, *(plv(m) + [8]))[1][-1]
                return any(y[k] == y[k] for k in sl), dict(function=h, q=xs, result=y)
            fp.prove(rec, h + ":invalid spinor gives null", band(*[tm.fpclass(3, o[k]) for k in sl]), judge,
                     assume=bnot(valid_t(*a)), inputs=nm + (["b0", "b1", "b2"] if planed else []))
            z = [F(0.0)] * 4
            o = g.sym(h, z, *(ext + [8])).outs[0]
            def jz(m, h=h, planed=planed, plv=plv):
                y = g.native(h, [0.0] * 4, *(plv(m) + [8]))[1][-1]
                want = (lambda v: v != v) if fn == "log" else (lambda v: v == 0)
                return not all(want(y[k]) for k in sl), dict(function=h, q=[0.0] * 4, result=y)
            ok = [tm.fpclass(3, o[k]) if fn == "log" else tm.fcmp("oeq", o[k], F(0.0)) for k in sl]
            fp.prove(rec, h + ":zero spinor", band(*ok), jz, inputs=["b0", "b1", "b2"] if planed else [])
            rec.replays += 1
            bad, d = jz(dict(b0=1.0, b1=2.0, b2=3.0))
            if bad: rec.bad(h + ":zero spinor", {}, d)
    return "special", run

SUPPORTS = [tuple(k for k in range(4) if m >> k & 1) for m in range(15, 0, -1)]

def run(ctx):
    g = ctx.load("func")
    ctx.method = ("symbolic execution per support pattern; |q|cos(theta), |q|sin(theta)D and ln|q| of the result compared with the spinor on every path "
                  "(sqrt, log, atan2, sin, cos axiomatised; QF_NRA); zero and invalid spinors over IEEE")
    ctx.bounds = dict(components="zero or 1e-12..1e60", magnitude="|q| > 1e-12", plane="components zero or 1e-60..1e60, not all zero", support="all 15 patterns of non-zero components, default and supplied plane")
    ctx.assume("libm log, atan2, sin, cos, sqrt correct to a few ulp", "real-number semantics with tolerance 1e-7")
    ctx.par([special(g, "log")] + [task(g, s, pl) for s in SUPPORTS for pl in (False, True)])
