"""sqrtG2 is the principal square root of a spinor."""
from .c17 import *

PLANES = ((1, 2, 2), (0, -3, 4), (0, 1, 0))

def judge_root(xs, plane, y):
    if not all(fin(v) for v in y): return True
    if any(y[k] != 0 for k in (1, 2, 3, 7)): return True
    r = [Fr(y[k]) for k in (0, 4, 5, 6)]
    n = Fr(math.hypot(*xs)); t = TOL * n
    p = [r[0] * r[0] - r[1] ** 2 - r[2] ** 2 - r[3] ** 2] + [2 * r[0] * v for v in r[1:]]
    if any(abs(a - Fr(b)) > t for a, b in zip(p, xs)): return True
    if r[0] < 0 and r[0] * r[0] > Fr(10) ** -24 * n: return True
    if not any(xs[1:]) and xs[0] < 0:
        pl = [mpf(v) for v in (plane or [1.0, 0.0, 0.0])]
        m = mpmath.sqrt(sum(v * v for v in pl)); s = mpmath.sqrt(-mpf(xs[0]))
        return any(abs(mpf(y[4 + k]) - s * pl[k] / m) > mpf(TOL) * s for k in range(3))
    return False

def task(g, support, planed):
    label = "sqrtG2 support %s%s" % (list(support), " plane %s" % (planed,) if planed else "")
    def run(rec):
        nm, a, _, r, arr = setup(g, support, False, "root")
        pn = []
        if planed:
            # supplied plane t*(d0,d1,d2), t symbolic of either sign
            pn = ["t"]
            pl = [fop("fmul", tm.inp("t"), F(float(k))) if k else F(0.0) for k in planed]
            r = g.sym("h_rootp_P_B", a, pl, 8)
            arr0 = arr
            def arr(m): return arr0(m)[0], [m["t"] * k for k in planed]
        nofaults(rec, r, label)
        o = r.outs[0]
        def judge(m):
            xs, pl = arr(m)
            if not indomain(xs, 1e-12, 1e60) or math.hypot(*xs) <= 1e-12 or (planed and (not indomain(pl, 1e-60, 1e60) or not any(pl))): return False, None
            y = nat(g, xs, pl, "root")
            return judge_root(xs, pl, y), dict(q=xs, plane=pl, sqrtG2=y)
        d = dom(nm, LO, HI, False)
        for x in pn: d[x] = (PLO, PHI, False)
        p = Prover(d, judge, qt=6.0)
        def val(m):
            xs, pl = arr(m)
            return validate(rec, g, "h_root%s" % ("p_P_B" if planed else "_P"), [xs] + ([pl] if planed else []) + [8], o, m)
        p.validate = val
        mul, add = ga.Terms.mul, ga.Terms.add
        n2 = sq_([x for x in a if x.op == "in"]); n = fop("sqrt", n2); sn = fop("sqrt", n)
        v = o[4:7]; sp = [k for k in support if k]
        cl = [Eq("no " + SLOTNAME[k], o[k], F(0.0)) for k in (1, 2, 3, 7)]
        assume = [tm.fcmp("ogt", n2, tm.mk("ratc", (1, 10 ** 24), "F"))]
        if not planed: pl = [F(1.0), F(0.0), F(0.0)]
        pm = fop("fabs", fop("fmul", tm.inp("t"), F(math.sqrt(sum(k * k for k in planed))))) if planed else F(1.0)
        if not sp:
            # real spinor: sqrt(s), or sqrt(-s) times the plane
            neg = tm.fcmp("olt", a[0], F(0.0))
            cl.append(Eq("scalar", o[0], ite(neg, F(0.0), sn), sn, TOL))
            for k in range(3):
                cl.append(Eq("turn " + SLOTNAME[4 + k], v[k], ite(neg, fop("fdiv", mul(sn, pl[k]), pm), F(0.0)), sn, TOL))
        else:
            cl.append(Holds("scalar part not negative", tm.fcmp("oge", o[0], fop("fneg", mul(tm.mk("ratc", (1, 10 ** 12), "F"), sn)))))
            cl.append(Eq("square scalar", fop("fsub", mul(o[0], o[0]), sq_(v)), a[0], n, TOL))
            for k in range(3): cl.append(Eq("square " + SLOTNAME[4 + k], mul(F(2.0), mul(o[0], v[k])), a[1 + k], n, TOL))
        p.prove(cl, assume=assume, label=label)
        for s in range(6):
            env = spread(nm + pn, "c18%d%s" % (s, label), 2.5)
            if s == 3 and "a0" in env: env["a0"] = -abs(env["a0"]) * 1e5
            if s == 4 and "a0" in env: env["a0"] = abs(env["a0"]) * 3e6
            if s == 5 and "a0" in env: env["a0"] = -abs(env["a0"]) * 1e-9 * 3
            bad, dd = judge(env)
            if s < 3: val(env)
            rec.replays += 1
            if bad and not p.violations: rec.bad(label, env, dd); break
        rec.prover(p)
    return label, run

def tiny(g, support):
    label = "sqrtG2 tiny support %s" % list(support)
    def run(rec):
        nm, a, pn, r, arr = setup(g, support, False, "root")
        o = r.outs[0]
        lim = 4 * 2.0 ** -52 * (1 - 1e-9)
        def judge(m):
            xs, pl = arr(m)
            if math.hypot(*xs) > lim or not indomain(xs, 1e-140, 1e-15): return False, None
            y = nat(g, xs, None, "root")
            return any(v != 0 for v in y), dict(q=xs, sqrtG2=y)
        p = Prover(dom(nm, Fr(10) ** -140, Fr(10) ** -15, False), judge, qt=6.0)
        n2 = sq_([x for x in a if x.op == "in"])
        L = Fr(lim) ** 2
        p.prove([Eq(SLOTNAME[k], o[k], F(0.0)) for k in range(8)], assume=[tm.fcmp("ole", n2, tm.mk("ratc", (L.numerator, L.denominator), "F"))], label=label)
        rec.prover(p)
    return label, run

def run(ctx):
    g = ctx.load("func")
    ctx.method = ("symbolic execution per support pattern; the square of the result compared with the spinor on every path "
                  "(sqrt, log, exp, atan2, half angles axiomatised; QF_NRA); zero and invalid spinors over IEEE")
    ctx.bounds = dict(components="zero or 1e-12..1e60", magnitude="|q| > 1e-12; below 4 epsilons: components zero or 1e-140..1e-15", plane="t*(1,2,2), t*(0,-3,4), t*(0,1,0) for symbolic t of either sign, 1e-60..1e60",
                      support="all 15 patterns of non-zero components with the default plane; with a supplied plane at most two non-zero components in the quick tier")
    ctx.assume("libm log, exp, atan2, sin, cos, sqrt correct to a few ulp", "real-number semantics with tolerance 1e-7")
    ctx.par([special(g, "root")] + [task(g, s, pl) for s in SUPPORTS for pl in (None,) + PLANES if not pl or len(s) == 1 or len(s) == 2 and (pl == PLANES[0] or s == (0, 3)) or ctx.tier != "quick"] + [tiny(g, s) for s in SUPPORTS])
