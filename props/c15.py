"""direction is unit and magnitude times direction rebuilds the element."""
from .alg import *
LO, HI = Fr(10) ** -140, Fr(10) ** 150

def task(g, t):
    def run(rec):
        nm = ga.names("a", t); a = ga.ins("a", t); n = NC[t]
        d = g.sym("h_direction_" + t, a, 8); m_ = g.sym("h_magnitude_" + t, a, 8); pr = g.sym("h_magdir_" + t, a, 9)
        for fn, r in (("h_direction_", d), ("h_magnitude_", m_), ("h_magdir_", pr)): nofaults(rec, r, fn + t)
        dv = [d.outs[0][k] for k in SLOTS[t]]; mg = m_.outs[0][0]
        mul, add = ga.Terms.mul, ga.Terms.add
        def nat(xs):
            return g.native("h_direction_" + t, xs, 8)[1][0], g.native("h_magnitude_" + t, xs, 8)[1][0][0], g.native("h_magdir_" + t, xs, 9)[1][0]
        def judge(m):
            xs = ga.vals(m, "a", t)
            if not indomain(xs, 1e-140, 1e150) or not any(xs): return False, None
            dd, mm, pp = nat(xs)
            det = dict(type=NAME[t], x=xs, direction=dd, magnitude=mm, pair=pp)
            if not all(fin(v) for v in dd) or not fin(mm): return True, det
            ds = [Fr(dd[k]) for k in SLOTS[t]]
            if abs(sum(v * v for v in ds) - 1) > Fr(2, 10 ** 12): return True, det
            for v, x in zip(ds, xs):
                if abs(Fr(mm) * v - Fr(x)) > Fr(1, 10 ** 12) * abs(Fr(x)): return True, det
            return [mm] + dd != pp, det
        def jpair(m):
            xs = ga.vals(m, "a", t)
            dd, mm, pp = nat(xs)
            return any(not same(x, y) for x, y in zip([mm] + dd, pp)), dict(type=NAME[t], x=xs, direction=dd, magnitude=mm, pair=pp)
        s = None
        for v in dv: s = mul(v, v) if s is None else add(s, mul(v, v))
        p = Prover(dom(nm, LO, HI), judge, qt=6.0)
        p.validate = lambda m: validate(rec, g, "h_magdir_" + t, [ga.vals(m, "a", t), 9], pr.outs[0], m)
        nz = bor(*[bnot(tm.fcmp("oeq", x, F(0.0))) for x in a])
        p.prove([Eq("unit", s, F(1.0), F(1.0), Fr(1, 10 ** 12))] + [Eq("rebuild[%d]" % k, mul(mg, v), a[k], fop("fabs", a[k]), Fr(1, 10 ** 12)) for k, v in enumerate(dv)],
                assume=[nz], label="direction(%s)" % NAME[t])
        env = spread(nm, "c15" + t)
        bad, det = judge(env)
        if bad and not p.violations: rec.bad("direction", env, det)
        validate(rec, g, "h_magdir_" + t, [ga.vals(env, "a", t), 9], pr.outs[0], env)
        rec.prover(p)
        outside(rec, g, "direction(%s)" % NAME[t], pr.outs[0], a, judge, dom(nm, LO, HI))
        for k, (x, y) in enumerate(zip([mg] + d.outs[0], pr.outs[0])):
            fp.prove(rec, "pairMagDirFrom(%s)[%d]" % (NAME[t], k), fp.same(x, y), jpair, inputs=nm)
        z = g.sym("h_magdir_" + t, [F(0.0)] * n, 9).outs[0]; zd = g.sym("h_direction_" + t, [F(0.0)] * n, 8).outs[0]
        def jz(m):
            dd, mm, pp = nat([0.0] * n)
            return not (mm == 0 and pp[0] == 0 and all(dd[k] != dd[k] and pp[1 + k] != pp[1 + k] for k in SLOTS[t])), dict(type=NAME[t], x="zero", direction=dd, magnitude=mm, pair=pp)
        nan = lambda x: tm.fpclass(3, x)
        fp.prove(rec, "zero %s" % NAME[t], band(tm.fcmp("oeq", z[0], F(0.0)), *[band(nan(z[1 + k]), nan(zd[k])) for k in SLOTS[t]]), jz)
        bad, det = jz({}); rec.replays += 1
        if bad and not rec.violations: rec.bad("zero", {}, det)
    return t, run

def run(ctx):
    g = ctx.load("func")
    ctx.method = "symbolic execution; unit length and rebuild as real rational identities with sqrt axiomatised (QF_NRA); the pair compared as IEEE terms"
    ctx.bounds = dict(components="zero or 1e-140..1e150, not all zero", types="four blades and Spinor")
    ctx.assume("real-number semantics with tolerance 1e-12; the claimed range keeps every intermediate normal (range obligation)")
    ctx.par([task(g, t) for t in "PVBST"])
