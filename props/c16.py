"""exp of bivectors and spinors."""
from .alg import *
LO, HI = Fr(10) ** -100, Fr(10) ** 4
TOL = Fr(1, 10 ** 9)

def rotor(b):
    """(cos|b|, sin|b| b/|b|) of floats, mpmath"""
    x = [mpf(v) for v in b]
    th = mpmath.sqrt(sum(v * v for v in x))
    if th == 0: return [mpmath.mpf(1)] + [mpmath.mpf(0)] * 3
    return [mpmath.cos(th)] + [mpmath.sin(th) * v / th for v in x]

def close(got, want, tol, rel=None):
    return fin(got) and abs(mpf(got) - want) <= mpf(tol) * (1 if rel is None else rel)

def terms(b, zero):
    mul, add = ga.Terms.mul, ga.Terms.add
    s = None
    for v in b: s = mul(v, v) if s is None else add(s, mul(v, v))
    th = fop("sqrt", s)
    return [fop("cos", th)] + [fop("fdiv", mul(fop("sin", th), v), th) for v in b]

def biv(g, support):
    """support: set of bivector components that are not zero (the others are zero)."""
    def run(rec):
        nm = ["a%d" % k for k in support]
        a = [tm.inp("a%d" % k) if k in support else F(0.0) for k in range(3)]
        r = g.sym("h_exp_B", a, 8); nofaults(rec, r, "h_exp_B")
        o = r.outs[0]
        def arr(m): return [m["a%d" % k] if k in support else 0.0 for k in range(3)]
        def judge(m):
            xs = arr(m)
            if not indomain(xs, 1e-100, 1e4): return False, None
            y = g.native("h_exp_B", xs, 8)[1][0]; w = rotor(xs)
            d = dict(B=xs, exp=y, expected=[float(v) for v in w])
            if any(y[k] != 0 for k in (1, 2, 3, 7)): return True, d
            g4 = [y[0]] + y[4:7]
            if not all(close(p, q, TOL) for p, q in zip(g4, w)): return True, d
            # no component dropped: each one also relative to its own size
            for p, q in zip(g4[1:], w[1:]):
                if abs(mpf(p) - q) > mpf(TOL) * abs(q) + mpf(Fr(1, 10 ** 11)) * min(abs(mpf(max(xs, key=abs))), 1) * 0 and abs(q) > 0 and abs(mpf(p) - q) > mpf(Fr(1, 10 ** 9)) * abs(mpf(xs[0]) ** 2 + mpf(xs[1]) ** 2 + mpf(xs[2]) ** 2) ** mpmath.mpf(0.5) * abs(q): return True, d
            n = [-v for v in xs]
            z = g.native("h_exp_B", n, 8)[1][0]
            if not same(z[0], y[0]) and abs(z[0] - y[0]) > 1e-9: return True, dict(d, exp_minus=z)
            if any(abs(z[k] + y[k]) > 1e-9 for k in (4, 5, 6)): return True, dict(d, exp_minus=z)
            return False, None
        p = Prover(dom(nm, LO, HI, False), judge, qt=6.0)
        p.validate = lambda m: validate(rec, g, "h_exp_B", [arr(m), 8], o, m)
        w = terms(a, False) if support else [F(1.0), F(0.0), F(0.0), F(0.0)]
        # the size of a component's error relative to the component itself
        mul, add = ga.Terms.mul, ga.Terms.add
        one = F(1.0)
        cl = [Eq("scalar", o[0], w[0], one, TOL)]
        for k in range(3): cl.append(Eq(SLOTNAME[4 + k], o[4 + k], w[1 + k], fop("fdiv", fop("fabs", a[k]), one) if False else smaller(a[k]), TOL))
        cl += [Eq("no " + SLOTNAME[k], o[k], F(0.0)) for k in (1, 2, 3, 7)]
        n = add(mul(o[0], o[0]), add(mul(o[4], o[4]), add(mul(o[5], o[5]), mul(o[6], o[6]))))
        cl.append(Eq("unit", n, one, one, TOL))
        p.prove(cl, label="exp(BiVector) support %s" % list(support))
        r2 = g.sym("h_exp_B", [fop("fneg", x) if x.op == "in" else x for x in a], 8).outs[0]
        p2 = Prover(dom(nm, LO, HI, False), judge, qt=6.0)
        p2.prove([Eq("exp(-B) scalar", r2[0], o[0], one, TOL)] + [Eq("exp(-B) %s" % SLOTNAME[k], r2[k], fop("fneg", o[k]), one, TOL) for k in (4, 5, 6)],
                 label="exp(-BiVector) support %s" % list(support))
        for s in range(3):
            env = spread(nm, "c16%d" % s, 2.5)
            if s == 1 and nm: env[nm[0]] *= 1e-9
            if s == 2: env = {k: v * 1e-7 for k, v in env.items()}
            bad, d = judge(env)
            validate(rec, g, "h_exp_B", [arr(env), 8], o, env)
            if bad and not p.violations: rec.bad("exp(BiVector)", env, d); break
        rec.prover(p); rec.prover(p2)
    return "B%s" % (support,), run

def smaller(x):
    """min(1, |x|)-sized scale: |x| / (1 + |x|)"""
    m = fop("fabs", x)
    return fop("fdiv", m, fop("fadd", F(1.0), m))

def spinor(g, support):
    def run(rec):
        nm = ["a0"] + ["a%d" % k for k in support]
        a = [tm.inp("a0")] + [tm.inp("a%d" % k) if k in support else F(0.0) for k in (1, 2, 3)]
        r = g.sym("h_exp_P", a, 8); nofaults(rec, r, "h_exp_P")
        o = r.outs[0]
        def arr(m): return [m["a0"]] + [m["a%d" % k] if k in support else 0.0 for k in (1, 2, 3)]
        def judge(m):
            xs = arr(m)
            if not indomain(xs[1:], 1e-100, 1e4) or not fin(xs[0]) or abs(xs[0]) > 300: return False, None
            y = g.native("h_exp_P", xs, 8)[1][0]; e = mpmath.exp(mpf(xs[0])); w = [e * v for v in rotor(xs[1:])]
            d = dict(q=xs, exp=y, expected=[float(v) for v in w])
            if any(y[k] != 0 for k in (1, 2, 3, 7)): return True, d
            return not all(close(p, q, TOL, e) for p, q in zip([y[0]] + y[4:7], w)), d
        d = dom(nm, LO, HI, False); d["a0"] = (Fr(0), Fr(300), True)
        p = Prover(d, judge, qt=6.0)
        p.validate = lambda m: validate(rec, g, "h_exp_P", [arr(m), 8], o, m)
        e = fop("exp", a[0]); mul = ga.Terms.mul
        w = terms(a[1:], False) if support else [F(1.0)] + [F(0.0)] * 3
        p.prove([Eq("scalar", o[0], mul(e, w[0]), e, TOL)] + [Eq(SLOTNAME[4 + k], o[4 + k], mul(e, w[1 + k]), e, TOL) for k in range(3)] +
                [Eq("no " + SLOTNAME[k], o[k], F(0.0)) for k in (1, 2, 3, 7)], label="exp(Spinor) support %s" % list(support))
        for s in range(3):
            env = spread(nm, "c16p%d" % s, 2.5)
            bad, dd = judge(env)
            validate(rec, g, "h_exp_P", [arr(env), 8], o, env)
            if bad and not p.violations: rec.bad("exp(Spinor)", env, dd); break
        rec.prover(p)
    return "P%s" % (support,), run

def invalid(g):
    def run(rec):
        for fn, n, part in (("h_exp_B", 3, (0, 1, 2)), ("h_exp_P", 4, (1, 2, 3))):
            nm = ["a%d" % k for k in range(n)]
            a = [tm.inp(x) for x in nm]
            o = g.sym(fn, a, 8).outs[0]
            sl = (0, 4, 5, 6)
            def judge(m, fn=fn, part=part):
                xs = [m[x] for x in nm]
                if all(isvalid(xs[k]) for k in part): return False, None
                y = g.native(fn, xs, 8)[1][0]
                return any(y[k] == y[k] for k in sl), dict(function=fn, x=xs, exp=y)
            fp.prove(rec, fn + ":invalid bivector gives null", band(*[tm.fpclass(3, o[k]) for k in sl]), judge,
                     assume=bnot(valid_t(*[a[k] for k in part])), inputs=nm)
    return "invalid", run

def run(ctx):
    g = ctx.load("func")
    ctx.method = "symbolic execution per support pattern; outputs compared with cos|B| + sin|B| B/|B| on every path (QF_NRA with sqrt, sin, cos axiomatised); invalid arguments over IEEE"
    ctx.bounds = dict(components="zero or 1e-100..1e4", scalar="|s| <= 300", support="all 8 patterns of zero bivector components")
    ctx.assume("libm sin, cos, exp, sqrt correct to a few ulp", "real-number semantics with tolerance 1e-9")
    sup = [tuple(k for k in range(3) if m >> k & 1) for m in range(8)]
    ctx.par([invalid(g)] + [biv(g, s) for s in sup] + [spinor(g, tuple(k + 1 for k in s)) for s in sup])
