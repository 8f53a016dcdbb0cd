"""exp(B) turns vectors by 2|B| in the plane of B and leaves its normal alone."""
from .alg import *
LO, HI = Fr(10) ** -20, Fr(10) ** 3
TOL = Fr(1, 10 ** 9)

def sand(o, R, v): return o.mul(o.mul(R, v), o.uni("rev", R))
def sandr(o, R, v): return o.mul(R, o.mul(v, o.uni("rev", R)))

def spec(b, v):
    """Rotation of v by the angle 2|b| from the second towards the first direction of each basis plane (mpmath)."""
    x = [mpf(t) for t in b]; y = [mpf(t) for t in v]
    th = mpmath.sqrt(sum(t * t for t in x))
    if th == 0: return y
    n = [t / th for t in x]
    c, s = mpmath.cos(2 * th), mpmath.sin(2 * th)
    nv = sum(p * q for p, q in zip(n, y))
    # n is dual to the plane; R v R~ with R = c + s B turns against the sense of B
    cr = [n[1] * y[2] - n[2] * y[1], n[2] * y[0] - n[0] * y[2], n[0] * y[1] - n[1] * y[0]]
    return [c * y[k] - s * cr[k] + (1 - c) * nv * n[k] for k in range(3)]

def task(gs, side, support):
    f = sand if side == "left" else sandr
    label = "exp sandwich %s, plane support %s" % (side, list(support))
    def run(rec):
        S, N = Sym(*gs), Nat(*gs)
        nb = ["b%d" % k for k in support]; nv = ["v0", "v1", "v2"]
        b = [tm.inp("b%d" % k) if k in support else F(0.0) for k in range(3)]
        v = [tm.inp(k) for k in nv]
        R = S.fun("exp", V("B", b))
        y = f(S, R, V("V", v)).full()
        for fn, res in S.results: nofaults(rec, res, fn)
        def arr(m): return [m["b%d" % k] if k in support else 0.0 for k in range(3)], [m[k] for k in nv]
        def judge(m):
            bb, vv = arr(m)
            if not indomain(bb, 1e-20, 1e3) or not indomain(vv, 1e-20, 1e3): return False, None
            g = f(N, N.fun("exp", V("B", bb)), V("V", vv)).full(); w = spec(bb, vv)
            e = mpmath.sqrt(sum(mpf(t) ** 2 for t in vv))
            d = dict(B=bb, v=vv, turned=g, expected=[float(t) for t in w])
            if not all(fin(t) for t in g): return True, d
            bad = any(abs(mpf(p) - q) > TOL_ * e for p, q in zip(g[1:4], w)) or any(abs(mpf(g[k])) > TOL_ * e for k in (0, 4, 5, 6, 7))
            return bad, d
        TOL_ = mpf(TOL)
        p = Prover(dom(nb, LO, HI, False) | dom(nv, LO, HI, True), judge, qt=6.0)
        mul, add, sub = ga.Terms.mul, ga.Terms.add, lambda p_, q_: fop("fsub", p_, q_)
        def dot(p_, q_):
            s = mul(p_[0], q_[0])
            for i in (1, 2): s = add(s, mul(p_[i], q_[i]))
            return s
        v2, b2 = dot(v, v), dot(b, b); vm = fop("sqrt", v2)
        turned = y[1:4]
        cl = [Eq("no " + SLOTNAME[k], y[k], F(0.0), vm, TOL) for k in (0, 4, 5, 6, 7)]
        cl += [Eq("length", dot(turned, turned), v2, v2, TOL)]
        if support:
            th = fop("sqrt", b2)
            c, s = fop("cos", th), fop("sin", th)
            nv_ = dot(b, v)
            cl.append(Eq("normal component", dot(b, turned), nv_, mul(th, vm), TOL))
            # cos 2t, sin 2t by the double angle formulas
            c2, s2 = sub(mul(c, c), mul(s, s)), mul(F(2.0), mul(s, c))
            u = [fop("fdiv", x, th) for x in b]
            cr = [sub(mul(u[1], v[2]), mul(u[2], v[1])), sub(mul(u[2], v[0]), mul(u[0], v[2])), sub(mul(u[0], v[1]), mul(u[1], v[0]))]
            un = dot(u, v)
            for k in range(3):
                w = add(sub(mul(c2, v[k]), mul(s2, cr[k])), mul(sub(F(1.0), c2), mul(un, u[k])))
                cl.append(Eq("turned " + SLOTNAME[1 + k], turned[k], w, vm, TOL))
        else:
            cl += [Eq("unchanged " + SLOTNAME[1 + k], turned[k], v[k], vm, TOL) for k in range(3)]
        p.prove(cl, assume=[tm.fcmp("ogt", v2, F(0.0))], label=label)
        for s in range(4):
            env = spread(nb + nv, "c34%d%s" % (s, label), 2.5)
            if s == 2: env = {k: x * (1e-5 if k[0] == "b" else 1) for k, x in env.items()}
            bad, d = judge(env); rec.replays += 1
            if bad and not p.violations: rec.bad(label, env, d); break
        rec.prover(p)
    return label, run

def inverse(gs, t, support):
    """exp(-q) = reverse of exp(q) for bivectors; exp(q) exp(-q) = 1"""
    label = "exp(q)exp(-q)=1 %s support %s" % (NAME[t], list(support))
    def run(rec):
        S, N = Sym(*gs), Nat(*gs)
        n = NC[t]
        nm = ["q%d" % k for k in support]
        q = [tm.inp("q%d" % k) if k in support else F(0.0) for k in range(n)]
        e = S.fun("exp", V(t, q)); f = S.fun("exp", S.uni("neg", V(t, q)))
        y = S.mul(e, f).full()
        for fn, res in S.results: nofaults(rec, res, fn)
        def arr(m): return [m["q%d" % k] if k in support else 0.0 for k in range(n)]
        def judge(m):
            x = arr(m)
            if not indomain(x, 1e-20, 50.0): return False, None
            a, b = N.fun("exp", V(t, x)), N.fun("exp", N.uni("neg", V(t, x)))
            g = N.mul(a, b).full()
            return any(not fin(z) or abs(z - w) > 1e-9 for z, w in zip(g, [1.0] + [0.0] * 7)), dict(q=x, exp=a.c, exp_minus=b.c, product=g)
        p = Prover(dom(nm, LO, Fr(50), False), judge, qt=6.0)
        p.prove([Eq(SLOTNAME[k], y[k], F(0.0 if k else 1.0), F(1.0), TOL) for k in range(8)], label=label)
        for s in range(3):
            env = spread(nm, "c34i%d%s" % (s, label), (2.5, 1e-5, 30.0)[s])
            bad, d = judge(env); rec.replays += 1
            if bad and not p.violations: rec.bad(label, env, d); break
        rec.prover(p)
    return label, run

def subsets(ks):
    ks = list(ks)
    return [tuple(k for i, k in enumerate(ks) if m >> i & 1) for m in range(1 << len(ks))]

def run(ctx):
    gs = ctx.load("func", "mul", "uni")
    ctx.method = ("composition of the encoded exp, product and reverse functions for a symbolic bivector and vector; the rotation formula (double angles) and the "
                  "length and normal conditions decided on every path with sqrt, sin, cos, exp as generators with their defining relations (QF_NRA)")
    ctx.bounds = dict(components="bivector: zero or 1e-20..1e3; vector: zero or 1e-20..1e3; exp(q)exp(-q): 1e-20..50", support="all patterns of zero components of the exponent; both bracketings of R v reverse(R)")
    ctx.assume("libm sin, cos, exp, sqrt correct to a few ulp", "real-number semantics with tolerance 1e-9")
    ts = [task(gs, s, u) for u in sorted(subsets(range(3)), key=lambda u: -len(u)) for s in ("left", "right")]
    ts += [inverse(gs, "B", u) for u in subsets(range(3))] + [inverse(gs, "P", u) for u in subsets(range(4))]
    ctx.par(ts)
