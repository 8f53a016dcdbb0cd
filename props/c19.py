"""Rotor sandwiches rotate."""
from .alg import *
LO, HI = Fr(10) ** -35, Fr(10) ** 35

def sand(o, r, a): return o.mul(o.mul(r, a), o.uni("rev", r))
def sandr(o, r, a): return o.mul(r, o.mul(a, o.uni("rev", r)))

def sandwich(gs, side, t):
    f = sand if side == "left" else sandr
    def run(rec):
        S, N = Sym(*gs), Nat(*gs)
        R, a, b = V("P", ga.ins("r", "P")), V(t, ga.ins("a", t)), V(t, ga.ins("b", t))
        nm = ga.names("r", "P") + ga.names("a", t) + ga.names("b", t)
        sl = SLOTS[t]; other = [7] if t == "V" else [0]
        x, y = f(S, R, a).full(), f(S, R, b).full()
        mul, add = ga.Terms.mul, ga.Terms.add
        def dot(p, q):
            s = mul(p[0], q[0])
            for i in range(1, len(p)): s = add(s, mul(p[i], q[i]))
            return s
        r2 = dot(R.c, R.c); r4 = mul(r2, r2)
        def nat(m):
            rr, aa, bb = (V(tt, ga.vals(m, p, tt)) for p, tt in (("r", "P"), ("a", t), ("b", t)))
            return rr, aa, bb, f(N, rr, aa).full(), f(N, rr, bb).full()
        def judge(m):
            rr, aa, bb, p, q = nat(m)
            if not indomain(rr.c + aa.c + bb.c, 1e-35, 1e35): return False, None
            n2 = sum(Fr(v) ** 2 for v in rr.c)
            ma = sum(abs(Fr(v)) for v in aa.c); mb = sum(abs(Fr(v)) for v in bb.c)
            d = dict(R=rr.c, a=aa.c, b=bb.c, sandwich_a=p, sandwich_b=q)
            if not all(fin(v) for v in p + q): return True, d
            P, Q = frs(p), frs(q)
            tol = 400 * U
            e = n2 * ma
            for k in range(8):
                if k not in sl and abs(P[k]) > tol * e: return True, dict(d, problem="component %s does not vanish" % SLOTNAME[k])
            nn = sum(P[k] ** 2 for k in sl); na = sum(Fr(v) ** 2 for v in aa.c)
            if abs(nn - n2 * n2 * na) > tol * n2 * n2 * ma * ma: return True, dict(d, problem="norm not scaled by |R|^2", got=float(nn), expected=float(n2 * n2 * na))
            dd = sum(P[k] * Q[k] for k in sl); da = sum(Fr(v) * Fr(w) for v, w in zip(aa.c, bb.c))
            if abs(dd - n2 * n2 * da) > tol * n2 * n2 * ma * mb: return True, dict(d, problem="inner product not preserved", got=float(dd), expected=float(n2 * n2 * da))
            return False, None
        p = Prover(dom(nm, LO, HI), judge, qt=6.0)
        cl = [Eq("no %s component" % SLOTNAME[k], x[k], F(0.0)) for k in range(8) if k not in sl]
        cl += [Eq("|a'|^2=|R|^4|a|^2", dot([x[k] for k in sl], [x[k] for k in sl]), mul(r4, dot(a.c, a.c))),
               Eq("a'.b'=|R|^4 a.b", dot([x[k] for k in sl], [y[k] for k in sl]), mul(r4, dot(a.c, b.c)))]
        # orientation: the sandwich is a proper rotation (e1 e2 e3 frame keeps its handedness)
        p.prove(cl, label="sandwich %s of %s" % (side, NAME[t]))
        env = spread(nm, "c19" + side + t)
        bad, d = judge(env)
        if bad and not p.violations: rec.bad("sandwich", env, d)
        ev = tm.evaluate(x, env); na = nat(env)[3]
        if all(abs(v - w) <= 1e-11 * 100 for v, w in zip(ev, na)): rec.validated += 1; rec.replays += 1
        else: rec.maybe("encoding", "differs")
        rec.prover(p)
    return "sandwich %s %s" % (side, t), run

def frame(gs, side):
    """The image of the frame is right handed: a' x b' . c' = |R|^6 a x b . c, on the basis vectors."""
    f = sand if side == "left" else sandr
    def run(rec):
        S, N = Sym(*gs), Nat(*gs)
        R = V("P", ga.ins("r", "P")); nm = ga.names("r", "P")
        E3 = [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]]
        cols = [f(S, R, V("V", [F(v) for v in e])).full()[1:4] for e in E3]
        mul, add, sub = ga.Terms.mul, ga.Terms.add, lambda u, v: fop("fsub", u, v)
        def det(c, M, A, Sb):
            return A(A(M(c[0][0], Sb(M(c[1][1], c[2][2]), M(c[1][2], c[2][1]))),
                       M(c[0][1], Sb(M(c[1][2], c[2][0]), M(c[1][0], c[2][2])))),
                     M(c[0][2], Sb(M(c[1][0], c[2][1]), M(c[1][1], c[2][0]))))
        r2 = None
        for v in R.c: r2 = mul(v, v) if r2 is None else add(r2, mul(v, v))
        def judge(m):
            rr = V("P", ga.vals(m, "r", "P"))
            if not indomain(rr.c, 1e-35, 1e35): return False, None
            c = [f(N, rr, V("V", e)).full()[1:4] for e in E3]
            if not all(fin(v) for w in c for v in w): return True, dict(R=rr.c, images=c)
            D = det([frs(w) for w in c], lambda u, v: u * v, lambda u, v: u + v, lambda u, v: u - v)
            n2 = sum(Fr(v) ** 2 for v in rr.c)
            return abs(D - n2 ** 3) > 2000 * U * n2 ** 3, dict(R=rr.c, determinant=float(D), expected=float(n2 ** 3), images=c)
        p = Prover(dom(nm, LO, HI), judge, qt=6.0)
        p.prove([Eq("determinant is |R|^6", det(cols, mul, add, sub), mul(mul(r2, r2), r2))], label="frame " + side)
        rec.prover(p)
        # sense of rotation: R = c + s e12 turns e1 towards ... exactly as the algebra's own product table says
        A = ga.gp(ga.gp(ga.embed("P", R.c, ga.Terms), ga.embed("V", ga.ins("a", "V"), ga.Terms), ga.Terms), ga.ginv("rev", ga.embed("P", R.c, ga.Terms), ga.Terms), ga.Terms)
        x = f(S, R, V("V", ga.ins("a", "V"))).full()
        def judge2(m):
            rr, aa = V("P", ga.vals(m, "r", "P")), V("V", ga.vals(m, "a", "V"))
            if not indomain(rr.c + aa.c, 1e-35, 1e35): return False, None
            got = f(N, rr, aa).full()
            eR, ea = ga.embed("P", frs(rr.c)), ga.embed("V", frs(aa.c))
            w = ga.gp(ga.gp(eR, ea), ga.ginv("rev", eR)); t = ga.gpabs(ga.gpabs(eR, ea), eR)
            for k in range(8):
                if not fin(got[k]) or abs(Fr(got[k]) - w[k]) > 64 * U * t[k]: return True, dict(R=rr.c, a=aa.c, got=got, expected=[float(v) for v in w])
            return False, None
        nm2 = nm + ga.names("a", "V")
        p = Prover(dom(nm2, LO, HI), judge2, qt=6.0)
        p.prove([Eq(SLOTNAME[k], x[k], w) for k, w in enumerate(ga.z(A))], label="sandwich value " + side)
        rec.prover(p)
    return "frame " + side, run

def compose(gs, side, t):
    f = sand if side == "left" else sandr
    def run(rec):
        identity(rec, gs, "(R*S)x(R*S)~ = R(SxS~)R~ for %s" % NAME[t], [("r", "P"), ("s", "P"), ("a", t)],
                 lambda o, r, s, a: f(o, o.mul(r, s), a), lambda o, r, s, a: f(o, r, f(o, s, a)), (LO, HI), n=256)
    return "compose %s %s" % (side, t), run

def run(ctx):
    gs = ctx.load("mul", "uni")
    ctx.method = "composition of the encoded product and reverse functions for symbolic rotors and operands; degree 4 to 6 polynomial identities decided by z3"
    ctx.bounds = dict(components="zero or 1e-35..1e35 (so that sixth powers stay in range)", operands="vectors and bivectors; both bracketings of R*a*reverse(R)")
    ctx.assume("real-number semantics of + - *; rounding is bounded under C10")
    ts = [compose(gs, s, t) for s in ("left", "right") for t in "VB"]
    ts += [sandwich(gs, s, t) for s in ("left", "right") for t in "VB"] + [frame(gs, s) for s in ("left", "right")]
    ctx.par(ts)
