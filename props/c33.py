"""The type an element is held in never changes a result."""
from .alg import *
LO, HI = Fr(10) ** -60, Fr(10) ** 60

class Up:
    """operations with every operand promoted to MultiVector first"""
    def __init__(self, o): self.o = o
    def up(self, v):
        if not isinstance(v, V): return v
        z = F(0.0) if isinstance(v.c[0], T) else 0.0
        c = [z] * 8
        for k, x in zip(SLOTS[v.t], v.c): c[k] = x
        return V("M", c)
    def mul(self, x, y): return self.o.mul(self.up(x), self.up(y))
    def add(self, x, y): return self.o.add(self.up(x), self.up(y))
    def sub(self, x, y): return self.o.sub(self.up(x), self.up(y))
    def uni(self, k, x): return self.o.uni(k, self.up(x))
    def fun(self, k, x): return self.o.fun(k, self.up(x))

def binary(gs, t1, t2):
    def run(rec):
        v = [("a", t1), ("b", t2)]
        nm = "%s,%s" % (NAME[t1], NAME[t2])
        for op in ("mul", "add"):
            f = lambda o, a, b, op=op: getattr(o, op)(a, b)
            identity(rec, gs, "%s as MultiVector %s" % (op, nm), v, f, lambda o, a, b, f=f: f(Up(o), a, b), (LO, HI))
    return "%s %s" % (t1, t2), run

def unary(gs, t):
    def run(rec):
        v = [("a", t)]
        for k in ("neg", "rev", "odd", "dir", "dual"):
            identity(rec, gs, "%s(%s) as MultiVector" % (k, NAME[t]), v, lambda o, a, k=k: o.uni(k, a), lambda o, a, k=k: Up(o).uni(k, a), (LO, HI))
        for k in ("magSq", "ampSq"):
            identity(rec, gs, "%s(%s) as MultiVector" % (k, NAME[t]), v, lambda o, a, k=k: o.fun(k, a), lambda o, a, k=k: Up(o).fun(k, a), (LO, HI))
        for k, e in (("sq", 2), ("cube", 3)):
            if t not in "SPC": continue
            identity(rec, gs, "%s(%s) as MultiVector" % (k, NAME[t]), v, lambda o, a, k=k: o.fun(k, a), lambda o, a, k=k: Up(o).fun(k, a), (Fr(10) ** -40, Fr(10) ** 40), n=256)
    return "unary " + t, run

def func(gs, t, k):
    """magnitude, amplitude, inverse: square roots and quotients"""
    label = "%s(%s) as MultiVector" % (k, NAME[t])
    def run(rec):
        g = gs[0]
        if not g.has("h_%s_%s" % (k, t)): return
        S, N = Sym(*gs), Nat(*gs)
        a = V(t, ga.ins("a", t)); nm = ga.names("a", t)
        try: x, y = S.fun(k, a).full(), Up(S).fun(k, a).full()
        except Missing: return
        for fn, res in S.results: nofaults(rec, res, fn)
        lo, hi = Fr(10) ** -30, Fr(10) ** 30
        def judge(m):
            u = V(t, ga.vals(m, "a", t))
            if not indomain(u.c, 1e-30, 1e30) or not any(u.c): return False, None
            p, q = N.fun(k, u).full(), Up(N).fun(k, u).full()
            if k == "amplitude":
                # on the branch cut (negative real squares) the sign of a zero selects the root: either one
                s = sum(mpf(w) ** 2 for w in u.c)
                d = dict(function=k, type=NAME[t], a=u.c, got=p, as_MultiVector=q)
                if not all(fin(v) for v in p + q) or p[1:7] != q[1:7]: return True, d
                if min(p[0], q[0]) < 0: return True, d
                c, e = mpmath.mpc(mpf(p[0]), mpf(p[7])), mpmath.mpc(mpf(q[0]), mpf(q[7]))
                return abs(c * c - e * e) > 1e-11 * s, d
            s = mpmath.sqrt(sum(mpf(w) ** 2 for w in u.c)); e = 1 / s if k == "inverse" else s
            return any(not (fin(v) and fin(w)) or abs(mpf(v) - mpf(w)) > 1e-11 * e for v, w in zip(p, q)), dict(function=k, type=NAME[t], a=u.c, got=p, as_MultiVector=q)
        pr = Prover(dom(nm, lo, hi), judge, qt=6.0)
        some = [bor(*[bnot(tm.fcmp("oeq", v, F(0.0))) for v in a.c])]
        if k == "magnitude":
            mul = ga.Terms.mul
            cl = [Eq("squares", mul(x[0], x[0]), mul(y[0], y[0])), Holds("not negative", band(tm.fcmp("oge", x[0], F(0.0)), tm.fcmp("oge", y[0], F(0.0))))]
        elif k == "amplitude":
            mul, sub = ga.Terms.mul, lambda u, v: fop("fsub", u, v)
            sq = lambda w: (sub(mul(w[0], w[0]), mul(w[7], w[7])), mul(F(2.0), mul(w[0], w[7])))
            n = None
            for v in a.c: n = mul(v, v) if n is None else ga.Terms.add(n, mul(v, v))
            (r, i), (u, v) = sq(x), sq(y)
            cl = [Eq("square, real part", r, u, n, Fr(1, 10 ** 11)), Eq("square, imaginary part", i, v, n, Fr(1, 10 ** 11))]
            cl += [Eq(SLOTNAME[j], x[j], y[j]) for j in range(1, 7)] + [Holds("real part not negative", band(tm.fcmp("oge", x[0], F(0.0)), tm.fcmp("oge", y[0], F(0.0))))]
        else: cl = [Eq(SLOTNAME[j], x[j], y[j]) for j in range(8)]
        pr.prove(cl, assume=some, label=label)
        for s in range(4):
            env = spread(nm, "c33%d%s" % (s, label)); rec.replays += 1
            if s > 1:
                import random
                r = random.Random(s)
                env = {n: v * 10.0 ** r.randint(-12, 12) for n, v in env.items()}
            bad, d = judge(env)
            if bad and not pr.violations: rec.bad(label, env, d); break
        rec.prover(pr)
    return label, run

def run(ctx):
    gs = ctx.load("func", "mul", "uni", "addsub")
    ctx.method = ("symbolic execution of each function on an element held in a narrow type and on the same element held in a MultiVector; equality decided as real "
                  "polynomial, square-root or rational identities by normalisation and z3")
    ctx.bounds = dict(components="zero or 1e-60..1e60 (inverse, magnitude, amplitude: 1e-30..1e30; sq, cube: 1e-40..1e40)", types="all nine narrow types; all pairs for + and *",
                      functions="+ * negation reverse oddverse dirverse dual magSq ampSq magnitude amplitude inverse sq cube (exp is pinned down per type by C16 and C30, subtraction by C08)")
    ctx.assume("real-number semantics; rounding is bounded under C10")
    nar = [t for t in TYPES if t != "M"]
    ts = [binary(gs, a, b) for a in TYPES for b in TYPES if not a == b == "M"] + [unary(gs, t) for t in nar]
    ts += [func(gs, t, k) for t in nar for k in ("magnitude", "amplitude", "inverse")]
    ctx.par(ts)
