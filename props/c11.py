"""Ring laws: associativity, distributivity and the commuting centre."""
from .alg import *
LO, HI = Fr(10) ** -90, Fr(10) ** 90

def task(gs, t1, t2, ts):
    def run(rec):
        n = 0
        for t3 in ts:
            v = [("a", t1), ("b", t2), ("c", t3)]
            N = "%s,%s,%s" % (NAME[t1], NAME[t2], NAME[t3])
            identity(rec, gs, "(A*B)*C=A*(B*C) " + N, v, lambda o, a, b, c: o.mul(o.mul(a, b), c), lambda o, a, b, c: o.mul(a, o.mul(b, c)), (LO, HI))
            identity(rec, gs, "A*(B+C) " + N, v, lambda o, a, b, c: o.mul(a, o.add(b, c)), lambda o, a, b, c: o.add(o.mul(a, b), o.mul(a, c)), (LO, HI))
            identity(rec, gs, "(A+B)*C " + N, v, lambda o, a, b, c: o.mul(o.add(a, b), c), lambda o, a, b, c: o.add(o.mul(a, c), o.mul(b, c)), (LO, HI))
            if rec.violations: return
    return "%s,%s" % (t1, t2), run

def scal(gs, t1, t2):
    def run(rec):
        v = [("s", "D"), ("a", t1), ("b", t2)]
        identity(rec, gs, "(sA)*B=s(A*B) %s,%s" % (NAME[t1], NAME[t2]), v, lambda o, s, a, b: o.mul(o.mul(s, a), b), lambda o, s, a, b: o.mul(s, o.mul(a, b)), (LO, HI))
        identity(rec, gs, "A*(sB)=s(A*B) %s,%s" % (NAME[t1], NAME[t2]), v, lambda o, s, a, b: o.mul(a, o.mul(s, b)), lambda o, s, a, b: o.mul(s, o.mul(a, b)), (LO, HI))
        if t1 in "DSTC":
            identity(rec, gs, "commutes %s,%s" % (NAME[t1], NAME[t2]), v[1:], lambda o, a, b: o.mul(a, b), lambda o, a, b: o.mul(b, a), (LO, HI))
    return "scalar %s,%s" % (t1, t2), run

def run(ctx):
    gs = ctx.load("mul", "addsub")
    ctx.method = "composition of the encoded product and sum functions for every type triple; both sides compared as real polynomials by z3"
    ctx.bounds = dict(triples="all triples of the ten types for which both sides exist", components="zero or 1e-90..1e90 (so that triple products stay in range)")
    ctx.assume("real-number semantics of + - *; rounding is bounded under C10")
    ctx.par([scal(gs, a, b) for a in TYPES for b in TYPES] + [task(gs, a, b, TYPES) for a in TYPES for b in TYPES])
