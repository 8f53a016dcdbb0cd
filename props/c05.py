"""Reverse and the other involutions distribute over products."""
from .alg import *
LO, HI = Fr(10) ** -150, Fr(10) ** 150

def task(gs, t1, t2):
    def run(rec):
        for k, anti in (("rev", True), ("odd", False), ("dir", True)):
            lhs = lambda o, a, b: o.uni(k, o.mul(a, b))
            rhs = (lambda o, a, b: o.mul(o.uni(k, b), o.uni(k, a))) if anti else (lambda o, a, b: o.mul(o.uni(k, a), o.uni(k, b)))
            n = "%s(%s*%s)" % (k, NAME[t1], NAME[t2])
            if not identity(rec, gs, n, [("a", t1), ("b", t2)], lhs, rhs, (LO, HI)): rec.note(n + ": not provided by the library")
    return "%s*%s" % (t1, t2), run

def run(ctx):
    gs = ctx.load("mul", "uni")
    ctx.method = "composition of the encoded product and involution functions; both sides compared as real polynomials by z3 (QF_NRA after sum-of-monomials expansion)"
    ctx.bounds = dict(pairs="all type pairs whose product and involutions exist", components="zero or 1e-150..1e150")
    ctx.assume("real-number semantics of + - *; rounding is bounded under C10")
    ctx.par([task(gs, a, b) for a in TYPES for b in TYPES])
