"""Comparisons obey the laws of a comparison, whichever type holds the element."""
from .util import *
from . import aliases
from .c20 import fn_of, truth, EPS
N = dict(NC, a1=1, a2=2, a3=3, a4=4, a6=6)
HASEQ = "SVBTPIM"

def ins(t):
    n = N[t]
    na = ["a%d" % k for k in range(n)]; nb = ["b%d" % k for k in range(n)]
    return [tm.inp(x) for x in na], [tm.inp(x) for x in nb], na, nb

def neg(x): return fop("fneg", x)
def iff(x, y): return bnot(tm.bxor(x, y))

def near(g, t, mode):
    """Laws of one tolerance comparison."""
    fn, fn0 = fn_of(t, mode, False), fn_of(t, mode, True)
    def run(rec):
        a, b, na, nb = ins(t)
        x, y = tm.inp("t"), tm.inp("u")
        nm = na + nb + ["t", "u"]
        S = lambda p, q, tol: truth(g.sym(fn, p, q, [tol]))
        def nat(p, q, tol): return bool(g.native(fn, p, q, [tol])[0])
        def vals(m): return [m[k] for k in na], [m[k] for k in nb]
        # default tolerance
        d0 = truth(g.sym(fn0, a, b)); d1 = S(a, b, F(EPS))
        def j_def(m):
            p, q = vals(m)
            u, v = bool(g.native(fn0, p, q)[0]), nat(p, q, EPS)
            return u != v, dict(function=fn0, a=p, b=q, default=u, explicit_epsilon=v)
        fp.prove(rec, fn0 + ":default tolerance is epsilon", iff(d0, d1), j_def, inputs=na + nb)
        # wider tolerance
        w1, w2 = S(a, b, x), S(a, b, y)
        def j_mono(m):
            p, q = vals(m)
            u, v = nat(p, q, m["t"]), nat(p, q, m["u"])
            return m["t"] <= m["u"] and u and not v, dict(function=fn, a=p, b=q, tol=[m["t"], m["u"]], got=[u, v])
        fp.prove(rec, fn + ":true stays true for a wider tolerance", bor(bnot(w1), w2), j_mono, assume=tm.fcmp("ole", x, y), inputs=nm)
        # NaN tolerance
        def j_nan(m):
            p, q = vals(m)
            return nat(p, q, math.nan), dict(function=fn, a=p, b=q, tol="nan")
        fp.prove(rec, fn + ":false for a NaN tolerance", bnot(S(a, b, F(math.nan))), j_nan, inputs=na + nb)
        # both operands negated
        n1 = S([neg(v) for v in a], [neg(v) for v in b], x)
        def j_neg(m):
            p, q = vals(m)
            u, v = nat(p, q, m["t"]), nat([-z for z in p], [-z for z in q], m["t"])
            return u != v, dict(function=fn, a=p, b=q, tol=m["t"], got=u, negated=v)
        fp.prove(rec, fn + ":unchanged when both operands are negated", iff(w1, n1), j_neg, inputs=na + nb + ["t"])
        # absolute mode: operands may be swapped
        if mode == "abs":
            s1 = S(b, a, x)
            def j_swap(m):
                p, q = vals(m)
                u, v = nat(p, q, m["t"]), nat(q, p, m["t"])
                return u != v, dict(function=fn, a=p, b=q, tol=m["t"], got=u, swapped=v)
            fp.prove(rec, fn + ":symmetric", iff(w1, s1), j_swap, inputs=na + nb + ["t"])
        # exact equality of valid values implies nearness
        eqs = band(valid_t(*a), valid_t(*b), tm.fcmp("ogt", x, F(0.0)), *[tm.fcmp("oeq", p, q) for p, q in zip(a, b)])
        def j_eq(m):
            p, q = vals(m)
            ok = all(isvalid(v) for v in p + q) and all(v == w for v, w in zip(p, q)) and m["t"] > 0
            return ok and not nat(p, q, m["t"]), dict(function=fn, a=p, b=q, tol=m["t"])
        fp.prove(rec, fn + ":equal valid values are near", w1, j_eq, assume=eqs, inputs=na + nb + ["t"])
    return fn, run

def embedded(g, t):
    """Comparing as MultiVectors gives the answer of the narrow type."""
    def run(rec):
        a, b, na, nb = ins(t)
        x = tm.inp("t")
        def up(c, z):
            o = [z] * 8
            for k, v in zip(SLOTS[t], c): o[k] = v
            return o
        A, Bm = up(a, F(0.0)), up(b, F(0.0))
        def vals(m): return [m[k] for k in na], [m[k] for k in nb]
        r1 = truth(g.sym("h_near_" + t, a, b, [x])); r2 = truth(g.sym("h_near_M", A, Bm, [x]))
        def j(m):
            p, q = vals(m)
            u = bool(g.native("h_near_" + t, p, q, [m["t"]])[0]); v = bool(g.native("h_near_M", up(p, 0.0), up(q, 0.0), [m["t"]])[0])
            return u != v, dict(type=NAME[t], a=p, b=q, tol=m["t"], got=u, as_MultiVector=v)
        fp.prove(rec, "nearlyEquals(%s) as MultiVector" % NAME[t], iff(r1, r2), j, inputs=na + nb + ["t"], stages=("abs",))
        v1 = truth(g.sym("h_valid_" + t, a)); v2 = truth(g.sym("h_valid_M", A))
        def jv(m):
            p = vals(dict({k: 0.0 for k in nb}, **m))[0]
            u = bool(g.native("h_valid_" + t, p)[0]); v = bool(g.native("h_valid_M", up(p, 0.0))[0])
            return u != v, dict(type=NAME[t], a=p, isValid=u, as_MultiVector=v)
        fp.prove(rec, "isValid(%s) as MultiVector" % NAME[t], iff(v1, v2), jv, inputs=na)
        if t in HASEQ:
            e1, e2 = g.sym("h_eq_" + t, a, b), g.sym("h_eq_M", A, Bm)
            if not (tm.isc(e1.ret) and tm.sval(e1.ret) == -1):
                def je(m):
                    p, q = vals(m)
                    u = bool(g.native("h_eq_" + t, p, q)[0]); v = bool(g.native("h_eq_M", up(p, 0.0), up(q, 0.0))[0])
                    return u != v, dict(type=NAME[t], a=p, b=q, equal=u, as_MultiVector=v)
                fp.prove(rec, "operator==(%s) as MultiVector" % NAME[t], iff(truth(e1), truth(e2)), je, inputs=na + nb)
    return "embedded " + t, run

def equality(g, t):
    """operator== is transitive; reflexive unless a component is NaN."""
    fn = "h_eq_" + t
    def run(rec):
        a, b, na, nb = ins(t)
        nc = ["c%d" % k for k in range(N[t])]; c = [tm.inp(k) for k in nc]
        r = g.sym(fn, a, b)
        if tm.isc(r.ret) and tm.sval(r.ret) == -1: rec.bad(fn, {}, "operator== no longer provided"); return
        ab, bc, ac, aa = truth(r), truth(g.sym(fn, b, c)), truth(g.sym(fn, a, c)), truth(g.sym(fn, a, a))
        def nat(p, q): return bool(g.native(fn, p, q)[0])
        def jt(m):
            p, q, s = [[m[k] for k in n] for n in (na, nb, nc)]
            return nat(p, q) and nat(q, s) and not nat(p, s), dict(function=fn, a=p, b=q, c=s)
        fp.prove(rec, fn + ":transitive", bor(bnot(ab), bnot(bc), ac), jt, inputs=na + nb + nc)
        def jr(m):
            p = [m[k] for k in na]
            return nat(p, p) != all(v == v for v in p), dict(function=fn, a=p, equal_to_itself=nat(p, p))
        fp.prove(rec, fn + ":reflexive exactly without NaN", iff(aa, bnot(bor(*[tm.fpclass(3, v) for v in a]))), jr, inputs=na)
    return fn, run

def run(ctx):
    g = ctx.load("cmp")
    ctx.method = ("symbolic execution of the comparison functions on related argument lists (same values at two tolerances, negated, swapped, embedded into a "
                  "MultiVector); the relations decided over IEEE-754 doubles (bit-vector FP SMT; arithmetic abstracted by its IEEE laws, refined when needed)")
    ctx.bounds = dict(inputs="all bit patterns of all components and tolerances", types="double, all nine types, std::array of 1, 2, 3, 4 and 6 doubles")
    ts = [near(g, "D", m) for m in ("rel", "relx", "abs")] + [near(g, t, "rel") for t in TYPES if t != "D"] + [near(g, "a%d" % k, "rel") for k in (1, 2, 3, 4, 6)]
    ts += [embedded(g, t) for t in "SVBTPICX"] + [equality(g, t) for t in list(HASEQ) + ["a3"]]
    ts += aliases.tasks(ctx, "near", "neart", "neartol", "nearabs", "nearrel", "eq")
    ctx.par(ts)
