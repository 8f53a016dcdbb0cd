"""operator== is exact component equality over all grades."""
from .util import *
from . import aliases
N = dict(NC, a3=3)

def task(g, t):
    fn = "h_eq_" + t
    def run(rec):
        n = N[t]
        a = [tm.inp("a%d" % k) for k in range(n)]; b = [tm.inp("b%d" % k) for k in range(n)]
        nm = ["a%d" % k for k in range(n)] + ["b%d" % k for k in range(n)]
        r = g.sym(fn, a, b)
        if tm.isc(r.ret) and tm.sval(r.ret) == -1:
            rec.bad(fn, {}, "operator== no longer provided"); return
        nofaults(rec, r, fn)
        got = bnot(tm.icmp("eq", r.ret, tm.I(0, 32)))
        want = band(*[tm.fcmp("oeq", x, y) for x, y in zip(a, b)])
        def judge(m):
            xs = [m["a%d" % k] for k in range(n)]; ys = [m["b%d" % k] for k in range(n)]
            ret, _ = g.native(fn, xs, ys)
            w = all(x == y for x, y in zip(xs, ys))
            return bool(ret) != w, dict(function=fn, a=xs, b=ys, got=bool(ret), expected=w)
        iff = bnot(tm.bxor(got, want))
        fp.prove(rec, fn + ":never true for unequal components", bor(bnot(got), want), judge, inputs=nm)
        fp.prove(rec, fn + ":true for equal components", bor(bnot(want), got), judge, inputs=nm)
        r2 = g.sym(fn, b, a)
        got2 = bnot(tm.icmp("eq", r2.ret, tm.I(0, 32)))
        fp.prove(rec, fn + ":symmetric", bnot(tm.bxor(got, got2)), judge, inputs=nm)
        # operands with a NaN component never compare equal, whichever component it is
        for k in range(n):
            for s, o in ((a, "a"), (b, "b")):
                fp.prove(rec, "%s:NaN in %s%d" % (fn, o, k), bnot(got), judge, assume=tm.fpclass(3, s[k]), inputs=nm)
        for e1 in (0.5, -3.25):
            xs = [e1 + k for k in range(n)]
            ret, _ = g.native(fn, xs, xs)
            ev = tm.evaluate([got], {**{"a%d" % k: x for k, x in enumerate(xs)}, **{"b%d" % k: x for k, x in enumerate(xs)}})
            if ev[0] == bool(ret): rec.validated += 1
            else: rec.maybe(fn + ":encoding", "differs from native")
    return fn, run

def run(ctx):
    g = ctx.load("cmp")
    ctx.method = "symbolic execution of operator==; equivalence with the conjunction of component equalities decided over IEEE-754 doubles"
    ctx.bounds = dict(inputs="all bit patterns of all components", types="Scalar Vector BiVector TriVector Spinor ImSpin MultiVector std::array<double,3>")
    ctx.par([task(g, t) for t in "S V B T P I M a3".split()] + aliases.tasks(ctx, "eq"))
