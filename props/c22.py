"""isValid accepts exactly values whose every component is zero or normal."""
from .util import *
from . import aliases
N = dict(NC, a1=1, a2=2, a3=3, a4=4, a6=6)

def task(g, t):
    fn = "h_valid_" + t
    def run(rec):
        n = N[t]
        nm = ["a%d" % k for k in range(n)]
        a = [tm.inp(x) for x in nm]
        r = g.sym(fn, a)
        nofaults(rec, r, fn)
        got = bnot(tm.icmp("eq", r.ret, tm.I(0, 32)))
        want = valid_t(*a)
        def judge(m):
            xs = [m[x] for x in nm]
            ret, _ = g.native(fn, xs)
            w = all(isvalid(x) for x in xs)
            return bool(ret) != w, dict(function=fn, components=xs, got=bool(ret), expected=w)
        fp.prove(rec, fn + ":accepts only valid components", bor(bnot(got), want), judge, inputs=nm)
        fp.prove(rec, fn + ":accepts every valid value", bor(bnot(want), got), judge, inputs=nm)
        for k in range(n):
            for c, cls in (("NaN", 3), ("infinite", 0x204), ("subnormal", 0x90)):
                fp.prove(rec, "%s:%s in component %d" % (fn, c, k), bnot(got), judge, assume=tm.fpclass(cls, a[k]), inputs=nm)
        for v in (0.0, 1.0, math.nan, math.inf, 5e-324):
            xs = [1.0] * (n - 1) + [v]
            ret, _ = g.native(fn, xs)
            if tm.evaluate([got], dict(zip(nm, xs)))[0] == bool(ret): rec.validated += 1
            else: rec.maybe(fn + ":encoding", "differs from native at %s" % xs)
    return fn, run

def both(g):
    def run(rec):
        a, b = tm.inp("a"), tm.inp("b")
        r = g.sym("h_both_D", [a], [b])
        got = bnot(tm.icmp("eq", r.ret, tm.I(0, 32)))
        def judge(m):
            ret, _ = g.native("h_both_D", [m["a"]], [m["b"]])
            w = isvalid(m["a"]) and isvalid(m["b"])
            return bool(ret) != w, dict(function="bothAreValid", a=m["a"], b=m["b"], got=bool(ret), expected=w)
        fp.prove(rec, "bothAreValid", bnot(tm.bxor(got, valid_t(a, b))), judge, inputs=["a", "b"])
    return "both", run

def run(ctx):
    g = ctx.load("cmp")
    ctx.method = "symbolic execution of isValid; equivalence with 'every component zero or normal' decided over IEEE-754 doubles"
    ctx.bounds = dict(inputs="all bit patterns of all components", types="double, the nine types, std::array of 1, 2, 3, 4, 6 doubles")
    ctx.par([task(g, t) for t in TYPES + "a1 a2 a3 a4 a6".split()] + [both(g)] + aliases.tasks(ctx, "both"))
