"""Construction, promotion and complex conversion keep every component in place."""
from .util import *

def one(g, fn, n, want):
    """want: 8 entries, input index or None (zero)."""
    def run(rec):
        a = [tm.inp("a%d" % k) for k in range(n)]
        nm = ["a%d" % k for k in range(n)]
        r = g.sym(fn, a, len(want))
        nofaults(rec, r, fn)
        env = spread(nm, fn)
        validate(rec, g, fn, [[env[x] for x in nm], len(want)], r.outs[0], env)
        def judge(m):
            xs = [m[x] for x in nm]
            _, (o,) = g.native(fn, xs, len(want))
            w = [0.0 if k is None else xs[k] for k in want]
            return any(not same(x, y) for x, y in zip(o, w)), dict(function=fn, arguments=xs, got=o, expected=w)
        for k, j in enumerate(want):
            fp.prove(rec, "%s[%d]" % (fn, k), fp.same(r.outs[0][k], F(0.0) if j is None else a[j]), judge, inputs=nm)
    return fn, run

def at(slots):
    o = [None] * 8
    for j, k in enumerate(slots): o[k] = j
    return o

def run(ctx):
    g = ctx.load("type")
    ctx.method = "symbolic execution of every constructor and conversion; components compared as IEEE values (bit-precise SMT)"
    ctx.bounds = dict(inputs="all bit patterns of all components")
    ctx.assume("NaN payloads are not distinguished; +0 and -0 compare equal")
    ts = [one(g, "h_mv_" + t, NC[t], at(SLOTS[t])) for t in TYPES]
    ts += [one(g, "h_mv_CX", 8, at([0, 7, 1, 2, 3, 4, 5, 6])), one(g, "h_mv_SVBT", 8, at(range(8))),
           one(g, "h_mv_8", 8, at(range(8))), one(g, "h_mv_b8", 8, at(range(8)))]
    ts += [one(g, "h_mk_" + t, NC[t], at(SLOTS[t])) for t in "S V B T P I C X".split()]
    ts += [one(g, "h_cplx_from", 2, at([0, 7])), one(g, "h_cplx_to", 2, [0, 1]), one(g, "h_cplx_rt", 2, at([0, 7]))]
    ctx.par(ts)
