"""The same object as both operands, or a part of the first operand as the second, gives what separate objects of the same values give."""
from .util import *
from .iox import ident
N = dict(NC)

def task(g, fn, t):
    def run(rec):
        n = N[t]; nm = ["a%d" % k for k in range(n)]; a = [tm.inp(x) for x in nm]; x = tm.inp("t")
        def judge(m):
            xs = [m.get(k, 1.0) for k in nm]
            ret, outs = g.native(fn, xs, [m.get("t", 1e-6)], 16); o = outs[-1]
            bad = ret == 0 and not all(same(p, q) for p, q in zip(o[:8], o[8:16]))
            return bad, dict(function=fn, a=xs, tol=m.get("t", 1e-6), why="same values, different answer when the operands share an object", shared=o[:8], separate=o[8:16])
        rec.fallback = (fn, judge, [spread(nm, fn), {k: 0.0 for k in nm}, {k: math.nan for k in nm}, {k: math.inf for k in nm}])
        r = g.sym(fn, a, [x], 16)
        if code(r) == -1: return
        nofaults(rec, r, fn)
        o = r.outs[0]
        fp.prove(rec, fn + ":shared objects", band(*[ident(p, q) for p, q in zip(o[:8], o[8:])]), judge, assume=r.pc, inputs=nm + ["t"])
        env = dict(spread(nm, fn), t=1e-6)
        bad, d = judge(env); rec.validated += 1
        if bad: rec.bad(fn + ":shared objects", env, d)
    return fn, run

def tasks(ctx, *ops):
    g = ctx.load("alias")
    out = []
    for fn in sorted(g.mod.funcs):
        if not fn.startswith("al_"): continue
        _, op, t, part = fn.split("_")
        if not ops or op in ops: out.append(task(g, fn, t))
    return out
