"""Every product overload computes the geometric product of Cl(3,0)."""
from .util import *

def judge_prod(g, fn, t1, t2, m):
    xs, ys = ga.vals(m, "a", t1), ga.vals(m, "b", t2)
    if not indomain(xs + ys): return False, None
    A, Bm = ga.embed(t1, frs(xs)), ga.embed(t2, frs(ys))
    want = ga.gp(A, Bm); tol = [32 * U * x for x in ga.gpabs(A, Bm)]
    if all(x == int(x) and abs(x) <= 2 ** 24 for x in xs + ys): tol = [0] * 8
    return judge_components(g, fn, [xs, ys, 8], want, tol)

def task(g, t1, t2):
    fn = "h_mul_%s_%s" % (t1, t2)
    def run(rec):
        a, b = ga.ins("a", t1), ga.ins("b", t2)
        nm = ga.names("a", t1) + ga.names("b", t2)
        r = g.sym(fn, a, b, 8)
        if code(r) == -1:
            rec.replays += 1
            if g.native(fn, [1.0] * len(a), [1.0] * len(b), 8)[0] == -1:
                rec.bad(fn, {}, "the product expression no longer compiles")
            return
        nofaults(rec, r, fn)
        o = r.outs[0]
        p = Prover(dom(nm), lambda m: judge_prod(g, fn, t1, t2, m))
        p.validate = lambda m: validate(rec, g, fn, [ga.vals(m, "a", t1), ga.vals(m, "b", t2), 8], o, m)
        want = ga.z(ga.gp(ga.embed(t1, a, ga.Terms), ga.embed(t2, b, ga.Terms), ga.Terms))
        p.prove([Eq(SLOTNAME[k], o[k], want[k]) for k in range(8)], label=fn)
        env = spread(nm, fn)
        validate(rec, g, fn, [ga.vals(env, "a", t1), ga.vals(env, "b", t2), 8], o, env)
        bad, d = judge_prod(g, fn, t1, t2, env)
        if bad: rec.bad(fn, env, d)
        rec.prover(p)
        outside(rec, g, fn, o, a + b, lambda m: judge_prod(g, fn, t1, t2, m))
    return fn, run

def shared(g, fn, t, part):
    """one object as both factors, or one of its grades as the second"""
    def run(rec):
        a = ga.ins("a", t); nm = ga.names("a", t)
        r = g.sym(fn, a, [tm.F(1.0)], 16)
        if code(r) == -1: return
        nofaults(rec, r, fn)
        keep = dict(self=range(8), num=SLOTS[t][:1], sca=[0], vec=[1, 2, 3], biv=[4, 5, 6], tri=[7])[part]
        def second(e):
            if part == "num": return [e[SLOTS[t][0]]] + [0 * e[0] if not isinstance(e[0], T) else tm.F(0.0)] * 7
            return [e[k] if k in keep else (0 * e[k] if not isinstance(e[k], T) else tm.F(0.0)) for k in range(8)]
        def judge(m):
            xs = ga.vals(m, "a", t)
            if not indomain(xs): return False, None
            A = ga.embed(t, frs(xs)); Bm = second(A)
            want = ga.gp(A, Bm); tol = [32 * U * x for x in ga.gpabs(A, Bm)]
            return judge_components(g, fn, [xs, [1.0], 16], want, tol)
        p = Prover(dom(nm), judge)
        E = [tm.F(0.0)] * 8
        for k, v in zip(SLOTS[t], a): E[k] = v
        W = [tm.F(0.0)] * 8
        if part == "num": W[0] = a[0]
        else:
            for k in keep: W[k] = E[k]
        want = ga.z(ga.gp(E, W, ga.Terms))
        p.prove([Eq(SLOTNAME[k], r.outs[0][k], want[k]) for k in range(8)], label=fn)
        env = spread(nm, fn)
        bad, d = judge(env)
        if bad: rec.bad(fn, env, d)
        rec.prover(p)
    return fn, run

def run(ctx):
    g = ctx.load("mul")
    ga_ = ctx.load("alias")
    ctx.method = ("symbolic execution of all 100 ordered operator* instantiations; real-arithmetic equality of every output component with the product of an "
                  "independently generated Cl(3,0) multiplication table decided by z3 (QF_NRA); models replayed natively")
    ctx.bounds = dict(pairs=100, components="zero or 1e-150..1e150", shape="every control-flow path of the overload")
    ctx.assume("rounding of the individual operations is bounded under C10; here the real-number semantics is compared")
    more = [shared(ga_, fn, fn.split("_")[2], fn.split("_")[3]) for fn in sorted(ga_.mod.funcs) if fn.startswith("al_mul_")]
    ctx.par([task(g, t1, t2) for t1 in TYPES for t2 in TYPES] + more)
