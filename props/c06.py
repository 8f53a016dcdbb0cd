"""dual(x) = e123*x, in the dual type, exactly; dual(dual(x)) = -x."""
from .util import *

DUAL = dict(D="T", S="T", V="B", B="V", T="S", P="I", I="P", C="C", X="X", M="M")

def dual8(x, neg):
    o = [None] * 8
    for j in range(8):
        if x[j] is None: continue
        s, k = ga.TABLE[7][j]
        o[k] = x[j] if s > 0 else neg(x[j])
    return o

def task(g, gm, t):
    fn = "h_dual_" + t
    nm = ga.names("a", t)
    def run(rec):
        a = ga.ins("a", t)
        r = g.sym(fn, a, 8)
        c = code(r)
        if c == -1:
            if t != "D": rec.bad(fn, {}, "expression no longer supported")
            else: rec.note("dual(double) is not provided")
            return
        nofaults(rec, r, fn)
        if c != CODE[DUAL[t]] :
            rec.bad(fn + ":type", {}, "dual(%s) has type code %s, expected %s" % (NAME[t], c, NAME[DUAL[t]])); return
        rec.ok(fn + ":type")
        env = spread(nm, fn)
        validate(rec, g, fn, [ga.vals(env, "a", t), 8], r.outs[0], env)
        want = ga.z(dual8(ga.embed(t, a, ga.Terms), ga.Terms.neg))
        def w(m):
            o = dual8(ga.embed(t, ga.vals(m, "a", t)), lambda x: -x)
            return [0.0 if x is None else float(x) for x in o]
        def judge(m):
            return judge_components(g, fn, [ga.vals(m, "a", t), 8], w(m))
        for k in range(8):
            fp.prove(rec, "%s.%s" % (fn, SLOTNAME[k]), fp.same(r.outs[0][k], want[k]), judge, inputs=nm)
        # the library's own product with e123
        f2 = "h_mul_T_" + t
        r2 = gm.sym(f2, [F(1.0)], a, 8)
        def judge2(m):
            xs = ga.vals(m, "a", t)
            _, (o,) = gm.native(f2, [1.0], xs, 8)
            _, (d,) = g.native(fn, xs, 8)
            if all(fin(x) for x in xs) and any(not same(x, y) for x, y in zip(o, d)):
                return True, dict(dual=d, product=o, x=xs)
            return False, None
        for k in range(8):
            fp.prove(rec, "%s=e123*x.%s" % (fn, SLOTNAME[k]), fp.same(r.outs[0][k], r2.outs[0][k]), judge2, assume=finite_t(*a), inputs=nm)
        # dual of dual
        t2 = DUAL[t]; f3 = "h_dual_" + t2
        o = [r.outs[0][k] for k in SLOTS[t2]]
        r3 = g.sym(f3, o, 8)
        if code(r3) == -1: return
        want = ga.z(ga.ginv("neg", ga.embed(t, a, ga.Terms), ga.Terms))
        def judge3(m):
            xs = ga.vals(m, "a", t)
            _, (d,) = g.native(fn, xs, 8)
            w = [0.0] * 8
            for k, x in zip(SLOTS[t], xs): w[k] = -x
            return judge_components(g, f3, [[d[k] for k in SLOTS[t2]], 8], w)
        for k in range(8):
            fp.prove(rec, "dual(dual).%s.%s" % (t, SLOTNAME[k]), fp.same(r3.outs[0][k], want[k]), judge3, inputs=nm)
    return fn, run

def run(ctx):
    g, gm = ctx.load("uni", "mul")
    ctx.method = "symbolic execution of dual() and of the product with e123; componentwise equality as IEEE-754 binary64 (bit-precise SMT)"
    ctx.bounds = dict(inputs="all bit patterns of every component (finite ones for the comparison with the product), all types with dual()")
    ctx.assume("NaN payloads are not distinguished; +0 and -0 compare equal (IEEE equality)",
               "orientation: e123*e1=e23, e123*e23=-e1 (the headers' and tests' convention; README.md's '-e123*biv' differs)")
    ctx.par([task(g, gm, t) for t in TYPES])
