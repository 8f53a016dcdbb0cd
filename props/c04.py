"""Negation and the three involutions flip exactly their documented grades (IEEE values)."""
from .util import *

KINDS = dict(neg="-x", rev="reverse(x)", odd="oddverse(x)", dir="dirverse(x)")

def task(g, kind, t):
    fn = "h_%s_%s" % (kind, t)
    def run(rec):
        a = ga.ins("a", t)
        r = g.sym(fn, a, 8)
        c = code(r)
        if c == -1:
            if t == "D" and kind != "neg": rec.note("%s(double) is not provided" % kind)
            else: rec.bad(fn, {}, "expression no longer supported")
            return
        nofaults(rec, r, fn)
        want = ga.z(ga.ginv(kind, ga.embed(t, a, ga.Terms), ga.Terms))
        sg = ga.INV[kind]
        def judge(m):
            xs = ga.vals(m, "a", t)
            w = [0.0] * 8
            for k, x in zip(SLOTS[t], xs): w[k] = x if sg[GR[k]] > 0 else -x
            return judge_components(g, fn, [xs, 8], w)
        env = spread(ga.names("a", t), fn)
        validate(rec, g, fn, [ga.vals(env, "a", t), 8], r.outs[0], env)
        if c != CODE[t]: rec.note("%s returns type code %s" % (fn, c))
        for k in range(8):
            fp.prove(rec, "%s.%s" % (fn, SLOTNAME[k]), fp.same(r.outs[0][k], want[k]), judge, inputs=ga.names("a", t))
        # each is its own inverse; two of the three give the third
        o = [r.outs[0][k] for k in SLOTS[t]]
        for k2 in KINDS:
            fn2 = "h_%s_%s" % (k2, t)
            r2 = g.sym(fn2, o, 8)
            if code(r2) == -1: continue
            comp = None
            if k2 == kind: comp = "id"
            elif "neg" not in (kind, k2): comp = [x for x in ("rev", "odd", "dir") if x not in (kind, k2)][0]
            if comp is None: continue
            w2 = ga.z(ga.ginv(comp, ga.embed(t, a, ga.Terms), ga.Terms))
            def judge2(m, fn2=fn2, comp=comp):
                xs = ga.vals(m, "a", t)
                _, (o1,) = g.native(fn, xs, 8)
                w = [0.0] * 8
                for k, x in zip(SLOTS[t], xs): w[k] = x if ga.INV[comp][GR[k]] > 0 else -x
                return judge_components(g, fn2, [[o1[k] for k in SLOTS[t]], 8], w)
            for k in SLOTS[t]:
                fp.prove(rec, "%s(%s).%s" % (fn2, fn, SLOTNAME[k]), fp.same(r2.outs[0][k], w2[k]), judge2, inputs=ga.names("a", t))
    return fn, run

GR = ga.GRADE

def run(ctx):
    g = ctx.load("uni")
    ctx.method = "symbolic execution of the unary operators; each output component against the sign-flipped input as IEEE-754 binary64 (bit-precise SMT)"
    ctx.bounds = dict(inputs="all 2^64 bit patterns of every component, all ten types")
    ctx.assume("NaN payloads are not distinguished; +0 and -0 compare equal (IEEE equality)")
    ctx.par([task(g, k, t) for k in KINDS for t in TYPES])
