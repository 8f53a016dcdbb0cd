"""zero, one, null and basis constants."""
from .util import *
PINS = dict(pi=math.pi, piHalf=math.pi / 2, piQtr=math.pi / 4, turnFull=2 * math.pi, turnHalf=math.pi, turnQtr=math.pi / 2)
ONE = "D S P C M".split()
BASIS = ["e0", "e1", "e2", "e3", "e23", "e31", "e12", "e123"]

def const(rec, g, fn, want):
    """Constants: the encoded value and the native value both equal want."""
    r = g.sym(fn, len(want))
    ret, outs = g.native(fn, len(want))
    rec.replays += 1
    def judge(m):
        o = g.native(fn, len(want))[1][0]
        return any(not same(x, y) for x, y in zip(o, want)), dict(function=fn, got=o, expected=want)
    for k, w in enumerate(want):
        fp.prove(rec, "%s.%d" % (fn, k), fp.same(r.outs[0][k], F(w)), judge)
    bad, d = judge({})
    if bad and not rec.violations: rec.bad(fn, {}, d)
    return r

def emb(t, c):
    o = [0.0] * 8
    for k, x in zip(SLOTS[t], c): o[k] = x
    return o

def consts(g):
    def run(rec):
        for k, b in enumerate(BASIS):
            w = [0.0] * 8; w[k] = 1.0
            const(rec, g, "h_const_" + b, w)
        for n, v in PINS.items(): const(rec, g, "h_const_" + n, [v] + [0.0] * 7)
        const(rec, g, "h_const_nan", [math.nan] + [0.0] * 7)
        const(rec, g, "h_constsq", [1.0] + [0.0] * 7 + [1.0] + [0.0] * 7 + [1.0] + [0.0] * 7)
        e = lambda k: [1.0 if j == k else 0.0 for j in range(8)]
        const(rec, g, "h_constpr", e(6) + e(4) + e(5))
        const(rec, g, "h_constps", e(7))
    return "constants", run

def flag(rec, g, fn, want):
    r = g.sym(fn)
    ok = tm.icmp("eq", r.ret, tm.I(0, 32))
    def judge(m):
        v = bool(g.native(fn)[0])
        return v != want, dict(function=fn, got=v, expected=want)
    fp.prove(rec, fn, bnot(ok) if want else ok, judge)

def task(g, t):
    def run(rec):
        n = NC[t]
        nm = ga.names("a", t); a = ga.ins("a", t)
        const(rec, g, "h_zero_" + t, emb(t, [0.0] * n))
        w = emb(t, [math.nan] * n)
        const(rec, g, "h_null_" + t, w)
        flag(rec, g, "h_nullvalid_" + t, False)
        flag(rec, g, "h_zerovalid_" + t, True)
        if t in ONE:
            const(rec, g, "h_one_" + t, emb("S", [1.0]))
            flag(rec, g, "h_onevalid_" + t, True)
        fns = [("h_addz_" + t, "x"), ("h_zmul_" + t, "0"), ("h_mulz_" + t, "0")]
        if t in ONE: fns += [("h_onemul_" + t, "x"), ("h_mulone_" + t, "x")]
        for fn, what in fns:
            r = g.sym(fn, a, 8)
            nofaults(rec, r, fn)
            def judge(m, fn=fn, what=what):
                xs = ga.vals(m, "a", t)
                if not all(fin(x) for x in xs): return False, None
                return judge_components(g, fn, [xs, 8], emb(t, xs) if what == "x" else [0.0] * 8)
            w = ga.z(ga.embed(t, a, ga.Terms)) if what == "x" else [F(0.0)] * 8
            for k in range(8):
                fp.prove(rec, "%s.%s" % (fn, SLOTNAME[k]), tm.fcmp("oeq", r.outs[0][k], w[k]), judge, assume=finite_t(*a), inputs=nm)
            env = spread(nm, fn)
            validate(rec, g, fn, [ga.vals(env, "a", t), 8], r.outs[0], env)
    return t, run

def run(ctx):
    g = ctx.load("type")
    ctx.method = "symbolic execution; identities over all finite IEEE doubles (FP SMT with arithmetic abstracted by its IEEE laws, bit-blasted when needed)"
    ctx.bounds = dict(components="all finite doubles", types="all nine types and double")
    ctx.assume("constants are those initialised by the translation unit's static initialisers, executed symbolically")
    ctx.par([consts(g)] + [task(g, t) for t in TYPES])
