"""Grade-wise sums and differences."""
from .util import *
from . import aliases

# operator pairs the library documents and provides (same set for + and -)
_P = ("DD SS SB ST SP SC SM VV VB VT VI VX VM BS BV BB BP BX BM TS TV TT TI TC TM PS PB PP PI PM IV IT IP II IM "
      "CS CT CC CX CM XV XB XC XX XM MS MV MB MT MP MI MC MX MM").split()
PAIRS = {op: {"h_%s_%s_%s" % (op, p[0], p[1]) for p in _P} for op in ("add", "sub")}

def want_t(op, a, b, t1, t2):
    x, y = ga.embed(t1, a, ga.Terms), ga.embed(t2, b, ga.Terms)
    o = []
    for p, q in zip(x, y):
        if op == "add": o.append(q if p is None else p if q is None else fop("fadd", p, q))
        else: o.append((None if q is None else fop("fneg", q)) if p is None else p if q is None else fop("fsub", p, q))
    return ga.z(o)

def want_n(op, xs, ys, t1, t2):
    x, y = [0.0] * 8, [0.0] * 8
    for k, v in zip(SLOTS[t1], xs): x[k] = v
    for k, v in zip(SLOTS[t2], ys): y[k] = v
    return [p + q if op == "add" else p - q for p, q in zip(x, y)]

def task(g, op, t1, t2, pairs):
    fn = "h_%s_%s_%s" % (op, t1, t2)
    def run(rec):
        a, b = ga.ins("a", t1), ga.ins("b", t2)
        nm = ga.names("a", t1) + ga.names("b", t2)
        r = g.sym(fn, a, b, 8)
        if code(r) == -1:
            if fn in pairs: rec.bad(fn, {}, "expression no longer supported")
            return
        nofaults(rec, r, fn)
        env = spread(nm, fn)
        validate(rec, g, fn, [ga.vals(env, "a", t1), ga.vals(env, "b", t2), 8], r.outs[0], env)
        want = want_t(op, a, b, t1, t2)
        neg = want_t("add", [fop("fneg", x) for x in a], b, t1, t2) if op == "sub" else None
        def judge(m):
            xs, ys = ga.vals(m, "a", t1), ga.vals(m, "b", t2)
            bad, d = judge_components(g, fn, [xs, ys, 8], want_n(op, xs, ys, t1, t2))
            return bad, d
        syn = lambda w: all(fp.canon([bnot(fp.same(x, y))])[0] is FALSE for x, y in zip(r.outs[0], w))
        sub = type(rec)()
        res = []
        if op == "sub" and not syn(want) and syn(neg):
            # exactly the negated difference (right minus left) in every component, for all values
            sub.replays += 1
            bad, d = judge(env)
            if bad:
                sub.bad(fn, env, d, key="%s-%s:right-minus-left" % (NAME[t1], NAME[t2])); res = [False]
            else: sub.maybe(fn, "encoded as right minus left, not reproduced")
        else:
            res = [fp.prove(sub, "%s.%s" % (fn, SLOTNAME[k]), fp.same(r.outs[0][k], want[k]), judge, inputs=nm) for k in range(8)]
        rec.merge(sub)
        # commutation and exchange
        f2 = "h_%s_%s_%s" % (op, t2, t1)
        if t1 <= t2 and not (op == "sub" and False in res):
            r2 = g.sym(f2, b, a, 8)
            if code(r2) == -1: return
            if code(r2) != code(r): rec.note("%s and %s have different result types" % (fn, f2))
            if op == "sub":
                # a corollary of the components; when the exchanged direction is itself wrong, that is reported there
                w = want_t("sub", b, a, t2, t1)
                if any(fp.canon([fp.same(x, y)])[0] is not fp.canon([fp.same(x, x)])[0] for x, y in zip(r2.outs[0], w)): return
            w2 = r2.outs[0] if op == "add" else [fop("fneg", x) for x in r2.outs[0]]
            def judge2(m):
                xs, ys = ga.vals(m, "a", t1), ga.vals(m, "b", t2)
                _, (o1,) = g.native(fn, xs, ys, 8)
                _, (o2,) = g.native(f2, ys, xs, 8)
                if op == "sub": o2 = [-x for x in o2]
                return any(not same(x, y) for x, y in zip(o1, o2)), dict(fn=fn, a=xs, b=ys, forward=o1, exchanged=o2)
            for k in range(8):
                fp.prove(rec, "%s~%s.%s" % (fn, f2, SLOTNAME[k]), fp.same(r.outs[0][k], w2[k]), judge2, inputs=nm)
        if op == "sub" and t1 == t2:
            r3 = g.sym(fn, a, a, 8)
            def judge3(m):
                xs = ga.vals(m, "a", t1)
                return judge_components(g, fn, [xs, xs, 8], [0.0] * 8)
            for k in range(8):
                fp.prove(rec, "%s: a-a.%s" % (fn, SLOTNAME[k]), fp.same(r3.outs[0][k], F(0.0)), judge3, assume=finite_t(*a), inputs=ga.names("a", t1))
    return fn, run

def go(ctx, op):
    g = ctx.load("addsub")
    ctx.method = "symbolic execution of every supported overload; every component against the IEEE sum/difference/carried component (exact rewriting and bit-precise SMT)"
    ctx.bounds = dict(inputs="all bit patterns of all components of both operands", pairs="all supported pairs of the ten types")
    ctx.assume("NaN payloads are not distinguished; +0 and -0 compare equal (IEEE equality)", "round-to-nearest-even")
    ctx.par([task(g, op, t1, t2, PAIRS[op]) for t1 in TYPES for t2 in TYPES] + aliases.tasks(ctx, op))
