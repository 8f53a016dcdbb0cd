"""Products and squared magnitudes are accurate to a few rounding errors."""
from .alg import *
import z3
TO32 = 2 ** 29

class NotPoly(Exception): pass

def padd(a, b):
    o = dict(a)
    for m, c in b.items():
        o[m] = o.get(m, 0) + c
        if not o[m]: del o[m]
    return o
def pmulm(a, b):
    o = {}
    for m, c in a.items():
        for n, d in b.items():
            k = tuple(sorted(m + n)); o[k] = o.get(k, 0) + c * d
    return {m: c for m, c in o.items() if c}
def pabs(a): return {m: abs(c) for m, c in a.items()}
def pscale(a, s): return {m: c * s for m, c in a.items()} if s else {}

def forward(roots):
    """Per node: exact polynomial, and accumulated first-order error per monomial in units of 2^-53."""
    v = {}
    for t in tm.postorder(roots):
        if t.sort != "F":
            raise NotPoly("branch in the arithmetic")
        op = t.op
        a = [v[x.id] for x in t.args if isinstance(x, T)]
        if op == "in": r = ({(t.args[0],): Fr(1)}, {})
        elif op == "c":
            x = tm.cval(t)
            if not fin(x): raise NotPoly("constant " + repr(x))
            r = ({(): Fr(x)} if x else {}, {})
        elif op == "fneg": r = (pscale(a[0][0], -1), a[0][1])
        elif op in ("fadd", "fsub"):
            p = padd(a[0][0], a[1][0] if op == "fadd" else pscale(a[1][0], -1))
            e = padd(a[0][1], a[1][1])
            if a[0][0] and a[1][0]: e = padd(e, pabs(p))      # adding an exact zero is exact
            r = (p, e)
        elif op == "fmul":
            p = pmulm(a[0][0], a[1][0])
            e = padd(pmulm(a[0][1], pabs(a[1][0])), pmulm(pabs(a[0][0]), a[1][1]))
            k = [x for x in t.args if tm.isc(x)]
            if not (k and abs(Fr(tm.cval(k[0]))).numerator & (abs(Fr(tm.cval(k[0]))).numerator - 1) == 0): e = padd(e, pabs(p))
            r = (p, e)
        elif op == "fdiv" and tm.isc(t.args[1]) and tm.cval(t.args[1]):
            s = 1 / Fr(tm.cval(t.args[1]))
            p = pscale(a[0][0], s); r = (p, padd(pscale(a[0][1], abs(s)), pabs(p)))
        elif op == "fma":
            p = padd(pmulm(a[0][0], a[1][0]), a[2][0])
            r = (p, padd(padd(pmulm(a[0][1], pabs(a[1][0])), pmulm(pabs(a[0][0]), a[1][1])), padd(a[2][1], pabs(p))))
        elif op == "pow" and tm.isc(t.args[1]) and tm.cval(t.args[1]) in (1.0, 2.0, 3.0, 4.0):
            p, e = a[0]                                       # the library's pow is accurate to less than an ulp (2 units)
            for _ in range(int(tm.cval(t.args[1])) - 1):
                e = padd(pmulm(e, pabs(a[0][0])), pmulm(pabs(p), a[0][1])); p = pmulm(p, a[0][0])
            r = (p, padd(e, pscale(pabs(p), 2)))
        elif op == "to32": r = (a[0][0], padd(a[0][1], pscale(pabs(a[0][0]), TO32)))
        else: raise NotPoly(op)
        v[t.id] = r
    return [v[r.id] for r in roots]

def split_branches(outs, limit=64):
    """Branch-free variants of the outputs: [(path condition, outs)]."""
    st = [(TRUE, list(outs))]; res = []
    while st:
        pc, o = st.pop()
        b = next((u for u in tm.postorder(o) if u.op == "ite" and not any(x.op == "ite" for x in tm.postorder([u.args[0]]))), None)
        if b is None: res.append((pc, o)); continue
        if len(res) + len(st) > limit: raise NotPoly("too many branches")
        c = b.args[0]
        at = c
        for val in (True, False):
            st.append((band(pc, c if val else bnot(c)), tm.subst(o, {at: B(val)})))
    return res

def bound(rec, name, p, e, spec, judge, nm, pc=TRUE):
    """z3: is there a choice of monomial magnitudes with accumulated error above 32 u * sum?  (QF_LRA)"""
    ms = sorted(set(e) | set(spec))
    M = {m: z3.Real("M%d" % k) for k, m in enumerate(ms)}
    k = max([float(x) for x in e.values()] + [1.0])
    # higher order terms: (1+u)^n - 1 <= n u / (1 - n u)
    f = 1 + Fr(2) * Fr(int(k) + 1) * U if k < 2 ** 40 else Fr(2)
    lhs = z3.Sum([smt.q(Fr(c) * f) * M[m] for m, c in e.items()] or [smt.q(0)])
    rhs = z3.Sum([smt.q(32 * Fr(c)) * M[m] for m, c in spec.items()] or [smt.q(0)])
    # 2 |ab| <= a^2 + b^2
    amgm = [2 * M[m] <= M[(m[0], m[0])] + M[(m[1], m[1])] for m in ms if len(m) == 2 and m[0] != m[1] and (m[0], m[0]) in M and (m[1], m[1]) in M]
    r = smt.check([x >= 0 for x in M.values()] + amgm + [lhs > rhs], [], 5.0)
    if r[0] == "unsat": rec.ok(name); return
    # monomials carrying the excess, largest first: full-mantissa inputs that make them dominate
    ex = sorted(ms, key=lambda m: -float(Fr(e.get(m, 0)) - 32 * Fr(spec.get(m, 0))))[:4]
    import random
    rng = random.Random(name)
    for m in ex + [None]:
        for trial in range(12):
            ins = {}
            al = (-30, -12, -45, None)[trial % 4]
            for n in nm:
                x = rng.uniform(1.0, 2.0) * rng.choice([-1, 1])
                if m is not None and n not in m: x *= 2.0 ** (rng.choice([0, -1, -30]) if al is None else al)
                ins[n] = x
            if pc is not TRUE:
                ins = onpath(pc, nm, rng, trial)
                if ins is None: continue
            rec.replays += 1
            bad, d = judge(ins)
            if bad: rec.bad(name, ins, d); return
    rec.maybe(name, "error count exceeds 32 on monomial %s (%s), not reproduced natively" % (ex[:1], float(e.get(ex[0], 0)) if ex else ""))

def onpath(pc, nm, rng, k):
    """Inputs satisfying the branch condition: solver model with most inputs fixed at random values."""
    from sx import dag, real
    r = dag.check(pc, {n: (Fr(10) ** -150, Fr(10) ** 150, True) for n in nm}, timeout=1.0, extra=[lambda d: real._fix(d, rng, k)] if k else [])
    if r[0] != "sat": return None
    try: return {n: float(r[1][n]) if n in r[1] else rng.uniform(1.0, 2.0) for n in nm}
    except OverflowError: return None

def check(rec, g, fn, args, outs, spec, judge, nm):
    """spec: per component {monomial: coefficient} of the exact formula."""
    try: br = split_branches(outs)
    except NotPoly as x: rec.maybe(fn, str(x)); return
    for b, (pc, o) in enumerate(br):
        for k in range(8):
            name = "%s.%s" % (fn, SLOTNAME[k]) + ("" if len(br) == 1 else " branch %d" % b)
            try: (p, e), = forward([o[k]])
            except NotPoly as x:
                numeric(rec, name, judge, nm, str(x), pc); continue
            s = spec[k] or {}
            if padd(p, pscale(s, -1)):
                # a different polynomial on this branch: an error of the order of the difference
                bound(rec, name, p, padd(pabs(padd(p, pscale(s, -1))) and pscale(pabs(padd(p, pscale(s, -1))), 2 ** 53), e), pabs(s), judge, nm, pc); continue
            bound(rec, name, p, e, pabs(s), judge, nm, pc)
    env = spread(nm, fn + "10")
    bad, d = judge(env)
    rec.replays += 1
    if bad and not rec.violations: rec.bad(fn, env, d)
    outside(rec, g, fn, outs, [tm.inp(n) for n in nm], judge)

def numeric(rec, name, judge, nm, why, pc=TRUE):
    """Not a polynomial: models of ordinary and skewed inputs only (reported as undecided unless refuted)."""
    import random
    rng = random.Random(name)
    for k in range(40):
        ins = {n: rng.uniform(1.0, 2.0) * rng.choice([-1, 1]) * (2.0 ** rng.choice([0, 0, 20, -20, 400, -400]) if k > 10 else 1.0) for n in nm}
        if pc is not TRUE:
            if k > 12: break
            ins = onpath(pc, nm, rng, k)
            if ins is None: continue
        rec.replays += 1
        bad, d = judge(ins)
        if bad: rec.bad(name, ins, d); return
    rec.maybe(name, "not a polynomial in the inputs (%s)" % why)

def mono(t):
    return forward([t])[0][0]

def product(g, t1, t2):
    fn = "h_mul_%s_%s" % (t1, t2)
    def run(rec):
        a, b = ga.ins("a", t1), ga.ins("b", t2); nm = ga.names("a", t1) + ga.names("b", t2)
        r = g.sym(fn, a, b, 8)
        if code(r) == -1: return
        w = ga.gp(ga.embed(t1, a, ga.Terms), ga.embed(t2, b, ga.Terms), ga.Terms)
        spec = [None if x is None else mono(x) for x in w]
        def judge(m):
            xs, ys = ga.vals(m, "a", t1), ga.vals(m, "b", t2)
            if not indomain(xs + ys): return False, None
            A, Bm = ga.embed(t1, frs(xs)), ga.embed(t2, frs(ys))
            return judge_components(g, fn, [xs, ys, 8], ga.gp(A, Bm), [32 * U * x for x in ga.gpabs(A, Bm)])
        check(rec, g, fn, a + b, r.outs[0], spec, judge, nm)
    return fn, run

def square(g, f, t):
    fn = "h_%s_%s" % (f, t)
    def run(rec):
        a = ga.ins("a", t); nm = ga.names("a", t)
        r = g.sym(fn, a, 8)
        if code(r) == -1:
            if t != "D" and g.native(fn, [1.0] * len(a), 8)[0] == -1: rec.bad(fn, {}, "no longer provided")
            return
        X = Exact()
        if f == "magSq":
            spec = [{tuple([n, n]): Fr(1) for n in nm}] + [None] * 7
            absum = None
        else:
            A = ga.embed(t, a, ga.Terms)
            w = ga.gp(A, ga.ginv("dir", A, ga.Terms), ga.Terms)
            spec = [None if x is None else mono(x) for x in w]
        def judge(m):
            xs = ga.vals(m, "a", t)
            if not indomain(xs): return False, None
            if f == "magSq":
                s = sum(Fr(x) ** 2 for x in xs)
                return judge_components(g, fn, [xs, 8], [s] + [0] * 7, [32 * U * s] + [0] * 7)
            e = X.fun("ampSq", X.lift(V(t, xs)))
            return judge_components(g, fn, [xs, 8], e.c, [32 * U * x for x in e.a])
        check(rec, g, fn, a, r.outs[0], spec, judge, nm)
    return fn, run

def run(ctx):
    gm, gf = ctx.load("mul", "func")
    ctx.method = ("symbolic execution; every rounding of the encoded arithmetic becomes an error term, accumulated per monomial; z3 (QF_LRA) decides whether any "
                  "magnitudes of the elementary products let the accumulated error exceed 32 x 2^-53 of their sum; excess is replayed with full-mantissa inputs")
    ctx.bounds = dict(components="zero or 1e-150..1e150", rounding="standard model with each operation's relative error at most 2^-53 (float narrowing: 2^-24)")
    ctx.assume("no underflow or overflow of intermediates: separate range obligation")
    ctx.par([product(gm, a, b) for a in TYPES for b in TYPES] + [square(gf, f, t) for f in ("magSq", "ampSq") for t in TYPES if f == "magSq" or t != "D"])
