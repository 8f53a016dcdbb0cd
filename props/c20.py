"""nearlyEquals: all valid, and within the stated tolerance."""
from .util import *
from . import aliases
from sx import poly
N = dict(NC, a1=1, a2=2, a3=3, a4=4, a6=6)
GRADES = dict(S=[[0]], V=[[0, 1, 2]], B=[[0, 1, 2]], T=[[0]], P=[[0], [1, 2, 3]], I=[[0, 1, 2], [3]], C=[[0], [1]],
              X=[[0, 1, 2], [3, 4, 5]], M=[[0], [1, 2, 3], [4, 5, 6], [7]])
SUB = dict(P="SB", I="VT", C="ST", X="VB", M="SVBT")
REL = {t: g for t, g in GRADES.items()}
for k in (1, 2, 3, 4, 6): REL["a%d" % k] = [list(range(k))]
EPS = 2.0 ** -52
BAND = Fr(1, 10 ** 6); ABSU = Fr(1, 2 ** 51)

def truth(r): return bnot(tm.icmp("eq", r.ret, tm.I(0, 32)))

def exact_group(xs, ys, t, mode):
    """-> True / False / None (inside the band) for one grade (Fractions)."""
    if mode == "abs" or not any(ys):
        rs = []
        for x, y in zip(xs, ys):
            d = abs(x - y)
            rs.append(True if d < t * (1 - BAND) else False if d > t * (1 + BAND) else None)
        return False if False in rs else None if None in rs else True
    d2 = sum((x - y) ** 2 for x, y in zip(xs, ys)); b2 = sum(y * y for y in ys)
    lo = t * (1 - BAND) - ABSU; hi = t * (1 + BAND) + ABSU
    if lo > 0 and d2 < lo * lo * b2: return True
    if d2 > hi * hi * b2: return False
    return None

def exact(t, xs, ys, tol, mode):
    if t == "D": gs = [[0]]
    else: gs = REL[t]
    rs = [exact_group([xs[i] for i in g], [ys[i] for i in g], tol, mode) for g in gs]
    return False if False in rs else None if None in rs else True

def fn_of(t, mode, deflt):
    b = {"rel": "near", "abs": "nearabs", "relx": "nearrel"}[mode]
    return "h_%s%s_%s" % (b, "0" if deflt else "", t)

def call(g, fn, xs, ys, tol):
    return bool(g.native(fn, xs, ys)[0] if tol is None else g.native(fn, xs, ys, [tol])[0])

def ieee(g, t, mode, deflt):
    """Invalid arguments, identical arguments and non-positive tolerances: every bit pattern."""
    fn = fn_of(t, mode, deflt)
    def run(rec):
        n = N[t]
        na = ["a%d" % k for k in range(n)]; nb = ["b%d" % k for k in range(n)]
        a = [tm.inp(x) for x in na]; b = [tm.inp(x) for x in nb]
        tol = F(EPS) if deflt else tm.inp("t")
        nm = na + nb + ([] if deflt else ["t"])
        r = g.sym(fn, a, b) if deflt else g.sym(fn, a, b, [tol])
        nofaults(rec, r, fn)
        got = truth(r)
        def run_(m): return call(g, fn, [m[x] for x in na], [m[x] for x in nb], None if deflt else m["t"])
        def info(m, v): return dict(function=fn, a=[m[x] for x in na], b=[m[x] for x in nb], tol=EPS if deflt else m["t"], got=v)
        def j_invalid(m):
            v = run_(m)
            return v and not all(isvalid(m[x]) for x in na + nb), info(m, v)
        def j_same(m):
            m = {**m, **{y: m[x] for x, y in zip(na, nb)}}
            v = run_(m)
            ok = all(isvalid(m[x]) for x in na) and (deflt or m["t"] > 0)
            return ok and not v, info(m, v)
        def j_tol(m):
            v = run_(m)
            return v and not m["t"] > 0, info(m, v)
        for k in range(n):
            for s, nn in ((a, "a"), (b, "b")):
                fp.prove(rec, "%s:false when %s%d is invalid" % (fn, nn, k), bnot(got), j_invalid, assume=bnot(valid_t(s[k])), inputs=nm)
        r2 = g.sym(fn, a, a) if deflt else g.sym(fn, a, a, [tol])
        fp.prove(rec, fn + ":true for identical valid values", truth(r2), j_same,
                 assume=band(valid_t(*a), TRUE if deflt else tm.fcmp("ogt", tol, F(0.0))), inputs=nm)
        if not deflt:
            fp.prove(rec, fn + ":false for tolerance <= 0", bnot(got), j_tol, assume=tm.fcmp("ole", tol, F(0.0)), inputs=nm)
        # composites: the conjunction over the grades
        if t in SUB:
            parts = []
            for sub, ix in zip(SUB[t], GRADES[t]):
                f2 = fn_of(sub, "rel", deflt)
                aa, bb = [a[i] for i in ix], [b[i] for i in ix]
                r3 = g.sym(f2, aa, bb) if deflt else g.sym(f2, aa, bb, [tol])
                parts.append(truth(r3))
            def j_conj(m):
                v = run_(m)
                w = all(call(g, fn_of(sub, "rel", deflt), [m[na[i]] for i in ix], [m[nb[i]] for i in ix], None if deflt else m["t"])
                        for sub, ix in zip(SUB[t], GRADES[t]))
                return v != w, dict(info(m, v), expected=w)
            fp.prove(rec, fn + ":conjunction over grades", bnot(tm.bxor(got, band(*parts))), j_conj, inputs=nm, stages=("abs",))
        xs = [1.0 + k for k in range(n)]
        for d in (0.0, 1e-17, 1e-3):
            ys = [x * (1 + d) for x in xs]
            env = {**dict(zip(na, xs)), **dict(zip(nb, ys)), "t": 1e-6}
            if tm.evaluate([got], env)[0] == call(g, fn, xs, ys, None if deflt else 1e-6): rec.validated += 1
            else: rec.maybe(fn + ":encoding", "differs from native")
    return fn + ":ieee", run

def polyof(t, memo, ids):
    """Expanded polynomial of a term over its inputs, or None."""
    for u in tm.postorder([t]):
        if u.id in memo: continue
        r = None
        if u.sort == "F":
            a = [memo[x.id] if isinstance(x, T) else x for x in u.args]
            ok = not any(x is None for x in a)
            if u.op == "c": r = poly.pconst(Fr(tm.cval(u))) if math.isfinite(tm.cval(u)) else None
            elif u.op == "ratc": r = poly.pconst(Fr(u.args[0], u.args[1]))
            elif u.op == "in": r = poly.pvar(ids.setdefault(u.args[0], len(ids)))
            elif not ok: r = None
            elif u.op == "fadd": r = poly.padd(a[0], a[1])
            elif u.op == "fsub": r = poly.padd(a[0], a[1], -1)
            elif u.op == "fneg": r = poly.pscale(a[0], -1)
            elif u.op == "fmul" and len(a[0]) * len(a[1]) <= 400: r = poly.pmul(a[0], a[1])
        memo[u.id] = r
    return memo[t.id]

def cutnorms(p, pc, got, d2, b2, a, b):
    """Every polynomial subterm equal to the squared distance d2 or the squared norm b2 of the reference becomes
    one of the free symbols S, Q.  None when the comparison still depends on single components."""
    ids, memo = {}, {}
    pd, pb = polyof(d2, memo, ids), polyof(b2, memo, ids)
    m = {}
    for u in tm.postorder([got]):
        if u.sort != "F" or u.op == "in": continue
        pu = polyof(u, memo, ids)
        if pu and pu == pd: m[u] = tm.inp("S")
        elif pu and pu == pb: m[u] = tm.inp("Q")
    c = tm.subst([got], m)[0]
    c = p.narrow([c])[0]
    c = pc.narrow([c])[0]
    names = {x.args[0] for x in a + b}
    def keep(u): return {v.args[0] for v in tm.postorder([u]) if v.op == "in"} & names
    return None if keep(c) else c

def threshold(g, t, mode, deflt, side, zeroref):
    """Real-valued decision thresholds."""
    fn = fn_of(t, mode, deflt)
    def run(rec):
        n = N[t]
        na = ["a%d" % k for k in range(n)]; nb = ["b%d" % k for k in range(n)]
        a = [tm.inp(x) for x in na]; b = [F(0.0) if zeroref else tm.inp(x) for x in nb]
        tol = F(EPS) if deflt else tm.inp("t")
        r = g.sym(fn, a, b) if deflt else g.sym(fn, a, b, [tol])
        got = truth(r)
        d = dom(na + ([] if zeroref else nb), Fr(10) ** -140, Fr(10) ** 140)
        if not deflt: d["t"] = (Fr(1, 10 ** 15), Fr(1), False)
        def judge(m):
            xs = [m[x] for x in na]; ys = [0.0 if zeroref else m[x] for x in nb]
            tv = EPS if deflt else m["t"]
            if not (1e-16 <= tv <= 1) : return False, None
            if any(x and not 1e-140 <= abs(x) <= 1e140 for x in xs + ys): return False, None
            w = exact(t, frs(xs), frs(ys), Fr(tv), mode)
            v = call(g, fn, xs, ys, None if deflt else tv)
            return w is not None and v != w, dict(function=fn, a=xs, b=ys, tol=tv, got=v, expected=w)
        p = Prover(d, judge, seed=1, qt=6.0); p.relax = True; p.fixes = 10; p.nofall = True; p.fastt = 3.0
        mul, add, sub = ga.Terms.mul, ga.Terms.add, lambda x, y: fop("fsub", x, y)
        def ssq(v):
            o = mul(v[0], v[0])
            for x in v[1:]: o = add(o, mul(x, x))
            return o
        c = lambda q: qterm(q)
        assume = []
        if not deflt: assume.append(tm.fcmp("ogt", tol, F(0.0)))
        isabs = mode == "abs" or zeroref
        if isabs:
            lo = mul(tol, c(1 - BAND)); hi = mul(tol, c(1 + BAND))
            near = band(*[band(tm.fcmp("olt", sub(x, y), lo), tm.fcmp("olt", sub(y, x), lo)) for x, y in zip(a, b)])
            far = bor(*[bor(tm.fcmp("ogt", sub(x, y), hi), tm.fcmp("ogt", sub(y, x), hi)) for x, y in zip(a, b)])
        else:
            lo = sub(mul(tol, c(1 - BAND)), c(ABSU)); hi = add(mul(tol, c(1 + BAND)), c(ABSU))
            # the component vector of a grade whose reference is not zero
            d2 = ssq([sub(x, y) for x, y in zip(a, b)]); b2 = ssq(b)
            near = band(tm.fcmp("ogt", lo, F(0.0)), tm.fcmp("olt", d2, mul(mul(lo, lo), b2)))
            far = tm.fcmp("ogt", d2, mul(mul(hi, hi), b2))
            assume.append(bor(*[bnot(tm.fcmp("oeq", y, F(0.0))) for y in b]))
        cl = Holds("within tolerance => true", bor(bnot(near), got)) if side == "near" else Holds("beyond tolerance => false", bor(bnot(far), bnot(got)))
        label = fn + (" (zero reference)" if zeroref else "")
        if not isabs:
            S, Q = tm.inp("S"), tm.inp("Q")
            dc = dict(S=(Fr(0), Fr(10) ** 282, True), Q=(Fr(10) ** -280, Fr(10) ** 282, False))
            if not deflt: dc["t"] = d["t"]
            pc = Prover(dc, None, seed=1, qt=4.0); pc.fastt = 3.0; pc.nofall = True
            cut = cutnorms(p, pc, got, d2, b2, a, b)
            if cut is not None:
                nearc = band(tm.fcmp("ogt", lo, F(0.0)), tm.fcmp("olt", S, mul(mul(lo, lo), Q)))
                farc = tm.fcmp("ogt", S, mul(mul(hi, hi), Q))
                pos = [tm.fcmp("oge", S, F(0.0)), tm.fcmp("ogt", Q, F(0.0))] + ([tm.fcmp("ogt", tol, F(0.0))] if not deflt else [])
                c2 = Holds(cl.name, bor(bnot(nearc), cut)) if side == "near" else Holds(cl.name, bor(bnot(farc), bnot(cut)))
                pc.prove([c2], assume=pos, label=label)
                if pc.proved and not pc.undecided:
                    # the symbols stand for the norms: every point of the domain is covered
                    rec.prover(pc)
                    for k in range(3):
                        env = spread(na + nb, "c20%d%s" % (k, label), 1.0)
                        if not deflt: env["t"] = (1e-9, 0.5, 1e-3)[k]
                        bad, info = judge(env); rec.replays += 1
                        if bad: rec.bad(label, env, info); break
                    return
        p.prove([Split(got), cl], assume=assume, label=label)
        rec.prover(p)
    return "%s:threshold:%s:%s" % (fn, side, zeroref), run

def qterm(q):
    """Rational constant as a term (doubles are exact binary fractions: built as quotient)."""
    q = Fr(q)
    x = float(q)
    if Fr(x) == q: return F(x)
    return fop("fdiv", tm.mk("c", (tm.d2b(float(q.numerator)),), "F"), tm.mk("c", (tm.d2b(float(q.denominator)),), "F")) if False else tm.mk("ratc", (q.numerator, q.denominator), "F")

def bools(g):
    def run(rec):
        a, b = tm.ini("a", 32), tm.ini("b", 32)
        r = g.sym("h_nearbool", a, b)
        z = lambda x: tm.icmp("eq", x, tm.I(0, 32))
        def judge(m):
            v = bool(g.native("h_nearbool", ("i", m["a"]), ("i", m["b"]))[0])
            return v != (bool(m["a"]) == bool(m["b"])), dict(a=m["a"], b=m["b"], got=v)
        fp.prove(rec, "nearlyEquals(bool,bool)", bnot(tm.bxor(truth(r), bnot(tm.bxor(z(a), z(b))))), judge)
    return "bool", run

def run(ctx):
    g = ctx.load("cmp")
    ctx.method = ("symbolic execution of the comparison functions; validity/identity/tolerance-sign clauses over IEEE doubles (bit-vector FP SMT, arithmetic "
                  "abstracted by its IEEE laws, refined when needed); thresholds over the reals (QF_NRA) with native replay of every model")
    ctx.bounds = dict(ieee_clauses="all bit patterns", thresholds="values zero or 1e-140..1e140, tolerance 1e-15..1, band 1e-6 relative plus 2^-51 of the reference")
    ctx.assume("thresholds: rounding inside the band only (real-number semantics of the comparison arithmetic)")
    ts = []
    for t in TYPES + ["a1", "a2", "a3", "a4", "a6"]:
        for df in (False, True): ts.append(ieee(g, t, "rel", df))
    for m in ("abs", "relx"):
        for df in (False, True): ts.append(ieee(g, "D", m, df))
    ts.append(bools(g))
    for side in ("near", "far"):
        for df in (False, True):
            for m in ("rel", "relx", "abs"): ts.append(threshold(g, "D", m, df, side, False))
            for t in ["S", "V", "B", "T"] + (["a1", "a2", "a3", "a4", "a6"] if not ctx.quick or not df else []):
                ts.append(threshold(g, t, "rel", df, side, False)); ts.append(threshold(g, t, "rel", df, side, True))
            ts.append(threshold(g, "D", "rel", df, side, True))
            ts.append(threshold(g, "D", "relx", df, side, True))
    ts += aliases.tasks(ctx, "near", "neart", "neartol", "nearabs", "nearrel")
    ctx.par(ts)
