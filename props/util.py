"""Shared pieces of the property modules."""
import math
from fractions import Fraction as Fr
import mpmath
from sx import term as tm, ga, smt, fp
from sx.term import T, F, fop, TRUE, FALSE, B, band, bor, bnot, ite
from sx.ga import TYPES, NC, SLOTS, NAME, CODE, SLOTNAME
from sx.real import *
U = Fr(1, 2 ** 53)

def code(res):
    """Result type code of a harness call (must be concrete; a matter of the signature when the body is not encodable)."""
    if res.ret is None: return None
    if not tm.isc(res.ret): return res.again() if res.opaque and res.again else None
    return tm.sval(res.ret)

def fin(x): return x == x and abs(x) != math.inf
def isvalid(x): return x == 0 or (fin(x) and abs(x) >= 2.0 ** -1022)
def same(a, b): return a == b or (a != a and b != b)

def faults(rec, res, name, judge=None):
    """Memory faults, aborts and reachable undefined behaviour must be infeasible."""
    for kind, c, detail in res.faults:
        r, m = fp.check(c, timeout=5.0)
        if r == "unsat": rec.ok(name + ":no " + kind)
        else: yield kind, c, detail, m

def nofaults(rec, res, name):
    for kind, c, detail, m in faults(rec, res, name):
        rec.maybe(name, "possible %s: %s (model %s)" % (kind, detail, str(m)[:200]))

def valid_t(*ts):
    return band(*[tm.fpclass(0x168, t) for t in ts])
def finite_t(*ts):
    return band(*[tm.fpclass(0x3ff & ~0x207, t) for t in ts])

def fr(x): return Fr(x)
def frs(xs): return [Fr(x) for x in xs]

def judge_components(group, fn, args, want, tol=None, ignore=()):
    """args: native args; want: 8 exact numbers or floats; tol: 8 exact bounds (0 = IEEE-equal)."""
    ret, outs = group.native(fn, *args)
    o = outs[-1]
    for k in range(8):
        if k in ignore: continue
        g, w = o[k], want[k]
        t = tol[k] if tol else 0
        if isinstance(w, float) and (not fin(w) or not fin(g)):
            bad = not same(g, w)
        elif not fin(g): bad = True
        else: bad = abs(Fr(g) - Fr(w)) > t
        if bad:
            return True, dict(function=fn, args=[list(a) if isinstance(a, list) else a for a in args], component=SLOTNAME[k], got=g, expected=float(w) if not isinstance(w, float) else w)
    return False, None

BIG = (Fr(10) ** -150, Fr(10) ** 150, True)
def dom(names, lo=Fr(10) ** -150, hi=Fr(10) ** 150, zero=True):
    return {n: (lo, hi, zero) for n in names}

def poly_prove(rec, p, claims, label, assume=()):
    p.prove(claims, assume=assume, label=label)

def opsclosure(ts):
    return {t.op for t in tm.postorder(ts)}

# ---------------------------------------------------------------- mpmath helpers
mpmath.mp.prec = 300
def mpf(x):
    x = Fr(x)
    return mpmath.mpf(x.numerator) / x.denominator
def tofr(x):
    """mpmath -> Fraction"""
    s, man, ex, bc = x._mpf_
    man = int(-man if s else man)
    return Fr(man) * (Fr(2) ** ex)

def validate(rec, g, fn, native_args, terms, env, name=None):
    """Encoded outputs evaluated at env must equal what the native build computes."""
    ret, outs = g.native(fn, *native_args)
    got = outs[-1]
    try:
        ev = tm.evaluate(terms, env)
    except (KeyError, NotImplementedError):
        return
    for k, (x, y) in enumerate(zip(ev, got)):
        if x is None: continue
        if same(x, y) or (fin(x) and fin(y) and abs(x - y) <= 1e-11 * max(abs(x), abs(y), 1e-300)): continue
        rec.maybe((name or fn) + ":encoding", "encoding gives %r, native %r for output %d at %s" % (x, y, k, env))
        return
    rec.validated += 1; rec.replays += 1

def spread(names, seed, scale=4.0):
    """Deterministic full-mantissa values for validating encodings."""
    import random
    r = random.Random("%s/%s" % (seed, ",".join(names)))
    return {n: r.choice([-1, 1]) * r.uniform(0.1, scale) for n in names}

# ---------------------------------------------------------------- value range of intermediates
def logrange(roots, domain):
    """Sound bounds on log2|t| of every node (zero apart): {id: (lo, hi)}; None = unknown."""
    b = {}
    INF = 1e9
    def lg(q):
        q = Fr(q)
        if q == 0: return -INF
        return float(q.numerator.bit_length() - q.denominator.bit_length())
    for t in tm.postorder(roots):
        if t.sort != "F": continue
        op = t.op
        a = [b.get(x.id) for x in t.args if isinstance(x, T) and x.sort == "F"]
        r = None
        if op == "c":
            v = tm.cval(t)
            r = (INF, -INF) if v == 0 else (lg(abs(Fr(v))) - 1, lg(abs(Fr(v))) + 1) if fin(v) else None
        elif op == "in":
            d = domain.get(t.args[0])
            if d: r = (lg(d[0]) - 1 if d[0] else -INF, lg(d[1]) + 1)
        elif any(x is None for x in a): r = None
        elif op in ("fneg", "fabs", "to32", "copysign"): r = a[0]
        elif op in ("fadd", "fsub"):
            if a[0][0] > a[0][1]: r = a[1]
            elif a[1][0] > a[1][1]: r = a[0]
            else: r = (min(a[0][0], a[1][0]) - 54, max(a[0][1], a[1][1]) + 1)
        elif op == "fmul": r = (a[0][0] + a[1][0] - 1, a[0][1] + a[1][1] + 1) if all(x[0] <= x[1] for x in a) else (INF, -INF)
        elif op == "fdiv": r = (a[0][0] - a[1][1] - 1, a[0][1] - a[1][0] + 1) if all(x[0] <= x[1] for x in a) else None
        elif op == "sqrt": r = (a[0][0] / 2 - 1, a[0][1] / 2 + 1)
        elif op == "ite": r = (min(a[0][0], a[1][0]), max(a[0][1], a[1][1]))
        elif op in ("sin", "cos"): r = (-1074, 1)
        b[t.id] = r
    return b

def outside(rec, g, fn, outs, inputs, judge, domain=None, tol=None, limit=6):
    """Overflow and underflow of intermediates: excluded by bounds, else queried and replayed."""
    from sx import dag
    nm = [x.args[0] for x in inputs if x.op == "in"]
    domain = {k: (Fr(lo), Fr(hi), z) for k, (lo, hi, z) in (domain or dom(nm)).items()}
    b = logrange(outs, domain)
    odd = []
    for t in tm.postorder(outs):
        if t.sort != "F" or t.op not in ("fmul", "fdiv", "fadd", "fsub", "sqrt"): continue
        r = b.get(t.id)
        if r is None: continue
        if r[1] > 1023: odd.append((t, "overflow"))
        if r[0] < -1022 and t.op in ("fmul", "fdiv"): odd.append((t, "underflow"))
    if not odd: rec.ok(fn + ":range of intermediates"); return True
    harmless = 0
    for t, kind in odd[:limit]:
        x = lower([t])[0]
        big, small = tm.mk("ratc", (2 ** 1024, 1), "F"), tm.mk("ratc", (1, 2 ** 1030), "F")
        if kind == "overflow": c = bor(tm.fcmp("ogt", x, big), tm.fcmp("olt", x, fop("fneg", big)))
        else: c = band(bnot(tm.fcmp("oeq", x, F(0.0))), tm.fcmp("olt", x, small), tm.fcmp("ogt", x, fop("fneg", small)))
        v, m = dag.check(c, domain, timeout=2.0)
        if v == "unsat": rec.ok("%s:no %s of %s" % (fn, kind, tm.show(t, 2))); continue
        if v == "sat":
            try: ins = {n: float(m[n]) if n in m else 1.0 for n in domain}
            except OverflowError: continue
            rec.replays += 1
            bad, d = judge(ins)
            if bad: rec.bad("%s:%s" % (fn, kind), ins, d); return False
        harmless += 1
    if harmless: rec.note("%s: %d intermediate(s) may leave the normal range; solver models of it were replayed and stayed within tolerance" % (fn, harmless))
    return True

def indomain(xs, lo=1e-150, hi=1e150, zero=True):
    return all((x == 0 and zero) or (fin(x) and lo <= abs(x) <= hi) for x in xs)
