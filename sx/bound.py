"""Search for concrete counterexamples at the decision boundaries of the code.

The comparisons occurring in the terms of an obligation are located by bisection along one input
(compiled concrete evaluation), and the native judge is asked at points around each crossing.
Only ever used to find counterexamples, never to conclude that there are none."""
import math, random, time
from . import term as tm

class Bail(Exception): pass

def _safe(f):
    def g(*a):
        try: return f(*a)
        except (OverflowError, ZeroDivisionError, ValueError): return math.nan
    return g

def compile_terms(roots, most=6000):
    """-> f(env) giving the values of roots; raises Bail for terms outside the evaluator."""
    order = tm.postorder(roots)
    if len(order) > most: raise Bail("too large")
    g = {"math": math, "K": [], "nan": math.nan}
    src = ["def f(env):"]; nm = {}
    def const(v):
        g["K"].append(v); k = "k%d" % len(g["K"]); g[k] = v; return k
    for i, t in enumerate(order):
        n = nm[t.id] = "v%d" % i
        a = [nm[x.id] if isinstance(x, tm.T) else x for x in t.args]
        op = t.op
        if op == "c": nm[t.id] = const(tm.cval(t)); continue
        if op == "ratc":
            nm[t.id] = const(t.args[0] / t.args[1] if abs(t.args[0]) < 10 ** 300 * abs(t.args[1]) else math.inf); continue
        if op == "in": src.append(" %s=env[%r]" % (n, t.args[0])); continue
        if op == "undef": nm[t.id] = const({"F": 0.0, "B": False}.get(t.sort, 0)); continue
        if op == "trunc" and t.sort == "I": e = "%s & %d" % (a[0], tm.mask(t.w))
        elif op in ("fadd", "fsub", "fmul"): e = "%s %s %s" % (a[0], {"fadd": "+", "fsub": "-", "fmul": "*"}[op], a[1])
        elif op == "fneg": e = "-%s" % a[0]
        elif op == "fabs": e = "abs(%s)" % a[0]
        elif op in tm.FOPS:
            e = "%s(%s)" % (const(_safe(lambda *x, op=op: tm.fop_c(op, *x))), ",".join(a))
        elif op in ("flt", "fle", "feq"): e = "%s %s %s" % (a[0], {"flt": "<", "fle": "<=", "feq": "=="}[op], a[1])
        elif op == "fpclass": e = "bool(%d & %s(%s))" % (t.args[0], const(tm.fclass_c), a[1])
        elif op == "not": e = "not %s" % a[0]
        elif op == "and" and t.sort == "B": e = " and ".join(a)
        elif op == "or" and t.sort == "B": e = " or ".join(a)
        elif op == "ite": e = "%s if %s else %s" % (a[1], a[0], a[2])
        elif op in ("ieq", "iult", "islt"): e = "%s(%r,%s,%s,%d)" % (const(tm.icmp_c), op[1:], a[0], a[1], t.args[0].w)
        elif op == "zext": e = a[0]
        elif op == "sext": e = "%s(%s,%d) & %d" % (const(tm._sg), a[0], t.args[0].w, tm.mask(t.w))
        elif op == "dbits": e = "%s(%s)" % (const(tm.d2b), a[0])
        elif op == "bitsd": e = "%s(%s)" % (const(tm.b2d), a[0])
        elif op == "signbit": e = "math.copysign(1.0,%s) < 0" % a[0]
        elif op == "sitof": e = "float(%s(%s,%d))" % (const(tm._sg), a[0], t.args[0].w)
        elif op == "uitof": e = "float(%s)" % a[0]
        elif op in ("ftosi", "ftoui"): e = "(int(%s) & %d) if abs(%s) < 1e300 else 0" % (a[0], tm.mask(t.w), a[0])
        elif t.sort == "I" and op in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "udiv", "urem", "sdiv", "srem"):
            e = "%s(%r,%s,%s,%d) & %d" % (const(_zero(tm.iop_c)), op, a[0], a[1], t.w, tm.mask(t.w))
        else: raise Bail(op)
        src.append(" %s=%s" % (n, e))
    src.append(" return (%s,)" % ",".join(nm[r.id] for r in roots))
    exec("\n".join(src), g)
    return g["f"]

def _zero(f):
    def g(*a):
        try: return f(*a)
        except ZeroDivisionError: return 0
    return g

def atoms(terms, most=60):
    """comparisons of doubles that depend on an input, with the inputs they depend on"""
    dep = {}; out = []
    for t in tm.postorder(list(terms)):
        d = frozenset()
        if t.op == "in": d = frozenset([t.args[0]]) if t.sort == "F" else frozenset()
        else:
            for a in t.args:
                if isinstance(a, tm.T): d |= dep[a.id]
        dep[t.id] = d
        if t.op in ("flt", "fle", "feq") and d: out.append((t, d))
    return out[:most]

GRID = [10.0 ** (k / 2.0) for k in range(-44, 45)]
OFFS = [0.0] + [s * 2.0 ** -k for k in (52, 51, 46, 40, 33, 27, 20, 14, 10, 7, 5, 3, 2, 1) for s in (1, -1)] + [1.0, -0.9]

def search(terms, dom, judge, seconds=1.0, seed=1, assume=tm.TRUE, seen=None, tries=6):
    """dom: {name: (lo, hi, zero)}.  -> (inputs, detail) of a counterexample, or None."""
    from .real import spread
    t0 = time.time(); rng = random.Random(seed)
    names = list(dom)
    todo = [(t, d) for t, d in atoms(terms) if d & set(names)]
    if seen is not None:
        todo = [(t, d) for t, d in todo if t.id not in seen]
        seen |= {t.id for t, _ in todo}
    fs = []
    for t, d in todo:
        try: fs.append((compile_terms([t.args[0], t.args[1], assume]), t.op, sorted(d & set(names))))
        except (Bail, SyntaxError, RecursionError, MemoryError): pass
    def fit(n, v):
        lo, hi, zero = dom[n]; lo, hi = float(lo), float(hi)
        if v == 0.0: return 0.0 if zero else None
        return v if lo <= abs(v) <= hi and abs(v) < math.inf else None
    for rnd in range(tries):
        for f, op, deps in fs:
            if time.time() - t0 > seconds: return None
            if rnd % 3 == 2: ins = spread(rng, names, dom, rnd)
            else:
                ins = {}
                for n in names:
                    v = rng.choice((-1, 1)) * rng.choice((1.0, rng.uniform(0.5, 2.0), rng.uniform(0.1, 10)))
                    if dom[n][2] and rng.random() < (0.0, 0.3)[rnd % 2]: v = 0.0
                    w = fit(n, v); ins[n] = w if w is not None else math.copysign(max(float(dom[n][0]), min(1.0, float(dom[n][1]))), v)
            var = rng.choice(deps)
            env = dict(ins)
            def h(v):
                env[var] = v
                try: a, b, _ = f(env)
                except (OverflowError, ValueError, TypeError): return None
                x = a - b
                return None if x != x else x
            sg = rng.choice((1.0, -1.0))
            pts = [p for p in (fit(var, sg * x) for x in GRID) if p is not None]
            prev = None; roots = []
            for p in pts:
                y = h(p)
                if y is not None and prev is not None and ((y < 0) != (prev[1] < 0) or (y == 0) != (prev[1] == 0)):
                    roots.append((prev[0], prev[1], p))
                prev = (p, y) if y is not None else None
                if len(roots) >= 3: break
            for lo, ylo, hi in roots:
                s0 = (ylo < 0, ylo == 0)
                for _ in range(64):
                    mid = lo + (hi - lo) / 2 if abs(hi) < 4 * abs(lo) else math.copysign(math.sqrt(abs(lo)) * math.sqrt(abs(hi)), lo)
                    if mid in (lo, hi): break
                    y = h(mid)
                    if y is None: break
                    if (y < 0, y == 0) == s0: lo = mid
                    else: hi = mid
                for off in OFFS:
                    for r in ((lo, hi) if off == 0.0 else (lo if off < 0 else hi,)):
                        v = fit(var, r * (1 + math.copysign(off, off)))
                        if v is None: continue
                        p = dict(ins); p[var] = v
                        if assume is not tm.TRUE:
                            try:
                                if not f(p)[2]: continue
                            except Exception: continue
                        j = judge(p)
                        if j is not None and j[0]: return p, j[1]
                    if time.time() - t0 > seconds: return None
    return None
