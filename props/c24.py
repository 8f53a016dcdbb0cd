"""Stream extraction yields the parsed values or nulls the affected grade."""
from .iox import *

def instream(g, st, state):
    return g.ex.newstream(st, iomodel.IS, state=state)

def native(g, t, m, n, nv):
    """run the real operator>> on a stream whose number parser follows the model"""
    vals = [m.get("v%d" % k, 0.0) for k in range(nv)]
    errs = [(1 if m.get("rf%d" % k) else 0) | (2 if m.get("re%d" % k) else 0) | (4 if m.get("rb%d" % k) else 0)
            | (8 if m.get("rf%d" % k) and m.get("rk%d" % k) else 0) for k in range(nv)]
    s = (1 if m.get("sf") else 0) | (2 if m.get("se") else 0) | (4 if m.get("sb") else 0)
    pa = [m["a%d" % k] for k in range(n)]
    f = getattr(g.lib, "n_get_" + t); f.restype = ctypes.c_int
    o = (ctypes.c_double * 8)(*([0.0] * 8)); used = ctypes.c_double(0)
    with inside(g, "n_get_" + t, pa, vals, errs, s): after = f((ctypes.c_double * n)(*pa), (ctypes.c_double * nv)(*vals), (ctypes.c_int * nv)(*errs), ctypes.c_int(nv), ctypes.c_int(s), o, ctypes.byref(used))
    raw = list(o)
    out = raw[:n] if t[0] == "a" else [raw[int(c)] for c in ORDER[t]]
    return out, int(used.value), vals, errs, s, pa, after

def valid(x): return x == x and abs(x) != float("inf") and (x == 0.0 or abs(x) >= 2.2250738585072014e-308)
def isame(x, y): return (x != x and y != y) or (x == y and math_sign(x) == math_sign(y))
def math_sign(x):
    import math
    return math.copysign(1.0, x)

def oracle(n, grades, vals, errs, state, out, used, after):
    """-> reason or None"""
    i = 0; st = state; badgrade = None
    while i < n:
        if st: ok = False; failed = True
        else:
            e = errs[i]; st = (1 if e & 1 else 0) | (2 if e & 2 else 0) | (4 if e & 4 else 0)
            failed = bool(e & 5); ok = not failed and valid(vals[i])
        if not ok:
            badgrade = next(k for k, (a, b) in enumerate(grades) if a <= i < b); break
        i += 1
    if badgrade is not None and failed and not after: return "the stream is good again after the read failed at component %d" % i
    if badgrade is None and after: return "the stream has failed although every number was read"
    if badgrade is None:
        for k in range(n):
            if not isame(out[k], vals[k]): return "component %d is %r, read %r" % (k, out[k], vals[k])
        if used != n: return "%d numbers consumed for %d components" % (used, n)
        return None
    for k in range(grades[badgrade][0]):
        if not isame(out[k], vals[k]): return "component %d is %r, read %r" % (k, out[k], vals[k])
    for g_, (a, b) in enumerate(grades):
        if g_ == badgrade or (g_ > badgrade and failed):
            for k in range(a, b):
                if out[k] == out[k]: return "component %d is %r after the read failed at component %d" % (k, out[k], i)
        elif g_ > badgrade:
            if all(out[k] != out[k] for k in range(a, b)): continue
            if not any(all(isame(out[a + j], vals[p + j]) for j in range(b - a)) for p in range(i + 1, len(vals) - (b - a) + 1)):
                return "grade %d holds %r, neither null nor read" % (g_, out[a:b])
    return None

def task(g, t):
    fn = "h_get_" + t
    def run(rec):
        n = NCOMP[t] if t in NCOMP else int(t[1:])
        grades = GRADES[t]
        nv = n + 2
        a = [tm.inp("a%d" % k) for k in range(n)]
        sf, se, sb = tm.inb("sf"), tm.inb("se"), tm.inb("sb")
        bit = lambda c, v: ite(c, tm.I(v, 32), tm.I(0, 32))
        st = g.ex.base.fork()
        is_ = instream(g, st, tm.iop("or", bit(sf, 4), tm.iop("or", bit(se, 2), bit(sb, 1))))
        v = [tm.inp("v%d" % k) for k in range(nv)]
        nm = ["a%d" % k for k in range(n)] + ["v%d" % k for k in range(nv)]
        def judge(m):
            m = {**{x: 0.0 for x in nm}, **m}
            o, used, vals, errs, s, pa, after = native(g, t, m, n, nv)
            why = oracle(n, grades, vals, errs, s, o, used, after)
            return bool(why), dict(function="operator>> of " + NAME.get(t, t), prior=pa, parsed=vals, outcomes=errs, state=s, got=o, numbers_used=used, why=why)
        cand = []
        for x in (1.5, float("nan"), 5e-324, float("inf")):
            for k in range(n):
                cand.append({**{"v%d" % j: (x if j == k else 2.0 + j) for j in range(nv)}, **{"a%d" % j: 9.0 + j for j in range(n)}})
                for w in ("rf", "re", "rb"):
                    cand.append({**cand[-1], "%s%d" % (w, k): True})
        cand += [{**cand[0], w: True} for w in ("sf", "se", "sb")]
        rec.fallback = (fn + ":extraction", judge, cand)
        r = g.sym(fn, a, ("raw", is_), 8, st=st)
        if not r.returns: rec.maybe(fn, "never returns"); return
        nofaults(rec, r, fn)
        out = r.outs[0][:n] if t[0] == "a" else [r.outs[0][int(c)] for c in ORDER[t]]
        # what the specification reads: clean[i]: read i takes place on a good stream after valid numbers
        init = bor(sf, se, sb)
        rf = [tm.inb("rf%d" % k) for k in range(nv)]; re_ = [tm.inb("re%d" % k) for k in range(nv)]; rb = [tm.inb("rb%d" % k) for k in range(nv)]
        okv = lambda x: tm.fpclass(0x168, x)
        clean = []; good = []; failed = []
        prev, dirty = TRUE, init
        for i in range(n):
            clean.append(prev)
            ok_i = band(prev, bnot(dirty), bnot(rf[i]), bnot(rb[i]), okv(v[i]))
            good.append(ok_i)
            failed.append(band(prev, bor(dirty, rf[i], rb[i])))   # the stream fails at read i
            prev, dirty = ok_i, bor(re_[i])
        null = lambda x: tm.fpclass(3, x)
        pr = lambda name, claim, assume: fp.prove(rec, fn + ":" + name, claim, judge, assume=band(r.pc, assume), inputs=nm)
        pr("all components read", band(*[ident(o, x) for o, x in zip(out, v)]), good[-1])
        pos = g.ex.position(r.state, is_)
        pr("one number per component consumed", tm.icmp("eq", pos, tm.I(iomodel.BASE + n, 64)), good[-1])
        sthen = g.ex.iostate(r.state, is_)
        broken = bnot(tm.icmp("eq", tm.iop("and", sthen, tm.I(5, 32)), tm.I(0, 32)))
        pr("stream not failed after a complete read", bnot(broken), band(good[-1], bnot(bor(rf[n - 1], rb[n - 1]))))
        pr("failed stream stays failed", broken, bor(*failed))
        for gi, (x, y) in enumerate(grades):
            first = bor(*[band(clean[i], bnot(good[i])) for i in range(x, y)])
            pr("grade %d null when a number in it is bad" % gi, band(*[null(out[k]) for k in range(x, y)]), first)
            if x: pr("grades before the bad grade %d kept" % gi, band(*[ident(out[k], v[k]) for k in range(x)]), first)
            if y < n:
                ff = bor(*failed[x:y])
                pr("grades after a failure in grade %d null" % gi, band(*[null(out[k]) for k in range(y, n)]), ff)
                for gj in range(gi + 1, len(grades)):
                    p, q = grades[gj]
                    alt = [band(*[null(out[k]) for k in range(p, q)])]
                    for s0 in range(x + 1, nv - (q - p) + 1):
                        alt.append(band(*[ident(out[p + j], v[s0 + j]) for j in range(q - p)]))
                    pr("grade %d null or read after a bad number in grade %d" % (gj, gi), bor(*alt), first)
        # stale contents never survive
        ret = r.state
        for xs in ([1.5 + k for k in range(n)], [-2.25 * k for k in range(n)]):
            env = {**{"a%d" % k: 9.0 + k for k in range(n)}, **{"v%d" % k: (xs + [7.0, 8.0])[k] for k in range(nv)},
                   **{"%s%d" % (c, k): False for c in ("rf", "re", "rb", "rk") for k in range(nv)}, "sf": False, "se": False, "sb": False}
            for fail in [None] + list(range(n)):
                e2 = dict(env)
                if fail is not None: e2["rf%d" % fail] = True
                got = tm.evaluate(out, e2)
                o, used, *_ = native(g, t, e2, n, nv)
                if all(isame(p, q) for p, q in zip(got, o)): rec.validated += 1
                else: rec.maybe(fn + ":encoding", "encoded %r, native %r" % (got, o))
    return fn, run

def run(ctx):
    g = ctx.load("io")
    ctx.method = ("symbolic execution of operator>> over a stream whose every number read has a symbolic outcome (parsed value, fail, eof, bad, target untouched) "
                  "and whose initial state is symbolic; obligations per grade decided by the solver over all fault sequences")
    ctx.bounds = dict(faults="every combination of outcomes of the up to 8 reads and of the initial stream state", inputs="all parsed values and prior contents",
                      types="nine types and std::array<double, 1..5>")
    ctx.assume("std::istream::operator>>(double&) on a stream not in the good state only sets failbit; otherwise it stores a number or raises fail/eof/bad bits")
    ctx.par([task(g, t) for t in "S V B T P I C X M a1 a2 a3 a4 a5".split()])
