"""NaN components reach every dependent result."""
from .alg import *

NAN = lambda t: tm.fpclass(3, t)
def nanorfinite(ts): return band(*[tm.fpclass(0x3ff & ~0x204, t) for t in ts])
def somenan(ts): return bor(*[NAN(t) for t in ts])

def propagation(g, fn, types, deps):
    """deps: output slot -> [(operand number, component index)]; a NaN there makes the slot NaN."""
    def run(rec):
        pre = "ab"
        ops = [ga.ins(pre[i], t) for i, t in enumerate(types)]
        nm = [x.args[0] for o in ops for x in o]
        r = g.sym(fn, *ops, 8)
        if code(r) == -1: return
        nofaults(rec, r, fn)
        o = r.outs[0]
        def judge(m):
            vs = [ga.vals(m, pre[i], t) for i, t in enumerate(types)]
            if any(abs(x) == math.inf for v in vs for x in v): return False, None
            y = g.native(fn, *vs, 8)[1][-1]
            for k, ds in deps.items():
                if y[k] == y[k] and any(vs[i][c] != vs[i][c] for i, c in ds):
                    return True, dict(function=fn, operands=vs, component=SLOTNAME[k], got=y[k])
            return False, None
        fl = [x for v in ops for x in v]
        cl = []
        for k, ds in sorted(deps.items()):
            for i, c in ds: cl.append((k, i, c))
        whole = band(*[bor(bnot(NAN(ops[i][c])), NAN(o[k])) for k, i, c in cl])
        x = fp.check(bnot(whole), timeout=6.0, abstract=fp.ABS)
        if x[0] == "unsat": [rec.ok("%s.%s from operand %d[%d]" % (fn, SLOTNAME[k], i, c)) for k, i, c in cl]
        else:
            for k, i, c in cl:
                fp.prove(rec, "%s.%s from %s[%d]" % (fn, SLOTNAME[k], "left right".split()[i] if len(types) > 1 else "operand", c),
                         bor(bnot(NAN(ops[i][c])), NAN(o[k])), judge, assume=nanorfinite(fl), inputs=nm)
        # every single position, natively
        env = spread(nm, "c23" + fn)
        for n in nm:
            e = dict(env); e[n] = math.nan
            rec.replays += 1
            bad, d = judge(e)
            if bad:
                if not rec.violations: rec.bad(fn, e, d)
                break
        else:
            vs = [ga.vals(env, pre[i], t) for i, t in enumerate(types)]
            validate(rec, g, fn, vs + [8], o, env)
    return fn, run

def special(g, fn, t, nout, null):
    """null: every result component NaN; otherwise the result is not a valid value."""
    def run(rec):
        a = ga.ins("a", t); nm = ga.names("a", t)
        r = g.sym(fn, a, nout)
        if code(r) == -1: return
        nofaults(rec, r, fn)
        o = r.outs[0]
        if fn.startswith("h_magdir_"): used = [0] + [1 + k for k in SLOTS[t]]; groups = [[0], used[1:]]
        elif code(r) is not None and code(r) >= 0: used = SLOTS[TYPES[code(r)]]; groups = [used]
        else: rec.maybe(fn, "result type unknown"); return
        def judge(m):
            xs = ga.vals(m, "a", t)
            if any(abs(x) == math.inf for x in xs) or all(x == x for x in xs): return False, None
            y = g.native(fn, xs, nout)[1][-1]
            d = dict(function=fn, x=xs, result=[y[k] for k in used])
            if null: return any(y[k] == y[k] for k in used), d
            return any(all(isvalid(y[k]) for k in gr) for gr in groups), d
        claim = band(*[NAN(o[k]) for k in used]) if null else band(*[bnot(valid_t(*[o[k] for k in gr])) for gr in groups])
        fp.prove(rec, fn, claim, judge, assume=band(nanorfinite(a), somenan(a)), inputs=nm)
        env = spread(nm, "c23" + fn)
        for mask in range(1, 2 ** len(nm)):
            e = {n: math.nan if mask >> i & 1 else (env[n] if mask % 3 else 0.0) for i, n in enumerate(nm)}
            rec.replays += 1
            bad, d = judge(e)
            if bad:
                if not rec.violations: rec.bad(fn, e, d)
                break
    return fn, run

def run(ctx):
    gm, gs, gu, gf = ctx.load("mul", "addsub", "uni", "func")
    ctx.method = "symbolic execution; NaN-ness of every dependent output component over IEEE values (arithmetic abstracted by its NaN/zero/sign laws first, then bit-precise SMT)"
    ctx.bounds = dict(inputs="all subsets of NaN components, the rest any finite doubles", types="all ten types, all overloads")
    ctx.assume("libm functions return NaN for a NaN argument (C Annex F)", "complex product modelled on its finite path (libgcc's recovery concerns infinities)")
    T_ = []
    for a in TYPES:
        for b in TYPES:
            d = {}
            for k, l in ga.proddeps(a, b).items():
                for s, i, j in l: d.setdefault(k, set()).update({(0, SLOTS[a].index(i)), (1, SLOTS[b].index(j))})
            if gm.has("h_mul_%s_%s" % (a, b)): T_.append(propagation(gm, "h_mul_%s_%s" % (a, b), (a, b), {k: sorted(v) for k, v in d.items()}))
            for op in ("add", "sub"):
                d = {}
                for i, t in enumerate((a, b)):
                    for c, k in enumerate(SLOTS[t]): d.setdefault(k, []).append((i, c))
                T_.append(propagation(gs, "h_%s_%s_%s" % (op, a, b), (a, b), d))
    for t in TYPES:
        for u in ("neg", "rev", "odd", "dir"):
            T_.append(propagation(gu, "h_%s_%s" % (u, t), (t,), {k: [(0, c)] for c, k in enumerate(SLOTS[t])}))
        T_.append(propagation(gu, "h_dual_" + t, (t,), {ga.TABLE[7][k][1]: [(0, c)] for c, k in enumerate(SLOTS[t])}))
    for f, ts in (("magSq", TYPES), ("ampSq", TYPES), ("magnitude", TYPES), ("amplitude", TYPES[1:]), ("inverse", "SVBTCM"), ("direction", "SVBTP"), ("sq", "DSPCM"), ("cube", "DSPCM")):
        for t in ts: T_.append(special(gf, "h_%s_%s" % (f, t), t, 8, False))
    for t in "SVBTP": T_.append(special(gf, "h_magdir_" + t, t, 9, False))
    for f in ("exp_B", "exp_P", "exp_M", "log_P", "root_P"): T_.append(special(gf, "h_" + f, f[-1], 8, True))
    ctx.par(T_)
