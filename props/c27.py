"""Written values read back into the same components: writer and reader composed."""
from .iox import *
from . import c24

def task(g, t, kind):
    fn = "%s then operator>> of %s" % ({"put": "operator<<", "enote0": "io::enote"}[kind], NAME[t])
    def run(rec):
        n = NCOMP[t]
        a = [tm.inp("a%d" % k) for k in range(n)]; old = [tm.inp("b%d" % k) for k in range(n)]
        nm = ["a%d" % k for k in range(n)] + ["b%d" % k for k in range(n)]
        # admissible values: zero or of magnitude 1e-300 .. 1e300
        adm = band(*[bor(tm.fpclass(0x60, x), band(tm.fcmp("oge", tm.fop("fabs", x), tm.F(1e-300)), tm.fcmp("ole", tm.fop("fabs", x), tm.F(1e300)))) for x in a])
        def judge(m):
            bad, d = judge1(m, [m["a%d" % k] for k in range(n)])
            if not bad and "v0" in m:
                b2, d2 = judge1(m, [m.get("v%d" % k, 0.0) for k in range(n)])
                if b2: return b2, d2
            return bad, d
        def judge1(m, xs):
            pri = [m["b%d" % k] for k in range(n)]
            if not all(x == 0.0 or 1e-300 <= abs(x) <= 1e300 for x in xs): return False, dict(why="outside the stated range")
            text = buf(g, "n_put_" + t, xs, ("i", 4098), ("i", 6), ("i", 0)) if kind == "put" else buf(g, "n_enote0_" + t, xs)
            f = getattr(g.lib, "n_read_" + t); f.restype = ctypes.c_int
            o = (ctypes.c_double * 8)()
            with inside(g, "n_read_" + t, pri, text): f((ctypes.c_double * n)(*pri), ctypes.c_char_p(text.encode()), o)
            out = [o[int(c)] for c in ORDER[t]]
            for k in range(n):
                tol = 0.5e-6 * (1 + 1e-9) + abs(xs[k]) * 2.3e-16 if kind == "put" else abs(xs[k]) * 1e-15
                if not abs(out[k] - xs[k]) <= tol:
                    return True, dict(types=NAME[t], written=xs, text=text[:300], read=out, why="component %d" % k)
            return False, dict(text=text[:200], read=out)
        rec.fallback = (fn + ":round trip", judge, [{**dict(zip(nm[:n], w)), **{x: 4.0 for x in nm[n:]}} for w in witnesses(n) + [[-12345678901.25 / 3 * (k + 1) for k in range(n)], [1.0 / 3] * n]])
        st = g.ex.base.fork()
        if kind == "put":
            os = g.ex.newstream(st, iomodel.OS)
            w = g.sym("h_put_" + t, a, ("raw", os), st=st)
        else:
            os = g.ex.new(st, 32, "stack", "result string")
            w = g.sym("h_enote0_" + t, a, ("raw", os), st=st)
        if not w.returns: rec.maybe(fn, "never returns"); return
        h = g.ex.contents(w.state, os) if kind == "put" else g.ex.load(w.state, os, ("i", 64))
        for li, (c, hh) in enumerate(leaves(h)):
            lab = fn if li == 0 else "%s (case %d)" % (fn, li)
            cond = band(w.pc, c, adm)
            nums, prob = structure(g.ex.tokens(hh), n, False)
            rec.leaves += 1
            if prob and "text" not in prob and "separated" not in prob and len(nums) == n: prob = None
            if prob:
                fails(rec, lab + ":" + prob, cond, judge, nm, n); continue
            # the reader consumes the numbers of the text in order: number k stands for the k-th parsed value
            st2 = g.ex.base.fork()
            is_ = g.ex.newstream(st2, iomodel.IS)
            r = g.sym("h_get_" + t, old, ("raw", is_), 8, st=st2)
            out = [r.outs[0][int(k)] for k in ORDER[t]]
            v = [tm.inp("v%d" % k) for k in range(n)]
            outcome = band(*[bnot(tm.inb("%s%d" % (x, k))) for x in ("rf", "rb") for k in range(n)], *[bnot(tm.inb("re%d" % k)) for k in range(n - 1)])
            okv = band(*[tm.fpclass(0x168, x) for x in v])
            # value of token k equals component k, and reading puts parsed value k into component k
            fp.prove(rec, lab + ":writer order", band(*[ident(x[1], y) for x, y in zip(nums, a)]), judge, assume=cond, inputs=nm)
            fp.prove(rec, lab + ":reader order", band(*[ident(x, y) for x, y in zip(out, v)]), judge, assume=band(cond, r.pc, outcome, okv), inputs=nm)
            if kind == "put":
                fp.prove(rec, lab + ":six or more decimals", band(*[bor(band(tm.icmp("eq", tm.iop("and", x[2], tm.I(FLOATFIELD, 32)), tm.I(FIXED, 32)), tm.icmp("sge", x[3], tm.I(6, 64))),
                         ) for x in nums]), judge, assume=cond, inputs=nm)
            else:
                fp.prove(rec, lab + ":fifteen or more decimals", band(*[band(tm.icmp("eq", tm.iop("and", x[2], tm.I(FLOATFIELD, 32)), tm.I(SCIENTIFIC, 32)), tm.icmp("sge", x[3], tm.I(15, 64)))
                         for x in nums]), judge, assume=cond, inputs=nm)
            fp.prove(rec, lab + ":padding is blank", band(*[tm.icmp("eq", x[5], tm.I(32, 8)) for x in nums]), judge, assume=cond, inputs=nm)
        for w_ in ([1.0 / 3 * (k + 1) for k in range(n)], [-2.5e7 / (k + 1) for k in range(n)], [0.0] * n, [1e-300 if k % 2 else -9.87654321e299 for k in range(n)],
                   [-12345678901.25 * (k + 1) for k in range(n)]):
            bad, d = judge({**{"a%d" % k: x for k, x in enumerate(w_)}, **{"b%d" % k: 4.0 for k in range(n)}})
            rec.validated += 1
            if bad: rec.bad(fn + ":sample", dict(a=w_), d)
    return fn, run

def run(ctx):
    g = ctx.load("io")
    ctx.method = ("symbolic execution of the writer (token sequence) and of operator>> (symbolic parsed numbers); the composition is decided: token k holds component k, "
                  "separated from its neighbours and precise enough, and the k-th parsed number ends in component k")
    ctx.bounds = dict(inputs="all components zero or of magnitude 1e-300..1e300; all prior contents of the target", types="nine types for operator<<, seven for io::enote")
    ctx.assume("the C++ runtime prints a double correctly rounded to the requested decimals and parses decimal text correctly rounded")
    ctx.par([task(g, t, "put") for t in "S V B T P I C X M".split()] + [task(g, t, "enote0") for t in "S V B T P I M".split()])
