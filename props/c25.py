"""operator<< writes every component once, in order, separated, fixed with 6 digits."""
from .iox import *

def outstream(g, st):
    fl, pr, wi = tm.ini("flags", 32), tm.ini("prec", 64), tm.ini("width", 64)
    os = g.ex.newstream(st, iomodel.OS, flags=fl, prec=pr, width=wi)
    lim = band(tm.icmp("ule", fl, tm.I(0x7fff, 32)), tm.icmp("ule", pr, tm.I(400, 64)), tm.icmp("ule", wi, tm.I(400, 64)))
    return os, lim

def task(g, t, two):
    fn = ("h_put2_" if two else "h_put_") + t
    def run(rec):
        n = NCOMP[t]
        a = [tm.inp("a%d" % k) for k in range(n)]; b = [tm.inp("b%d" % k) for k in range(n)] if two else []
        nm = ["a%d" % k for k in range(n)] + ["b%d" % k for k in range(len(b))]
        st = g.ex.base.fork()
        os, lim = outstream(g, st)
        def judge(m):
            xs = [m["a%d" % k] for k in range(n)]; ys = [m["b%d" % k] for k in range(len(b))]
            st_ = [("i", int(m.get("flags", 4098)) & 0x7fff), ("i", int(m.get("prec", 6)) & 511), ("i", int(m.get("width", 0)) & 511)]
            for cfg in (st_, [("i", 4098), ("i", 6), ("i", 0)]):
                text = buf(g, "n_" + fn[2:], *([xs, ys] if two else [xs]), *cfg)
                why = examine(text, xs + ys, "f", 6, 11, True)
                if why: return True, dict(function="operator<< of " + NAME[t], a=xs, b=ys, stream=[c[1] for c in cfg], text=text[:400], why=why)
            return False, dict(text=text[:200])
        rec.fallback = (fn + ":format", judge, [{**dict(zip(nm, w)), "flags": f, "prec": p, "width": q} for w in witnesses(len(nm)) for f, p, q in ((4098, 6, 0), (4356, 3, 30), (4098, 17, 0))])
        r = g.sym(fn, *([a, b] if two else [a]), ("raw", os), st=st)
        if not r.returns: rec.maybe(fn, "never returns"); return
        nofaults(rec, r, fn)
        h = g.ex.contents(r.state, os)
        check_tokens(rec, fn, g.ex, r.pc, h, a + b, nm, "f", tm.I(6, 64), tm.I(11, 64), judge, assume=lim)
        # encoding against the native build
        for k in range(2):
            xs = [(-1) ** j * (1.5 + k * 1e5 + j) for j in range(n)]; ys = [2.5 * x for x in xs[:len(b)]]
            bad, d = judge({**{"a%d" % j: x for j, x in enumerate(xs)}, **{"b%d" % j: x for j, x in enumerate(ys)}})
            rec.validated += 1
            if bad: rec.bad(fn + ":sample", dict(a=xs, b=ys), d)
    return fn, run

def run(ctx):
    g = ctx.load("io")
    ctx.method = ("symbolic execution of operator<<; the written text is a sequence of tokens (literal text, or number with the flags, precision, width and fill in force); "
                  "order, values, separation, notation, digits and width are decided by the solver for all values and all settings of the target stream")
    ctx.bounds = dict(inputs="all bit patterns of all components", stream="any formatting flags, precision and width up to 400, in good state, blank fill", types="nine types, one value and two consecutive values")
    ctx.assume("the C++ runtime prints a double as the stream's flags, precision and width say (std::fixed, setprecision, setw)")
    ctx.par([task(g, t, two) for t in "S V B T P I C X M".split() for two in (False, True)])
