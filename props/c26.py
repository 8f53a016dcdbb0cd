"""io::fixed and io::enote honour the requested digits for every component."""
from .iox import *

LIM = 1 << 20

def task(g, t, kind):
    fn = "h_%s_%s" % (kind, t)
    def run(rec):
        n = NCOMP[t]
        a = [tm.inp("a%d" % k) for k in range(n)]
        nm = ["a%d" % k for k in range(n)]
        st = g.ex.base.fork()
        s = g.ex.new(st, 32, "stack", "result string")
        lead, frac = tm.I(3, 64), tm.I(6 if kind.startswith("fixed") else 15, 64)
        args = []; assume = TRUE
        if kind in ("fixed", "fixed1"):
            lead = tm.ini("lead", 64); args.append(lead); assume = band(assume, tm.icmp("ule", lead, tm.I(LIM, 64))); nm.append("lead")
        if kind in ("fixed", "enote"):
            frac = tm.ini("frac", 64); args.append(frac); assume = band(assume, tm.icmp("ule", frac, tm.I(LIM, 64))); nm.append("frac")
        fixed = kind.startswith("fixed")
        def judge(m):
            xs = [m["a%d" % k] for k in range(n)]
            for cut in (True, False):
                ld, fr = int(m.get("lead", 3)), int(m.get("frac", 6 if fixed else 15))
                if not ("lead" in nm): ld = 3
                if not ("frac" in nm): fr = 6 if fixed else 15
                if cut:
                    if "lead" in nm: ld %= 37
                    if "frac" in nm: fr %= 91
                else:
                    ld = min(ld, LIM); fr = min(fr, LIM)
                ar = ([("u", ld)] if "lead" in nm else []) + ([("u", fr)] if "frac" in nm else [])
                text = buf(g, "n_" + fn[2:], xs, *ar)
                why = examine(text, xs, "f" if fixed else "e", fr, ld + fr + 2 if fixed else fr + 7, False)
                if why: return True, dict(function="io::%s(%s)" % ("fixed" if fixed else "enote", NAME[t]), a=xs, lead=ld, digits=fr, text=text[:400], why=why)
            return False, dict(text=text[:200])
        rec.fallback = (fn + ":format", judge, [{**dict(zip(nm, w)), "lead": l, "frac": f} for w in witnesses(n) for l, f in ((3, 6), (0, 0), (9, 17), (36, 30), (2, 70))])
        r = g.sym(fn, a, *args, ("raw", s), st=st)
        if not r.returns: rec.maybe(fn, "never returns"); return
        nofaults(rec, r, fn)
        h = g.ex.load(r.state, s, ("i", 64))
        width = tm.iop("add", tm.iop("add", lead, frac), tm.I(2, 64)) if fixed else tm.iop("add", frac, tm.I(7, 64))
        check_tokens(rec, fn, g.ex, r.pc, h, a, nm, "f" if fixed else "e", frac, width, judge, lead_blank=False, assume=assume)
        for k in range(2):
            xs = [(-1) ** j * (1.5 + k * 1e5 + j) for j in range(n)]
            bad, d = judge({**{"a%d" % j: x for j, x in enumerate(xs)}, "lead": 4 + k, "frac": 9 - 2 * k})
            rec.validated += 1
            if bad: rec.bad(fn + ":sample", dict(a=xs), d)
    return fn, run

def run(ctx):
    g = ctx.load("io")
    ctx.method = ("symbolic execution of io::fixed and io::enote with symbolic values and symbolic digit counts; the returned text is a sequence of tokens "
                  "(literal text, or number with the flags, precision, width and fill in force), whose order, separation and format the solver decides")
    ctx.bounds = dict(inputs="all bit patterns of all components", digits="every pair of digit counts in 0..%d, and the defaulted arguments" % LIM,
                      types="double and seven types (fixed, fixed with default digits, enote, enote with default digits)")
    ctx.assume("the C++ runtime prints a double as the stream's flags, precision and width say (std::fixed/std::scientific, setprecision, setw)")
    ctx.par([task(g, t, k) for t in "D S V B T P I M".split() for k in ("fixed", "fixed1", "fixed0", "enote", "enote0")])
