"""Subscripts are total and stay inside the object."""
from .util import *
NT = "S V B T P I C X M".split()

def chain(n, a, other):
    r = other
    for k in reversed(range(len(a))): r = ite(tm.icmp("eq", n, tm.I(k, 64)), a[k], r)
    return r

def task(g, t):
    fn = "h_sub_" + t
    nm = ga.names("a", t)
    def run(rec):
        a = ga.ins("a", t); n = tm.ini("n", 64)
        for f in [fn] + (["h_subget_M"] if t == "M" else []):
            r = g.sym(f, a, n, 9)
            pre = TRUE if t != "M" else tm.icmp("ult", n, tm.I(8, 64))
            def judge(m, f=f):
                xs = ga.vals(m, "a", t); k = m.get("n", 0)
                _, (o,) = g.native(f, xs, ("u", k), 9)
                w = xs[k] if k < len(xs) else math.nan
                return not same(o[0], w), dict(function=f, index=k, components=xs, got=o[0], expected=w)
            memory(rec, g, f, r, a, t, n)
            fp.prove(rec, f + ":value", fp.same(r.outs[0][0], chain(n, a, F(math.nan))), judge, assume=pre, inputs=nm)
            w8 = ga.z(ga.embed(t, a, ga.Terms))
            def judge2(m, f=f):
                xs = ga.vals(m, "a", t); k = m.get("n", 0)
                _, (o,) = g.native(f, xs, ("u", k), 9)
                w = [0.0] * 8
                for s, x in zip(SLOTS[t], xs): w[s] = x
                return any(not same(x, y) for x, y in zip(o[1:], w)), dict(function=f, index=k, before=w, after=o[1:])
            for k in range(8):
                fp.prove(rec, "%s:keeps.%s" % (f, SLOTNAME[k]), fp.same(r.outs[0][1 + k], w8[k]), judge2, assume=pre, inputs=nm)
            for k in (0, len(a) - 1):
                env = spread(nm, f); env["n"] = k
                validate(rec, g, f, [ga.vals(env, "a", t), ("u", k), 9], r.outs[0], env)
        if t == "M":
            f = "h_subset_M"; v = tm.inp("v")
            r = g.sym(f, a, n, [v], 9)
            memory(rec, g, f, r, a, t, n, [v])
            pre = tm.icmp("ult", n, tm.I(8, 64))
            def judge3(m):
                xs = ga.vals(m, "a", t); k = m.get("n", 0); vv = m.get("v", 0.0)
                _, (o,) = g.native(f, xs, ("u", k), [vv], 9)
                w = list(xs)
                if k < 8: w[k] = vv
                return any(not same(x, y) for x, y in zip(o, [vv] + w)), dict(function=f, index=k, value=vv, before=xs, after=o[1:], readback=o[0])
            fp.prove(rec, f + ":readback", fp.same(r.outs[0][0], v), judge3, assume=pre, inputs=nm + ["v"])
            for k in range(8):
                fp.prove(rec, "%s:after.%d" % (f, k), fp.same(r.outs[0][1 + k], ite(tm.icmp("eq", n, tm.I(k, 64)), v, a[k])), judge3, assume=pre, inputs=nm + ["v"])
    return fn, run

def memory(rec, g, f, r, a, t, n, extra=None):
    """No access outside the object for any index (MultiVector: including indices past 7)."""
    if not r.faults: rec.ok(f + ":memory"); return
    for kind, c, detail in r.faults:
        v, m = fp.check(c, timeout=10)
        if v == "unsat": rec.ok("%s:memory %s" % (f, kind)); continue
        if v == "sat":
            k = m.get("n", 0)
            rec.replays += 1
            bad, d = sanitised(g, f, ga.vals({**{x: 1.5 for x in ga.names("a", t)}, **m}, "a", t), k, 2.5 if extra else None)
            if bad: rec.bad("%s:%s" % (f, kind), dict(index=k), dict(detail=detail, native=d)); return
        rec.maybe("%s:memory" % f, "%s %s possible (%s), not confirmed by the sanitizer" % (kind, detail, v))

def sanitised(g, f, xs, k, v):
    """Run the access in a separate program under AddressSanitizer / UBSan."""
    import subprocess, os, tempfile
    from sx.build import HERE, REPO
    src = '#include "%s/harness/type.cpp"\n#include <cstdlib>\nint main() { double a[8] = {%s}; double v = %r; double o[16]; %s; return 0; }\n' % (
        HERE, ",".join(x.hex() if x == x and abs(x) != math.inf else "0" for x in (xs + [0.0] * 8)[:8]), v or 0.0,
        "%s(a, %dull, %so)" % (f, k, "&v, " if v is not None else ""))
    d = g.b.dir
    p = os.path.join(d, "san_%d.cpp" % os.getpid())
    open(p, "w").write(src)
    e = p[:-4]
    c = subprocess.run(["g++", "-std=c++17", "-w", "-O0", "-g", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS", "-I", os.path.join(REPO, "include"), p, "-o", e],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if c.returncode: return False, c.stdout[-300:]
    x = subprocess.run([e], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=60)
    return x.returncode != 0, x.stdout[:400]

def run(ctx):
    g = ctx.load("type")
    ctx.method = "symbolic execution with a symbolic 64-bit index over symbolic components; bit-vector/FP SMT, memory bounds of every access as proof obligations"
    ctx.bounds = dict(index="all 2^64 values (MultiVector values: 0..7, memory safety: all)", components="all bit patterns")
    ctx.assume("object layout as compiled by clang 18 for x86-64")
    ctx.par([task(g, t) for t in NT])
