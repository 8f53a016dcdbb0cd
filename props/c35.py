"""Every operation is defined for every input: it ends, returns normally and stays within its objects."""
import sys, os, json, subprocess, ctypes
from .util import *
from .iox import NCOMP, ORDER, WITNESS
from .c29 import NS, OTHER
from sx import iomodel
from sx.exec import Unsupported
from sx.build import SOFLAGS, REPO, HERE

CHILD = r"""
import ctypes, json, sys
libs = {}
for line in sys.stdin:
    so, fn, args = json.loads(line)
    lib = libs.setdefault(so, ctypes.CDLL(so)); f = getattr(lib, fn); f.restype = ctypes.c_int
    av = []
    for k, v in args:
        if k == "d": av.append((ctypes.c_double * max(1, len(v)))(*[float.fromhex(x) for x in v]))
        elif k == "e": av.append((ctypes.c_int * max(1, len(v)))(*v))
        elif k == "o": av.append((ctypes.c_double * v)())
        elif k == "b": av.append(ctypes.create_string_buffer(v))
        elif k == "u": av.append(ctypes.c_size_t(v))
        elif k == "i": av.append(ctypes.c_int(v))
    f(*av)
    sys.stdout.write("."); sys.stdout.flush()
"""
LIMIT = 10.0

class Sane:
    """the harness built with the address and undefined-behaviour sanitizers, run in child processes"""
    def __init__(s, builder): s.b = builder; s.so = {}
    def build(s, group):
        if group not in s.so:
            out = os.path.join(s.b.dir, "san%d_%s.so" % (os.getpid(), group))
            flags = [f if f != "-O2" else "-O1" for f in SOFLAGS]
            p = subprocess.run(["g++"] + flags + ["-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize-recover=all", "-I", os.path.join(REPO, "include"),
                                os.path.join(HERE, "harness", group + ".cpp"), "-o", out], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            s.so[group] = out if p.returncode == 0 else None
        return s.so[group]
    def run(s, group, calls):
        """calls [(fn, args)] one after the other in one process -> None, or (index, what happened)"""
        so = s.build(group)
        if so is None: return None
        asan = subprocess.run(["g++", "-print-file-name=libasan.so"], stdout=subprocess.PIPE, text=True).stdout.strip()
        env = dict(os.environ, LD_PRELOAD=asan, ASAN_OPTIONS="detect_leaks=0:detect_stack_use_after_return=0", UBSAN_OPTIONS="print_stacktrace=0", PYTHONMALLOC="malloc")
        hx = lambda a: [a[0], [float(x).hex() for x in a[1]]] if a[0] == "d" else list(a)
        text = "".join(json.dumps([so, fn, [hx(a) for a in args]]) + "\n" for fn, args in calls)
        p = subprocess.Popen([sys.executable, "-c", CHILD], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, text=True)
        try: out, err = p.communicate(text, timeout=LIMIT + 0.05 * len(calls))
        except subprocess.TimeoutExpired:
            p.kill(); out, err = p.communicate()
            return len(out.strip()), "does not end within %g s" % LIMIT
        if p.returncode == 0: return None
        k = out.count(".")
        if k >= len(calls): return None          # the calls were fine
        if not out and "ImportError" in err or "cannot open shared object" in err or "Traceback" in err: return None
        lines = [l for l in err.splitlines() if "runtime error" in l or "ERROR:" in l or "terminate" in l or "what()" in l]
        return k, (lines[0] if lines else "process ended with status %d" % p.returncode)[:300]

SPECIAL = [0.0, -0.0, float("inf"), float("-inf"), float("nan"), 5e-324, 2.2250738585072014e-308, 1e-300, 1e-160, 1e-9, 0.5, 1.0, -1.0, 3.0, -7.25, 1e6, 1e10, -1e10, 1e17, 1e155, -1e155, 1.7976931348623157e308]
def witnesses(n):
    out = [[x] * n for x in SPECIAL]
    for x in SPECIAL:
        for j in range(min(n, 4)):
            out.append([x if k == j else 0.0 for k in range(n)])
            out.append([x if k == j else 1.5 - 0.25 * k for k in range(n)])
    return out

def task(san, g, fn, sym, native, names, vals):
    """sym() -> Result; native(model) -> (driver function, typed arguments); vals: names of the double inputs"""
    def hunt(rec, name, why):
        """an obligation the encoding leaves open: known trouble makers on the sanitized build"""
        ms = [dict(zip(vals, w)) for w in witnesses(len(vals))]
        hit = san.run(g.name, [native(m) for m in ms])
        rec.replays += len(ms)
        if hit is not None and hit[0] < len(ms):
            f, a = native(ms[hit[0]])
            again = san.run(g.name, [(f, a)])
            if again is not None:
                rec.bad(name, {k: v for k, v in ms[hit[0]].items()}, dict(function=f, args=str(a)[:400], why=again[1])); return
        rec.maybe(name, why)
    def run(rec):
        try: r, lim = sym()
        except (Unsupported, RecursionError) as e:
            hunt(rec, fn + ":defined", "not encoded: %s" % e); return
        def judge(m):
            f, a = native(m)
            hit = san.run(g.name, [(f, a)])
            return (hit is not None), dict(function=f, args=str(a)[:400], why=hit[1] if hit else "fine")
        if r.returns and tm.isc(r.ret) and tm.sval(r.ret) == -1: return     # not offered
        if not r.returns and not r.faults:
            hunt(rec, fn + ":returns", "never returns"); return
        # the returning paths cover every input: no value of the arguments leads anywhere else
        if not r.faults:
            fp.prove(rec, fn + ":every input reaches a return", r.pc, judge, assume=lim, inputs=names)
        kinds = {}
        for kind, c, detail in r.faults: kinds.setdefault(kind, []).append((c, detail))
        for k in ("oob-load", "oob-store", "null-deref", "div-by-zero", "shift-exponent", "signed-overflow", "float-cast-overflow", "unreachable"):
            if k not in kinds: rec.ok("%s:no %s" % (fn, k))
        for k, what in (("abort", "returns normally"), ("unwinding", "ends")):
            if k not in kinds: rec.ok("%s:%s" % (fn, what))
        for kind, l in sorted(kinds.items()):
            n0 = len(rec.violations)
            for i, (c, detail) in enumerate(l[:6]):
                nm = "%s:no %s: %s" % (fn, kind, detail)
                before = len(rec.undecided)
                fp.prove(rec, nm, bnot(c), judge, assume=lim, inputs=names)
                if len(rec.violations) > n0: break
                if len(rec.undecided) > before:
                    rec.undecided.pop(); hunt(rec, nm, "open")
                    if len(rec.violations) > n0: break
        # one call on the sanitized build is not needed for the verdict: the encodings are validated by the other checks
    return fn, run

def run(ctx):
    g1, g2, gi = ctx.load("pure", "pure2", "io")
    for g in (g1, g2, gi): g.opaque = False
    ctx.method = ("symbolic execution of every operation; accesses outside an object or through null, integer division by zero, over-wide shifts, signed overflow, float to integer conversion "
                  "out of range, aborts and exceptions, and loops or recursion running past the unwinding bound are recorded with their path conditions, whose infeasibility the solver decides "
                  "over all inputs; a feasible one is replayed on a build with address and undefined-behaviour sanitizers under a time limit")
    ctx.bounds = dict(inputs="all bit patterns of all operands, all digit counts up to 2^20, all stream flags, precisions and widths up to 400, all outcomes of number reads",
                      loops="input-dependent loops unwound 64 times, recursion 200 deep (unwinding assertions)",
                      functions="every operation of the harness, stream insertion, formatting and extraction of every type")
    ctx.assume("functions of the C and C++ runtime (libm, std::complex arithmetic, iostreams) end and stay in bounds")
    san = Sane(ctx.b)
    tasks = []
    for g in (g1, g2):
        for fn in sorted(g.mod.funcs):
            if not fn.startswith("p_"): continue
            if fn == "p_from_C": na, nb = 2, 0
            elif fn == "p_to_C": na, nb = 2, 0
            else:
                q = fn.split("_")[2:]; na, nb = NS[q[0]], NS[q[1]] if len(q) > 1 else 0
            an = ["a%d" % k for k in range(na)]; bn = ["b%d" % k for k in range(nb)]
            def sym(g=g, fn=fn, an=an, bn=bn):
                return g.sym(fn, [tm.inp(x) for x in an], [tm.inp(x) for x in bn] if bn else [tm.F(0.0)], 25), TRUE
            def native(m, fn=fn, an=an, bn=bn):
                xs = [m.get(x, OTHER[k]) for k, x in enumerate(an)]; ys = [m.get(x, OTHER[7 - k]) for k, x in enumerate(bn)]
                return fn, [("d", (xs + [0.0] * 8)[:8]), ("d", (ys + [0.0] * 8)[:8]), ("o", 25)]
            tasks.append(task(san, g, fn, sym, native, an + bn, an + bn))
    tasks += iotasks(san, gi)
    ctx.par(tasks)

def clampd(m, k, dflt=0):
    return min(int(m.get(k, dflt)), 1 << 20)

def iotasks(san, g):
    out = []
    for t in "S V B T P I C X M".split():
        an = ["a%d" % k for k in range(NCOMP[t])]
        def sym(t=t, an=an):
            from .c25 import outstream
            st = g.ex.base.fork()
            os_, lim = outstream(g, st)
            return g.sym("h_put_" + t, [tm.inp(x) for x in an], ("raw", os_), st=st), lim
        def native(m, t=t, an=an):
            return "n_put_" + t, [("d", [m.get(x, 1.5) for x in an]), ("i", int(m.get("flags", 4098)) & 0x7fff), ("i", clampd(m, "prec", 6) % 401), ("i", clampd(m, "width") % 401), ("b", 65536), ("u", 65536)]
        out.append(task(san, g, "h_put_" + t, sym, native, an, an))
    for t in "D S V B T P I M".split():
        an = ["a%d" % k for k in range(NCOMP[t])]
        for fn, dn in (("fixed", ["n", "m"]), ("fixed1", ["n"]), ("fixed0", []), ("enote", ["n"]), ("enote0", [])):
            def sym(t=t, an=an, fn=fn, dn=dn):
                st = g.ex.base.fork()
                s = g.ex.new(st, 32, "stack", "result string")
                digs = [tm.ini(d, 64) for d in dn]
                return g.sym("h_%s_%s" % (fn, t), [tm.inp(x) for x in an], *digs, ("raw", s), st=st), band(*[tm.icmp("ule", d, tm.I(1 << 20, 64)) for d in digs])
            def native(m, t=t, an=an, fn=fn, dn=dn):
                return "n_%s_%s" % (fn, t), [("d", [m.get(x, 1.5) for x in an])] + [("u", clampd(m, d, 5)) for d in dn] + [("b", 65536), ("u", 65536)]
            out.append(task(san, g, "h_%s_%s" % (fn, t), sym, native, an + dn, an))
    for t in "S V B T P I C X M a1 a2 a3 a4 a5".split():
        n = NCOMP[t] if t in NCOMP else int(t[1:]); nv = n + 2
        an = ["a%d" % k for k in range(n)]; vn = ["v%d" % k for k in range(nv)]
        def sym(t=t, an=an):
            from .c24 import instream
            st = g.ex.base.fork()
            bit = lambda c, v: ite(c, tm.I(v, 32), tm.I(0, 32))
            is_ = instream(g, st, tm.iop("or", bit(tm.inb("sf"), 4), tm.iop("or", bit(tm.inb("se"), 2), bit(tm.inb("sb"), 1))))
            return g.sym("h_get_" + t, [tm.inp(x) for x in an], ("raw", is_), 8, st=st), TRUE
        def native(m, t=t, an=an, vn=vn, nv=nv):
            errs = [(1 if m.get("rf%d" % k) else 0) | (2 if m.get("re%d" % k) else 0) | (4 if m.get("rb%d" % k) else 0)
                    | (8 if m.get("rf%d" % k) and m.get("rk%d" % k) else 0) for k in range(nv)]
            s = (1 if m.get("sf") else 0) | (2 if m.get("se") else 0) | (4 if m.get("sb") else 0)
            return "n_get_" + t, [("d", [m.get(x, 9.0) for x in an]), ("d", [m.get(x, 1.5) for x in vn]), ("e", errs), ("i", nv), ("i", s), ("o", 8), ("o", 1)]
        out.append(task(san, g, "h_get_" + t, sym, native, an + vn, vn))
    return out
