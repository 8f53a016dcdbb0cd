"""Operations are pure: operands untouched, no state modified, no output, result a function of the arguments."""
import os, sys, random, ctypes, tempfile, subprocess, json
from .util import *
from sx.enc import inside
from .iox import ident
from . import aliases
NS = dict(D=1, S=1, V=3, B=3, T=1, P=4, I=4, C=2, X=6, M=8)

def segments(lib):
    """writable memory of the shared library"""
    path = lib._name; out = []; last = None
    for l in open("/proc/self/maps"):
        f = l.split()
        a, b = (int(x, 16) for x in f[0].split("-"))
        if len(f) > 5 and f[5] == path:
            last = b
            if "w" in f[1]: out.append((a, b))
        elif len(f) == 5 and last == a and "w" in f[1]:
            out.append((a, b)); last = None
        else: last = None
    return out

def snap(segs): return [ctypes.string_at(a, b - a) for a, b in segs]

class Capture:
    """what is written to the standard descriptors"""
    def __enter__(self):
        sys.stdout.flush(); sys.stderr.flush()
        self.saved = [os.dup(1), os.dup(2)]
        self.f = tempfile.TemporaryFile()
        os.dup2(self.f.fileno(), 1); os.dup2(self.f.fileno(), 2)
        return self
    def __exit__(self, *a):
        ctypes.CDLL(None).fflush(None)
        os.dup2(self.saved[0], 1); os.dup2(self.saved[1], 2)
        for s in self.saved: os.close(s)
        self.f.seek(0); self.text = self.f.read(); self.f.close()

def bits(xs): return bytes((ctypes.c_double * len(xs))(*xs))
def eqv(a, b): return all(bits([x]) == bits([y]) or (x != x and y != y) for x, y in zip(a, b))

def call(g, fn, a, b):
    """-> ret, outputs, argument arrays after"""
    f = getattr(g.lib, fn); f.restype = ctypes.c_int
    A = (ctypes.c_double * max(1, len(a)))(*a); Bv = (ctypes.c_double * max(1, len(b)))(*b); o = (ctypes.c_double * 25)()
    with inside(g, fn, a, b): r = f(A, Bv, o)
    return r, list(o)

def operand(t, a):
    if t == "z": return [a[0], 0, 0, 0, 0, 0, 0, a[1]]
    o = [0.0] * 8
    for s, x in zip(SLOTS_(t), a): o[s] = x
    return o

def SLOTS_(t):
    return dict(D=[0], S=[0], V=[1, 2, 3], B=[4, 5, 6], T=[7], P=[0, 4, 5, 6], I=[1, 2, 3, 7], C=[0, 7], X=[1, 2, 3, 4, 5, 6], M=list(range(8)))[t]

CHILD = """
import ctypes, json, sys
lib = ctypes.CDLL(sys.argv[1]); f = getattr(lib, sys.argv[2])
for a, b in json.loads(sys.argv[3]):
    A = (ctypes.c_double * 8)(*[float.fromhex(x) for x in a]); B = (ctypes.c_double * 8)(*[float.fromhex(x) for x in b]); o = (ctypes.c_double * 25)()
    r = f(A, B, o)
sys.stdout.write(json.dumps([r] + [x.hex() for x in list(o)[:8] + list(o)[24:]]))
"""
def fresh(g, fn, seq):
    """last result of a sequence of calls made in a new process"""
    hx = lambda v: [float(x).hex() for x in v]
    p = subprocess.run([sys.executable, "-c", CHILD, g.lib._name, fn, json.dumps([(hx(a), hx(b)) for a, b in seq])], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=20)
    out = json.loads(p.stdout[p.stdout.rindex("["):])
    return [out[0]] + [float.fromhex(x) for x in out[1:]]

def judge_history(g, fn, a, b):
    """does the result depend on what was evaluated first?"""
    ref = fresh(g, fn, [(a, b)])
    for k in (1.0, -3.5, 1e9, 0.0):
        first = ([k * x for x in OTHER[:len(a)]], [k * x for x in OTHER[::-1][:len(b)]])
        got = fresh(g, fn, [first, (a, b)])
        if not eqv(got, ref):
            return True, dict(function=fn, a=a, b=b, why="result depends on an earlier call", earlier=first, result=got[1:9], fresh_result=ref[1:9])
    return False, None

OTHER = [1.25, -0.75, 2.5, 0.375, -1.5, 0.625, 3.0, -0.25]
def judge_native(g, fn, ta, tb, a, b):
    """(bad, detail): every observable effect besides the result"""
    segs = segments(g.lib)
    oa, ob = OTHER[:len(a)], OTHER[::-1][:len(b)]
    RND[0].n_reset(); env0 = environment()
    with Capture() as cap:
        call(g, fn, oa, ob); call(g, fn, a, b)   # first calls may initialise constants
        s0 = snap(segs)
        r1, o1 = call(g, fn, a, b)
        s1 = snap(segs)
        r2, o2 = call(g, fn, oa, ob)
        s2 = snap(segs)
        RND[0].n_poison(0x5a)
        r3, o3 = call(g, fn, a, b)
        s3 = snap(segs)
        for k in range(3): call(g, fn, OTHER[k:] + OTHER[:k], OTHER[k:] + OTHER[:k]) if len(a) == 8 else None
        RND[0].n_poison(0x7f)
        r4, o4 = call(g, fn, a, b)
        RND[0].n_flush()
    d = dict(function=fn, a=a, b=b, result=o1[:8])
    if cap.text: return True, dict(d, why="output written", text=cap.text[:200].decode("latin1"))
    env1 = environment(); RND[0].n_reset()
    if env1 != env0: return True, dict(d, why="settings of the process changed (rounding, locale, stream formats)", before=env0, after=env1)
    wa = operand(ta, a)
    if not eqv(o1[8:16], wa): return True, dict(d, why="first operand changed", after=o1[8:16], before=wa)
    if tb:
        wb = operand(tb, b)
        if not eqv(o1[16:24], wb): return True, dict(d, why="second operand changed", after=o1[16:24], before=wb)
    if not (s0 == s1 == s2 == s3): return True, dict(d, why="static storage modified by a call")
    n = 16
    for o, r in ((o3, r3), (o4, r4)):
        if r != r1 or not eqv(o[:8], o1[:8]) or not eqv(o[24:], o1[24:]):
            return True, dict(d, why="same arguments, different result", first=o1[:8], later=o[:8])
    return False, d
RND = [None]
def environment():
    b = ctypes.create_string_buffer(4096); RND[0].n_env(b, 4096)
    return b.value.decode("latin1")

def undefs(ts):
    return [t for t in tm.postorder(ts) if t.op == "undef" or (t.op == "in" and str(t.args[0]).startswith("undef"))]

def task(g, fn, ta, tb):
    def run(rec):
        na, nb = NS.get(ta, 2), NS[tb] if tb else 0
        a = [tm.inp("a%d" % k) for k in range(na)]; b = [tm.inp("b%d" % k) for k in range(nb)]
        nm = ["a%d" % k for k in range(na)] + ["b%d" % k for k in range(nb)]
        def fall(m): return judge_native(g, fn, ta, tb, [m[x] for x in nm[:na]], [m[x] for x in nm[na:]])
        rec.fallback = (fn, fall, [{x: (OTHER * 2)[k] for k, x in enumerate(nm)}, {x: float(k + 1) for k, x in enumerate(nm)}])
        r = g.sym(fn, a, b if b else [tm.F(0.0)], 25)
        if not r.returns:
            # not encodable (or never returning): only the native judge is left
            rng = random.Random(7)
            for k in range(12):
                xs = [rng.choice((0.0, 1.0, -1.0, rng.uniform(-9, 9))) * 10.0 ** (rng.choice((0, 0, -3, 3, -170, 160, -305)) if k else 0) for _ in range(na + nb)]
                rec.replays += 1
                b0, d = judge_native(g, fn, ta, tb, xs[:na], xs[na:])
                if not b0 and k < 3: b0, d = judge_history(g, fn, xs[:na], xs[na:])
                if b0: rec.bad(fn + ":effects", dict(a=xs[:na], b=xs[na:]), d); return
            rec.maybe(fn, r.opaque or "never returns"); return
        if tm.isc(r.ret) and tm.sval(r.ret) == -1: return     # not offered
        def judge(m):
            xs = [m.get("a%d" % k, OTHER[k]) for k in range(na)]; ys = [m.get("b%d" % k, OTHER[7 - k]) for k in range(nb)]
            return judge_native(g, fn, ta, tb, xs, ys)
        o = r.outs[0]
        wa = [tm.F(0.0)] * 8; wb = [tm.F(0.0)] * 8
        if ta == "z": wa[0], wa[7] = a
        else:
            for s, x in zip(SLOTS_(ta), a): wa[s] = x
        fp.prove(rec, fn + ":first operand unchanged", band(*[ident(p, q) for p, q in zip(o[8:16], wa)]), judge, assume=r.pc, inputs=nm)
        if tb:
            for s, x in zip(SLOTS_(tb), b): wb[s] = x
            fp.prove(rec, fn + ":second operand unchanged", band(*[ident(p, q) for p, q in zip(o[16:24], wb)]), judge, assume=r.pc, inputs=nm)
        bad = []
        for kind, pc, det in r.effects:
            if kind == "global-write":
                name, v, guarded = det
                if guarded and (v is None or not isinstance(v, T) or not deps(v)): continue
                bad.append(("state %s written" % name, pc))
            else: bad.append(("%s: %s" % (kind, det if isinstance(det, str) else det[0]), pc))
        # a guarded constant must not depend on the arguments of the first call
        for oid, ob in r.state.mem.items():
            if ob.kind == "glob" and not ob.const:
                for k, (_, v) in ob.cells.items():
                    if isinstance(v, T) and varies(v): bad.append(("state %s keeps an argument" % ob.name, TRUE)); break
        def judge_deep(m):
            bad, d = judge(m)
            if bad: return bad, d
            xs = [m.get("a%d" % k, OTHER[k]) for k in range(na)]; ys = [m.get("b%d" % k, OTHER[7 - k]) for k in range(nb)]
            for p, q in ((xs, ys), ([2.0 + k for k in range(na)], [0.5 + k for k in range(nb)])):
                bad, d2 = judge_history(g, fn, p, q)
                if bad: return bad, d2
            return False, d
        seen = set()
        for why, pc in bad:
            if why in seen: continue
            seen.add(why)
            fp.prove(rec, "%s:%s" % (fn, why), bnot(pc), judge_deep, inputs=nm)
        if not bad: rec.ok(fn + ":no effect besides the result")
        res = [x for x in o[:8] + o[24:] if isinstance(x, T)]
        us = undefs(res)
        if not us: rec.ok(fn + ":result depends on the arguments only")
        else:
            ren = {u: (tm.mk("in", ("fresh%d" % k,), u.sort, u.w) if u.sort == "I" else tm.mk("in", ("fresh%d" % k,), u.sort)) for k, u in enumerate(us)}
            r2 = tm.subst(res, ren)
            fp.prove(rec, fn + ":result depends on the arguments only", band(*[ident(p, q) if p.sort == "F" else bnot(tm.bxor(p, q)) for p, q in zip(res, r2)]), judge, assume=r.pc, inputs=nm)
        # one native run per function validates the encoding's view
        b0, d = judge({})
        rec.validated += 1
        if b0: rec.bad(fn + ":sample", dict(a=OTHER[:na], b=OTHER[::-1][:nb]), d)
    return fn, run

def varies(v):
    """contents of a constant after the call: several different values, or one that depends on the arguments"""
    vals = set()
    def walk(t):
        if t.op == "ite": return walk(t.args[1]) or walk(t.args[2])
        if t.op == "undef": return False
        if deps(t): return True
        vals.add(t)
        return False
    return walk(v) or len(vals) > 2

def deps(v):
    return any(t.op == "in" for t in tm.postorder([v]))

def run(ctx):
    g1, g2 = ctx.load("pure", "pure2")
    RND[0] = g1.lib
    ctx.method = ("symbolic execution of every operation on plain lvalues; writes to operands, constants and static storage, output, and reads of indeterminate memory "
                  "are recorded by the executor with their path conditions, whose feasibility the solver decides; operands afterwards are proved equal to operands before")
    ctx.bounds = dict(inputs="all bit patterns of all operands", functions="every operation of the harness: +, -, * on all pairs of ten types, unary operations, magnitudes, "
                      "inverse, direction, exp, logG2, sqrtG2, sq, cube, comparisons, validity, conversions, formatting")
    ctx.assume("functions of the C and C++ runtime (libm, std::complex arithmetic) have no effect but their result; errno is ignored",
               "function-local constants initialised on first use are not counted as state")
    tasks = []
    for g in (g1, g2):
        for fn in sorted(g.mod.funcs):
            if not fn.startswith("p_"): continue
            if fn == "p_from_C": tasks.append(task(g, fn, "z", None)); continue
            if fn == "p_to_C": tasks.append(task(g, fn, "C", None)); continue
            p = fn.split("_")[2:]
            tasks.append(task(g, fn, p[0], p[1] if len(p) > 1 else None))
    tasks += aliases.tasks(ctx)
    ctx.par(tasks)
