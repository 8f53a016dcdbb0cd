"""IEEE-754 back end: canonicalisation, then bit-precise SMT (QF_FPBV) with optional
abstraction of the expensive operations by their sign/NaN/zero/monotonicity laws."""
import time, math, struct, subprocess, os, tempfile, re, shutil
from fractions import Fraction as Fr
import z3
from . import term as tm, smt
from .term import T, F, fop, TRUE, FALSE, band, bor, bnot, ite

DS = z3.Float64()
RM = z3.RNE()

# ------------------------------------------------------------------ canonical forms
SIGNOBS = {"signbit", "copysign", "atan2", "dbits", "csqrt_re", "csqrt_im", "clog_im", "clog_re", "divdc3_re", "divdc3_im"}

ZEROBLIND = {"fadd", "fsub", "fneg", "ite", "sqrt", "fmul", "to32", "sin", "cos", "tan", "exp", "exp2", "expm1", "log", "log2", "log10", "sinh", "cosh", "tanh",
             "atan", "asinh", "cbrt", "floor", "ceil", "trunc", "rint", "nearbyint", "round"}
def observed(roots):
    """Nodes whose sign of zero can influence anything but the sign of a zero: divisors, sign tests."""
    obs = set()
    for t in reversed(tm.postorder(roots)):
        for k, x in enumerate(t.args):
            if not isinstance(x, T) or x.sort != "F": continue
            op = t.op
            if op in SIGNOBS: o = True
            elif op == "fpclass": o = (t.args[0] & 0x60) not in (0, 0x60)
            elif t.sort == "B" or op in ("fabs", "hypot") or (op == "fmul" and t.args[0] is t.args[1]): o = False
            elif op == "fdiv": o = k == 1 or t.id in obs
            elif op in ZEROBLIND: o = t.id in obs
            else: o = True
            if o: obs.add(x.id)
    return obs

def canon(roots, signzero=False):
    """Exact rewriting valid for IEEE doubles in round-to-nearest; -0 and +0 are not distinguished where
    no operation observes the sign of a zero (all nodes are exact with signzero)."""
    obs = None if signzero else observed(roots)
    val = {}
    for t in tm.postorder(roots):
        a = [val[x.id] if isinstance(x, T) else x for x in t.args]
        val[t.id] = _canon(t, a, signzero or t.id in obs)
    return [val[r.id] for r in roots]

def neg(x):
    return fop("fneg", x)

def _canon(t, a, sz):
    op = t.op
    if op == "fsub": op = "fadd"; a = [a[0], neg(a[1])]
    if op == "fadd":
        x, y = a
        if tm.isc(x): x, y = y, x
        if tm.isc(y) and tm.cval(y) == 0:
            # x + (-0) = x ; x + (+0) = x up to the sign of zero
            if not sz or math.copysign(1, tm.cval(y)) < 0: return x
        if sz:
            if x.id > y.id: x, y = y, x
            return fop("fadd", x, y)
        # operands as (sign, base), ordered by base, first one positive, common sign outside
        sx = x.op == "fneg"; sy = y.op == "fneg"
        bx = x.args[0] if sx else x; by = y.args[0] if sy else y
        if tm.isc(bx) and tm.cval(bx) < 0: bx = F(-tm.cval(bx)); sx = not sx
        if tm.isc(by) and tm.cval(by) < 0: by = F(-tm.cval(by)); sy = not sy
        if bx.id > by.id: bx, by, sx, sy = by, bx, sy, sx
        r = fop("fadd", bx, neg(by) if sx != sy else by)
        return neg(r) if sx else r
    if op == "fmul":
        s = 1
        b = []
        for x in a:
            if x.op == "fneg": s = -s; x = x.args[0]
            b.append(x)
        x, y = b
        if tm.isc(x): x, y = y, x
        if tm.isc(y):
            c = tm.cval(y)
            if c < 0: s = -s; c = -c; y = F(c)
            if c == 1: return x if s > 0 else neg(x)
            if c == 2: r = fop("fadd", x, x); return r if s > 0 else neg(r)
        if x.id > y.id: x, y = y, x
        r = fop("fmul", x, y)
        return r if s > 0 else neg(r)
    if op == "fdiv":
        x, y = a
        s = 1
        if x.op == "fneg": s = -s; x = x.args[0]
        if y.op == "fneg": s = -s; y = y.args[0]
        if tm.isc(y):
            c = tm.cval(y)
            if c < 0: s = -s; y = F(-c); c = -c
            if c == 1: return x if s > 0 else neg(x)
        r = fop("fdiv", x, y)
        return r if s > 0 else neg(r)
    if op == "fabs":
        x = a[0]
        while x.op in ("fneg", "fabs"): x = x.args[0]
        return fop("fabs", x)
    if op == "ite" and t.sort == "F":
        c, x, y = a
        if x.op == "fneg" and y.op == "fneg": return neg(ite(c, x.args[0], y.args[0]))
        return ite(c, x, y)
    if op == "pow" and tm.isc(a[1]) and tm.cval(a[1]) == 2:
        return _canon(tm.mk("fmul", (a[0], a[0]), "F"), [a[0], a[0]], sz)
    if all(x is y for x, y in zip(a, t.args)): return t
    return tm.rebuild(t, a)

# ------------------------------------------------------------------ SMT translation
class Enc:
    def __init__(self, abstract=()):
        self.abs = set(abstract)
        self.memo = {}
        self.axioms = []
        self.inputs = {}
        self.n = 0
        self.uf = {}
    def fresh(self):
        self.n += 1
        return z3.FP("r!%d" % self.n, DS)
    def const(self, v):
        if v != v: return z3.fpNaN(DS)
        if math.isinf(v): return z3.fpInfinity(DS, v < 0)
        b = tm.d2b(v)
        return z3.fpBVToFP(z3.BitVecVal(b, 64), DS)
    def tr(self, root):
        for t in tm.postorder([root]):
            if t.id not in self.memo: self.memo[t.id] = self.node(t)
        return self.memo[root.id]
    def node(self, t):
        op = t.op
        if op == "c":
            if t.sort == "F": return self.const(tm.cval(t))
            if t.sort == "B": return z3.BoolVal(tm.cval(t))
            return z3.BitVecVal(tm.cval(t), t.w)
        if op in ("in", "undef"):
            n = str(t.args[0])
            v = z3.FP(n, DS) if t.sort == "F" else z3.Bool(n) if t.sort == "B" else z3.BitVec(n, t.w)
            self.inputs[n] = v
            return v
        a = [self.memo[x.id] if isinstance(x, T) else x for x in t.args]
        if t.sort == "F":
            if op == "ite": return z3.If(a[0], a[1], a[2])
            if op == "fneg": return z3.fpNeg(a[0])
            if op == "fabs": return z3.fpAbs(a[0])
            if op == "copysign":
                return z3.If(z3.fpIsNegative(a[1]), z3.fpNeg(z3.fpAbs(a[0])), z3.fpAbs(a[0]))
            if op == "bitsd": return z3.fpBVToFP(a[0], DS)
            if op == "sitof": return z3.fpSignedToFP(RM, a[0], DS)
            if op == "uitof": return z3.fpUnsignedToFP(RM, a[0], DS)
            if op == "fmin": return z3.fpMin(a[0], a[1])
            if op == "fmax": return z3.fpMax(a[0], a[1])
            if op == "to32" :
                return z3.fpToFP(RM, z3.fpToFP(RM, a[0], z3.Float32()), DS)
            if op in ("floor", "ceil", "trunc", "rint", "nearbyint", "round"):
                m = {"floor": z3.RTN(), "ceil": z3.RTP(), "trunc": z3.RTZ(), "rint": RM, "nearbyint": RM, "round": z3.RNA()}[op]
                return z3.fpRoundToIntegral(m, a[0])
            if op in ("fadd", "fsub", "fmul", "fdiv", "sqrt") and op not in self.abs:
                return {"fadd": z3.fpAdd, "fsub": z3.fpSub, "fmul": z3.fpMul, "fdiv": z3.fpDiv}[op](RM, *a) if op != "sqrt" else z3.fpSqrt(RM, a[0])
            return self.absop(t, op, a)
        if t.sort == "B":
            if op == "not": return z3.Not(a[0])
            if op == "and": return z3.And(*a)
            if op == "or": return z3.Or(*a)
            if op == "flt": return z3.fpLT(*a)
            if op == "fle": return z3.fpLEQ(*a)
            if op == "feq": return z3.fpEQ(*a)
            if op == "ieq": return a[0] == a[1]
            if op == "iult": return z3.ULT(a[0], a[1])
            if op == "islt": return a[0] < a[1]
            if op == "signbit": return z3.And(z3.fpIsNegative(a[0]))
            if op == "fpclass":
                m, x = a
                r = []
                if m & 3: r.append(z3.fpIsNaN(x))
                P, N = z3.fpIsPositive, z3.fpIsNegative
                for pb, nb, pred in ((0x200, 4, z3.fpIsInf), (0x100, 8, z3.fpIsNormal), (0x80, 0x10, z3.fpIsSubnormal), (0x40, 0x20, z3.fpIsZero)):
                    if m & pb and m & nb: r.append(pred(x))
                    elif m & pb: r.append(z3.And(pred(x), P(x)))
                    elif m & nb: r.append(z3.And(pred(x), N(x)))
                return z3.Or(*r)
            if op == "ite": return z3.If(*a)
        if t.sort == "I":
            if op == "ite": return z3.If(*a)
            if op == "zext": return z3.ZeroExt(t.w - t.args[0].w, a[0])
            if op == "sext": return z3.SignExt(t.w - t.args[0].w, a[0])
            if op == "trunc": return z3.Extract(t.w - 1, 0, a[0])
            if op == "dbits": return z3.fpToIEEEBV(a[0])
            if op == "ftosi": return z3.fpToSBV(z3.RTZ(), a[0], z3.BitVecSort(t.w))
            if op == "ftoui": return z3.fpToUBV(z3.RTZ(), a[0], z3.BitVecSort(t.w))
            f = {"add": lambda x, y: x + y, "sub": lambda x, y: x - y, "mul": lambda x, y: x * y, "and": lambda x, y: x & y, "or": lambda x, y: x | y,
                 "xor": lambda x, y: x ^ y, "shl": lambda x, y: x << y, "lshr": z3.LShR, "ashr": lambda x, y: x >> y, "udiv": z3.UDiv,
                 "urem": z3.URem, "sdiv": lambda x, y: x / y, "srem": z3.SRem}.get(op)
            if f: return f(*a)
        raise NotImplementedError("smt " + op)

    def absop(self, t, op, a):
        """Fresh result constrained by laws every correctly rounded / C99 implementation obeys."""
        r = self.fresh()
        X = self.axioms.append
        nan, inf, zero = z3.fpIsNaN, z3.fpIsInf, z3.fpIsZero
        Im, An, Or, Nt = z3.Implies, z3.And, z3.Or, z3.Not
        ge0 = lambda x: z3.fpGEQ(x, self.const(0.0)); le0 = lambda x: z3.fpLEQ(x, self.const(0.0))
        eq, leq, lt = z3.fpEQ, z3.fpLEQ, z3.fpLT
        neg_ = z3.fpIsNegative
        if op == "fsub":
            a = [a[0], z3.fpNeg(a[1])]; op = "fadd"
        if op == "fadd":
            x, y = a
            X(nan(r) == Or(nan(x), nan(y), An(inf(x), inf(y), neg_(x) != neg_(y))))
            X(Im(An(inf(x), Nt(nan(r))), r == x)); X(Im(An(inf(y), Nt(nan(r))), r == y))
            X(Im(zero(x), Or(nan(y), eq(r, y)))); X(Im(zero(y), Or(nan(x), eq(r, x))))
            X(Im(Nt(Or(inf(x), inf(y), nan(x), nan(y))), zero(r) == eq(x, z3.fpNeg(y))))
            X(Im(ge0(x), Or(nan(r), leq(y, r)))); X(Im(ge0(y), Or(nan(r), leq(x, r))))
            X(Im(le0(x), Or(nan(r), leq(r, y)))); X(Im(le0(y), Or(nan(r), leq(r, x))))
        elif op == "fmul":
            x, y = a
            one = self.const(1.0)
            ax, ay, ar = z3.fpAbs(x), z3.fpAbs(y), z3.fpAbs(r)
            X(nan(r) == Or(nan(x), nan(y), An(inf(x), zero(y)), An(inf(y), zero(x))))
            X(Im(Nt(nan(r)), neg_(r) == (neg_(x) != neg_(y))))
            X(Im(An(Or(inf(x), inf(y)), Nt(nan(r))), inf(r)))
            X(Im(An(Or(zero(x), zero(y)), Nt(nan(r))), zero(r)))
            X(Im(leq(ax, one), Or(nan(r), leq(ar, ay)))); X(Im(leq(ay, one), Or(nan(r), leq(ar, ax))))
            X(Im(z3.fpGEQ(ax, one), Or(nan(r), leq(ay, ar)))); X(Im(z3.fpGEQ(ay, one), Or(nan(r), leq(ax, ar))))
            big = self.const(2.0 ** -500)
            X(Im(An(z3.fpGEQ(ax, big), z3.fpGEQ(ay, big)), Or(nan(r), z3.fpGEQ(ar, self.const(2.0 ** -1000)))))
        elif op == "fdiv":
            x, y = a
            one = self.const(1.0)
            ax, ay, ar = z3.fpAbs(x), z3.fpAbs(y), z3.fpAbs(r)
            X(nan(r) == Or(nan(x), nan(y), An(inf(x), inf(y)), An(zero(x), zero(y))))
            X(Im(Nt(nan(r)), neg_(r) == (neg_(x) != neg_(y))))
            X(Im(An(inf(x), Nt(nan(r))), inf(r))); X(Im(An(zero(y), Nt(nan(r))), inf(r)))
            X(Im(An(zero(x), Nt(nan(r))), zero(r))); X(Im(An(inf(y), Nt(nan(r))), zero(r)))
            X(Im(An(eq(ax, ay), Nt(nan(r))), eq(ar, one)))
            X(Im(z3.fpGEQ(ay, one), Or(nan(r), leq(ar, ax)))); X(Im(leq(ay, one), Or(nan(r), leq(ax, ar))))
            X(Im(leq(ax, ay), Or(nan(r), leq(ar, one)))); X(Im(leq(ay, ax), Or(nan(r), leq(one, ar))))
        elif op == "sqrt":
            x = a[0]
            X(nan(r) == Or(nan(x), lt(x, self.const(0.0))))
            X(Im(zero(x), zero(r))); X(Im(Nt(nan(r)), ge0(r))); X(Im(An(inf(x), Nt(nan(r))), inf(r)))
            X(Im(Nt(Or(nan(r), zero(x))), z3.fpGEQ(r, self.const(2.0 ** -538))))
            X(Im(Nt(Or(nan(x), inf(x))), Nt(inf(r))))
        elif op in ("sin", "cos"):
            X(nan(r) == Or(nan(a[0]), inf(a[0]))); X(Or(nan(r), leq(z3.fpAbs(r), self.const(1.0))))
        elif op in ("exp", "exp2", "expm1", "cosh", "sinh", "tanh", "atan", "asinh", "cbrt"):
            X(nan(r) == nan(a[0]))
            if op in ("exp", "exp2"): X(Or(nan(r), ge0(r)))
        elif op in ("log", "log2", "log10"):
            X(nan(r) == Or(nan(a[0]), lt(a[0], self.const(0.0))))
        elif op in ("asin", "acos"):
            X(nan(r) == Or(nan(a[0]), z3.fpGT(z3.fpAbs(a[0]), self.const(1.0))))
        elif op in ("atan2", "pow", "fmod", "remainder"):
            if op == "atan2": X(nan(r) == Or(nan(a[0]), nan(a[1])))
            elif op != "pow": X(Im(Or(nan(a[0]), nan(a[1])), nan(r)))
        elif op == "hypot":
            X(nan(r) == An(Or(nan(a[0]), nan(a[1])), Nt(Or(inf(a[0]), inf(a[1]))))); X(Or(nan(r), ge0(r)))
            X(Im(Or(inf(a[0]), inf(a[1])), inf(r)))
        elif op == "fma":
            X(Im(Or(*[nan(x) for x in a]), nan(r)))
        elif op in tm.CPLX:
            f = op.rsplit("_", 1)[0]
            fin = lambda x: Nt(Or(nan(x), inf(x)))
            if f == "csqrt":
                x, y = a
                # C99 Annex G: NaN with the other part not infinite gives NaN + NaN i
                X(Im(An(nan(x), Nt(inf(y))), nan(r))); X(Im(An(nan(y), Nt(inf(x))), nan(r)))
                if op.endswith("_re"): X(Or(nan(r), ge0(r)))
            elif f == "divdc3":
                X(Im(An(Or(*[nan(x) for x in a]), *[Nt(inf(x)) for x in a], Or(nan(a[2]), nan(a[3]), Nt(An(zero(a[2]), zero(a[3]))))),
                     Im(Or(nan(a[2]), nan(a[3])), nan(r))))
            elif f == "cexp":
                x, y = a
                X(Im(An(nan(y), fin(x)), nan(r)))
                if op.endswith("_re"): X(Im(nan(x), nan(r)))
                else: X(Im(An(nan(x), Nt(zero(y))), nan(r)))
        elif op in ("bitsd",): raise NotImplementedError(op)
        return r

ABS = ("fadd", "fsub", "fmul", "fdiv", "sqrt")

def fpval(m, v):
    x = m.eval(v, model_completion=True)
    if z3.is_bool(x): return z3.is_true(x)
    if z3.is_bv(x): return x.as_long()
    b = z3.simplify(z3.fpToIEEEBV(x))
    if z3.is_bv_value(b): return tm.b2d(b.as_long())
    return float("nan")

def check(cond, timeout=10.0, abstract=(), extra=None, names=()):
    """Is the Boolean term cond satisfiable?  -> (verdict, model{name: value})"""
    t0 = time.time(); smt.STATS.queries += 1
    e = Enc(abstract)
    try:
        g = [e.tr(cond)]
        if extra: g += extra(e)
    except NotImplementedError:
        smt.STATS.unknown += 1
        return ("unknown", None)
    timeout = min(timeout, max(0.3, smt.STATS.left()))
    s = z3.SolverFor("QF_FPBV") if not (e.axioms) else z3.Solver()
    s.set("timeout", int(1000 * timeout)); s.add(*g); s.add(*e.axioms)
    r = s.check()
    smt.STATS.time += time.time() - t0
    if r == z3.unsat:
        smt.STATS.unsat += 1; return ("unsat", None)
    if r == z3.sat:
        smt.STATS.sat += 1
        m = s.model()
        return ("sat", {n: fpval(m, v) for n, v in e.inputs.items()})
    smt.STATS.unknown += 1
    return ("unknown", None)

def same(a, b):
    """IEEE-equal, or both NaN."""
    return bor(tm.fcmp("oeq", a, b), band(tm.fpclass(3, a), tm.fpclass(3, b)))

def nice(e):
    """Ordinary, pairwise different magnitudes (candidates that are likely to reproduce)."""
    vs = [v for n, v in sorted(e.inputs.items()) if z3.is_fp(v)]
    out = []
    for k, v in enumerate(vs[:16]):
        a = z3.fpAbs(v)
        lo = 1.0 + k / 2.0
        out += [z3.fpGEQ(a, e.const(lo)), z3.fpLEQ(a, e.const(lo + 0.25))]
    return out

SPECIAL = [0.0, -0.0, 1.0, -1.0, 2.0, 0.5, 3.0, 5e-324, 1e-310, 2.2250738585072014e-308, 1e-160, 1e-20, 1e-9, 1e9, 1e20, 1e160, 1.7976931348623157e308,
           float("inf"), float("-inf"), float("nan"), 2.0 ** -52, 1 + 2.0 ** -52, 1 - 2.0 ** -53, math.pi]
def guess(cond, n=4000, seconds=2.5, most=4):
    """Assignments found by evaluating the condition on structured values, for conditions the
    solver gives up on.  Only ever used to find models, never to conclude there is none."""
    import random
    t0 = time.time()
    vs = [t for t in tm.postorder([cond]) if t.op in ("in", "undef")]
    if not vs: return []
    if any(str(t.args[0]).startswith("opaque!") for t in vs): most = 60
    rng = random.Random(len(vs)); out = []
    # thresholds written in the code
    lits = sorted({abs(tm.cval(t)) for t in tm.postorder([cond]) if t.sort == "F" and t.op == "c"} - {0.0, float("inf")})
    lits = [x for x in lits if x == x]
    def near(x): return x * rng.choice((1.0, 1.0, 2.0, 0.5, 1 + 1e-3, 1 - 1e-3, 1 + 2.0 ** -52, 1 - 2.0 ** -53, rng.uniform(0.1, 10)))
    def derived(done):
        """a value related to those chosen before: close to one, or as large as their difference or ratio"""
        x = rng.choice(done); y = rng.choice(done)
        c = rng.randint(0, 4)
        if c == 0: return x
        if c == 1: return x * (1 + rng.choice((-1, 1)) * rng.choice((1, 2, 5, rng.random())) * 10.0 ** -rng.randint(0, 16))
        if c == 2: return near(abs(x - y))
        if c == 3: return near(abs((x - y) / y)) if y else near(x)
        return near(x * y)
    for k in range(n):
        if time.time() - t0 > seconds or len(out) >= most: break
        pool = [rng.choice(SPECIAL) for _ in range(rng.randint(1, 3))]
        if rng.random() < 0.5: pool = [x for x in pool if x == x and abs(x) < 1e300] or [1.0]
        if lits and rng.random() < 0.5: pool.append(near(rng.choice(lits)))
        pz = rng.choice((0.0, 0.3, 0.6, 0.9)); pd = rng.choice((0.0, 0.4, 0.7))
        m = {}; done = []
        order = list(vs)
        if rng.random() < 0.5: rng.shuffle(order)
        for t in order:
            if t.sort == "F":
                if done and rng.random() < pd:
                    try: v = derived(done)
                    except (OverflowError, ZeroDivisionError): v = 1.0
                else: v = 0.0 if rng.random() < pz else rng.choice(pool + [rng.uniform(-9, 9)]) * rng.choice((1, 1, -1))
                done.append(v)
            elif t.sort == "B": v = rng.random() < 0.5
            else: v = rng.choice((0, 1, 2, 3, (1 << t.w) - 1, rng.getrandbits(t.w))) & ((1 << t.w) - 1)
            m[str(t.args[0])] = v
        try: r = tm.evaluate([cond], {t.args[0]: m[str(t.args[0])] for t in vs})[0]
        except Exception: return out
        if r: out.append(m)
    return out

INFK = 0x7ff << 52
def order(cond, timeout=3.0):
    """Conditions built from comparisons, classes, signs and absolute values only: doubles as their
    order index (bits of |x|, negated for negative x) plus a NaN flag, in integer arithmetic.
    -> "unsat", "sat", "unknown", or None when something else occurs."""
    memo = {}; cs = []
    for t in tm.postorder([cond]):
        a = [memo.get(x.id) if isinstance(x, T) else x for x in t.args]
        if any(x is None for x in a): return None
        op = t.op; r = None
        if t.sort == "F":
            if op == "c":
                v = tm.cval(t)
                k = 0 if v != v else tm.d2b(abs(v))
                r = (z3.BoolVal(v != v), z3.IntVal(-k if v == v and v < 0 else k))
            elif op == "in":
                r = (z3.Bool("nan!%s" % t.args[0]), z3.Int("key!%s" % t.args[0]))
                cs += [r[1] >= -INFK, r[1] <= INFK]
            elif op == "fneg": r = (a[0][0], -a[0][1])
            elif op == "fabs": r = (a[0][0], z3.If(a[0][1] < 0, -a[0][1], a[0][1]))
            elif op == "ite": r = (z3.If(a[0], a[1][0], a[2][0]), z3.If(a[0], a[1][1], a[2][1]))
        elif t.sort == "B":
            if op == "c": r = z3.BoolVal(tm.cval(t))
            elif op == "in": r = z3.Bool("b!%s" % t.args[0])
            elif op == "not": r = z3.Not(a[0])
            elif op == "and": r = z3.And(*a)
            elif op == "or": r = z3.Or(*a)
            elif op in ("flt", "fle", "feq"):
                x, y = a
                c = x[1] < y[1] if op == "flt" else x[1] <= y[1] if op == "fle" else x[1] == y[1]
                r = z3.And(z3.Not(x[0]), z3.Not(y[0]), c)
            elif op == "fpclass":
                m, (n, k) = a
                if (m & 0x60) not in (0, 0x60): return None
                o = [n] if m & 3 else []
                for bit, c in ((0x4, k == -INFK), (0x8, z3.And(k > -INFK, k <= -(1 << 52))), (0x10, z3.And(k > -(1 << 52), k < 0)), (0x20, k == 0),
                               (0x80, z3.And(k > 0, k < 1 << 52)), (0x100, z3.And(k >= 1 << 52, k < INFK)), (0x200, k == INFK)):
                    if m & bit: o.append(z3.And(z3.Not(n), c))
                r = z3.Or(*o)
        if r is None: return None
        memo[t.id] = r
    t0 = time.time(); smt.STATS.queries += 1
    s = z3.Solver(); s.set("timeout", int(1000 * min(timeout, max(0.3, smt.STATS.left())))); s.add(memo[cond.id], *cs)
    v = s.check(); smt.STATS.time += time.time() - t0
    if v == z3.unsat: smt.STATS.unsat += 1; return "unsat"
    if v == z3.sat: smt.STATS.sat += 1; return "sat"
    smt.STATS.unknown += 1
    return "unknown"

def prove(rec, name, claim, judge, assume=TRUE, timeout=12.0, inputs=(), canonical=True, stages=("abs", "full")):
    """Decide the Boolean term claim for every IEEE value of the inputs satisfying assume.
    judge(model) -> (bad, detail) replays on the native build."""
    q = band(assume, bnot(claim))
    if canonical: q = canon([q])[0]
    if q is FALSE:
        # identical after exact rewriting; have the solver confirm the original query when it can
        r, m = check(band(assume, bnot(claim)), timeout=0.25)
        rec.ok(name); return True
    # first without any knowledge of the arithmetic: its results as free values
    ar = {t: tm.inp("cut!%d" % t.id) for t in tm.postorder([q]) if t.sort == "F" and t.op in ABS}
    if order(tm.subst([q], ar)[0] if ar else q) == "unsat":
        rec.ok(name); return True
    last = "unknown"
    for st in stages:
        ex = None
        for attempt in range(5):
            r, m = check(q, timeout=timeout if st == "full" else min(timeout, 10.0), abstract=ABS if st == "abs" else (), extra=ex)
            last = r
            if r == "unsat":
                if attempt == 0:
                    rec.ok(name); return True
                break
            if r == "unknown": break
            full = dict(m)
            for n in inputs: full.setdefault(n, 0.0)
            rec.replays += 1
            bad, detail = judge(full)
            if bad:
                rec.bad(name, {k: v for k, v in full.items() if not k.startswith("undef")}, detail); return False
            # exclude this model and try to get a different kind of counterexample
            old = ex
            vals = full
            if attempt == 0: old = nice
            def ex(e, old=old, vals=vals):
                out = old(e) if old else []
                out.append(z3.Or(*[z3.Not(v == (z3.BoolVal(vals[n]) if isinstance(vals[n], bool) else e.const(vals[n]) if z3.is_fp(v) else z3.BitVecVal(vals[n], v.size())))
                                   for n, v in e.inputs.items() if n in vals]))
                return out
    for m in guess(q):
        for n in inputs: m.setdefault(n, 0.0)
        rec.replays += 1
        bad, detail = judge(m)
        if bad:
            rec.bad(name, {k: v for k, v in m.items() if not k.startswith("undef")}, detail); return False
    from . import bound
    vs = [t for t in tm.postorder([q]) if t.op == "in"]
    if vs and all(t.sort == "F" and not str(t.args[0]).startswith("opaque!") for t in vs):
        def ask(m):
            full = dict(m)
            for n in inputs: full.setdefault(n, 0.0)
            rec.replays += 1
            return judge(full)
        r = bound.search([q], {t.args[0]: (0.0, 1e300, True) for t in vs}, ask, 1.0, len(vs), assume)
        if r is not None:
            rec.bad(name, r[0], r[1]); return False
    rec.maybe(name, "solver %s; counterexample candidates not reproduced natively" % last)
    return None
