"""Hash-consed terms: sort 'F' (binary64), 'B' (Boolean), 'I' (bit-vector of width w).

Constant folding follows IEEE-754 binary64 (Python floats) and two's complement.
"""
import math, struct, ctypes

_libm = ctypes.CDLL("libm.so.6")

def _lm(name, n):
    f = getattr(_libm, name)
    f.restype = ctypes.c_double
    f.argtypes = [ctypes.c_double] * n
    return f

LIBM1 = {n: _lm(n, 1) for n in
         "sin cos tan asin acos atan sinh cosh tanh asinh acosh atanh exp exp2 expm1 log log2 log10 log1p cbrt "
         "floor ceil trunc round rint nearbyint logb erf erfc tgamma lgamma".split()}
LIBM2 = {n: _lm(n, 2) for n in "atan2 hypot pow fmod remainder fmin fmax fdim nextafter".split()}
LIBM3 = {n: _lm(n, 3) for n in ["fma"]}

class _C(ctypes.Structure):
    _fields_ = [("re", ctypes.c_double), ("im", ctypes.c_double)]

# complex libm functions are evaluated through the native helper library when
# available (see native.py); cmath is only a fallback for concrete evaluation.
NATIVE_CPLX = {}

class T:
    __slots__ = ("op", "args", "sort", "w", "id", "_h")
    def __repr__(self):
        return show(self)

_table = {}
_next = [0]

def mk(op, args, sort, w=0):
    key = (op, sort, w) + tuple(a.id if isinstance(a, T) else ("k", a) for a in args)
    t = _table.get(key)
    if t is None:
        t = T()
        t.op = op; t.args = args; t.sort = sort; t.w = w
        _next[0] += 1
        t.id = _next[0]
        _table[key] = t
    return t

def show(t, d=4):
    if not isinstance(t, T):
        return repr(t)
    if t.op == "c":
        return repr(cval(t))
    if t.op in ("in", "undef"):
        return str(t.args[0])
    if d == 0:
        return "…"
    return "(%s %s)" % (t.op, " ".join(show(a, d - 1) for a in t.args))

# ---------------------------------------------------------------- constants
def d2b(x):
    return struct.unpack("<Q", struct.pack("<d", x))[0]

def b2d(b):
    return struct.unpack("<d", struct.pack("<Q", b & (2**64 - 1)))[0]

_NANBITS = d2b(float("nan"))

def F(x):
    """Double constant (NaNs are one value)."""
    x = float(x)
    bits = _NANBITS if x != x else d2b(x)
    return mk("c", (bits,), "F")

def B(b):
    return TRUE if b else FALSE

def I(v, w):
    return mk("c", (v & ((1 << w) - 1),), "I", w)

TRUE = mk("c", (1,), "B")
FALSE = mk("c", (0,), "B")

def isc(t):
    return t.op == "c"

def cval(t):
    if t.sort == "F":
        return b2d(t.args[0])
    if t.sort == "B":
        return bool(t.args[0])
    return t.args[0]

def sval(t):
    v = t.args[0]
    return v - (1 << t.w) if v >> (t.w - 1) else v

def inp(name):
    return mk("in", (name,), "F")

def inb(name):
    return mk("in", (name,), "B")

def ini(name, w):
    return mk("in", (name,), "I", w)

_undefs = [0]
def undef(sort, w=0):
    _undefs[0] += 1
    return mk("undef", ("undef!%d" % _undefs[0],), sort, w)

# ---------------------------------------------------------------- floats
def fdiv_c(a, b):
    if a != a or b != b:
        return math.nan
    if b == 0.0:
        if a == 0.0:
            return math.nan
        return math.copysign(math.inf, a) * math.copysign(1.0, b)
    if math.isinf(a) and math.isinf(b):
        return math.nan
    return a / b

def fsqrt_c(a):
    if a != a or a < 0:
        return math.nan
    return math.sqrt(a)

def to32_c(x):
    if x != x or math.isinf(x):
        return x
    try:
        return struct.unpack("<f", struct.pack("<f", x))[0]
    except OverflowError:
        return math.copysign(math.inf, x)

def fop_c(op, *a):
    try:
        if op == "fadd": return a[0] + a[1]
        if op == "fsub": return a[0] - a[1]
        if op == "fmul": return a[0] * a[1]
    except OverflowError:
        raise
    if op == "fdiv": return fdiv_c(*a)
    if op == "fneg": return -a[0]
    if op == "fabs": return abs(a[0])
    if op == "sqrt": return fsqrt_c(a[0])
    if op == "to32": return to32_c(a[0])
    if op == "copysign": return math.copysign(a[0], a[1])
    if op in LIBM1: return LIBM1[op](a[0])
    if op in LIBM2: return LIBM2[op](a[0], a[1])
    if op in LIBM3: return LIBM3[op](*a)
    if op in NATIVE_CPLX: return NATIVE_CPLX[op](*a)
    raise NotImplementedError("concrete evaluation of " + op)

# complex helper functions: op name -> number of double arguments
CPLX = {}
for _n in "csqrt cexp clog csin ccos ctan csinh ccosh ctanh casin cacos catan casinh cacosh catanh".split():
    CPLX[_n + "_re"] = 2
    CPLX[_n + "_im"] = 2
for _n in ("divdc3", "cpow"):
    CPLX[_n + "_re"] = 4
    CPLX[_n + "_im"] = 4

FOPS = set("fadd fsub fmul fdiv fneg fabs sqrt to32 copysign".split()) | set(LIBM1) | set(LIBM2) | set(LIBM3) | set(CPLX)

def fop(op, *args):
    if all(isc(a) for a in args):
        try:
            return F(fop_c(op, *[cval(a) for a in args]))
        except NotImplementedError:
            pass
    if op == "fneg" and args[0].op == "fneg":
        return args[0].args[0]
    if op == "fabs" and args[0].op in ("fneg", "fabs"):
        return fop("fabs", args[0].args[0])
    return mk(op, tuple(args), "F")

def fcmp_c(pred, a, b):
    un = a != a or b != b
    if pred == "ord": return not un
    if pred == "uno": return un
    if pred == "true": return True
    if pred == "false": return False
    base = pred[1:]
    if un:
        return pred[0] == "u"
    return {"eq": a == b, "ne": a != b, "lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[base]

def fcmp(pred, a, b):
    """Normalised: o/u + lt, le, eq over (a,b); 'ord'; u-forms become Not(o-form)."""
    if isc(a) and isc(b):
        return B(fcmp_c(pred, cval(a), cval(b)))
    if pred == "true": return TRUE
    if pred == "false": return FALSE
    if pred == "uno": return bnot(fcmp("ord", a, b))
    if pred == "ord":
        return band(bnot(fpclass(3, a)), bnot(fpclass(3, b)))
    k, base = pred[0], pred[1:]
    if k == "u":
        neg = {"eq": "one", "ne": "oeq", "lt": "oge", "le": "ogt", "gt": "ole", "ge": "olt"}[base]
        return bnot(fcmp(neg, a, b))
    if base == "gt": return fcmp("olt", b, a)
    if base == "ge": return fcmp("ole", b, a)
    if base == "ne":
        return bor(fcmp("olt", a, b), fcmp("olt", b, a))
    if a is b:
        if base == "lt":
            return FALSE
        return bnot(fpclass(3, a))
    if base == "eq" and a.id > b.id:
        a, b = b, a
    return mk("f" + base, (a, b), "B")

def fclass_c(x):
    if x != x: return 2
    neg = math.copysign(1, x) < 0
    if math.isinf(x): return 0x4 if neg else 0x200
    if x == 0: return 0x20 if neg else 0x40
    if abs(x) < 2.0 ** -1022: return 0x10 if neg else 0x80
    return 0x8 if neg else 0x100

def fpclass(mask, x):
    if mask & 3: mask |= 3
    if mask == 0: return FALSE
    if mask == 0x3ff: return TRUE
    if isc(x):
        return B(bool(mask & fclass_c(cval(x))))
    if x.op == "ite":
        pass
    if x.op in ("fneg", "fabs"):
        sym = [(0x4, 0x200), (0x8, 0x100), (0x10, 0x80), (0x20, 0x40)]
        if x.op == "fneg":
            m = mask & 3
            for a, b in sym:
                if mask & a: m |= b
                if mask & b: m |= a
        else:
            m = mask & 3
            for a, b in sym:
                if mask & b: m |= a | b
        return fpclass(m, x.args[0])
    return mk("fpclass", (mask, x), "B")

# ---------------------------------------------------------------- Booleans
def bnot(a):
    if a is TRUE: return FALSE
    if a is FALSE: return TRUE
    if a.op == "not": return a.args[0]
    return mk("not", (a,), "B")

def band(*xs):
    out = []
    seen = set()
    for x in xs:
        if x is TRUE: continue
        if x is FALSE: return FALSE
        ys = x.args if x.op == "and" else (x,)
        for y in ys:
            if y.id in seen: continue
            if bnot(y).id in seen: return FALSE
            seen.add(y.id); out.append(y)
    if not out: return TRUE
    if len(out) == 1: return out[0]
    return mk("and", tuple(out), "B")

def bor(*xs):
    out = []
    seen = set()
    for x in xs:
        if x is FALSE: continue
        if x is TRUE: return TRUE
        ys = x.args if x.op == "or" else (x,)
        for y in ys:
            if y.id in seen: continue
            if bnot(y).id in seen: return TRUE
            seen.add(y.id); out.append(y)
    if not out: return FALSE
    if len(out) == 1: return out[0]
    # (S & x) | (S & ~x) = S ; x | (~x & S) = x | S
    if len(out) == 2:
        a, b = out
        A = set(a.args) if a.op == "and" else {a}
        Bb = set(b.args) if b.op == "and" else {b}
        da, db = A - Bb, Bb - A
        if not da: return a
        if not db: return b
        if len(da) == 1 and bnot(next(iter(da))) in db:
            common = A & Bb
            rest = db - {bnot(next(iter(da)))}
            if not rest:
                return band(*[z for z in (a.args if a.op == "and" else (a,)) if z in common])
            return band(*sorted(common, key=lambda z: z.id), bor(next(iter(da)), band(*sorted(rest, key=lambda z: z.id)))) if common else mk("or", (next(iter(da)), band(*sorted(rest, key=lambda z: z.id))), "B")
        if len(db) == 1 and bnot(next(iter(db))) in da:
            return bor(b, a)
    return mk("or", tuple(out), "B")

def bxor(a, b):
    if isc(a): return bnot(b) if a is TRUE else b
    if isc(b): return bnot(a) if b is TRUE else a
    if a is b: return FALSE
    if a is bnot(b): return TRUE
    return bor(band(a, bnot(b)), band(bnot(a), b))

def ite(c, a, b):
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    if c.op == "not": return ite(c.args[0], b, a)
    if a.sort == "B":
        if a is TRUE: return bor(c, b)
        if a is FALSE: return band(bnot(c), b)
        if b is TRUE: return bor(bnot(c), a)
        if b is FALSE: return band(c, a)
        return bor(band(c, a), band(bnot(c), b))
    if a.op == "ite" and a.args[0] is c: a = a.args[1]
    if b.op == "ite" and b.args[0] is c: b = b.args[2]
    if a is b: return a
    return mk("ite", (c, a, b), a.sort, a.w)

# ---------------------------------------------------------------- integers
def mask(w):
    return (1 << w) - 1

def _sg(v, w):
    return v - (1 << w) if (v >> (w - 1)) & 1 else v

def iop_c(op, a, b, w):
    if op == "add": return a + b
    if op == "sub": return a - b
    if op == "mul": return a * b
    if op == "and": return a & b
    if op == "or": return a | b
    if op == "xor": return a ^ b
    if op == "shl": return a << b if b < w else 0
    if op == "lshr": return a >> b if b < w else 0
    if op == "ashr": return _sg(a, w) >> min(b, w - 1)
    if op in ("udiv", "urem", "sdiv", "srem") and b == 0:
        raise ZeroDivisionError
    if op == "udiv": return a // b
    if op == "urem": return a % b
    sa, sb = _sg(a, w), _sg(b, w)
    if op == "sdiv":
        q = abs(sa) // abs(sb)
        return q if (sa < 0) == (sb < 0) else -q
    if op == "srem":
        r = abs(sa) % abs(sb)
        return -r if sa < 0 else r
    raise NotImplementedError(op)

def _leaves(t, limit=16):
    """All leaves of an ite tree are constants?"""
    n = 0
    st = [t]
    while st:
        x = st.pop()
        n += 1
        if n > 2 * limit: return False
        if x.op == "ite":
            st += [x.args[1], x.args[2]]
        elif not isc(x):
            return False
    return True

def iop(op, a, b):
    w = a.w
    if isc(a) and isc(b):
        return I(iop_c(op, cval(a), cval(b), w), w)
    # Boolean-valued integers
    if op in ("and", "or", "xor"):
        ba, bb = asbool(a), asbool(b)
        if ba is not None and bb is not None:
            r = {"and": band, "or": bor, "xor": bxor}[op](ba, bb)
            return b2i(r, w)
    if isc(b):
        v = cval(b)
        if v == 0 and op in ("add", "sub", "or", "xor", "shl", "lshr", "ashr"): return a
        if op == "mul" and v == 1: return a
        if op in ("mul", "and") and v == 0: return b
        if op == "and" and v == mask(w): return a
        if a.op == "dbits" and w == 64:
            if op == "and" and v == mask(63): return dbits(fop("fabs", a.args[0]))
            if op == "xor" and v == 1 << 63: return dbits(fop("fneg", a.args[0]))
            if op == "lshr" and v == 63: return b2i(signbit(a.args[0]), 64)
            if op == "and" and v == 1 << 63:
                return ite(signbit(a.args[0]), I(1 << 63, 64), I(0, 64))
        if op == "sub":
            return iop("add", a, I(-v, w))
        if op == "add" and a.op == "add" and isc(a.args[1]):
            return iop("add", a.args[0], I(cval(a.args[1]) + v, w))
    if isc(a):
        if op in ("add", "mul", "and", "or", "xor"):
            return iop(op, b, a)
    if op == "sub" and a is b: return I(0, w)
    if a.op == "ite" and _leaves(a) and isc(b):
        return ite(a.args[0], iop(op, a.args[1], b), iop(op, a.args[2], b))
    if b.op == "ite" and _leaves(b) and isc(a):
        return ite(b.args[0], iop(op, a, b.args[1]), iop(op, a, b.args[2]))
    return mk(op, (a, b), "I", w)

def icmp_c(p, a, b, w):
    if p[0] == "s":
        a, b = _sg(a, w), _sg(b, w)
    return {"eq": a == b, "ne": a != b, "lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[p if p in ("eq", "ne") else p[1:]]

def asbool(t):
    """Boolean b with t == ite(b,1,0), or None."""
    if isc(t):
        v = cval(t)
        return TRUE if v == 1 else FALSE if v == 0 else None
    if t.op == "ite" and isc(t.args[1]) and isc(t.args[2]):
        x, y = cval(t.args[1]), cval(t.args[2])
        if (x, y) == (1, 0): return t.args[0]
        if (x, y) == (0, 1): return bnot(t.args[0])
    return None

def icmp(p, a, b):
    w = a.w
    if isc(a) and isc(b):
        return B(icmp_c(p, cval(a), cval(b), w))
    if a is b:
        return B(p in ("eq", "ule", "uge", "sle", "sge"))
    if p == "ne": return bnot(icmp("eq", a, b))
    if p in ("ugt", "sgt"): return icmp(p[0] + "lt", b, a)
    if p in ("uge", "sge"): return bnot(icmp(p[0] + "lt", a, b))
    if p in ("ule", "sle"): return bnot(icmp(p[0] + "lt", b, a))
    if isc(a) and p == "eq":
        a, b = b, a
    if a.op == "dbits" and p == "slt" and isc(b) and cval(b) == 0:
        return signbit(a.args[0])
    if b.op == "dbits" and p == "slt" and isc(a) and cval(a) == mask(64):
        return bnot(signbit(b.args[0]))
    if a.op == "ite" and (isc(b) or _leaves(b)) and _leaves(a):
        return ite(a.args[0], icmp(p, a.args[1], b), icmp(p, a.args[2], b))
    if b.op == "ite" and isc(a) and _leaves(b):
        return ite(b.args[0], icmp(p, a, b.args[1]), icmp(p, a, b.args[2]))
    return mk("i" + p, (a, b), "B")

def b2i(b, w):
    return ite(b, I(1, w), I(0, w))

def zext(t, w):
    if t.sort == "B": return b2i(t, w)
    if t.w == w: return t
    if isc(t): return I(cval(t), w)
    if t.op == "ite": return ite(t.args[0], zext(t.args[1], w), zext(t.args[2], w))
    return mk("zext", (t,), "I", w)

def sext(t, w):
    if t.sort == "B": return ite(t, I(-1, w), I(0, w))
    if t.w == w: return t
    if isc(t): return I(_sg(cval(t), t.w), w)
    if t.op == "ite": return ite(t.args[0], sext(t.args[1], w), sext(t.args[2], w))
    return mk("sext", (t,), "I", w)

def trunc(t, w):
    if w == 1:
        if t.sort == "B": return t
        if isc(t): return B(cval(t) & 1)
        b = asbool(t)
        if b is not None: return b
        return icmp("ne", iop("and", t, I(1, t.w)), I(0, t.w))
    if t.w == w: return t
    if isc(t): return I(cval(t), w)
    if t.op == "ite": return ite(t.args[0], trunc(t.args[1], w), trunc(t.args[2], w))
    if t.op in ("zext", "sext"):
        x = t.args[0]
        if x.w == w: return x
        if x.w > w: return trunc(x, w)
    if t.op == "lshr" and t.args[0].op == "dbits" and isc(t.args[1]) and cval(t.args[1]) == 63:
        return b2i(signbit(t.args[0].args[0]), w)
    return mk("trunc", (t,), "I", w)

def dbits(x):
    if isc(x): return I(x.args[0], 64)
    if x.op == "bitsd": return x.args[0]
    if x.op == "ite": return ite(x.args[0], dbits(x.args[1]), dbits(x.args[2]))
    return mk("dbits", (x,), "I", 64)

def bitsd(x):
    if isc(x): return F(b2d(cval(x)))
    if x.op == "dbits": return x.args[0]
    if x.op == "ite": return ite(x.args[0], bitsd(x.args[1]), bitsd(x.args[2]))
    return mk("bitsd", (x,), "F")

def signbit(x):
    return mk("signbit", (x,), "B") if not isc(x) else B(math.copysign(1, cval(x)) < 0)

def itof(x, signed):
    if isc(x):
        return F(float(_sg(cval(x), x.w) if signed else cval(x)))
    if x.op == "ite":
        return ite(x.args[0], itof(x.args[1], signed), itof(x.args[2], signed))
    return mk("sitof" if signed else "uitof", (x,), "F")

def ftoi(x, w, signed):
    if isc(x):
        v = cval(x)
        if v != v or math.isinf(v): return undef("I", w)
        return I(int(v), w)
    if x.op == "ite":
        return ite(x.args[0], ftoi(x.args[1], w, signed), ftoi(x.args[2], w, signed))
    return mk("ftosi" if signed else "ftoui", (x,), "I", w)

# ---------------------------------------------------------------- traversal
def postorder(roots):
    seen = set()
    out = []
    for r in roots:
        st = [(r, False)]
        while st:
            t, done = st.pop()
            if not isinstance(t, T): continue
            if done:
                out.append(t); continue
            if t.id in seen: continue
            seen.add(t.id)
            st.append((t, True))
            for a in t.args:
                if isinstance(a, T) and a.id not in seen:
                    st.append((a, False))
    # de-duplicate keeping first completion
    res, s2 = [], set()
    for t in out:
        if t.id not in s2:
            s2.add(t.id); res.append(t)
    return res

def rebuild(t, args):
    """Re-make node t with new (possibly folded) args."""
    op = t.op
    if op in ("c", "in", "undef"): return t
    if op == "trunc" and t.sort == "I": return trunc(args[0], t.w)
    if op in FOPS: return fop(op, *args)
    if op in ("flt", "fle", "feq"): return fcmp("o" + op[1:], *args)
    if op == "fpclass": return fpclass(*args)
    if op == "not": return bnot(*args)
    if op == "and" and t.sort == "B": return band(*args)
    if op == "or" and t.sort == "B": return bor(*args)
    if op == "ite": return ite(*args)
    if op in ("ieq", "iult", "islt"): return icmp(op[1:], *args)
    if op == "zext": return zext(args[0], t.w)
    if op == "sext": return sext(args[0], t.w)
    if op == "trunc": return trunc(args[0], t.w)
    if op == "dbits": return dbits(*args)
    if op == "bitsd": return bitsd(*args)
    if op == "signbit": return signbit(*args)
    if op in ("sitof", "uitof"): return itof(args[0], op == "sitof")
    if op in ("ftosi", "ftoui"): return ftoi(args[0], t.w, op == "ftosi")
    if t.sort == "I" and op in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "udiv", "urem", "sdiv", "srem"):
        return iop(op, *args)
    return mk(op, tuple(args), t.sort, t.w)

def subst(roots, mapping):
    """Replace terms (by id) bottom-up, refolding; mapping: {T: T}."""
    m = {k.id: v for k, v in mapping.items()}
    val = {}
    for t in postorder(roots):
        if t.id in m:
            val[t.id] = m[t.id]; continue
        if not any(isinstance(a, T) for a in t.args):
            val[t.id] = t; continue
        na = [val[a.id] if isinstance(a, T) else a for a in t.args]
        if all(x is y for x, y in zip(na, t.args)):
            val[t.id] = t
        else:
            val[t.id] = rebuild(t, na)
            r = val[t.id]
            if r.id in m: val[t.id] = m[r.id]
    return [val[r.id] for r in roots]

def evaluate(roots, env):
    """Concrete evaluation; env: {name: python value}; undef reads raise KeyError."""
    mp = {}
    for t in postorder(roots):
        if t.op in ("in", "undef"):
            v = env.get(t.args[0], 0) if t.op == "undef" else env[t.args[0]]
            mp[t] = F(v) if t.sort == "F" else B(v) if t.sort == "B" else I(v, t.w)
    return [cval(r) if isc(r) else None for r in subst(roots, mp)]
