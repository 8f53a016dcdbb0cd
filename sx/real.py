"""Real back end: explores the case distinctions of a set of terms with solver-decided
feasibility, normalises each leaf exactly and discharges the claims on it."""
import os, time, random, math
from fractions import Fraction as Fr
import z3
from . import term as tm, smt
from .term import T, F, TRUE, FALSE, B, fop, band, bor, bnot, ite
from .cas import *
from .poly import *

STRESS = bool(os.environ.get("ENGV_STRESS"))
MAXD = Fr(2) ** 1024
MIND = Fr(1, 2 ** 1022)

# ------------------------------------------------------------------ lowering
def lower(roots):
    """Rewrite derived operations into + - * / sqrt sin cos exp log atan2 csqrt."""
    val = {}
    for t in tm.postorder(roots):
        a = [val[x.id] if isinstance(x, T) else x for x in t.args]
        val[t.id] = _low(t, a)
    return [val[r.id] for r in roots]

def _low(t, a):
    op = t.op
    add = lambda x, y: fop("fadd", x, y)
    sub = lambda x, y: fop("fsub", x, y)
    mul = lambda x, y: fop("fmul", x, y)
    div = lambda x, y: fop("fdiv", x, y)
    one, two, half = F(1.0), F(2.0), F(0.5)
    sin = lambda x: fop("sin", x)
    cos = lambda x: fop("cos", x)
    exp = lambda x: fop("exp", x)
    cosh = lambda x: mul(half, add(exp(x), exp(fop("fneg", x))))
    sinh = lambda x: mul(half, sub(exp(x), exp(fop("fneg", x))))
    if op == "hypot": return fop("sqrt", add(mul(a[0], a[0]), mul(a[1], a[1])))
    if op == "fma": return add(mul(a[0], a[1]), a[2])
    if op == "fmin": return ite(tm.fcmp("olt", a[1], a[0]), a[1], a[0])
    if op == "fmax": return ite(tm.fcmp("olt", a[0], a[1]), a[1], a[0])
    if op == "fdim": return ite(tm.fcmp("olt", a[1], a[0]), sub(a[0], a[1]), F(0.0))
    if op == "tan": return div(sin(a[0]), cos(a[0]))
    if op == "cosh": return cosh(a[0])
    if op == "sinh": return sinh(a[0])
    if op == "tanh": return div(sinh(a[0]), cosh(a[0]))
    if op == "expm1": return sub(exp(a[0]), one)
    if op == "log1p": return fop("log", add(one, a[0]))
    if op == "acos": return fop("atan2", fop("sqrt", sub(one, mul(a[0], a[0]))), a[0])
    if op == "asin": return fop("atan2", a[0], fop("sqrt", sub(one, mul(a[0], a[0]))))
    if op == "atan": return fop("atan2", a[0], one)
    if op == "log2": return div(fop("log", a[0]), fop("log_", two)) if False else tm.mk("log2", (a[0],), "F")
    if op == "pow" and tm.isc(a[1]):
        e = tm.cval(a[1])
        if e == 2: return mul(a[0], a[0])
        if e == 3: return mul(mul(a[0], a[0]), a[0])
        if e == 0.5: return fop("sqrt", a[0])
        if e == -1: return div(one, a[0])
        if e == -0.5: return div(one, fop("sqrt", a[0]))
        if e == -2: return div(one, mul(a[0], a[0]))
        if e == 1: return a[0]
        if e == 4: return mul(mul(a[0], a[0]), mul(a[0], a[0]))
    if op == "copysign":
        m = fop("fabs", a[0])
        return ite(tm.fcmp("olt", a[1], F(0.0)), fop("fneg", m), m)
    if op in tm.CPLX:
        f, part = op.rsplit("_", 1)
        p = (lambda re, im: re if part == "re" else im)
        if f == "divdc3":
            x, y, u, v = a
            d = add(mul(u, u), mul(v, v))
            return p(div(add(mul(x, u), mul(y, v)), d), div(sub(mul(y, u), mul(x, v)), d))
        if f == "cpow": return tm.mk(op, tuple(a), "F")
        x, y = a
        if f == "csqrt": return fop(op, x, y)
        if f == "cexp": return mul(exp(x), p(cos(y), sin(y)))
        if f == "ccosh": return p(mul(cosh(x), cos(y)), mul(sinh(x), sin(y)))
        if f == "csinh": return p(mul(sinh(x), cos(y)), mul(cosh(x), sin(y)))
        if f == "ccos": return p(mul(cos(x), cosh(y)), fop("fneg", mul(sin(x), sinh(y))))
        if f == "csin": return p(mul(sin(x), cosh(y)), mul(cos(x), sinh(y)))
        if f == "clog": return p(fop("log", fop("sqrt", add(mul(x, x), mul(y, y)))), fop("atan2", y, x))
    if all(x is y for x, y in zip(a, t.args)): return t
    return tm.rebuild(t, a)

def rsqrt(x, up):
    """Rational bound of the square root (relative error below 1e-15)."""
    x = Fr(x)
    if x == 0: return Fr(0)
    k = (x.denominator.bit_length() - x.numerator.bit_length()) // 2 + 60
    k = max(k, 0)
    n = x * (1 << (2 * k))
    if up:
        r = math.isqrt(-(-n.numerator // n.denominator)) + 1
    else: r = math.isqrt(n.numerator // n.denominator)
    return Fr(r, 1 << k)

# ------------------------------------------------------------------ claims
class Claim:
    """kind: eq (got, want, tol, scale) | holds (bterm) | nan (term) | invalid (terms)"""
    def __init__(self, name, kind, terms, tol=None, scale=None):
        self.name = name; self.kind = kind; self.terms = terms; self.tol = tol; self.scale = scale

def Eq(name, got, want, scale=None, tol=Fr(1, 10**9)):
    return Claim(name, "eq", [got, want] + ([scale] if scale is not None else []), Fr(tol), scale)
def Holds(name, b): return Claim(name, "holds", [b])
def Split(*bs): return Claim("split", "split", [ite(b, F(1.0), F(0.0)) for b in bs])
def IsNaN(name, t): return Claim(name, "nan", [t])
def Invalid(name, ts): return Claim(name, "invalid", list(ts))

class Leaf:
    def __init__(self):
        self.atoms = []      # [(R, rel)] rel in '<0','<=0','=0','!=0','>0','>=0'
        self.memo = {}
        self.signs = {}
        self.note = []
        self.uncertain = False
    def fork(self):
        n = Leaf(); n.atoms = list(self.atoms); n.memo = dict(self.memo); n.signs = dict(self.signs); n.note = list(self.note)
        n.uncertain = self.uncertain
        return n

LIVE = []       # the provers of the running task (see ctx._run)

class Prover:
    def __init__(self, domain, judge=None, seed=1, qt=8.0, log=None, maxleaves=400):
        """domain: {input name: (lo, hi, zero allowed)}"""
        self.dom = {k: (Fr(lo), Fr(hi), z) for k, (lo, hi, z) in domain.items()}
        self.judge = judge
        self.rng = random.Random(seed)
        self.qt = qt
        self.cas = Cas()
        self.log = log or (lambda *a: None)
        self.leaves = 0
        self.maxleaves = maxleaves
        self.relax = False; self.fixes = 0; self.nofall = False
        self.fastt = 4.0; self.fastn = 0
        self.proved = []; self.undecided = []; self.violations = []; self.witnesses = []
        self.validate = None
        self.bvars = {}
        self.replays = 0; self.validated = 0
        self.asm = TRUE; self.hunted = 0.0; self.label = ""; self.merged = False; self.lits = set(); self.prehunted = 0.0; self.bounded = 0.0; self.seenatoms = set()
        LIVE.append(self)
        if judge is not None:
            def counted(ins, judge=judge):
                self.replays += 1
                return judge(ins)
            self.judge = counted

    # -------------------------------------------------- z3 translation
    def zvar(self, g):
        return z3.Real(g.name)

    def zpoly(self, p, need):
        out = []
        for m, c in p.items():
            t = None
            for v, e in m:
                need.add(v)
                x = self.zvar(self.cas.gens[v])
                for _ in range(e): t = x if t is None else t * x
            out.append(smt.q(c) if t is None else (t if c == 1 else smt.q(c) * t))
        if not out: return smt.q(0)
        return z3.Sum(out) if len(out) > 1 else out[0]

    def zrel(self, r, rel, need):
        num = r.num
        if rel not in ("=0", "!=0"):
            for k, (p, e) in r.den.items():
                if e % 2 and self.cas.polysign(p) not in ({1, 0}, {1}):
                    num = pmul(num, p)
        x = self.zpoly(num, need)
        z = smt.q(0)
        return {"<0": x < z, "<=0": x <= z, "=0": x == z, "!=0": x != z, ">0": x > z, ">=0": x >= z}[rel]

    def axioms(self, gid, need):
        g = self.cas.gens[gid]
        v = self.zvar(g)
        C = self.cas
        out = []
        def val(r):
            """z3 expression equal to the rational function r"""
            if not r.den: return self.zpoly(r.num, need)
            d = pconst(1)
            for k, (p, e) in r.den.items():
                for _ in range(e): d = pmul(d, p)
            w = z3.Real("q!%d!%d" % (gid, len(out)))
            out.append(w * self.zpoly(d, need) == self.zpoly(r.num, need))
            out.append(self.zpoly(d, need) != 0)
            return w
        if g.kind == "in":
            b = self.dom.get(g.name)
            if b:
                lo, hi, zero = b
                if lo is None or lo == 0 and zero:
                    out.append(z3.And(v >= smt.q(-hi), v <= smt.q(hi)))
                else:
                    alt = [z3.And(v >= smt.q(lo), v <= smt.q(hi)), z3.And(v <= smt.q(-lo), v >= smt.q(-hi))]
                    if zero: alt.append(v == 0)
                    out.append(z3.Or(*alt))
        elif g.kind == "sqrt":
            out.append(v >= 0); out.append(v * v == val(g.args[0]))
            lo, hi = self.magn(gid)
            if lo > 0: out.append(v >= smt.q(lo))
            if hi is not None: out.append(v <= smt.q(hi))
        elif g.kind in ("sin", "cos"):
            need.add(g.aux)
            if g.kind == "cos":
                s = self.zvar(C.gens[g.aux])
                out += [v * v + s * s == 1, v <= 1, v >= -1, s <= 1, s >= -1]
                a = val(g.args[0])
                a2 = a * a
                out += [v >= 1 - a2 / 2, z3.Implies(z3.And(a <= 1, a >= -1), v <= 1 - a2 / 2 + a2 * a2 / 24),
                        z3.Implies(a >= 0, s <= a), z3.Implies(a <= 0, s >= a),
                        z3.Implies(z3.And(a >= 0, a <= 1), z3.And(s >= a - a * a2 / 6, s <= a - a * a2 / 6 + a * a2 * a2 / 120)),
                        z3.Implies(z3.And(a <= 0, a >= -1), z3.And(s <= a - a * a2 / 6, s >= a - a * a2 / 6 + a * a2 * a2 / 120)),
                        z3.Implies(z3.And(a >= 0, a <= 3), s >= 0), z3.Implies(z3.And(a <= 0, a >= -3), s <= 0)]
        elif g.kind == "exp":
            a = val(g.args[0])
            out += [v > 0, v >= 1 + a, z3.Implies(a <= 0, v <= 1), z3.Implies(z3.And(a <= 1, a >= -1), v <= 1 + a + a * a)]
        elif g.kind == "log":
            a = val(g.args[0])
            out += [v <= a - 1, z3.Implies(a >= 1, v >= 0), z3.Implies(a <= 1, v <= 0), a > 0]
        elif g.kind in ATAN:
            if g.kind != "atan2": out.append(v > 0 if g.kind == "atan2s" else v >= 0)
            y, x = val(g.args[0]), val(g.args[1])
            pi_hi = smt.q(Fr(31415926535897932384626433832796, 10**31)); ph = smt.q(Fr(15707963267948966192313216916399, 10**31))
            out += [v <= pi_hi, v >= -pi_hi, z3.Implies(y >= 0, v >= 0), z3.Implies(y < 0, v <= 0),
                    z3.Implies(x >= 0, z3.And(v <= ph, v >= -ph)),
                    z3.Implies(z3.And(x > 0, y >= 0), v * x <= y), z3.Implies(z3.And(x > 0, y <= 0), v * x >= y),
                    z3.Implies(z3.And(y == 0, x > 0), v == 0), z3.Implies(y > 0, v > 0)]
        elif g.kind == "hcos":
            need.add(g.aux)
            s = self.zvar(C.gens[g.aux])
            c, sn = val(g.args[0]), val(g.args[1])
            out += [v >= 0, v <= 1, s <= 1, s >= -1, 2 * v * v == 1 + c, 2 * s * s == 1 - c, 2 * v * s == sn]
        elif g.kind == "hsin": need.add(g.aux)
        elif g.kind == "csqrt_re":
            need.add(g.aux)
            s = self.zvar(C.gens[g.aux])
            out += [v >= 0, v * v - s * s == val(g.args[0]), 2 * v * s == val(g.args[1])]
        elif g.kind == "csqrt_im": need.add(g.aux)
        elif g.kind == "const":
            lo, hi = g.aux
            out += [v >= smt.q(lo), v <= smt.q(hi)]
        elif g.kind == "delta":
            lo, hi = g.aux
            out += [v >= smt.q(lo), v <= smt.q(hi)]
        return out

    # -------------------------------------------------- magnitude bounds
    def magn(self, v, nz=()):
        """(lo, hi) with lo <= |generator| <= hi; hi None when unbounded."""
        g = self.cas.gens[v]
        if g.kind == "in":
            b = self.dom.get(g.name)
            if not b or b[1] is None: return (0, None)
            lo = b[0] or 0
            return (lo if not b[2] or v in nz else Fr(0), b[1])
        if g.kind in ("sin", "cos", "hcos", "hsin"): return (0, Fr(1))
        if g.kind == "atan2s":
            # y > 0: angle >= sin(angle) = y / sqrt(x^2 + y^2)
            memo = self.__dict__.setdefault("_mag", {})
            k = (v, frozenset(nz))
            if k not in memo:
                C = self.cas; old, C.oracle = C.oracle, None
                try: y = C.div(g.args[0], C.sqrt(C.add(C.mul(g.args[0], g.args[0]), C.mul(g.args[1], g.args[1]))))
                except NeedDecision: y = None
                finally: C.oracle = old
                lo = self.rrange(y, nz)[0] if y is not None else None
                memo[k] = (lo if lo is not None and lo > 0 else 0, Fr(22, 7))
            return memo[k]
        if g.kind in ATAN: return (0, Fr(22, 7))
        if g.kind in ("const", "delta"):
            lo, hi = g.aux
            return (lo if lo > 0 else -hi if hi < 0 else 0, max(abs(lo), abs(hi)))
        if g.kind == "sqrt":
            memo = self.__dict__.setdefault("_mag", {})
            k = (v, frozenset(nz))
            if k not in memo:
                lo, hi = self.rrange(g.args[0], nz)
                memo[k] = (rsqrt(lo, False) if lo is not None and lo > 0 else 0, rsqrt(hi, True) if hi is not None else None)
            return memo[k]
        return (0, None)

    def absrange(self, r, leaf):
        """Bounds of |r| on a leaf."""
        nz = set()
        for q, rel in leaf.atoms:
            if rel in ("!=0", ">0", "<0") and len(q.num) == 1:
                (m, c), = q.num.items()
                nz |= {v for v, e in m}
        if len(r.num) == 1:
            (m, c), = r.num.items()
            # magnitude of a monomial: signs of the inputs do not matter
            lo, hi = self.rrange(R({m: abs(Fr(c))}, r.den), nz, True)
        else: lo, hi = self.rrange(r, nz)
        if lo is not None and lo > 0: return lo, hi
        if hi is not None and hi < 0: return -hi, None if lo is None else -lo
        return 0, None if lo is None or hi is None else max(abs(lo), abs(hi))

    def rrange(self, r, nz=(), mag=False):
        """Bounds of a rational function."""
        num = r.num; den = list(r.den.values()); roots = []
        for i, (p, e) in enumerate(den):
            # g / g^2 = 1 / g for a square root g whose radicand is the factor
            for v in pvars(num):
                g = self.cas.gens[v]
                if g.kind == "sqrt" and e == 1 and not g.args[0].den and len(g.args[0].num) == len(p):
                    m = next(iter(p)); c = g.args[0].num.get(m)
                    if c is None or pscale(p, Fr(c) / Fr(p[m])) != g.args[0].num: continue
                    q = {x: mdiv(x, ((v, 1),)) for x in num}
                    if any(x is None for x in q.values()): continue
                    num = {q[x]: y for x, y in num.items()}
                    num = pscale(num, Fr(c) / Fr(p[m]))
                    den[i] = (pvar(v), 1); break
        if mag:
            (m, c), = num.items(); lo = hi = Fr(c)
            for v, e in m:
                a, b = self.magn(v, nz)
                lo *= a ** e; hi = None if hi is None or b is None else hi * b ** e
        else: lo, hi = self.prange(num, nz)
        for p, e in den:
            a, b = self.prange(p, nz)
            if b is not None and b < 0:
                a, b = -b, -a if a is not None else None
                if e % 2: lo, hi = None if hi is None else -hi, None if lo is None else -lo
            if a is None or a <= 0: return (None, None)
            c, d = (Fr(1) / a ** e, Fr(0) if b is None else Fr(1) / b ** e)
            lo = None if lo is None else lo * (d if lo > 0 else c)
            hi = None if hi is None else hi * (c if hi > 0 else d)
        return lo, hi

    def mrange(self, m, nz=()):
        """Bounds of a monomial (None: unbounded)."""
        lo, hi = Fr(1), Fr(1); pos = True
        for v, e in m:
            a, b = self.magn(v, nz)
            lo = lo * a ** e
            hi = None if hi is None or b is None else hi * b ** e
            if e % 2 and not self.cas.nonneg_gen(v): pos = False
        return (lo if pos else None if hi is None else -hi, hi)

    def prange(self, p, nz=()):
        lo = hi = Fr(0)
        for m, c in p.items():
            a, b = self.mrange(m, nz)
            if c < 0: a, b = b, a
            lo = None if lo is None or a is None else lo + a * Fr(c)
            hi = None if hi is None or b is None else hi + b * Fr(c)
        return lo, hi

    def close(self, cons, need):
        done = set()
        while need - done:
            for i in sorted(need - done):
                done.add(i)
                cons += self.axioms(i, need)
        return cons, [self.zvar(self.cas.gens[i]) for i in sorted(done) if self.cas.gens[i].kind == "in"]

    def connected(self, leaf, need):
        """Path atoms that share generators (transitively) with the query."""
        need = set(need)
        self._deps(need)
        atoms = []
        rest = list(leaf.atoms)
        ch = True
        while ch:
            ch = False
            for a in list(rest):
                vs = pvars(a[0].num)
                for k, (p, e) in a[0].den.items(): vs |= pvars(p)
                self._deps(vs)
                if vs & need or not vs:
                    atoms.append(a); rest.remove(a)
                    if not vs <= need: need |= vs; ch = True
        return atoms

    def _deps(self, vs):
        st = list(vs)
        while st:
            g = self.cas.gens[st.pop()]
            new = set()
            for r in g.args:
                if isinstance(r, R):
                    new |= pvars(r.num)
                    for k, (p, e) in r.den.items(): new |= pvars(p)
            if isinstance(g.aux, int): new.add(g.aux)
            for v in new:
                if v not in vs: vs.add(v); st.append(v)

    def query(self, leaf, rels, timeout=None, extra=(), everything=False, quick=1.0):
        """rels: [(R, rel)]; conjunction with the (relevant) path condition and axioms."""
        if not extra and len(rels) + len(leaf.atoms) <= 24 and self.linear(rels + leaf.atoms): return ("unsat", None)
        need = set(); cons = []
        for r, rel in rels: cons.append(self.zrel(r, rel, need))
        atoms = leaf.atoms if everything else self.connected(leaf, need)
        for r, rel in atoms: cons.append(self.zrel(r, rel, need))
        for e in extra: cons.append(e(need) if callable(e) else e)
        cons, vs = self.close(cons, need)
        return smt.check(cons, vs, timeout or self.qt, quick=quick)

    def linear(self, rels):
        """Relaxation: every monomial an independent variable (within its magnitude bounds, non-negative
        when a square); first the constraints themselves, then with their pairwise products.  True = unsat."""
        if not rels: return False
        C = self.cas
        ps = []; size = 0; nz = set()
        for r, rel in rels:
            num = r.num
            if rel not in ("=0", "!=0"):
                for k, (p, e) in r.den.items():
                    if e % 2 and C.polysign(p) not in ({1, 0}, {1}):
                        if len(num) * len(p) > 4000: return False
                        num = pmul(num, p)
            size += len(num)
            if size > 6000: return False
            ps.append((num, rel))
            if rel in ("!=0", ">0", "<0") and not r.den and len(r.num) == 1:
                (m, c), = r.num.items()
                nz |= {v for v, e in m}
        if smt.lincheck(self.monlin(ps, nz)): return True
        if size > 120 or len(ps) > 16: return False
        ps = [(self.strip(p, nz), rel) for p, rel in ps]
        # products of non-negative quantities
        pos = []; vs = set()
        for p, rel in ps:
            if rel in (">0", ">=0"): pos.append((p, rel == ">0"))
            elif rel in ("<0", "<=0"): pos.append((pscale(p, -1), rel == "<0"))
            vs |= pvars(p)
        vs = {v for v in vs if C.nonneg_gen(v)}
        # a root of a sum of squares bounds each of the squared inputs
        for v in sorted(vs):
            g = C.gens[v]
            if g.kind != "sqrt" or g.args[0].den or len(g.args[0].num) > 4: continue
            if not all(c > 0 and all(e % 2 == 0 for x, e in m) for m, c in g.args[0].num.items()): continue
            for m, c in g.args[0].num.items():
                if c == 1 and len(m) == 1 and m[0][1] == 2:
                    x = pvar(m[0][0])
                    pos.append((padd(pvar(v), x, -1), False)); pos.append((padd(pvar(v), x, 1), False))
        if len(vs) + len(pos) > 26: return False
        gens = [(pvar(v), False) for v in sorted(vs)]
        more = []
        al = pos + gens
        old, C.oracle = C.oracle, None
        try:
            for i in range(len(al)):
                for j in range(i, len(al)):
                    if i >= len(pos) and i != j: continue
                    x = C.mul(R(al[i][0]), R(al[j][0]))
                    if x.den: continue
                    more.append((x.num, ">0" if al[i][1] and al[j][1] else ">=0"))
        except NeedDecision:
            return False
        finally: C.oracle = old
        # relations of the square roots that occur
        for v in sorted(vs):
            g = C.gens[v]
            if g.kind == "sqrt" and not g.args[0].den: more.append((padd(pmul(pvar(v), pvar(v)), g.args[0].num, -1), "=0"))
        return smt.lincheck(self.monlin(ps + more, nz))

    def strip(self, p, nz):
        """Divide by positive square roots that are factors: p g = rad q with rad = g^2 > 0 gives sign p = sign q."""
        C = self.cas
        for v in sorted(pvars(p)):
            g = C.gens[v]
            if g.kind != "sqrt" or g.args[0].den or self.magn(v, nz)[0] <= 0: continue
            for _ in range(3):
                x = C.mul(R(p), R(pvar(v)))
                if x.den: break
                q = pdivexact(x.num, g.args[0].num)
                if q is None: break
                p = q
        return p

    def monlin(self, ps, nz):
        M = {}; cons = []
        z = smt.q(0)
        for num, rel in ps:
            ts = []
            for m, c in num.items():
                if not m: ts.append(smt.q(c)); continue
                v = M.get(m)
                if v is None: v = M[m] = z3.Real("m!%d" % len(M))
                ts.append(smt.q(c) * v)
            x = z3.Sum(ts) if ts else smt.q(0)
            cons.append({"<0": x < z, "<=0": x <= z, "=0": x == z, "!=0": x != z, ">0": x > z, ">=0": x >= z}[rel])
        for m, v in M.items():
            if all(self.cas.strict_gen(g) for g, e in m): cons.append(v > 0)
            elif all(e % 2 == 0 or self.cas.nonneg_gen(g) for g, e in m): cons.append(v >= 0)
            lo, hi = self.mrange(m, nz)
            if lo is not None and lo != 0: cons.append(v >= smt.q(lo))
            if hi is not None: cons.append(v <= smt.q(hi))
        # a bounded constant factor ties a monomial to the one without it
        for m, v in list(M.items()):
            if not any(self.cas.gens[g].kind == "const" for g, e in m): continue
            rest = tuple((g, e) for g, e in m if self.cas.gens[g].kind != "const")
            if rest and rest not in M: continue
            if not all(e % 2 == 0 or self.cas.nonneg_gen(g) for g, e in rest): continue
            lo, hi = self.mrange(tuple((g, e) for g, e in m if self.cas.gens[g].kind == "const"), nz)
            x = M[rest] if rest else smt.q(1)
            if lo is not None: cons.append(v >= smt.q(lo) * x)
            if hi is not None: cons.append(v <= smt.q(hi) * x)
        return cons

    def sign(self, leaf, r):
        if not r.num: return {0}
        k = r.key()
        s = leaf.signs.get(k)
        if s is not None: return s
        cas_oracle = self.cas.oracle
        self.cas.oracle = None
        s0 = self.cas.sign(r)
        self.cas.oracle = cas_oracle
        s = set()
        small = len(r.num) <= 400
        for v, rel in ((1, ">0"), (0, "=0"), (-1, "<0")):
            if v not in s0: continue
            if not small:
                s.add(v); continue
            x = self.query(leaf, [(r, rel)], timeout=min(3.0, self.qt), quick=0.6)
            if x[0] != "unsat": s.add(v)
            if x[0] == "unknown": leaf.uncertain = True
        leaf.signs[k] = s
        return s

    # -------------------------------------------------- term values on a leaf
    def val(self, leaf, t):
        m = leaf.memo
        for u in tm.postorder([t]):
            if u.sort != "F" or u.id in m: continue
            if u.op == "ite":
                continue
            ok = all((not isinstance(x, T)) or x.sort != "F" or x.id in m for x in u.args)
            if ok: m[u.id] = self.node(leaf, u)
        if t.id not in m: raise Undecided("case distinction left in " + tm.show(t))
        return m[t.id]

    def node(self, leaf, t):
        C = self.cas
        self.cas.oracle = lambda r: self.sign(leaf, r)
        op = t.op
        m = leaf.memo
        if op == "c":
            v = tm.cval(t)
            if v != v: return NAN
            if math.isinf(v): return PINF if v > 0 else NINF
            return const(Fr(v))
        if op == "ratc": return const(Fr(t.args[0], t.args[1]))
        if op == "in": return C.input(t.args[0])
        if op == "undef":
            return C.input(t.args[0])
        if op in ("bitsd", "sitof", "uitof"): raise Undecided(op)
        if any(x.id not in m for x in t.args): raise Undecided("operand of " + op + ": " + ", ".join(x.op for x in t.args if x.id not in m))
        a = [m[x.id] for x in t.args]
        if any(isinstance(x, str) for x in a):
            return self.special(leaf, op, a)
        if op == "fadd": return C.add(a[0], a[1])
        if op == "fsub": return C.sub(a[0], a[1])
        if op == "fmul": return C.mul(a[0], a[1])
        if op == "fneg": return C.neg(a[0])
        if op == "fdiv": return C.div(a[0], a[1])
        if op == "fabs": return C.absR(a[0])
        if op == "sqrt": return C.sqrt(a[0])
        if op == "sin": return C.cossin(a[0])[1]
        if op == "cos": return C.cossin(a[0])[0]
        if op == "exp": return C.exp(a[0])
        if op == "log": return C.log(a[0])
        if op == "atan2": return C.atan2(a[0], a[1])
        if op == "csqrt_re": return C.csqrt(a[0], a[1])[0]
        if op == "csqrt_im": return C.csqrt(a[0], a[1])[1]
        if op == "to32":
            if C.isconstR(a[0]):
                return const(Fr(tm.to32_c(float(constval(a[0].num)))))
            g = C.gen("delta", (a[0],), aux=(-Fr(1, 2**24), Fr(1, 2**24)))
            return C.mul(a[0], C.add(ONE_R, C.var(g)))
        if op in ("specsinc_re", "specsinc_im"):
            re, im = a
            # sinh(w)/w for w^2 = re + i im, |w^2| <= 1e-8: 1 + w^2/6 + w^4/120 + remainder
            g = C.gen("delta", (a[0], a[1], op), aux=(-Fr(1, 10**26), Fr(1, 10**26)))
            r2 = C.sub(C.mul(re, re), C.mul(im, im)); i2 = C.scale(C.mul(re, im), 2)
            base = C.add(C.add(ONE_R, C.scale(re, Fr(1, 6))), C.scale(r2, Fr(1, 120))) if op.endswith("re") else \
                C.add(C.scale(im, Fr(1, 6)), C.scale(i2, Fr(1, 120)))
            return C.add(base, C.var(g))
        raise Undecided("no real semantics for " + op)

    def special(self, leaf, op, a):
        """Arithmetic with NaN / infinite operands."""
        if any(x == NAN for x in a): return NAN
        C = self.cas
        sg = lambda x: (1 if x == PINF else -1) if isinstance(x, str) else None
        inf = lambda s: PINF if s > 0 else NINF
        if op == "fneg": return inf(-sg(a[0]))
        if op == "fabs": return PINF
        if op in ("fadd", "fsub"):
            x, y = a
            sx, sy = sg(x), sg(y)
            if op == "fsub" and sy: sy = -sy
            if sx and sy: return inf(sx) if sx == sy else NAN
            return inf(sx or sy)
        if op in ("fmul", "fdiv"):
            x, y = a
            if op == "fdiv":
                if isinstance(x, str) and isinstance(y, str): return NAN
                if isinstance(y, str): return ZERO
            ss = []
            for z in a:
                if isinstance(z, str): ss.append(sg(z))
                else:
                    s = self.sign(leaf, z)
                    if len(s) != 1: raise Undecided("infinity times unknown sign")
                    ss.append(next(iter(s)))
            if 0 in ss: return NAN if op == "fmul" else inf(ss[0])
            return inf(ss[0] * ss[1])
        if op == "sqrt": return PINF if a[0] == PINF else NAN
        if op in ("sin", "cos"): return NAN
        if op == "exp": return PINF if a[0] == PINF else ZERO
        if op == "log": return PINF if a[0] == PINF else NAN
        if op == "to32": return a[0]
        raise Undecided("special value in " + op)

    # -------------------------------------------------- atoms
    def atom(self, leaf, t):
        """B atom -> True/False or list of alternatives [(rels for true)] as a DNF over (R, rel)."""
        op = t.op
        if op in ("flt", "fle", "feq"):
            a, b = self.val(leaf, t.args[0]), self.val(leaf, t.args[1])
            if isinstance(a, str) or isinstance(b, str):
                if NAN in (a, b) if isinstance(a, str) and isinstance(b, str) else (a == NAN or b == NAN): return False
                f = lambda x: (math.inf if x == PINF else -math.inf) if isinstance(x, str) else 0.0
                return tm.fcmp_c("o" + op[1:], f(a), f(b))
            d = self.cas.sub(a, b)
            return [[(d, {"flt": "<0", "fle": "<=0", "feq": "=0"}[op])]]
        if op == "fpclass":
            mask = t.args[0]
            x = self.val(leaf, t.args[1])
            if x == NAN: return bool(mask & 3)
            if isinstance(x, R) and (mask & 0x168) == 0x168:
                # an input of the stated domain is zero or normal
                if not x.den and len(x.num) == 1:
                    (m, c), = x.num.items()
                    g = self.cas.gens[m[0][0]] if len(m) == 1 and m[0][1] == 1 else None
                    if g is not None and g.kind == "in" and g.name in self.dom:
                        lo, hi, zero = self.dom[g.name]
                        if abs(c) * lo >= MIND and abs(c) * hi < MAXD: return True
                elif self.cas.isconstR(x): return True
            if isinstance(x, R):
                lo, hi = self.absrange(x, leaf)
                if lo is not None and lo >= MIND and hi is not None and hi < MAXD:
                    if mask & 0x108 == 0x108: return True
                    if not mask & 0x108: return False
                    return [[(x, ">0" if mask & 0x100 else "<0")]]
            if x == PINF: return bool(mask & 0x200)
            if x == NINF: return bool(mask & 4)
            alts = []
            z = bool(mask & 0x60)
            pn, nn, ps, ns = mask & 0x100, mask & 0x8, mask & 0x80, mask & 0x10
            mn = const(MIND)
            S = self.cas.sub; A = self.cas.add
            if z and ps and ns and pn and nn: return True
            if z: alts.append([(x, "=0")])
            if pn: alts.append([(S(x, mn), ">=0")])
            if nn: alts.append([(A(x, mn), "<=0")])
            if ps: alts.append([(x, ">0"), (S(x, mn), "<0")])
            if ns: alts.append([(x, "<0"), (A(x, mn), ">0")])
            if (mask & 0x60) in (0x20, 0x40): raise Undecided("sign of zero observed")
            return alts if alts else False
        if op == "signbit":
            x = self.val(leaf, t.args[0])
            if isinstance(x, str): return x == NINF
            return [[(x, "<0")]]
        raise Undecided("condition " + tm.show(t))

    def formula(self, leaf, t, need, pos=True):
        """z3 formula of a Boolean term without undecided ite inside its operands."""
        op = t.op
        if t is TRUE: return z3.BoolVal(True)
        if t is FALSE: return z3.BoolVal(False)
        if op == "not": return z3.Not(self.formula(leaf, t.args[0], need))
        if op == "and": return z3.And(*[self.formula(leaf, x, need) for x in t.args])
        if op == "or": return z3.Or(*[self.formula(leaf, x, need) for x in t.args])
        if op == "in": return z3.Bool(t.args[0])
        a = self.atom(leaf, t)
        if a is True or a is False: return z3.BoolVal(a)
        return z3.Or(*[z3.And(*[self.zrel(r, rel, need) for r, rel in alt]) for alt in a])

    # -------------------------------------------------- exploration
    def find(self, leaf, roots):
        """First pending decision in evaluation order: (kind, term)."""
        memo = leaf.memo
        for u in tm.postorder(roots):
            if u.id in memo: continue
            if u.sort == "F":
                if u.op == "ite":
                    c = self.first_atom(u.args[0])
                    # all operand terms of the atom evaluated?
                    return ("atom", c)
                fa = [x for x in u.args if isinstance(x, T) and x.sort == "F"]
                if not all(x.id in memo for x in fa): continue
                a = [memo[x.id] for x in fa]
                if not any(isinstance(x, str) for x in a):
                    if u.op == "fdiv":
                        s = self.csign(leaf, a[1])
                        if s == {0}: memo[u.id] = self.divzero(leaf, u, a); continue
                        if 0 in s: return ("zero", u.args[1])
                    elif u.op == "sqrt":
                        s = self.csign(leaf, a[0])
                        if s == {-1}: memo[u.id] = NAN; continue
                        if -1 in s: return ("neg", u.args[0])
                    elif u.op == "log":
                        s = self.csign(leaf, a[0])
                        if s == {-1}: memo[u.id] = NAN; continue
                        if s == {0}: memo[u.id] = NINF; continue
                        if -1 in s: return ("neg", u.args[0])
                        if 0 in s: return ("zero", u.args[0])
                    elif u.op == "atan2":
                        C = self.cas
                        self.cas.oracle = lambda r: self.sign(leaf, r)
                        y, x = a
                        sy = self.csign(leaf, y)
                        if sy == {0}:
                            sx = self.csign(leaf, x)
                            if 0 in sx and len(sx) > 1: return ("zero", u.args[1])
                            if sx == {0}: memo[u.id] = ZERO; continue
                            if len(sx) > 1: return ("neg", u.args[1])
                        elif 0 in sy:
                            return ("zero", u.args[0])
                    elif u.op in ("csqrt_re", "csqrt_im") and not a[1].num:
                        s = self.csign(leaf, a[0])
                        if -1 in s and 1 in s: return ("neg", u.args[0])
                if u.op == "fabs" and not isinstance(a[0], str):
                    pass
                memo[u.id] = self.node(leaf, u)
        return None

    def csign(self, leaf, r):
        return self.sign(leaf, r)

    def divzero(self, leaf, u, a):
        s = self.sign(leaf, a[0])
        if s == {0}: return NAN
        if 0 in s or len(s) > 1:
            # NaN or an infinity of either sign: represented by NaN when used in arithmetic
            return NAN
        return PINF if s == {1} else NINF

    def first_atom(self, c):
        for u in tm.postorder([c]):
            if u.sort == "B" and u.op not in ("and", "or", "not", "c") and not any(
                    x.op == "ite" for x in tm.postorder([u])):
                return u
        raise Undecided("no decidable atom")

    def explore(self, roots, leaf, fn, assume=()):
        """Call fn(leaf, roots) on every feasible leaf."""
        st = [(roots, leaf, list(assume))]
        while st:
            roots, leaf, pend = st.pop()
            if smt.STATS.left() < 0: raise Undecided("time budget")
            if pend:
                a = pend[0]
                if a is TRUE:
                    st.append((roots, leaf, pend[1:])); continue
                if a is FALSE: continue
                if a.op == "and":
                    st.append((roots, leaf, list(a.args) + pend[1:])); continue
            d = self.find(leaf, roots + pend if False else roots) if not pend else None
            if pend:
                a = pend[0]
                sub = [x for x in tm.postorder([a]) if x.sort == "F"]
                d = self.find(leaf, sub)
                if d is None:
                    # add as constraint, splitting disjunctions
                    neg = a.op == "not"
                    at = a.args[0] if neg else a
                    if at.op in ("and", "or"):
                        if neg:
                            parts = [bnot(x) for x in at.args]
                            if at.op == "or":
                                st.append((roots, leaf, parts + pend[1:])); continue
                        else: parts = list(at.args)
                        for x in parts:
                            st.append((roots, leaf.fork(), [x] + pend[1:]))
                        continue
                    for l in self.branch(leaf, at, not neg):
                        mp = {at: B(not neg)}
                        st.append((tm.subst(roots, mp), l, tm.subst(pend[1:], mp) if pend[1:] else []))
                    continue
            if d is None:
                self.leaves += 1
                if self.leaves > self.maxleaves: raise Undecided("too many leaves")
                fn(leaf, roots)
                continue
            kind, t = d
            if kind == "atom":
                for val in (True, False):
                    for l in self.branch(leaf, t, val):
                        mp = {t: B(val)}
                        st.append((tm.subst(roots, mp), l, tm.subst(pend, mp) if pend else []))
            else:
                r = leaf.memo[t.id]
                rels = {"zero": (("=0", {0}), ("!=0", {1, -1})), "neg": (("<0", {-1}), (">=0", {0, 1}))}[kind]
                for rel, ss in rels:
                    l = leaf.fork()
                    l.atoms.append((r, rel))
                    x = self.query(leaf, [(r, rel)], timeout=min(4.0, self.qt))
                    if x[0] == "unsat": continue
                    if x[0] == "unknown": l.uncertain = True
                    l.note.append("%s %s" % (tm.show(t, 2), rel))
                    cur = leaf.signs.get(r.key(), {-1, 0, 1})
                    l.signs = {r.key(): cur & ss}
                    # forget values computed from weaker sign knowledge is unnecessary: they stay valid
                    st.append((roots, l, pend))

    def branch(self, leaf, atom, val):
        """Leaves for atom == val (feasible ones)."""
        self.find(leaf, [x for x in tm.postorder([atom]) if x.sort == "F"])
        a = self.atom(leaf, atom) if atom.op != "in" else None
        if a is None:
            l = leaf.fork(); l.note.append("%s=%s" % (atom.args[0], val)); return [l]
        if a is True or a is False:
            if a == val:
                return [leaf.fork()]
            return []
        neg = {"<0": ">=0", "<=0": ">0", "=0": "!=0", "!=0": "=0", ">0": "<=0", ">=0": "<0"}
        if val:
            alts = a
            if len(alts) > 1:
                nalts = [[]]
                for alt in alts: nalts = [x + [(r, neg[rel])] for x in nalts for r, rel in alt]
                if len(nalts) <= 4 and all(self.query(leaf, x, timeout=min(3.0, self.qt), quick=0.5)[0] == "unsat" for x in nalts):
                    return [leaf.fork()]
        else:
            # negation of a DNF -> DNF
            alts = [[]]
            for alt in a:
                alts = [x + [(r, neg[rel])] for x in alts for r, rel in alt]
        out = []
        for alt in alts:
            # syntactic / constant simplification
            keep = []; dead = False
            for r, rel in alt:
                s = self.quick(leaf, r)
                tv = {"<0": {-1}, "<=0": {-1, 0}, "=0": {0}, "!=0": {-1, 1}, ">0": {1}, ">=0": {0, 1}}[rel]
                if not (s & tv): dead = True; break
                if not s <= tv: keep.append((r, rel))
            if dead: continue
            if keep:
                x = self.query(leaf, keep, timeout=min(4.0, self.qt))
                if x[0] == "unsat": continue
            l = leaf.fork()
            if keep and x[0] == "unknown": l.uncertain = True
            l.atoms += keep
            if keep: l.signs = {}
            l.note.append(("" if val else "not ") + tm.show(atom, 3))
            out.append(l)
        return out

    def quick(self, leaf, r):
        if not r.num: return {0}
        k = leaf.signs.get(r.key())
        if k is not None: return k
        o = self.cas.oracle; self.cas.oracle = None
        s = self.cas.sign(r)
        self.cas.oracle = o
        if len(s) > 1 and len(r.num) <= 40:
            # by magnitude bounds
            nz = set()
            for q, rel in leaf.atoms:
                if rel in ("!=0", ">0", "<0") and len(q.num) == 1:
                    (m, c), = q.num.items()
                    nz |= {v for v, e in m}
            lo, hi = self.rrange(r, nz)
            if lo is not None and lo >= 0: s = s - ({-1, 0} if lo > 0 else {-1})
            if hi is not None and hi <= 0: s = s - ({1, 0} if hi < 0 else {1})
            if 0 in s and len(r.num) == 1 and self.absrange(r, leaf)[0] > 0: s = s - {0}
        return s

    def narrow(self, ts):
        """Decide conditions on single inputs that the domain settles (class, limits of the format)."""
        m = {}
        def rng(x):
            """(lo, hi, zero) of |x| for an input, its negative or its absolute value, and whether x >= 0"""
            ab = False
            while x.op in ("fneg", "fabs"): ab = ab or x.op == "fabs"; x = x.args[0]
            root = x.op == "sqrt"
            if root: x = x.args[0]
            if x.op != "in" or x.args[0] not in self.dom: return None
            lo, hi, zero = self.dom[x.args[0]]
            if root:
                # any rounding of the square root stays within these
                lo, hi = Fr(math.sqrt(lo)) * Fr(99, 100), Fr(math.sqrt(hi)) * Fr(101, 100)
            return (lo, hi, zero, ab)
        for u in tm.postorder(ts):
            if u.sort != "B": continue
            if u.op == "fpclass":
                r = rng(u.args[1])
                if r is None or r[3]: continue
                mask = u.args[0]
                if r[1] >= MAXD or 0 < r[0] < MIND or (r[0] == 0 and r[1] > 0): continue
                if mask & 0x168 == 0x168: m[u] = TRUE
                elif not mask & 0x168: m[u] = FALSE
            elif u.op in ("flt", "fle", "feq"):
                x, y = u.args
                for a, b, left in ((x, y, True), (y, x, False)):
                    if not tm.isc(b) or a.op == "c": continue
                    r = rng(a)
                    if r is None or r[1] >= MAXD: continue
                    k = tm.cval(b)
                    if k != k: m[u] = FALSE; continue
                    if math.isinf(k) or Fr(k) > r[1] or Fr(k) < -r[1]:
                        # every value lies strictly on one side of k
                        less = k > 0
                        m[u] = FALSE if u.op == "feq" else B(less if left else not less)
                        continue
                    if k != 0 and abs(Fr(k)) < r[0]:
                        # between zero and the smallest value: k acts as zero
                        if u.op == "feq": m[u] = FALSE
                        else: m[u] = tm.fcmp("ole" if (k > 0) == left else "olt", *((a, F(0.0)) if left else (F(0.0), a)))
                    if k == 0 or m.get(u) is not None:
                        # |x| against zero
                        if a.op in ("fabs", "sqrt") and (k == 0 or abs(Fr(k)) < r[0]):
                            z = tm.fcmp("oeq", a.args[0], F(0.0)) if r[2] else FALSE
                            w = m.get(u, u)
                            if w.op == "feq": m[u] = z
                            elif w.op in ("flt", "fle"):
                                m[u] = {("flt", True): FALSE, ("fle", True): z, ("flt", False): bnot(z), ("fle", False): TRUE}[w.op, left]
        return tm.subst(ts, m) if m else ts

    # -------------------------------------------------- claims
    def prove(self, claims, assume=(), label="", nice=None):
        claims = [Claim(c.name, c.kind, self.narrow(c.terms), c.tol, c.scale) for c in claims]
        assume = self.narrow(list(assume))
        self.label = label
        self.asm = band(*assume) if assume else TRUE
        self.lits |= {abs(tm.cval(t)) for t in tm.postorder([x for c in claims for x in c.terms]) if t.sort == "F" and t.op == "c"}
        if STRESS: self.hunt("stress", 400, 20.0)
        claims = self.fast(claims, assume)
        if not [c for c in claims if c.kind != "split"]: return True
        if self.judge is not None and self.prehunted < 1.5 and not self.violations:
            # what the shared encoding leaves open may be broken in plain sight
            h0, t0 = self.hunted, time.time()
            found = self.hunt(label, 250, 0.4) or self.boundary([x for c in claims for x in c.terms], label)
            self.hunted = h0; self.prehunted += time.time() - t0
            if found: return False
        roots = []
        for c in claims: roots += c.terms
        roots = lower(roots)
        assume = lower(list(assume)) if assume else []
        n0 = len(self.violations)
        def fn(leaf, rs):
            i = 0
            w = None
            for c in claims:
                ts = rs[i:i + len(c.terms)]; i += len(c.terms)
                if len(self.violations) > n0: return
                self.claim(leaf, c, ts)
            if self.judge is not None and len(self.violations) == n0:
                self.witness(leaf)
        try:
            self.explore(roots, Leaf(), fn, assume)
        except (Undecided, TooBig, NeedDecision, NotImplementedError) as e:
            self.open(label, "", "%s: %s" % (type(e).__name__, e))
            self.leaffallback = True
        return len(self.violations) == n0

    def fast(self, claims, assume):
        """Shared-DAG encoding first: claims it settles need no case analysis."""
        from . import dag
        dom = {k: v for k, v in self.dom.items()}
        rest = []
        asm = band(*lower(list(assume))) if assume else TRUE
        for c in claims:
            if c.kind not in ("holds", "eq"): rest.append(c); continue
            ts = lower(c.terms)
            if c.kind == "eq" and asm is TRUE and dag.polyonly(ts[:2]) and dag.polycheck(ts[0], ts[1]) == "unsat":
                self.ok(self.label + ":" + c.name); self.fastn += 1; continue
            if c.kind == "holds": bad = bnot(ts[0])
            elif len(ts) > 2:
                k = fop("fmul", tm.mk("ratc", (c.tol.numerator, c.tol.denominator), "F"), ts[2])
                d = fop("fsub", ts[0], ts[1])
                bad = bor(tm.fcmp("ogt", d, k), tm.fcmp("olt", d, fop("fneg", k)))
            else: bad = bor(tm.fcmp("olt", ts[0], ts[1]), tm.fcmp("olt", ts[1], ts[0]))
            bad = band(asm, bad)
            if bad is FALSE: self.ok(self.label + ":" + c.name); continue
            if self.mentions_special(bad): rest.append(c); continue
            if self.relax:
                r = dag.check(bad, dom, timeout=self.fastt, relax=True)
                if r[0] == "unsat": self.ok(self.label + ":" + c.name); self.fastn += 1; continue
            r = dag.check(bad, dom, timeout=self.fastt)
            if r[0] == "unsat": self.ok(self.label + ":" + c.name); self.fastn += 1; continue
            cands = [r]
            for k in range(self.fixes if r[0] != "unsat" else 0):
                cands.append(dag.check(bad, dom, timeout=1.0, extra=[lambda d, k=k: _fix(d, self.rng, k)]))
            for r in cands:
                if r[0] == "sat" and self.judge is not None:
                    ins = self.model(r[1])
                    if ins is not None:
                        j = self.judge(ins)
                        if j is not None and j[0]:
                            self.violations.append((self.label, c.name, ins, j[1])); return []
            if self.nofall:
                self.open(self.label, c.name, "shared-DAG query %s" % "/".join(x[0] for x in cands))
                if self.violations: return []
                continue
            rest.append(c)
        if len([c for c in rest if c.kind != "split"]) == 0 and self.judge is not None:
            # an ordinary point of the assumed region, run natively
            for ex in ([ _nice ], []):
                r = dag.check(asm, dom, timeout=2.0, extra=ex)
                if r[0] == "sat":
                    ins = self.model(r[1])
                    if ins is not None:
                        self.witnesses.append((self.label, ins))
                        if self.validate is not None: self.validate(ins)
                        j = self.judge(ins)
                        if j is not None and j[0]: self.violations.append((self.label, "witness", ins, j[1]))
                    break
        return rest

    def mentions_special(self, t):
        """Does the term mention NaN or infinity (not representable in the shared-DAG encoding)?"""
        for u in tm.postorder([t]):
            if u.op == "c" and u.sort == "F" and not math.isfinite(tm.cval(u)): return True
        return False

    def witness(self, leaf):
        x = self.query(leaf, [], timeout=2.0, everything=True, extra=[self.nicebox], quick=0.5)
        if x[0] != "sat":
            x = self.query(leaf, [], timeout=2.0, everything=True, quick=0.5)
        if x[0] == "sat":
            ins = self.model(x[1])
            if ins is not None:
                self.witnesses.append((self.label, ins))
                if self.validate is not None: self.validate(ins)
                j = self.judge(ins)
                if j is not None and j[0]:
                    self.violations.append((self.label, "witness", ins, j[1]))

    def model(self, m):
        out = {}
        for n in self.dom:
            v = m.get(n)
            if v is None:
                lo, hi, zero = self.dom[n]
                v = Fr(0) if zero else max(lo, min(hi, Fr(1)))
            try: out[n] = float(v)
            except OverflowError: return None
        return out

    def nicebox(self, need):
        cs = []
        for i in sorted(need):
            g = self.cas.gens[i]
            if g.kind == "in" and g.name in self.dom:
                lo, hi, zero = self.dom[g.name]
                v = self.zvar(g)
                l, h = max(lo, Fr(1, 64)), min(hi, Fr(64))
                if l < h:
                    cs.append(z3.Or(z3.And(v >= smt.q(l), v <= smt.q(h)), z3.And(v <= smt.q(-l), v >= smt.q(-h)), *([v == 0] if zero else [])))
        return z3.And(*cs) if cs else z3.BoolVal(True)

    def nicefix(self, need):
        """Random values for about half of the inputs (solver completes the rest)."""
        cs = [self.nicebox(need)]
        for i in sorted(need):
            g = self.cas.gens[i]
            if g.kind == "in" and g.name in self.dom and self.rng.random() < 0.6:
                lo, hi, zero = self.dom[g.name]
                c = Fr(self.rng.choice([-1, 1]) * self.rng.randint(1, 4096), 2 ** self.rng.randint(6, 12))
                if lo <= abs(c) <= hi: cs.append(self.zvar(g) == smt.q(c))
        return z3.And(*cs)

    def claim(self, leaf, c, ts):
        if c.kind == "split": return
        C = self.cas
        name = self.label + ":" + c.name
        C.oracle = lambda r: self.sign(leaf, r)
        if c.kind == "eq":
            a, b = self.val(leaf, ts[0]), self.val(leaf, ts[1])
            if isinstance(a, str) or isinstance(b, str):
                if a == b: self.ok(name); return
                self.refute(leaf, name, [lambda need: z3.BoolVal(True)], "special value %s vs %s" % (_sv(a), _sv(b)))
                return
            d = C.sub(a, b)
            if not d.num:
                self.ok(name); return
            if len(ts) > 2:
                s = self.val(leaf, ts[2])
            else:
                s = None
            if isinstance(s, str): raise Undecided("special scale")
            def bad(need):
                # |d| > tol * scale
                t = c.tol
                if s is None:
                    sc = C.scale(ONE_R, 0)
                    up = self.zrel(d, "!=0", need)
                    return up
                hi = C.sub(d, C.scale(s, t)); lo = C.add(d, C.scale(s, t))
                return z3.Or(self.zrel(hi, ">0", need), self.zrel(lo, "<0", need))
            if s is not None and len(d.num) + len(s.num) < 200:
                x, y = C.sub(d, C.scale(s, c.tol)), C.add(d, C.scale(s, c.tol))
                if self.linear([(x, ">0")] + leaf.atoms) and self.linear([(y, "<0")] + leaf.atoms):
                    self.ok(name); return
                # the same after multiplying with a positive root
                for v in sorted(pvars(d.num)):
                    if C.gens[v].kind != "sqrt" or self.magn(v)[0] <= 0 or not self.hasconst(d.num): continue
                    u, w = C.mul(x, R(pvar(v))), C.mul(y, R(pvar(v)))
                    if self.linear([(u, ">0")] + leaf.atoms) and self.linear([(w, "<0")] + leaf.atoms):
                        self.ok(name); return
            self.refute(leaf, name, [bad], "values differ")
            return
        if c.kind == "holds":
            t = ts[0]
            if t is TRUE or self.entails(leaf, t): self.ok(name); return
            self.refute(leaf, name, [lambda need: z3.Not(self.formula(leaf, t, need))], "condition fails")
            return
        if c.kind == "nan":
            a = self.val(leaf, ts[0])
            if a == NAN: self.ok(name); return
            self.refute(leaf, name, [lambda need: z3.BoolVal(True)], "not NaN: %s" % _sv(a))
            return
        if c.kind == "invalid":
            vs = [self.val(leaf, t) for t in ts]
            if any(isinstance(v, str) for v in vs): self.ok(name); return
            self.refute(leaf, name, [lambda need: z3.BoolVal(True)], "valid result")
            return
        raise Undecided(c.kind)

    def hasconst(self, p):
        return any(self.cas.gens[v].kind == "const" for v in pvars(p))

    def entails(self, leaf, t):
        """The path condition implies t, shown by linear relaxation only (incomplete)."""
        if t is TRUE: return True
        if t is FALSE: return False
        if t.op == "and": return all(self.entails(leaf, x) for x in t.args)
        if t.op == "or": return any(self.entails(leaf, x) for x in t.args)
        neg = t.op == "not"
        if neg: t = t.args[0]
        if t.op in ("and", "or", "in") or t.op == "not": return False
        a = self.atom(leaf, t)
        if a is True or a is False: return a is not neg
        if neg: return all(self.linear(alt + leaf.atoms) for alt in a)
        opp = {"<0": ">=0", "<=0": ">0", ">0": "<=0", ">=0": "<0", "!=0": "=0"}
        if len(a) != 1: return False
        for r, rel in a[0]:
            if rel == "=0":
                if not r.num: continue
                if not (self.linear([(r, "<0")] + leaf.atoms) and self.linear([(r, ">0")] + leaf.atoms)): return False
            elif not self.linear([(r, opp[rel])] + leaf.atoms): return False
        return True

    def ok(self, name):
        self.proved.append(name)

    def refute(self, leaf, name, bad, why):
        """Search a model of path & bad; unsat proves the claim; models are replayed."""
        tried = 0
        # generic query first
        x = self.query(leaf, [], timeout=self.qt, extra=bad, everything=False)
        if x[0] == "unsat":
            self.ok(name); return
        first = x
        cands = []
        for k in range(8):
            ex = [self.nicebox] if k == 0 else [self.nicefix]
            y = self.query(leaf, [], timeout=min(3.0, self.qt), extra=bad + ex, everything=True)
            if y[0] == "sat": cands.append(y[1])
            if k == 0 and y[0] == "unsat": break
            if len(cands) >= 4: break
        if first[0] == "sat":
            y = self.query(leaf, [], timeout=self.qt if cands else 2.5 * self.qt, extra=bad, everything=True)
            if y[0] == "sat": cands.append(y[1])
            elif y[0] == "unsat":
                self.ok(name); return
        for m in cands:
            ins = self.model(m)
            if ins is None or self.judge is None: continue
            tried += 1
            j = self.judge(ins)
            if j is not None and j[0]:
                self.violations.append((self.label, name, ins, j[1]))
                return
        self.open(self.label, name, "%s; solver %s, %d candidate(s) not reproduced; path %s" % (why, first[0], tried, "; ".join(leaf.note)[:300]))

    def open(self, label, name, why):
        """An obligation the solver does not settle: look for a concrete counterexample over
        unequal scales (rounding is not part of the real encoding); otherwise it stays undecided."""
        full = name if name.startswith(label) else label + ":" + name
        if not self.hunt(full): self.undecided.append((full, why))

    def boundary(self, terms, name, seconds=0.8):
        """counterexamples where the comparisons of the code change their outcome"""
        if self.judge is None or not self.dom or self.bounded > 2.0: return False
        from . import bound
        t0 = time.time()
        r = bound.search(terms, self.dom, self.judge, seconds, len(self.dom), self.asm, self.seenatoms)
        self.bounded += time.time() - t0
        if r is None: return False
        self.violations.append((self.label, name, r[0], r[1]))
        return True

    def hunt(self, name, n=600, seconds=2.5):
        if self.judge is None or not self.dom or self.hunted > 8.0 * max(1.0, seconds / 2.5): return False
        t0 = time.time()
        rng = random.Random(len(self.dom) * 7919 + n)
        names = [k for k in self.dom]
        lits = sorted(x for x in self.lits if 1e-200 < x < 1e200)
        from . import bound
        try: asm = bound.compile_terms([self.asm])
        except bound.Bail: return False
        try:
            for k in range(n):
                if time.time() - t0 > seconds: break
                ins = spread(rng, names, self.dom, k)
                if lits and rng.random() < 0.4: at_literal(rng, ins, self.dom, rng.choice(lits))
                if self.asm is not TRUE:
                    try:
                        if not asm({x: ins[x] for x in names})[0]: continue
                    except Exception: continue
                j = self.judge(ins)
                if j is not None and j[0]:
                    self.violations.append((self.label, name, ins, j[1]))
                    return True
        finally:
            self.hunted += time.time() - t0
        return False

DECADES = [0, 0, 1, 2, 3, 4, 6, 8, 9, 12, 16, 18, 20, 25, 30, 40, 60, 75, 90, 100, 120, 140, 150, 200, 250, 300]
def spread(rng, names, dom, k):
    """Inputs of unequal scale: zeros, two or three orders of magnitude, equal and opposite values."""
    base = 0 if rng.random() < 0.5 else rng.choice((-1, 1)) * rng.choice(DECADES)
    scales = [base] + [base - rng.choice((1, 1, 1, -1)) * rng.choice(DECADES) for _ in range(rng.randint(0, 2))]
    pz = rng.choice((0.0, 0.2, 0.5, 0.75))
    out = {}; done = []
    for x in names:
        lo, hi, zero = dom[x]
        flo, fhi = float(lo), float(hi)
        if zero and rng.random() < pz: v = 0.0
        elif done and rng.random() < 0.15: v = rng.choice((-1, 1)) * out[rng.choice(done)]
        else:
            v = rng.choice((-1, 1)) * rng.choice((1.0, rng.randint(1, 9), rng.uniform(1, 10)))
            try: v = v * 10.0 ** rng.choice(scales)
            except OverflowError: v = fhi
        if v == 0.0 and not zero: v = max(flo, min(fhi, 1.0))
        if v != 0.0 and abs(v) < flo: v = math.copysign(flo if flo > 0 else v, v)
        if abs(v) > fhi: v = math.copysign(fhi, v)
        out[x] = v; done.append(x)
    return out

def at_literal(rng, ins, dom, x):
    """Rescale so that the size of the inputs (or one of them, or a square) lies at a number occurring in the code."""
    x = rng.choice((x, x, math.sqrt(x), 1 / x)) * rng.choice((1.0, 1 + 1e-9, 1 - 1e-9, 0.9, 1.1, rng.uniform(0.5, 2.0), 3.0))
    names = [k for k in ins if ins[k] != 0.0]
    if not names: return
    if rng.random() < 0.4: f = {rng.choice(names): 1.0}
    else:
        m = rng.choice((max(abs(ins[k]) for k in names), math.hypot(*[ins[k] for k in names])))
        if not 0 < m < 1e300: return
        f = {k: abs(ins[k]) / m for k in names}
    for k, r in f.items():
        lo, hi, _ = dom[k]
        ins[k] = math.copysign(min(max(x * r, float(lo)), float(hi)), ins[k])

def _fix(d, rng, k):
    """Ordinary values, with most of the inputs fixed at random rationals."""
    cs = [_nice(d)]
    for kind, a, v in d.vars:
        if kind == "in" and a[0] in d.dom and rng.random() < 0.75:
            lo, hi, zero = d.dom[a[0]]
            c = Fr(rng.choice([-1, 1]) * rng.randint(1, 1 << 12), 1 << rng.randint(0, 12))
            if zero and rng.random() < 0.15: c = Fr(0)
            if c == 0 or lo <= abs(c) <= hi: cs.append(v == smt.q(c))
    return z3.And(*cs)

def _nice(d):
    cs = []
    for k, a, v in d.vars:
        if k == "in":
            dm = d.dom.get(a[0])
            if dm is None: continue
            l, h = max(dm[0], Fr(1, 64)), min(dm[1], Fr(64))
            if l < h: cs.append(z3.Or(z3.And(v >= smt.q(l), v <= smt.q(h)), z3.And(v <= smt.q(-l), v >= smt.q(-h)), *([v == 0] if dm[2] else [])))
    return z3.And(*cs) if cs else z3.BoolVal(True)

def _sv(x):
    return x if isinstance(x, str) else "real"


