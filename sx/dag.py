"""Real-arithmetic encoding that keeps the sharing of the term DAG: every non-linear
operation gets one variable (keyed by its operands' linear forms), everything linear
stays a linear form.  Unsat of the encoding implies the claim for the real semantics."""
import math, time
from fractions import Fraction as Fr
import z3
from . import term as tm, smt
from .term import T

class NoEnc(Exception): pass

class Lin:
    __slots__ = ("c", "k")
    def __init__(self, c, k=Fr(0)): self.c = c; self.k = k     # {var id: coef}
    def key(self): return (tuple(sorted(self.c.items())), self.k)

def ladd(a, b, s=1):
    c = dict(a.c)
    for v, x in b.c.items():
        y = c.get(v, 0) + s * x
        if y: c[v] = y
        else: c.pop(v, None)
    return Lin(c, a.k + s * b.k)
def lscale(a, s):
    if s == 0: return Lin({})
    return Lin({v: x * s for v, x in a.c.items()}, a.k * s)

class Dag:
    def __init__(self, domain, relax=False):
        self.dom = domain
        self.relax = relax      # leave squares of input forms undefined (only their sign facts)
        self.sqs = []; self.muls = {}
        self.vars = []          # (kind, args(Lin...), z3 var)
        self.bykey = {}
        self.memo = {}
        self.cons = []
        self.bmemo = {}
        self.bools = {}
        self.sgn = {}           # var -> facts: ">0", ">=0"
    def var(self, kind, args, name=None):
        k = (kind,) + tuple(a.key() if isinstance(a, Lin) else a for a in args)
        i = self.bykey.get(k)
        if i is None:
            i = len(self.vars)
            self.bykey[k] = i
            v = z3.Real(name or "%s!%d" % (kind, i))
            self.vars.append((kind, args, v))
            self.define(i, kind, args, v)
        return Lin({i: Fr(1)})
    def z(self, l):
        ts = [self.vars[i][2] if c == 1 else smt.q(c) * self.vars[i][2] for i, c in sorted(l.c.items())]
        if l.k or not ts: ts.append(smt.q(l.k))
        return ts[0] if len(ts) == 1 else z3.Sum(ts)
    def named(self, l):
        """A single variable equal to the linear form (so that products stay binary)."""
        if len(l.c) == 1 and not l.k and next(iter(l.c.values())) == 1: return l
        if not l.c: return l
        # normalise leading coefficient
        if self.relax: return self.var("lin", (l,))
        i0 = min(l.c); s = l.c[i0]
        n = lscale(l, 1 / s)
        if len(n.c) == 1 and not n.k: return lscale(n, s) if False else l
        return lscale(self.var("lin", (n,)), s)
    def define(self, i, kind, a, v):
        C = self.cons.append
        z = self.z
        if kind == "in":
            d = self.dom.get(a[0])
            if d:
                lo, hi, zero = d
                alt = [z3.And(v >= smt.q(lo), v <= smt.q(hi)), z3.And(v <= smt.q(-lo), v >= smt.q(-hi))]
                if zero: alt.append(v == 0)
                C(z3.Or(*alt) if lo else z3.And(v >= smt.q(-hi), v <= smt.q(hi)))
        elif kind == "lin":
            C(v == z(a[0]))
            ns = all((c > 0 and self.nonneg(j)) for j, c in a[0].c.items()) and a[0].k >= 0
            if ns: self.sgn[i] = ">=0"; C(v >= 0)
        elif kind == "mul":
            x, y = z(a[0]), z(a[1])
            sq = a[0].key() == a[1].key()
            if self.relax:
                if sq:
                    m = self.minabs(a[0])
                    if m: C(z3.Or(v == 0, v >= smt.q(m)))
                    self.monosq(x, v)
                else:
                    self.monomul(a[0], y, v); self.monomul(a[1], x, v)
            else: C(v == x * y)
            if sq:
                self.sgn[i] = ">=0"
                C(v >= 0); C((v == 0) == (x == 0))
            else:
                C((v == 0) == z3.Or(x == 0, y == 0))
                C((v > 0) == z3.Or(z3.And(x > 0, y > 0), z3.And(x < 0, y < 0)))
                if self.lnonneg(a[0]) and self.lnonneg(a[1]): self.sgn[i] = ">=0"
        elif kind == "div":
            x, y = z(a[0]), z(a[1])
            if self.relax: self.monomul(a[1], v, x, y != 0)
            C(z3.Implies(y != 0, z3.And(v * y == x if not self.relax else True, (v == 0) == (x == 0), (v > 0) == z3.Or(z3.And(x > 0, y > 0), z3.And(x < 0, y < 0)))))
        elif kind == "sqrt":
            x = z(a[0])
            self.sgn[i] = ">=0"
            if self.relax: self.monosq(v, x, x >= 0)
            C(z3.Implies(x >= 0, z3.And(v >= 0, v * v == x if not self.relax else True, (v == 0) == (x == 0))))
        elif kind in ("sin", "cos"):
            C(z3.And(v <= 1, v >= -1))
        elif kind == "exp":
            C(v > 0); self.sgn[i] = ">=0"
        elif kind == "abs":
            x = z(a[0]); C(v == z3.If(x >= 0, x, -x)); self.sgn[i] = ">=0"
        elif kind == "r32":
            x = z(a[0])
            e = smt.q(Fr(1, 2**24))
            C(z3.If(x >= 0, z3.And(v >= x - e * x, v <= x + e * x), z3.And(v <= x - e * x, v >= x + e * x)))
        elif kind == "atan2":
            pass
    def monosq(self, x, v, guard=None):
        """Instances of: 0 <= x, y implies (x < y) == (x*x < y*y)."""
        for y, w, g in self.sqs:
            c = [x >= 0, y >= 0] + [h for h in (g, guard) if h is not None]
            self.cons.append(z3.Implies(z3.And(*c), z3.And((x < y) == (v < w), (x == y) == (v == w))))
        self.sqs.append((x, v, guard))
    def monomul(self, f, y, v, guard=None):
        """Instances of: f > 0 implies (y < z) == (f*y < f*z)."""
        k = f.key(); zf = self.z(f)
        for z, w, g in self.muls.setdefault(k, []):
            c = [zf > 0] + [h for h in (g, guard) if h is not None]
            self.cons.append(z3.Implies(z3.And(*c), z3.And((y < z) == (v < w), (y == z) == (v == w))))
        self.muls[k].append((y, v, guard))
    def constcmp(self, i, k):
        """Consequences of comparing variable i with the constant k."""
        kind, a, v = self.vars[i]
        if kind == "sqrt" and k > 0:
            x = self.z(a[0])
            self.cons.append(z3.Implies(x >= 0, z3.And((v < smt.q(k)) == (x < smt.q(k * k)), (v == smt.q(k)) == (x == smt.q(k * k)))))
            if len(a[0].c) == 1 and not a[0].k:
                (j, c), = a[0].c.items()
                self.constcmp(j, k * k / c)
        elif kind == "div":
            x, y = self.z(a[0]), self.z(a[1])
            self.cons.append(z3.Implies(y > 0, z3.And((v < smt.q(k)) == (x < smt.q(k) * y), (v == smt.q(k)) == (x == smt.q(k) * y))))
    def inputs_only(self, l):
        for i in l.c:
            kind, a, v = self.vars[i]
            if kind == "in": continue
            if kind == "lin" and self.inputs_only(a[0]): continue
            return False
        return True
    def minabs(self, l):
        """Lower bound of the square of a non-zero single input (power of two)."""
        if len(l.c) != 1 or l.k: return None
        (i, c), = l.c.items()
        kind, a, v = self.vars[i]
        if kind != "in" or a[0] not in self.dom: return None
        lo = self.dom[a[0]][0]
        if not lo: return None
        q = c * c * lo * lo
        e = 0
        while Fr(2) ** e > q: e -= 1
        return Fr(2) ** e
    def nonneg(self, i): return i in self.sgn
    def lnonneg(self, l): return l.k >= 0 and all(c > 0 and self.nonneg(j) for j, c in l.c.items())
    def lin(self, root):
        for t in tm.postorder([root]):
            if t.id in self.memo or t.sort != "F": continue
            self.memo[t.id] = self.node(t)
        return self.memo[root.id]
    def node(self, t):
        op = t.op
        if op == "c":
            x = tm.cval(t)
            if x != x or math.isinf(x): return self.var("special", (repr(x),))
            return Lin({}, Fr(x))
        if op == "ratc": return Lin({}, Fr(t.args[0], t.args[1]))
        if op in ("in", "undef"): return self.var("in", (str(t.args[0]),), name=str(t.args[0]))
        if op == "ite":
            c = self.b(t.args[0])
            a, b = self.memo[t.args[1].id], self.memo[t.args[2].id]
            if a.key() == b.key(): return a
            v = self.var("ite", (t.args[0].id, a, b))
            zv = self.vars[next(iter(v.c))][2]
            self.cons.append(z3.If(c, zv == self.z(a), zv == self.z(b)))
            if self.lnonneg(a) and self.lnonneg(b): self.sgn[next(iter(v.c))] = ">=0"
            return v
        a = [self.memo[x.id] for x in t.args]
        if op == "fadd": return ladd(a[0], a[1])
        if op == "fsub": return ladd(a[0], a[1], -1)
        if op == "fneg": return lscale(a[0], -1)
        if op == "fmul":
            x, y = a
            if not x.c: return lscale(y, x.k)
            if not y.c: return lscale(x, y.k)
            x, y = self.split(x), self.split(y)
            s = x[0] * y[0]
            x, y = sorted((x[1], y[1]), key=lambda l: l.key())
            return lscale(self.var("mul", (x, y)), s)
        if op == "fdiv":
            x, y = a
            if not y.c:
                if y.k == 0: return self.var("div0", (x,))
                return lscale(x, 1 / y.k)
            s, y = self.split(y)
            if not x.c:
                return lscale(self.var("div", (Lin({}, Fr(1)), y)), x.k / s)
            s2, x = self.split(x)
            return lscale(self.var("div", (x, y)), s2 / s)
        if op == "sqrt":
            if not a[0].c:
                from .poly import isqrt_fr
                r = isqrt_fr(a[0].k) if a[0].k >= 0 else None
                if r is not None: return Lin({}, Fr(r))
            return self.var("sqrt", (self.named(a[0]),))
        if op == "fabs":
            if self.lnonneg(a[0]): return a[0]
            return self.var("abs", (a[0],))
        if op == "to32":
            return self.var("r32", (a[0],))
        return self.var(op if op in ("sin", "cos", "exp", "log", "atan2") else "uf_" + op, tuple(a))
    def split(self, l):
        """(scale, single variable)"""
        n = self.named(l)
        if len(n.c) == 1 and not n.k:
            (i, c), = n.c.items()
            return c, Lin({i: Fr(1)})
        return Fr(1), n
    def b(self, root):
        for t in tm.postorder([root]):
            if t.sort != "B" or t.id in self.bmemo: continue
            self.bmemo[t.id] = self.bnode(t)
        return self.bmemo[root.id]
    def bnode(self, t):
        op = t.op
        if op == "c": return z3.BoolVal(tm.cval(t))
        if op in ("in", "undef"):
            n = str(t.args[0]); self.bools[n] = z3.Bool(n); return self.bools[n]
        if op == "not": return z3.Not(self.bmemo[t.args[0].id])
        if op == "and": return z3.And(*[self.bmemo[x.id] for x in t.args])
        if op == "or": return z3.Or(*[self.bmemo[x.id] for x in t.args])
        if op in ("flt", "fle", "feq"):
            l = ladd(self.lin(t.args[0]), self.lin(t.args[1]), -1)
            if self.relax and len(l.c) == 1 and l.k:
                (i, c), = l.c.items()
                k = -l.k / c
                self.constcmp(i, k)
            d = self.z(l)
            return d < 0 if op == "flt" else d <= 0 if op == "fle" else d == 0
        if op == "fpclass":
            m, x = t.args
            lx = self.lin(x)
            x = self.z(lx)
            out = []
            mn = smt.q(Fr(1, 2**1022))
            if m & 0x60: out.append(x == 0)
            if m & 0x168 == 0x168 and m & 0x90 == 0:
                if len(lx.c) == 1 and not lx.k:
                    kind, a, v = self.vars[next(iter(lx.c))]
                    if kind == "in" and a[0] in self.dom and self.dom[a[0]][0] >= Fr(1, 2**1022): return z3.BoolVal(True)
            if m & 0x100: out.append(x >= mn)
            if m & 0x8: out.append(x <= -mn)
            if m & 0x80: out.append(z3.And(x > 0, x < mn))
            if m & 0x10: out.append(z3.And(x < 0, x > -mn))
            return z3.Or(*out) if out else z3.BoolVal(False)
        if op == "signbit": return self.z(self.lin(t.args[0])) < 0
        raise NoEnc(op)

def bands(zv, names): return [zv[n] for n in names if n in zv]

def check(bad, domain, timeout=5.0, extra=(), relax=False):
    """Satisfiability of the Boolean term bad over the domain -> (verdict, {input: Fraction})."""
    d = Dag(domain, relax)
    try:
        g = d.b(bad)
    except NoEnc:
        return ("unknown", None)
    vs = [v for k, a, v in d.vars if k == "in"]
    ex = [f(d) for f in extra]
    r = smt.check([g] + d.cons + ex, vs, timeout, quick=min(1.5, timeout))
    return r

POLY = {"in", "undef", "c", "ratc", "fadd", "fsub", "fmul", "fneg"}

def polyonly(ts):
    return all(t.op in POLY and t.sort == "F" and (t.op != "c" or math.isfinite(tm.cval(t))) for t in tm.postorder(ts))

def polycheck(a, b, timeout=5.0):
    """Polynomial terms: is a != b satisfiable over the reals?  z3 expands to sums of monomials."""
    memo = {}
    for t in tm.postorder([a, b]):
        x = [memo[y.id] for y in t.args if isinstance(y, T)]
        op = t.op
        if op == "c": v = smt.q(Fr(tm.cval(t)))
        elif op == "ratc": v = smt.q(Fr(t.args[0], t.args[1]))
        elif op in ("in", "undef"): v = z3.Real(str(t.args[0]))
        elif op == "fadd": v = x[0] + x[1]
        elif op == "fsub": v = x[0] - x[1]
        elif op == "fmul": v = x[0] * x[1]
        else: v = -x[0]
        memo[t.id] = v
    e = z3.simplify(memo[a.id] - memo[b.id], som=True, mul_to_power=True)
    return smt.check([e != 0], [], timeout, quick=1.0)[0]
