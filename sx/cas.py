"""Exact real semantics of straight-line terms: rational functions over generators.

Generators are the symbolic inputs and one symbol per irrational operation (square
root, sine/cosine pair, exponential, logarithm, angle, complex square root), each with
the algebraic relation that defines it.  Normal forms are computed exactly (rational
coefficients), so an identity shows as a zero residual; everything else is handed to
the SMT solver together with the defining axioms of the generators that occur.
"""
from fractions import Fraction as Fr
import math
from . import term as tm
from .term import T
from .poly import *
from .poly import Fr
import mpmath

ATAN = ("atan2", "atan2p", "atan2s")

class Undecided(Exception):
    """The real semantics cannot be normalised here (reported as undecided, never as proved)."""

class NeedDecision(Exception):
    """A case distinction is needed first."""
    def __init__(self, atom): self.atom = atom

class Gen:
    __slots__ = ("id", "kind", "args", "name", "aux")

class R:
    """Rational function num / prod(den)."""
    __slots__ = ("num", "den")
    def __init__(self, num, den=None):
        self.num = num; self.den = den or {}
    def key(self):
        return (pkey(self.num), tuple(sorted((k, e) for k, (p, e) in self.den.items())))

ZERO = R({})
ONE_R = R(pconst(1))
NAN, PINF, NINF = "nan", "+inf", "-inf"

def const(c): return R(pconst(Fr(c) if not isinstance(c, int) else c))

def enclosure(x):
    """Rational interval around an mpmath value (relative width 1e-40)."""
    m = Fr(*_ratio(x))
    e = abs(m) * Fr(1, 10**40) + Fr(1, 10**60)
    return (m - e, m + e)

def _ratio(x):
    s, man, ex, bc = x._mpf_
    man = -man if s else man
    return (man << ex, 1) if ex >= 0 else (man, 1 << -ex)

class Cas:
    def __init__(self):
        self.gens = []
        self.bykey = {}
        self.inputs = {}
        self.oracle = None       # function(R, term) -> set of possible signs {-1,0,1}

    # -------------------------------------------------- generators
    def gen(self, kind, args, aux=None, name=None):
        k = (kind,) + tuple(a.key() if isinstance(a, R) else a for a in args)
        g = self.bykey.get(k)
        if g is None and len(args) <= 2 and kind != "in":
            for h in self.gens:
                if h.kind == kind and len(h.args) == len(args) and all(
                        (isinstance(x, R) and isinstance(y, R) and self.iszero(self.sub(x, y))) or (not isinstance(x, R) and x == y)
                        for x, y in zip(h.args, args)):
                    g = h; break
        if g is None:
            g = Gen(); g.id = len(self.gens); g.kind = kind; g.args = args
            g.name = name or "%s!%d" % (kind, g.id); g.aux = aux
            self.gens.append(g)
        self.bykey[k] = g
        return g

    def var(self, g): return R(pvar(g.id))

    def input(self, name):
        g = self.inputs.get(name)
        if g is None:
            g = self.gen("in", (name,), name=name)
            self.inputs[name] = g
        return self.var(g)

    # -------------------------------------------------- arithmetic
    def mk(self, num, den):
        """Normalise den factors and reduce num by the generator relations."""
        if not num: return ZERO
        d = {}
        k = 1
        extra = None
        for key, (p, e) in den.items():
            if e == 0: continue
            if isconst(p):
                k = k * Fr(constval(p)) ** e; continue
            # monomial content of the factor
            ms = list(p)
            g = ms[0]
            for m in ms[1:]:
                dm = dict(m)
                g = tuple((v, min(x, dm[v])) for v, x in g if v in dm)
                if not g: break
            if g:
                p = {mdiv(m, g): c for m, c in p.items()}
            lc = p[min(p)]
            if lc != 1:
                p = pscale(p, Fr(1) / lc); k = k * Fr(lc) ** e
            if not isconst(p):
                kk = pkey(p)
                o = d.get(kk)
                d[kk] = (p, e + (o[1] if o else 0))
            for v, x in g:
                q = pvar(v); kk = pkey(q)
                o = d.get(kk)
                d[kk] = (q, x * e + (o[1] if o else 0))
        if k != 1: num = pscale(num, Fr(1) / k)
        # algebraic generators leave single-variable denominators
        for kk in list(d):
            p, e = d[kk]
            if len(p) == 1:
                (m, c), = p.items()
                v = m[0][0]
                g = self.gens[v]
                if g.kind == "sqrt":
                    del d[kk]
                    rad = g.args[0]
                    n2 = num
                    if e % 2:
                        n2 = pmul(n2, pvar(v))
                    h = (e + 1) // 2
                    r = R(n2, d)
                    inv = self.inv(rad)
                    for _ in range(h): r = self.mul(r, inv)
                    return r
        r = self.reduce(num, d)
        return r

    def rule(self, m):
        """(rest monomial, replacement R) for the first applicable relation, or None."""
        ids = dict(m)
        for v, e in m:
            g = self.gens[v]
            k = g.kind
            if k == "in": continue
            if k == "sqrt" and e >= 2:
                return self._rest(m, {v: 2}), g.args[0]
            if k == "sin" and e >= 2:
                c = self.gens[g.aux]
                return self._rest(m, {v: 2}), R({ONE: 1, ((c.id, 2),): -1})
            if k == "hcos":       # cos(theta/2): args (cos theta, sin theta)
                if e >= 2:
                    return self._rest(m, {v: 2}), self.scale(self.add(ONE_R, g.args[0]), Fr(1, 2))
                if g.aux in ids:
                    return self._rest(m, {v: 1, g.aux: 1}), self.scale(g.args[1], Fr(1, 2))
            if k == "hsin" and e >= 2:
                return self._rest(m, {v: 2}), self.scale(self.sub(ONE_R, g.args[0]), Fr(1, 2))
            if k == "csqrt_re":
                a, b = g.args
                if e >= 2:
                    return self._rest(m, {v: 2}), self.add(a, R({((g.aux, 2),): 1}))
                if g.aux in ids:
                    return self._rest(m, {v: 1, g.aux: 1}), self.scale(b, Fr(1, 2))
            if k == "csqrt_im" and e >= 4:
                a, b = g.args
                return self._rest(m, {v: 4}), self.sub(self.scale(self.mul(b, b), Fr(1, 4)), self.mul(a, R({((v, 2),): 1})))
        return None

    def _rest(self, m, take):
        return tuple((v, e - take.get(v, 0)) for v, e in m if e - take.get(v, 0) > 0)

    def reduce(self, num, den):
        plain = {}
        todo = []
        for m, c in num.items():
            r = self.rule(m) if m else None
            if r is None: plain[m] = c
            else: todo.append((r[0], c, r[1]))
        if not todo:
            return self.cancel(R(num, den))
        # group by replacement object to save work
        acc = R(plain, {})
        groups = {}
        for rest, c, rep in todo:
            k = id(rep) if rep.den == {} and False else rep.key()
            g = groups.setdefault(k, ({}, rep))
            g[0][rest] = g[0].get(rest, 0) + c
        for k, (p, rep) in groups.items():
            p = {m: cf(c) for m, c in p.items() if c != 0}
            acc = self.add(acc, self.mul(R(p), rep))
        if den:
            acc = self.mk(acc.num, _mergeden(acc.den, den))
        return acc

    def cancel(self, r):
        if not r.den or not r.num: return R(r.num, {}) if not r.num else r
        num = r.num; den = dict(r.den)
        ch = False
        for k in list(den):
            p, e = den[k]
            while e > 0:
                if len(p) == 1:
                    (m, c), = p.items()
                    if all(mdiv(n, m) is not None for n in num):
                        num = {mdiv(n, m): x for n, x in num.items()}
                        e -= 1; ch = True
                        continue
                    break
                if len(p) > 120 or len(num) > 3000 or len(num) < len(p) and len(num) < 2: break
                q = pdivexact(num, p)
                if q is None: break
                num = q; e -= 1; ch = True
            if e == 0: del den[k]
            else: den[k] = (p, e)
        return R(num, den)

    def add(self, a, b, k=1):
        if not b.num: return a
        if not a.num: return self.scale(b, k)
        if a.den == b.den or (not a.den and not b.den):
            if not a.den: return R(padd(a.num, b.num, k), {})
            return self.mk(padd(a.num, b.num, k), a.den)
        den = {}
        for kk in set(a.den) | set(b.den):
            x = a.den.get(kk); y = b.den.get(kk)
            den[kk] = ((x or y)[0], max(x[1] if x else 0, y[1] if y else 0))
        def lift(r):
            n = r.num
            for kk, (p, e) in den.items():
                have = r.den[kk][1] if kk in r.den else 0
                for _ in range(e - have): n = pmul(n, p)
            return n
        return self.mk(padd(lift(a), lift(b), k), den)

    def sub(self, a, b): return self.add(a, b, -1)
    def scale(self, a, k): return R(pscale(a.num, cf(Fr(k))), a.den)
    def neg(self, a): return self.scale(a, -1)

    def mul(self, a, b):
        if not a.num or not b.num: return ZERO
        return self.mk(pmul(a.num, b.num), _mergeden(a.den, b.den))

    def inv(self, a):
        """1/a (a known to be nonzero)."""
        num = pconst(1)
        for k, (p, e) in a.den.items():
            for _ in range(e): num = pmul(num, p)
        return self.mk(num, {pkey(a.num): (a.num, 1)})

    def div(self, a, b): return self.mul(a, self.inv(b))

    def power(self, a, n):
        if n < 0: return self.power(self.inv(a), -n)
        r = ONE_R
        for _ in range(n): r = self.mul(r, a)
        return r

    def iszero(self, a):
        return not a.num

    def isconstR(self, a):
        return not a.den and isconst(a.num)

    def equal(self, a, b): return self.iszero(self.sub(a, b))

    # -------------------------------------------------- signs
    def sign(self, a, t=None):
        """Possible signs of a as a set."""
        if not a.num: return {0}
        if self.isconstR(a):
            return {1 if constval(a.num) > 0 else -1}
        s = self.polysign(a.num)
        if s is not None:
            ds = {1}
            for k, (p, e) in a.den.items():
                if e % 2:
                    q = self.polysign(p)
                    if q is None: ds = None; break
                    q = q - {0}
                    ds = {x * y for x in ds for y in q}
            if ds is not None:
                r = {x * y for x in s for y in ds}
                if len(r - {0}) == 1: return r
        if self.oracle: return self.oracle(a)
        return {-1, 0, 1}

    def nonneg_gen(self, v):
        return self.gens[v].kind in ("sqrt", "exp", "hcos", "csqrt_re", "atan2p", "atan2s") or self.strict_gen(v)

    def strict_gen(self, v):
        g = self.gens[v]
        return g.kind in ("exp", "atan2s") or g.kind in ("const", "delta") and g.aux[0] > 0

    def polysign(self, p):
        """Sign set of a polynomial by inspection, or None."""
        if not p: return {0}
        res = None
        strict = False
        for m, c in p.items():
            s = 1 if c > 0 else -1
            for v, e in m:
                if e % 2 and not self.nonneg_gen(v): return None
            if res is None: res = s
            elif res != s: return None
            if all(self.strict_gen(v) for v, e in m): strict = True
        return {res} if strict else {res, 0}

    # -------------------------------------------------- irrational operations
    def absR(self, a):
        s = self.sign(a)
        if -1 not in s: return a
        if 1 not in s: return self.neg(a)
        # |a| = sqrt(a^2), sign-normalised radicand
        g = self.gen("sqrt", (self.mul(a, a),), aux="abs")
        return self.var(g)

    def sqrt(self, a):
        """Non-negative root of a >= 0."""
        if not a.num: return ZERO
        num, out = a.num, ONE_R
        for k, (p, e) in a.den.items():
            if e % 2:
                e += 1
                if self.polysign(p) in ({1}, {0, 1}): out = self.mul(out, self.sqrt(R(p)))
                else: num = pmul(num, p)
            h = e // 2
            q = R(pconst(1), {k: (p, h)}) if h % 2 == 0 else None
            if q is None:
                f = R(p)
                ab = self.absR(f)
                q = self.power(self.inv(ab), h)
            out = self.mul(out, q)
        rr = self.reduce(num, {})
        if rr.den:
            # radicand changed shape by relations: retry
            return self.mul(out, self.sqrt(rr))
        num = rr.num
        if not num: return ZERO
        # monomial content
        ms = list(num)
        g = dict(ms[0])
        for m in ms[1:]:
            dm = dict(m)
            g = {v: min(x, dm[v]) for v, x in g.items() if v in dm}
            if not g: break
        pull = tuple(sorted((v, x - x % 2) for v, x in g.items() if x >= 2))
        if pull:
            num = {mdiv(m, pull): c for m, c in num.items()}
            for v, x in pull:
                h = x // 2
                f = R({((v, 1),): 1})
                if h % 2: f = self.absR(f)
                out = self.mul(out, self.power(f, h))
        # rational content
        cs = [Fr(c) for c in num.values()]
        from math import gcd
        gn = 0; ld = 1
        for c in cs:
            gn = gcd(gn, abs(c.numerator)); ld = ld * c.denominator // gcd(ld, c.denominator)
        c = Fr(gn, ld)
        if isconst(num):
            v = Fr(constval(num))
            r = isqrt_fr(v)
            if r is not None: return self.scale(out, r)
            c = v
        n, d = c.numerator, c.denominator
        # c = n d / d^2 ; strip the largest even power of two and perfect squares
        nd = n * d
        k = 1
        q = isqrt_fr(nd)
        if q is not None:
            k = q.numerator; left = 1
        else:
            left = nd
            while left % 4 == 0: left //= 4; k *= 2
            for pr in (3, 5, 7):
                while left % (pr * pr) == 0: left //= pr * pr; k *= pr
        num = pscale(num, Fr(1) / c * left)
        out = self.scale(out, Fr(k, d))
        if isconst(num) and constval(num) == 1: return out
        sq = self.psqrt(num)
        if sq is not None:
            return self.mul(out, self.absR(R(sq)))
        h = self.gen("sqrt", (R(num),))
        return self.mul(out, self.var(h))

    def psqrt(self, p):
        """Polynomial whose square is p, or None."""
        if len(p) > 1500: return None
        allv = sorted(pvars(p))
        ix = {v: i for i, v in enumerate(allv)}
        def key(m):
            e = [0] * len(allv)
            for v, k in m: e[ix[v]] = k
            return (sum(e), e)
        lm = max(p, key=key)
        if any(e % 2 for v, e in lm): return None
        c = isqrt_fr(p[lm])
        if c is None: return None
        lead = tuple((v, e // 2) for v, e in lm)
        q = {lead: cf(c)}
        r = padd(p, pmul(q, q), -1)
        steps = 0
        while r:
            m = max(r, key=key)
            d = mdiv(m, lead)
            if d is None or steps > 200 or key(d) >= key(lead): return None
            t = {d: cf(Fr(r[m]) / (2 * Fr(c)))}
            # r - 2 q t - t^2
            r = padd(r, padd(pscale(pmul(q, t), 2), pmul(t, t)), -1)
            q = padd(q, t)
            steps += 1
        return q

    def cossin(self, a):
        """(cos a, sin a)"""
        if not a.num: return ONE_R, ZERO
        lc = a.num[min(a.num)]
        if lc < 0:
            c, s = self.cossin(self.neg(a))
            return c, self.neg(s)
        if self.isconstR(a):
            v = constval(a.num)
            with mpmath.workprec(400):
                x = mpmath.mpf(Fr(v).numerator) / Fr(v).denominator
                ce, se = enclosure(mpmath.cos(x)), enclosure(mpmath.sin(x))
            c = self.gen("const", ("cos", v), aux=ce); s = self.gen("const", ("sin", v), aux=se)
            return self.var(c), self.var(s)
        if not a.den and len(a.num) == 1:
            (m, k), = a.num.items()
            if len(m) == 1 and m[0][1] == 1 and self.gens[m[0][0]].kind in ATAN:
                g = self.gens[m[0][0]]
                y, x = g.args
                r = self.sqrt(self.add(self.mul(x, x), self.mul(y, y)))
                ct, st = self.div(x, r), self.div(y, r)
                if k == 1: return ct, st
                if k == 2: return self.sub(self.mul(ct, ct), self.mul(st, st)), self.scale(self.mul(ct, st), 2)
                if k == Fr(1, 2):
                    hc = self.gen("hcos", (ct, st)); hs = self.gen("hsin", (ct, st))
                    hc.aux = hs.id; hs.aux = hc.id
                    return self.var(hc), self.var(hs)
        c = self.gen("cos", (a,)); s = self.gen("sin", (a,))
        c.aux = s.id; s.aux = c.id
        return self.var(c), self.var(s)

    def exp(self, a):
        if not a.num: return ONE_R
        if len(a.num) > 1 and len(a.num) <= 6:
            out = ONE_R
            for m, c in a.num.items():
                out = self.mul(out, self.exp(self.mk({m: c}, a.den)))
            return out
        if self.isconstR(a):
            v = Fr(constval(a.num))
            with mpmath.workprec(400):
                e = enclosure(mpmath.exp(mpmath.mpf(v.numerator) / v.denominator))
            return self.var(self.gen("const", ("exp", v), aux=e))
        if not a.den and len(a.num) == 1:
            (m, k), = a.num.items()
            if len(m) == 1 and m[0][1] == 1 and self.gens[m[0][0]].kind == "log":
                arg = self.gens[m[0][0]].args[0]
                k2 = Fr(k) * 2
                if k2.denominator == 1:
                    n = int(k2)
                    r = arg if n % 2 == 0 else self.sqrt(arg)
                    return self.power(r, n // 2 if n % 2 == 0 else n)
                k4 = Fr(k) * 4
                if k4.denominator == 1:
                    return self.power(self.sqrt(self.sqrt(arg)), int(k4))
        lc = a.num[min(a.num)]
        if lc < 0: return self.inv(self.exp(self.neg(a)))
        for g in self.gens:
            if g.kind == "exp":
                r = self.div(a, g.args[0])
                if self.isconstR(r):
                    n = Fr(constval(r.num))
                    if n.denominator == 1 and 1 <= n <= 8: return self.power(self.var(g), int(n))
        return self.var(self.gen("exp", (a,)))

    def log(self, a):
        if self.isconstR(a):
            v = Fr(constval(a.num))
            if v == 1: return ZERO
            with mpmath.workprec(400):
                e = enclosure(mpmath.log(mpmath.mpf(v.numerator) / v.denominator))
            return self.var(self.gen("const", ("log", v), aux=e))
        if not a.den and len(a.num) == 1:
            (m, k), = a.num.items()
            if k == 1 and len(m) == 1:
                g = self.gens[m[0][0]]
                if g.kind == "sqrt" and m[0][1] == 1: return self.scale(self.log(g.args[0]), Fr(1, 2))
                if g.kind == "exp": return self.scale(g.args[0], m[0][1])
        return self.var(self.gen("log", (a,)))

    def atan2(self, y, x):
        sy = self.sign(y)
        if sy == {0, 1} and self.oracle: sy = self.oracle(y)
        if sy == {0}:
            sx = self.sign(x)
            if -1 not in sx: return ZERO
            if sx == {-1}:
                with mpmath.workprec(400): e = enclosure(mpmath.pi + 0)
                return self.var(self.gen("const", ("pi",), aux=e))
        if 1 not in sy and sy != {0}:
            return self.neg(self.atan2(self.neg(y), x))
        # principal angle of a point with y > 0, y >= 0, or anything
        return self.var(self.gen("atan2s" if sy == {1} else "atan2p" if -1 not in sy else "atan2", (y, x)))

    def csqrt(self, a, b):
        if not b.num:
            s = self.sign(a)
            if -1 not in s: return self.sqrt(a), ZERO
            if 1 not in s: return ZERO, self.sqrt(self.neg(a))
            raise NeedDecision(a)
        zr = self.gen("csqrt_re", (a, b)); zi = self.gen("csqrt_im", (a, b))
        zr.aux = zi.id; zi.aux = zr.id
        return self.var(zr), self.var(zi)

def _mergeden(a, b):
    if not a: return b
    if not b: return a
    d = dict(a)
    for k, (p, e) in b.items():
        o = d.get(k)
        d[k] = (p, e + (o[1] if o else 0))
    return d
