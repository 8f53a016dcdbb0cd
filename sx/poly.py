"""Sparse multivariate polynomials and rational functions with rewrite relations.

Monomial: tuple of (var, exp) sorted by var; polynomial: dict monomial -> int/Fraction.
"""
from fractions import Fraction as Fr

ONE = ()

def cf(x):
    if isinstance(x, Fr) and x.denominator == 1: return x.numerator
    return x

def pconst(c):
    c = cf(c)
    return {ONE: c} if c != 0 else {}

def pvar(v):
    return {((v, 1),): 1}

def mmul(a, b):
    if not a: return b
    if not b: return a
    out = []
    i = j = 0
    la, lb = len(a), len(b)
    while i < la and j < lb:
        x, y = a[i], b[j]
        if x[0] == y[0]:
            out.append((x[0], x[1] + y[1])); i += 1; j += 1
        elif x[0] < y[0]:
            out.append(x); i += 1
        else:
            out.append(y); j += 1
    out.extend(a[i:]); out.extend(b[j:])
    return tuple(out)

def padd(a, b, k=1):
    if len(a) < len(b) and k == 1: a, b = b, a
    r = dict(a)
    for m, c in b.items():
        s = r.get(m, 0) + (c if k == 1 else c * k)
        if s == 0: r.pop(m, None)
        else: r[m] = cf(s)
    return r

def pscale(a, k):
    if k == 0: return {}
    if k == 1: return a
    return {m: cf(c * k) for m, c in a.items()}

class TooBig(Exception):
    pass

MAXTERMS = 60000

def pmul(a, b):
    if len(a) > len(b): a, b = b, a
    if len(a) * len(b) > 4000000: raise TooBig()
    if len(a) == 1:
        (m, c), = a.items()
        if m == ONE: return pscale(b, c)
        return {mmul(m, n): cf(c * d) for n, d in b.items()}
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = mmul(m, n)
            s = r.get(k, 0) + c * d
            if s == 0: r.pop(k, None)
            else: r[k] = s
    if len(r) > MAXTERMS: raise TooBig()
    return {m: cf(c) for m, c in r.items()}

def pkey(a):
    return tuple(sorted(a.items(), key=lambda x: x[0]))

def isconst(a):
    return not a or (len(a) == 1 and ONE in a)

def constval(a):
    return a.get(ONE, 0)

def pvars(a):
    return {v for m in a for v, _ in m}

def deg(m):
    return sum(e for _, e in m)

def mdiv(a, b):
    """a / b for monomials or None."""
    d = dict(a)
    for v, e in b:
        x = d.get(v, 0) - e
        if x < 0: return None
        if x == 0: d.pop(v)
        else: d[v] = x
    return tuple(sorted(d.items()))

def pdivexact(a, b, maxsteps=4000):
    """Quotient if b divides a exactly, else None (graded lexicographic order)."""
    if not a: return {}
    if isconst(b): return pscale(a, Fr(1) / constval(b))
    if len(a) * len(b) > 200000: return None
    allv = sorted(pvars(a) | pvars(b))
    if not pvars(b) <= pvars(a): return None
    ix = {v: i for i, v in enumerate(allv)}
    def key(m):
        e = [0] * len(allv)
        for v, k in m: e[ix[v]] = k
        return (sum(e), e)
    lb = max(b, key=key); cb = b[lb]
    # quick rejection: lowest terms must divide, too
    sb = min(b, key=key)
    sa = min(a, key=key)
    if mdiv(sa, sb) is None: return None
    q = {}
    r = dict(a)
    import heapq
    keys = {}
    def kk(m):
        k = keys.get(m)
        if k is None:
            s, e = key(m)
            k = keys[m] = (-s, [-x for x in e], m)
        return k
    heap = [kk(m) for m in r]
    heapq.heapify(heap)
    steps = 0
    while r:
        while True:
            k = heapq.heappop(heap)
            la = k[2]
            if la in r: break
        m = mdiv(la, lb)
        if m is None: return None
        c = Fr(r[la]) / cb
        c = cf(c)
        q[m] = c
        for n, d in b.items():
            x = mmul(m, n)
            s = r.get(x, 0) - c * d
            if s == 0: r.pop(x, None)
            else:
                if x not in r: heapq.heappush(heap, kk(x))
                r[x] = cf(s)
        steps += 1
        if steps > maxsteps: return None
    return q

def peval(a, env):
    s = 0
    for m, c in a.items():
        t = c
        for v, e in m: t = t * env[v] ** e
        s = s + t
    return s

def isqrt_fr(c):
    """Rational square root of a non-negative rational, or None."""
    from math import isqrt
    c = Fr(c)
    if c < 0: return None
    n, d = c.numerator, c.denominator
    a, b = isqrt(n), isqrt(d)
    if a * a == n and b * b == d: return Fr(a, b)
    return None
