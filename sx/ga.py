"""Independent specification of the geometric algebra of 3-space: blades as bit maps,
products by counting transpositions.  Generic over the coefficient arithmetic."""
from fractions import Fraction as Fr
from . import term as tm
from .term import F, fop, T

TYPES = "D S V B T P I C X M".split()
NC = dict(D=1, S=1, V=3, B=3, T=1, P=4, I=4, C=2, X=6, M=8)
SLOTS = dict(D=[0], S=[0], V=[1, 2, 3], B=[4, 5, 6], T=[7], P=[0, 4, 5, 6], I=[1, 2, 3, 7], C=[0, 7],
             X=[1, 2, 3, 4, 5, 6], M=[0, 1, 2, 3, 4, 5, 6, 7])
CODE = {t: k for k, t in enumerate(TYPES)}
NAME = dict(D="double", S="Scalar", V="Vector", B="BiVector", T="TriVector", P="Spinor", I="ImSpin", C="ComPlex", X="DirPlex", M="MultiVector")
GRADE = [0, 1, 1, 1, 2, 2, 2, 3]
SLOTNAME = "e0 e1 e2 e3 e23 e31 e12 e123".split()
# slot -> (sign, bitmap) ; e31 = e3 e1 = - e1 e3
_BM = [(1, 0), (1, 1), (1, 2), (1, 4), (1, 6), (-1, 5), (1, 3), (1, 7)]
_OF = {b: (k, s) for k, (s, b) in enumerate(_BM)}

def _swaps(a, b):
    n = 0
    a >>= 1
    while a:
        n += bin(a & b).count("1"); a >>= 1
    return n

def unit(i, j):
    """e_i e_j = sign e_k."""
    si, bi = _BM[i]; sj, bj = _BM[j]
    s = si * sj * (-1 if _swaps(bi, bj) % 2 else 1)
    k, sk = _OF[bi ^ bj]
    return s * sk, k

TABLE = [[unit(i, j) for j in range(8)] for i in range(8)]

# grade -> sign
INV = dict(neg=[-1, -1, -1, -1], rev=[1, 1, -1, -1], odd=[1, -1, 1, -1], dir=[1, -1, -1, 1], id=[1, 1, 1, 1])

def minimal(slots):
    s = set(slots)
    for t in "S V B T P I C X M".split():
        if s <= set(SLOTS[t]): return t

class Num:
    """Fractions / floats / mpmath numbers"""
    zero = 0
    add = staticmethod(lambda a, b: a + b)
    mul = staticmethod(lambda a, b: a * b)
    neg = staticmethod(lambda a: -a)

class Terms:
    zero = None
    @staticmethod
    def add(a, b): return fop("fadd", a, b)
    @staticmethod
    def mul(a, b): return fop("fmul", a, b)
    @staticmethod
    def neg(a): return fop("fneg", a)

def embed(t, comps, A=Num):
    o = [None if A is Terms else 0] * 8
    for k, c in zip(SLOTS[t], comps): o[k] = c
    return o

def gp(a, b, A=Num):
    """Geometric product of 8-lists; None = structurally absent (Terms)."""
    o = [A.zero] * 8
    for i in range(8):
        if a[i] is None: continue
        for j in range(8):
            if b[j] is None: continue
            s, k = TABLE[i][j]
            p = A.mul(a[i], b[j])
            if s < 0: p = A.neg(p)
            o[k] = p if o[k] is None else A.add(o[k], p)
    return o

def gpabs(a, b):
    """Sum of the magnitudes of the elementary products (numbers)."""
    o = [0] * 8
    for i in range(8):
        for j in range(8):
            s, k = TABLE[i][j]
            o[k] += abs(a[i] * b[j])
    return o

def ginv(kind, a, A=Num):
    return [None if x is None else (x if INV[kind][GRADE[k]] > 0 else A.neg(x)) for k, x in enumerate(a)]

def gadd(a, b, A=Num):
    return [y if x is None else x if y is None else A.add(x, y) for x, y in zip(a, b)]

def z(a):
    """absent -> 0.0 term"""
    return [F(0.0) if x is None else x for x in a]

def proddeps(t1, t2):
    """slots of A and B entering each output slot"""
    o = {}
    for i in SLOTS[t1]:
        for j in SLOTS[t2]:
            s, k = TABLE[i][j]
            o.setdefault(k, []).append((s, i, j))
    return o

def ins(prefix, t):
    return [tm.inp("%s%d" % (prefix, k)) for k in range(NC[t])]

def names(prefix, t):
    return ["%s%d" % (prefix, k) for k in range(NC[t])]

def vals(inputs, prefix, t):
    return [inputs[n] for n in names(prefix, t)]
