"""Typed values and compositions of library operations, symbolic, native and exact."""
from .util import *
TYPEOF = {v: k for k, v in CODE.items()}

class V:
    """typed value: type letter and components"""
    def __init__(self, t, c): self.t = t; self.c = list(c)
    def full(self): return ga.z(ga.embed(self.t, self.c, ga.Terms)) if isinstance(self.c[0], T) else [float(x) for x in _emb(self.t, self.c)]

def _emb(t, c):
    o = [0.0] * 8
    for k, x in zip(SLOTS[t], c): o[k] = x
    return o

class Missing(Exception): pass

class Sym:
    """operations on symbolic values through the encoded library functions"""
    def __init__(self, *groups): self.g = {x.name: x for x in groups}; self.results = []
    def _call(self, group, fn, *vs):
        r = self.g[group].sym(fn, *[v.c for v in vs], 8)
        if code(r) in (-1, None): raise Missing(fn)
        self.results.append((fn, r))
        t = TYPEOF[code(r)]
        return V(t, [r.outs[0][k] for k in SLOTS[t]])
    def mul(self, x, y): return self._call("mul", "h_mul_%s_%s" % (x.t, y.t), x, y)
    def add(self, x, y): return self._call("addsub", "h_add_%s_%s" % (x.t, y.t), x, y)
    def sub(self, x, y): return self._call("addsub", "h_sub_%s_%s" % (x.t, y.t), x, y)
    def uni(self, k, x): return self._call("uni", "h_%s_%s" % (k, x.t), x)
    def fun(self, k, x): return self._call("func", "h_%s_%s" % (k, x.t), x)

class Nat(Sym):
    def _call(self, group, fn, *vs):
        ret, outs = self.g[group].native(fn, *[v.c for v in vs], 8)
        if ret < 0: raise Missing(fn)
        t = TYPEOF[ret]
        return V(t, [outs[-1][k] for k in SLOTS[t]])

class Exact(Sym):
    """exact rational arithmetic; the second list of each value bounds the sum of |terms|"""
    def __init__(self): pass
    def lift(self, v): c = _emb(v.t, v.c); return E([Fr(x) for x in c], [abs(Fr(x)) for x in c])
    def mul(self, x, y): return E(ga.gp(x.c, y.c), ga.gpabs(x.a, y.a))
    def add(self, x, y): return E([p + q for p, q in zip(x.c, y.c)], [p + q for p, q in zip(x.a, y.a)])
    def sub(self, x, y): return E([p - q for p, q in zip(x.c, y.c)], [p + q for p, q in zip(x.a, y.a)])
    def uni(self, k, x):
        if k == "dual":
            i = [Fr(0)] * 7 + [Fr(1)]
            return E(ga.gp(x.c, i), ga.gpabs(x.a, i))
        return E(ga.ginv(k, x.c), x.a)
    def fun(self, k, x):
        if k == "ampSq":
            return self.mul(x, self.uni("dir", x))
        if k == "sq": return self.mul(x, x)
        if k == "cube": return self.mul(self.mul(x, x), x)
        if k == "magSq":
            return E([sum(v * v for v in x.c)] + [Fr(0)] * 7, [sum(v * v for v in x.a)] + [Fr(0)] * 7)
        raise KeyError(k)

class E:
    def __init__(self, c, a): self.c = c; self.a = a

def identity(rec, groups, name, vars_, lhs, rhs, domain, n=64, seed=None, grades=None, prover=None):
    """lhs(op, *values) == rhs(op, *values) for all values of the typed variables [(prefix, type)]."""
    S, N, X = Sym(*groups), Nat(*groups), Exact()
    args = [V(t, ga.ins(p, t)) for p, t in vars_]
    nm = [x.args[0] for v in args for x in v.c]
    try:
        l, r = lhs(S, *args), rhs(S, *args)
    except Missing as e:
        return False
    lo, hi = domain
    for fn, res in S.results: nofaults(rec, res, fn)
    def vals(m): return [V(t, ga.vals(m, p, t)) for p, t in vars_]
    def judge(m):
        vs = vals(m)
        if not all(indomain(v.c, float(lo), float(hi)) for v in vs): return False, None
        a, b = lhs(N, *vs), rhs(N, *vs)
        e = [X.lift(v) for v in vs]
        tl, tr = lhs(X, *e), rhs(X, *e)
        exactint = all(x == int(x) and abs(x) <= 64 for v in vs for x in v.c)
        fa, fb = a.full(), b.full()
        for k in range(8):
            t = 0 if exactint else n * U * max(tl.a[k], tr.a[k])
            if not (fin(fa[k]) and fin(fb[k])) or abs(Fr(fa[k]) - Fr(fb[k])) > t:
                return True, dict(identity=name, component=SLOTNAME[k], left=fa[k], right=fb[k], operands=[v.c for v in vs])
        return False, None
    p = prover or Prover(dom(nm, lo, hi), judge, qt=4.0)
    p.judge = judge
    fl, fr_ = l.full(), r.full()
    p.prove([Eq(SLOTNAME[k], fl[k], fr_[k]) for k in range(8) if grades is None or k in grades], label=name)
    env = spread(nm, name, 3.0)
    bad, d = judge(env)
    if bad and not p.violations: rec.bad(name, env, d)
    # the encoding of both sides against the native run
    ev = tm.evaluate(fl + fr_, env)
    na = lhs(N, *vals(env)).full() + rhs(N, *vals(env)).full()
    sc = max(1e-300, max(abs(x) for x in na))
    if all(same(x, y) or abs(x - y) <= 1e-11 * sc for x, y in zip(ev, na)): rec.validated += 1; rec.replays += 1
    else: rec.maybe(name + ":encoding", "encoded and native values differ")
    rec.prover(p)
    return True
