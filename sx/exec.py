"""Symbolic executor for the parsed LLVM IR.

Control is followed path-wise inside a function, with states merged (ite) whenever
they wait at the same block, and at function return.  Doubles, flags and indices
are symbolic terms (term.py); pointers are (object, offset) pairs.
"""
import re, struct, sys
from . import term as tm
from .term import T, TRUE, FALSE, F, I, B, band, bor, bnot, ite, fop

sys.setrecursionlimit(100000)

class Unsupported(Exception):
    """Code outside what the executor can encode."""

class PathEnd(Exception):
    """The path being executed has undefined behaviour already recorded as a fault: nothing after it is meaningful."""

class Ptr:
    __slots__ = ("obj", "off")
    def __init__(s, obj, off):
        s.obj = obj; s.off = off
    def __repr__(s): return "<ptr %s+%s>" % (s.obj, s.off)

class PtrIte:
    __slots__ = ("c", "a", "b")
    def __init__(s, c, a, b):
        s.c = c; s.a = a; s.b = b

class FuncPtr:
    __slots__ = ("name",)
    def __init__(s, name): s.name = name

class Agg(tuple):
    """struct / array / vector register value"""

NULL = None  # set below

class Obj:
    __slots__ = ("id", "size", "kind", "name", "const", "cells", "model")
    def clone(s):
        o = Obj(); o.id = s.id; o.size = s.size; o.kind = s.kind; o.name = s.name; o.const = s.const
        o.cells = dict(s.cells); o.model = s.model.clone() if s.model is not None else None
        return o

class State:
    __slots__ = ("mem", "owned", "pc", "nf")
    def __init__(s):
        s.mem = {}; s.owned = set(); s.pc = (); s.nf = 0
    def fork(s):
        n = State(); n.mem = dict(s.mem); n.owned = set(); s.owned = set(); n.pc = s.pc; n.nf = s.nf
        return n
    def w(s, i):
        o = s.mem[i]
        if i not in s.owned:
            o = o.clone(); s.mem[i] = o; s.owned.add(i)
        return o
    def assume(s, c):
        if c is TRUE: return True
        for x in (c.args if c.op == "and" else (c,)):
            n = bnot(x)
            for y in s.pc:
                if y is x: break
                if y is n: return False
            else:
                s.pc = s.pc + (x,)
        return True
    def known(s, c):
        """True/False if c is decided syntactically by the path condition."""
        if c is TRUE: return True
        if c is FALSE: return False
        n = bnot(c)
        for y in s.pc:
            if y is c: return True
            if y is n: return False
        return None

def ptr_eq(a, b):
    return isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj and a.off is b.off

def merge_val(c, a, b):
    if a is b: return a
    if a is None or b is None:
        raise Unsupported("merge None")
    if isinstance(a, T) and isinstance(b, T):
        if a.sort != b.sort or a.w != b.w: raise Unsupported("merge sorts")
        return ite(c, a, b)
    if isinstance(a, Agg) and isinstance(b, Agg) and len(a) == len(b):
        return Agg(merge_val(c, x, y) for x, y in zip(a, b))
    if isinstance(a, (Ptr, PtrIte)) and isinstance(b, (Ptr, PtrIte)):
        if ptr_eq(a, b): return a
        return PtrIte(c, a, b)
    if isinstance(a, FuncPtr) and isinstance(b, FuncPtr) and a.name == b.name: return a
    if isinstance(a, tuple) or isinstance(b, tuple):
        raise Unsupported("merge aggregates")
    raise Unsupported("merge %r %r" % (a, b))

MAXPATHSTATES = 256
MAXFAULTS = 8      # definite memory faults after which a path is abandoned
MAXUNWIND = 64     # iterations of a loop whose exit depends on the inputs

class Executor:
    def __init__(self, mod, solver_prune=None):
        self.m = mod
        self.faults = []       # (kind, pc term, detail)
        self.effects = []      # (kind, pc term, detail): global writes, I/O on external streams ...
        self.funcs = set()     # encoded functions (mangled names)
        self.nid = 0
        self.glob = {}
        self.depth = 0
        self.dropped = 0
        self.soft = 0          # inside a guarded access through a choice of pointers
        self.steps = 0
        self.maxsteps = 3000000
        self.externals = {}
        self.base = State()
        self.hooks = None      # name -> handler(ex, st, args, rt) taking precedence over bodies
        self.prune = solver_prune
        from . import externs
        externs.install(self)
        self.in_guard = 0
        self.initialising = False
        self._static_init()

    # ------------------------------------------------------------ objects
    def new(self, st, size, kind, name="", const=False):
        self.nid += 1
        o = Obj(); o.id = self.nid; o.size = size; o.kind = kind; o.name = name; o.const = const
        o.cells = {}; o.model = None
        st.mem[o.id] = o; st.owned.add(o.id)
        return Ptr(o.id, I(0, 64))

    def addr(self, p):
        if isinstance(p, PtrIte):
            return ite(p.c, self.addr(p.a), self.addr(p.b))
        if isinstance(p, FuncPtr):
            return I((0x7f00 << 32) + (hash(p.name) & 0xffffff), 64)
        if p.obj is None: return p.off
        return tm.iop("add", p.off, I(p.obj << 32, 64))

    def toptr(self, t):
        if not isinstance(t, T): return t
        if tm.isc(t):
            v = tm.cval(t)
            if v == 0: return NULL
            return Ptr(v >> 32, I(v & 0xffffffff, 64)) if v >> 32 else Ptr(None, t)
        if t.op == "ite":
            return PtrIte(t.args[0], self.toptr(t.args[1]), self.toptr(t.args[2]))
        raise Unsupported("inttoptr of symbolic integer")

    def pcterm(self, st):
        return band(*st.pc)

    def fault(self, st, kind, cond, detail):
        c = band(self.pcterm(st), cond)
        if c is not FALSE:
            self.faults.append((kind, c, detail))
            if cond is TRUE and not self.soft:
                st.nf += 1
                if st.nf > MAXFAULTS: raise PathEnd

    # ------------------------------------------------------------ globals
    def gptr(self, name):
        name = self.m.aliases.get(name, name)
        if name in self.glob: return self.glob[name]
        if name in self.m.funcs or (name not in self.m.globals):
            p = FuncPtr(name)
            if name not in self.m.funcs and name not in self.m.decls:
                p = FuncPtr(name)
            self.glob[name] = p
            return p
        t, init, const = self.m.globals[name]
        try:
            sz = self.m.size(t)
        except Exception:
            sz = 8
        p = self.new(self.base, sz, "glob", name, const)
        self.glob[name] = p
        if init is None:
            ext = self.extern_global(name, p)
            if not ext:
                self.base.mem[p.obj].name = name
        else:
            self.initglob(self.base, p, t, init)
        return p

    def extern_global(self, name, p):
        return False

    def initglob(self, st, p, t, init):
        rt = self.m.resolve(t)
        if init[0] == "zero":
            o = st.w(p.obj)
            off = tm.cval(p.off)
            self.zerofill(o, off, self.m.size(t))
            return
        if init[0] == "undef": return
        if init[0] == "unknown": return
        if init[0] == "bytes":
            o = st.w(p.obj); off = tm.cval(p.off)
            for k, b in enumerate(init[1]): o.cells[off + k] = (1, I(b, 8))
            return
        if init[0] == "agg":
            off = tm.cval(p.off)
            for k, (et, ev) in enumerate(init[1]):
                eo = self.m.fieldoff(rt, k) if rt[0] == "struct" else k * self.m.size(rt[2])
                self.initglob(st, Ptr(p.obj, I(off + eo, 64)), et, ev)
            return
        v = self.const(t, init)
        if isinstance(v, Agg): self.store(st, p, t, v, init=True)
        else: self.store(st, p, t, v, init=True)

    def zerofill(self, o, off, n):
        self.clear(o, off, n)
        k = off
        while k + 8 <= off + n:
            o.cells[k] = (8, I(0, 64)); k += 8
        while k < off + n:
            o.cells[k] = (1, I(0, 8)); k += 1

    def clear(self, o, off, n):
        for k in [k for k, (s, _) in o.cells.items() if k < off + n and k + s > off]:
            s, v = o.cells.pop(k)
            if k < off or k + s > off + n:
                # partially overwritten cell: keep remaining bytes when splittable
                for j in range(s):
                    if not (off <= k + j < off + n):
                        o.cells[k + j] = (1, self.byte(v, j))

    def byte(self, v, j):
        if isinstance(v, T):
            if v.sort == "F": v = tm.dbits(v)
            if v.sort == "I":
                if v.w == 8: return v
                return tm.trunc(tm.iop("lshr", v, I(8 * j, v.w)), 8) if j else tm.trunc(v, 8)
        raise Unsupported("byte of %r" % (v,))

    def _static_init(self):
        g = self.m.globals.get("llvm.global_ctors")
        if not g or g[1] is None or g[1][0] != "agg": return
        self.initialising = True
        for et, ev in g[1][1]:
            if ev[0] != "agg": continue
            fn = ev[1][1][1]
            if fn[0] == "glob":
                name = fn[1][1:]
                r = self.call(self.base, name, [], ("void",))
                if r is None: raise Unsupported("static init does not return")
                self.base = r[1]
        self.initialising = False

    # ------------------------------------------------------------ constants
    def const(self, t, v):
        k = v[0]
        rt = self.m.resolve(t)
        if k == "int":
            return B(v[1]) if v[2] == 1 else I(v[1], v[2])
        if k == "fp":
            s = v[1]
            if v[2] == "x86_fp80":
                if s.startswith("0xK"):
                    h = int(s[3:], 16)
                    man = h & (2**64 - 1); se = h >> 64
                    e = se & 0x7fff; sg = -1.0 if se >> 15 else 1.0
                    if e == 0x7fff: return F(sg * float("inf")) if man << 1 & (2**64-1) == 0 else F(float("nan"))
                    from fractions import Fraction
                    try:
                        return F(sg * float(Fraction(man) * Fraction(2) ** (e - 16383 - 63)))
                    except OverflowError:
                        return F(sg * float("inf"))
                raise Unsupported("x86_fp80 constant")
            if s.startswith("0x"):
                return F(tm.b2d(int(s[2:], 16)))
            return F(float(s))
        if k == "null": return NULL
        if k == "glob": return self.gptr(v[1][1:])
        if k == "undef":
            return self.undef(rt)
        if k == "zero": return self.zero(rt)
        if k == "agg": return Agg(self.const(et, ev) for et, ev in v[1])
        if k == "bytes": return Agg(I(b, 8) for b in v[1])
        if k == "cgep":
            base = self.const(v[2][0][0], v[2][0][1])
            idx = [self.const(tt, vv) for tt, vv in v[2][1:]]
            return self.gep(v[1], base, idx)
        if k == "ccast":
            x = self.const(v[2], v[3])
            return self.cast(self.base, v[1], v[2], x, v[4])
        if k == "cbin":
            return tm.iop(v[1], self.const(v[2], v[3]), self.const(v[2], v[4]))
        raise Unsupported("constant %r" % (v,))

    def undef(self, t):
        t = self.m.resolve(t); k = t[0]
        if k in ("double", "float", "x86_fp80"): return tm.undef("F")
        if k == "i": return tm.undef("B") if t[1] == 1 else tm.undef("I", t[1])
        if k == "ptr": return NULL
        if k == "struct": return Agg(self.undef(e) for e in t[1])
        if k in ("arr", "vec"): return Agg(self.undef(t[2]) for _ in range(t[1]))
        return NULL

    def zero(self, t):
        t = self.m.resolve(t); k = t[0]
        if k in ("double", "float", "x86_fp80"): return F(0.0)
        if k == "i": return FALSE if t[1] == 1 else I(0, t[1])
        if k == "ptr": return NULL
        if k == "struct": return Agg(self.zero(e) for e in t[1])
        if k in ("arr", "vec"): return Agg(self.zero(t[2]) for _ in range(t[1]))
        raise Unsupported("zero %r" % (t,))

    # ------------------------------------------------------------ memory access
    def _conv(self, v, t):
        """Reinterpret stored value v as type t of the same size."""
        k = t[0]
        if k == "ptr":
            return v if isinstance(v, (Ptr, PtrIte, FuncPtr)) else self.toptr(v)
        if isinstance(v, (Ptr, PtrIte, FuncPtr)):
            v = self.addr(v)
        if k in ("double", "x86_fp80"):
            return v if v.sort == "F" else tm.bitsd(v)
        if k == "float":
            if v.sort == "F": return v
            if tm.isc(v):
                return F(struct.unpack("<f", struct.pack("<I", tm.cval(v)))[0])
            raise Unsupported("float bits")
        if k == "i":
            if v.sort == "F":
                if t[1] == 64: return tm.dbits(v)
                if t[1] == 32 and tm.isc(v):
                    return I(struct.unpack("<I", struct.pack("<f", tm.cval(v)))[0], 32)
                raise Unsupported("float bits")
            if t[1] == 1:
                return tm.trunc(v, 1)
            return v
        raise Unsupported("conv %r" % (t,))

    def _load_at(self, st, o, off, t):
        t = self.m.resolve(t)
        k = t[0]
        if k == "struct":
            return Agg(self._load_at(st, o, off + self.m.fieldoff(t, i), e) for i, e in enumerate(t[1]))
        if k in ("arr", "vec"):
            es = self.m.size(t[2])
            return Agg(self._load_at(st, o, off + i * es, t[2]) for i in range(t[1]))
        n = self.m.size(t)
        c = o.cells.get(off)
        if c is not None and c[0] == n:
            return self._conv(c[1], t)
        # overlapping cells?
        ov = [(kk, s) for kk, (s, _) in o.cells.items() if kk < off + n and kk + s > off]
        if not ov:
            u = self.undef(t)
            if o.kind == "glob" and o.id not in (): pass
            ow = st.w(o.id)
            sv = u
            if isinstance(u, T) and u.sort == "B": sv = tm.zext(u, 8)
            ow.cells[off] = (n, sv)
            return u
        # single larger integer cell covering, or several cells: compose bytes
        if n > 8: raise Unsupported("wide partial load")
        bs = []
        for j in range(n):
            f = None
            for kk, s in ov:
                if kk <= off + j < kk + s:
                    f = self.byte(o.cells[kk][1], off + j - kk) if s > 1 else o.cells[kk][1]
            bs.append(f if f is not None else tm.undef("I", 8))
        v = tm.zext(bs[0], 8 * n)
        for j in range(1, n):
            v = tm.iop("or", v, tm.iop("shl", tm.zext(bs[j], 8 * n), I(8 * j, 8 * n)))
        return self._conv(v, t)

    def load(self, st, p, t):
        if isinstance(p, PtrIte):
            k = st.known(p.c)
            if k is True: return self.load(st, p.a, t)
            if k is False: return self.load(st, p.b, t)
            s2 = st
            return merge_val(p.c, self._load_guard(st, p.a, t, p.c), self._load_guard(st, p.b, t, bnot(p.c)))
        if not isinstance(p, Ptr): raise Unsupported("load through %r" % (p,))
        if p.obj is None:
            self.fault(st, "null-deref", TRUE, "load"); return self.undef(t)
        o = self._obj(st, p.obj)
        n = self.m.size(t)
        if tm.isc(p.off):
            off = tm.sval(p.off)
            if off < 0 or off + n > o.size:
                self.fault(st, "oob-load", TRUE, "%s+%d size %d" % (o.name, off, o.size))
                return self.undef(t)
            return self._load_at(st, o, off, t)
        # symbolic offset
        offs = sorted(k for k, (s, _) in o.cells.items() if s == n)
        if not offs: raise Unsupported("symbolic offset load")
        inb = bor(*[tm.icmp("eq", p.off, I(k, 64)) for k in offs])
        self.fault(st, "oob-load", bnot(inb), "%s symbolic offset" % o.name)
        v = self.undef(t)
        for k in offs:
            v = merge_val(tm.icmp("eq", p.off, I(k, 64)), self._load_at(st, o, k, t), v)
        return v

    def _load_guard(self, st, p, t, c):
        s2 = st.fork()
        if not s2.assume(c): return self.undef(t)
        self.soft += 1
        try: return self.load(s2, p, t)
        finally: self.soft -= 1

    def _obj(self, st, i):
        o = st.mem.get(i)
        if o is None:
            o = self.base.mem.get(i)
            if o is None: raise Unsupported("dangling object")
            st.mem[i] = o
        return o

    def _store_at(self, st, oid, off, t, v):
        t = self.m.resolve(t)
        k = t[0]
        if k == "struct":
            for i, e in enumerate(t[1]): self._store_at(st, oid, off + self.m.fieldoff(t, i), e, v[i])
            return
        if k in ("arr", "vec"):
            es = self.m.size(t[2])
            for i in range(t[1]): self._store_at(st, oid, off + i * es, t[2], v[i])
            return
        n = self.m.size(t)
        o = st.w(oid)
        if isinstance(v, T) and v.sort == "B": v = tm.zext(v, 8)
        c = o.cells.get(off)
        if c is None or c[0] != n: self.clear(o, off, n)
        o.cells[off] = (n, v)

    def store(self, st, p, t, v, init=False):
        if isinstance(p, PtrIte):
            k = st.known(p.c)
            if k is True: return self.store(st, p.a, t, v)
            if k is False: return self.store(st, p.b, t, v)
            for q, c in ((p.a, p.c), (p.b, bnot(p.c))):
                pc = st.pc
                if not st.assume(c):
                    continue
                # guarded store: new value under c else old
                self.soft += 1
                try:
                    old = self.load(st, q, t)
                    self.store(st, q, t, merge_val(c, v, old))
                finally: self.soft -= 1
                st.pc = pc
            return
        if not isinstance(p, Ptr): raise Unsupported("store through %r" % (p,))
        if p.obj is None:
            self.fault(st, "null-deref", TRUE, "store"); return
        o = self._obj(st, p.obj)
        n = self.m.size(t)
        if not init:
            if o.const or o.kind == "in":
                self.effects.append(("const-write", self.pcterm(st), o.name))
            elif o.kind == "glob" and not self.initialising:
                self.effects.append(("global-write", self.pcterm(st), (o.name, v, self.in_guard > 0)))
        if tm.isc(p.off):
            off = tm.sval(p.off)
            if off < 0 or off + n > o.size:
                self.fault(st, "oob-store", TRUE, "%s+%d size %d" % (o.name, off, o.size)); return
            self._store_at(st, p.obj, off, t, v)
            return
        offs = sorted(k for k, (s, _) in o.cells.items() if s == n)
        if not offs: raise Unsupported("symbolic offset store")
        inb = bor(*[tm.icmp("eq", p.off, I(k, 64)) for k in offs])
        self.fault(st, "oob-store", bnot(inb), "%s symbolic offset" % o.name)
        for k in offs:
            old = self._load_at(st, self._obj(st, p.obj), k, t)
            self._store_at(st, p.obj, k, t, merge_val(tm.icmp("eq", p.off, I(k, 64)), v, old))

    def memcpy(self, st, d, s, n):
        if n == 0: return
        for p, what in ((d, "store"), (s, "load")):
            if isinstance(p, PtrIte): 
                k = st.known(p.c)
                if k is None:
                    # copy double by double
                    if n % 8: raise Unsupported("memcpy through symbolic pointer")
                    for j in range(0, n, 8):
                        v = self.load(st, self.padd(s, I(j, 64)), ("double",))
                        self.store(st, self.padd(d, I(j, 64)), ("double",), v)
                    return
        d = self.concptr(st, d); s = self.concptr(st, s)
        if d.obj is None or s.obj is None:
            self.fault(st, "null-deref", TRUE, "memcpy"); return
        so = self._obj(st, s.obj); do = self._obj(st, d.obj)
        if not (tm.isc(d.off) and tm.isc(s.off)):
            if n % 8: raise Unsupported("memcpy symbolic offset")
            for j in range(0, n, 8):
                v = self.load(st, self.padd(s, I(j, 64)), ("double",))
                self.store(st, self.padd(d, I(j, 64)), ("double",), v)
            return
        a, b = tm.sval(s.off), tm.sval(d.off)
        if a < 0 or a + n > so.size:
            self.fault(st, "oob-load", TRUE, "memcpy %s+%d n %d size %d" % (so.name, a, n, so.size)); return
        if b < 0 or b + n > do.size:
            self.fault(st, "oob-store", TRUE, "memcpy %s+%d n %d size %d" % (do.name, b, n, do.size)); return
        if do.const or do.kind == "in":
            self.effects.append(("const-write", self.pcterm(st), do.name))
        elif do.kind == "glob" and not self.initialising:
            self.effects.append(("global-write", self.pcterm(st), (do.name, None, self.in_guard > 0)))
        cells = []
        for k, (sz, v) in so.cells.items():
            if k >= a and k + sz <= a + n: cells.append((k - a, sz, v))
            elif k < a + n and k + sz > a:
                for j in range(sz):
                    if a <= k + j < a + n: cells.append((k + j - a, 1, self.byte(v, j)))
        o = st.w(d.obj)
        self.clear(o, b, n)
        for k, sz, v in cells: o.cells[b + k] = (sz, v)

    def concptr(self, st, p):
        while isinstance(p, PtrIte):
            k = st.known(p.c)
            if k is None: raise Unsupported("symbolic pointer")
            p = p.a if k else p.b
        if not isinstance(p, Ptr): raise Unsupported("pointer expected: %r" % (p,))
        return p

    def padd(self, p, off):
        if isinstance(p, PtrIte): return PtrIte(p.c, self.padd(p.a, off), self.padd(p.b, off))
        if isinstance(p, FuncPtr): raise Unsupported("arithmetic on function pointer")
        return Ptr(p.obj, tm.iop("add", p.off, off))

    def gep(self, bt, base, idx):
        t = bt
        if isinstance(base, Agg):
            raise Unsupported("vector gep")
        off = I(0, 64)
        for k, ix in enumerate(idx):
            if isinstance(ix, T) and ix.sort == "B": ix = tm.zext(ix, 64)
            if k == 0:
                ix = tm.sext(ix, 64) if ix.w < 64 else ix
                off = tm.iop("add", off, tm.iop("mul", ix, I(self.m.size(t), 64)))
                continue
            rt = self.m.resolve(t)
            if rt[0] == "struct":
                if not tm.isc(ix): raise Unsupported("symbolic struct index")
                i = tm.cval(ix)
                off = tm.iop("add", off, I(self.m.fieldoff(rt, i), 64)); t = rt[1][i]
            else:
                ix = tm.sext(ix, 64) if ix.w < 64 else ix
                off = tm.iop("add", off, tm.iop("mul", ix, I(self.m.size(rt[2]), 64))); t = rt[2]
        return self.padd(base, off)

    # ------------------------------------------------------------ casts
    def cast(self, st, op, t, v, t2):
        t = self.m.resolve(t); t2 = self.m.resolve(t2)
        if isinstance(v, Agg) and t[0] == "vec" and t2[0] == "vec" and t[1] == t2[1]:
            return Agg(self.cast(st, op, t[2], x, t2[2]) for x in v)
        if op in ("zext",): return tm.zext(v, t2[1]) if t2[1] > 1 else v
        if op == "sext": return tm.sext(v, t2[1])
        if op == "trunc": return tm.trunc(v, t2[1])
        if op == "fpext": return v
        if op == "fptrunc":
            return fop("to32", v) if t2[0] == "float" else v
        if op in ("sitofp", "uitofp"):
            if v.sort == "B": v = tm.zext(v, 8) if op == "uitofp" else tm.sext(v, 8)
            r = tm.itof(v, op == "sitofp")
            return fop("to32", r) if t2[0] == "float" else r
        if op in ("fptosi", "fptoui"):
            lo, hi = (-2.0 ** (t2[1] - 1), 2.0 ** (t2[1] - 1)) if op == "fptosi" else (0.0, 2.0 ** t2[1])
            # truncation: values above lo - 1 convert; exact for widths below 53, and no double lies between otherwise
            low = tm.fcmp("ogt", v, F(lo - 1.0)) if t2[1] < 53 or lo == 0.0 else tm.fcmp("oge", v, F(lo))
            ok = band(low, tm.fcmp("olt", v, F(hi)))
            if ok is not TRUE: self.fault(st, "float-cast-overflow", bnot(ok), "conversion to %d bits" % t2[1])
            return tm.ftoi(v, t2[1], op == "fptosi")
        if op == "bitcast":
            if t == t2 or t2[0] == "ptr": return v
            if t[0] == "double" and t2 == ("i", 64): return tm.dbits(v)
            if t == ("i", 64) and t2[0] == "double": return tm.bitsd(v)
            raise Unsupported("bitcast %r %r" % (t, t2))
        if op == "ptrtoint":
            r = self.addr(v)
            return tm.trunc(r, t2[1]) if t2[1] < 64 else r
        if op == "inttoptr": return self.toptr(tm.zext(v, 64))
        if op == "addrspacecast": return v
        raise Unsupported("cast " + op)

    # ------------------------------------------------------------ calls
    def call(self, st, name, args, rt):
        """Returns (value, state) or None if it never returns."""
        name = self.m.aliases.get(name, name)
        h = self.externals.get(name)
        if h is None:
            for rx, hh in self.ext_rx:
                if rx.match(name):
                    h = hh; self.externals[name] = hh
                    break
        if h is not None:
            r = h(self, st, name, args, rt)
            if isinstance(r, str) and r == "noreturn": return None
            if type(r) is tuple and r and r[0] == "@state": return r[1:]
            return (r, st)
        f = self.m.funcs.get(name)
        if f is None:
            return self.havoc(st, name, args, rt)
        return self.run(f, args, st)

    nhavoc = 0
    def havoc(self, st, name, args, rt):
        """A function that is not available: with plain numbers in and out its result may be anything,
        and that it may do something else is recorded."""
        rt = self.m.resolve(rt)
        if name.startswith("llvm.") or not all(isinstance(a, T) for a in args) or rt[0] not in ("double", "i", "void"):
            raise Unsupported("external function " + name)
        self.effects.append(("call", self.pcterm(st), name))
        Executor.nhavoc += 1
        n = "opaque!%s!%d" % (name, Executor.nhavoc)
        if rt[0] == "void": return (None, st)
        if rt[0] == "double": return (tm.inp(n), st)
        if rt[1] == 1: return (tm.icmp("eq", tm.ini(n, 8), I(1, 8)), st)
        return (tm.ini(n, rt[1]), st)

    def run(self, f, args, st):
        self.m.body(f)
        self.funcs.add(f.name)
        self.depth += 1
        pc0 = st.pc
        drop0 = self.dropped
        if self.depth > 200:
            self.fault(st, "unwinding", TRUE, "recursion deeper than 200 in " + f.name)
            raise PathEnd
        env = {}
        frame_objs = []
        for (nm, t, a), v in zip(f.params, args):
            if "byval" in a:
                sz = self.m.size(a["byval"])
                q = self.new(st, sz, "stack", f.name + ":" + nm); frame_objs.append(q.obj)
                self.memcpy(st, q, v, sz)
                v = q
            env[nm] = v
        wait = {}
        wait[f.entry] = [(st, env, None)]
        rets = []
        visits = {}
        splits = {}
        while wait:
            b = min(wait, key=lambda x: f.rpo[x])
            sts = wait.pop(b)
            sts = self.merge_states(sts)
            for (s, e, _) in sts:
                visits[b] = visits.get(b, 0) + 1
                if visits[b] > 20000: raise Unsupported("loop bound in " + f.name)
                d0 = self.depth
                try:
                    if splits.get(b, 0) > MAXUNWIND:
                        self.fault(s, "unwinding", TRUE, "more than %d iterations in %s" % (MAXUNWIND, f.name))
                        raise PathEnd
                    outs = self.block(f, b, s, e, frame_objs)
                except PathEnd:
                    self.dropped += 1; self.depth = d0
                    continue
                if len(outs) > 1: splits[b] = splits.get(b, 0) + 1
                for out in outs:
                    if out[0] == "ret":
                        rets.append((out[1], out[2]))
                    else:
                        wait.setdefault(out[0], []).append((out[1], out[2], None))
            tot = sum(len(x) for x in wait.values())
            if tot > MAXPATHSTATES: raise Unsupported("too many path states in " + f.name)
        self.depth -= 1
        if not rets: return None
        merged = self.merge_states([(s, {"r": v}, None) for v, s in rets])
        if len(merged) > 1:
            raise Unsupported("unmergeable returns in " + f.name)
        s, e, _ = merged[0]
        if self.dropped == drop0:
            s.pc = pc0     # every path through the function returned
        for o in frame_objs:
            s.mem.pop(o, None)
        return (e["r"], s)

    # ------------------------------------------------------------ merging
    def merge_states(self, sts):
        if len(sts) <= 1: return sts
        out = list(sts)
        # merge neighbours with the longest common prefix first
        changed = True
        fail = set()
        while len(out) > 1 and changed:
            changed = False
            best = None
            for i in range(len(out)):
                for j in range(i + 1, len(out)):
                    if (id(out[i][0]), id(out[j][0])) in fail: continue
                    a, b = out[i][0].pc, out[j][0].pc
                    n = 0
                    for x, y in zip(a, b):
                        if x is not y: break
                        n += 1
                    # prefer complementary suffixes
                    sa, sb = a[n:], b[n:]
                    comp = bool(sa and sb and sa[0] is bnot(sb[0]))
                    k = (n, comp, -(len(sa) + len(sb)))
                    if best is None or k > best[0]: best = (k, i, j, n)
            if best is None: break
            _, i, j, n = best
            r = self.merge2(out[i], out[j], n)
            if r is None:
                fail.add((id(out[i][0]), id(out[j][0])))
                changed = True
                continue
            out[i] = r; del out[j]
            changed = True
        return out

    def merge2(self, A, Bst, n):
        s1, e1, _ = A; s2, e2, _ = Bst
        cA = band(*s1.pc[n:]); cB = band(*s2.pc[n:])
        c = cA
        if cA is TRUE and cB is TRUE:
            raise Unsupported("merge of identical path conditions")
        # choose simplest selector
        if cA is not bnot(cB):
            # selector valid under (cA or cB) and disjointness of paths
            if len(s2.pc) < len(s1.pc): c = bnot(cB)
            f1 = s1.pc[n] if len(s1.pc) > n else None
            f2 = s2.pc[n] if len(s2.pc) > n else None
            if f1 is not None and f2 is not None and f1 is bnot(f2): c = f1
        try:
            env = {}
            for k, v in e1.items():
                if k in e2:
                    env[k] = v if v is e2[k] else (None if v is None and e2[k] is None else merge_val(c, v, e2[k]))
            st = State()
            st.nf = max(s1.nf, s2.nf)
            st.pc = s1.pc[:n]
            d = bor(cA, cB)
            if d is not TRUE:
                st.pc = st.pc + (tuple(d.args) if d.op == "and" else (d,))
            for i, o1 in s1.mem.items():
                o2 = s2.mem.get(i)
                if o2 is None or o2 is o1:
                    st.mem[i] = o1; continue
                st.mem[i] = self.merge_obj(c, cA, cB, o1, o2)
            for i, o2 in s2.mem.items():
                if i not in st.mem: st.mem[i] = o2
            return (st, env, None)
        except Unsupported:
            return None

    def same_layout(self, c1, c2):
        """cells of c1, split into bytes where c2 has cells of other boundaries"""
        out = {}
        for k, (s, v) in c1.items():
            if s > 1 and any((kk, ss) != (k, s) and kk < k + s and kk + ss > k for kk, (ss, _) in c2.items()):
                if not isinstance(v, T): raise Unsupported("cell layout")
                for j in range(s): out[k + j] = (1, self.byte(v, j))
            else: out[k] = (s, v)
        return out

    def merge_obj(self, c, cA, cB, o1, o2):
        o = o1.clone()
        if o1.model is not None or o2.model is not None:
            o.model = o1.model.merge(c, cA, cB, o2.model)
        c1, c2 = o1.cells, o2.cells
        if any(k in c2 and c2[k][0] != s for k, (s, _) in c1.items()):
            c1, c2 = self.same_layout(c1, c2), self.same_layout(c2, c1)
            o.cells = dict(c1)
        for k in set(c1) | set(c2):
            x, y = c1.get(k), c2.get(k)
            if x is y: continue
            if x is not None and y is not None and x[0] == y[0]:
                a, b = x[1], y[1]
                if isinstance(a, T) and isinstance(b, T) and a.sort != b.sort:
                    if a.sort == "F" and x[0] == 8: a = tm.dbits(a)
                    if b.sort == "F" and x[0] == 8: b = tm.dbits(b)
                if isinstance(a, T) and not isinstance(b, T): b = self.addr(b)
                if isinstance(b, T) and not isinstance(a, T): a = self.addr(a)
                if isinstance(a, T) and isinstance(b, T) and a.sort == "I" and x[0] == 8 and (a.op == "dbits" or b.op == "dbits"):
                    o.cells[k] = (8, ite(c, tm.bitsd(a), tm.bitsd(b))); continue
                o.cells[k] = (x[0], merge_val(c, a, b))
            elif x is None or y is None:
                z = x or y
                other = c2 if y is None else c1
                if any(kk < k + z[0] and kk + s > k for kk, (s, _) in other.items()):
                    raise Unsupported("cell layout")
                v = z[1]
                u = None
                if isinstance(v, T):
                    u = tm.undef(v.sort, v.w)
                    o.cells[k] = (z[0], ite(c, v, u) if y is None else ite(c, u, v))
                else:
                    o.cells[k] = z
            else:
                raise Unsupported("cell layout")
        return o

    # ------------------------------------------------------------ blocks
    def val(self, e, t, v):
        if v[0] == "loc":
            try:
                return e[v[1]]
            except KeyError:
                raise Unsupported("undefined register " + v[1])
        return self.const(t, v)

    def jump(self, f, frm, to, st, env):
        """Evaluate phis for the edge and produce a waiting state."""
        ins = f.blocks[to]
        new = None
        for x in ins:
            if x[0] != "phi": break
            for v, l in x[3]:
                if l == frm:
                    if new is None: new = {}
                    new[x[1]] = self.val(env, x[2], v)
        if new:
            env = dict(env); env.update(new)
        return (to, st, env)

    def block(self, f, b, st, env, frame_objs):
        env = dict(env)
        for x in f.blocks[b]:
            self.steps += 1
            if self.steps > self.maxsteps: raise Unsupported("step budget")
            op = x[0]
            if op == "phi": continue
            if op == "load":
                env[x[1]] = self.load(st, self.val(env, ("ptr",), x[3]), x[2])
            elif op == "store":
                self.store(st, self.val(env, ("ptr",), x[4]), x[2], self.val(env, x[2], x[3]))
            elif op == "gep":
                ops = [self.val(env, t, v) for t, v in x[3]]
                env[x[1]] = self.gep(x[2], ops[0], ops[1:])
            elif op == "alloca":
                n = 1
                if x[3] is not None:
                    nv = self.val(env, ("i", 32), x[3])
                    if not tm.isc(nv): raise Unsupported("variable alloca")
                    n = tm.cval(nv)
                p = self.new(st, self.m.size(x[2]) * n, "stack", f.name + ":" + x[1])
                frame_objs.append(p.obj)
                env[x[1]] = p
            elif op == "fbin":
                a = self.val(env, x[3], x[4]); c = self.val(env, x[3], x[5])
                env[x[1]] = self.fbin(x[2], self.m.resolve(x[3]), a, c)
            elif op == "fneg":
                a = self.val(env, x[2], x[3])
                env[x[1]] = Agg(fop("fneg", z) for z in a) if isinstance(a, Agg) else fop("fneg", a)
            elif op == "ibin":
                a = self.val(env, x[3], x[4]); c = self.val(env, x[3], x[5])
                env[x[1]] = self.ibin(st, x[2], a, c, x[6])
            elif op == "fcmp":
                a = self.val(env, x[3], x[4]); c = self.val(env, x[3], x[5])
                env[x[1]] = Agg(tm.fcmp(x[2], p, q) for p, q in zip(a, c)) if isinstance(a, Agg) else tm.fcmp(x[2], a, c)
            elif op == "icmp":
                a = self.val(env, x[3], x[4]); c = self.val(env, x[3], x[5])
                if not isinstance(a, (T, Agg)): a = self.addr(a)
                if not isinstance(c, (T, Agg)): c = self.addr(c)
                if isinstance(a, Agg): raise Unsupported("vector icmp")
                if a.sort == "B":
                    r = bxor_eq(x[2], a, c)
                else:
                    r = tm.icmp(x[2], a, c)
                env[x[1]] = r
            elif op == "cast":
                env[x[1]] = self.cast(st, x[2], x[3], self.val(env, x[3], x[4]), x[5])
            elif op == "select":
                c = self.val(env, ("i", 1), x[3])
                a = self.val(env, x[2], x[4]); d = self.val(env, x[2], x[5])
                k = st.known(c) if isinstance(c, T) else None
                if isinstance(c, Agg):
                    env[x[1]] = Agg(ite(p, q, r) for p, q, r in zip(c, a, d))
                else:
                    env[x[1]] = a if k is True else d if k is False else merge_val(c, a, d)
            elif op == "extractvalue":
                v = self.val(env, x[2], x[3])
                for i in x[4]: v = v[i]
                env[x[1]] = v
            elif op == "insertvalue":
                v = self.val(env, x[2], x[3])
                env[x[1]] = _ins(v, x[6], self.val(env, x[4], x[5]))
            elif op == "extractelement":
                v = self.val(env, x[2], x[3]); i = self.val(env, ("i", 64), x[4])
                env[x[1]] = v[tm.cval(i)]
            elif op == "insertelement":
                v = self.val(env, x[2], x[3]); i = self.val(env, ("i", 64), x[5])
                env[x[1]] = _ins(v, [tm.cval(i)], self.val(env, self.m.resolve(x[2])[2], x[4]))
            elif op == "shufflevector":
                a = self.val(env, x[2], x[3]); d = self.val(env, x[2], x[4])
                m = self.val(env, x[5], x[6]); ad = tuple(a) + tuple(d)
                env[x[1]] = Agg(ad[tm.cval(k)] if tm.isc(k) else self.undef(self.m.resolve(x[2])[2]) for k in m)
            elif op == "freeze":
                env[x[1]] = self.val(env, x[2], x[3])
            elif op in ("call", "invoke"):
                cal = x[3]
                if cal[0] == "glob": name = cal[1][1:]
                else:
                    fp = env[cal[1]]
                    if isinstance(fp, PtrIte): raise Unsupported("symbolic function pointer")
                    if not isinstance(fp, FuncPtr): raise Unsupported("call through %r" % (fp,))
                    name = fp.name
                if name.startswith("llvm.dbg") or name.startswith("llvm.lifetime"): continue
                args = [self.val(env, t, v) for t, v, _ in x[4]]
                r = self.call(st, name, args, x[2])
                if r is None:
                    self.dropped += 1
                    return []
                v, st = r
                if x[1] is not None: env[x[1]] = v
                if op == "invoke":
                    return [self.jump(f, b, x[5], st, env)]
            elif op == "br":
                if len(x) == 2:
                    return [self.jump(f, b, x[1], st, env)]
                c = self.val(env, ("i", 1), x[1])
                k = st.known(c)
                if k is None and self.prune is not None:
                    k = self.prune(st, c)
                if k is True: return [self.jump(f, b, x[2], st, env)]
                if k is False: return [self.jump(f, b, x[3], st, env)]
                s2 = st.fork()
                out = []
                if st.assume(c): out.append(self.jump(f, b, x[2], st, env))
                if s2.assume(bnot(c)): out.append(self.jump(f, b, x[3], s2, dict(env)))
                return out
            elif op == "switch":
                v = self.val(env, x[1], x[2])
                out = []
                cur = st
                dead = False
                for cv, l in x[4]:
                    k = self.const(x[1], cv)
                    c = tm.icmp("eq", v, k) if v.sort == "I" else bxor_eq("eq", v, k)
                    kn = cur.known(c)
                    if kn is False: continue
                    if kn is True:
                        out.append(self.jump(f, b, l, cur, dict(env))); dead = True; break
                    s2 = cur.fork()
                    if s2.assume(c): out.append(self.jump(f, b, l, s2, dict(env)))
                    if not cur.assume(bnot(c)): dead = True; break
                if not dead: out.append(self.jump(f, b, x[3], cur, env))
                return out
            elif op == "ret":
                return [("ret", None if x[1] is None else self.val(env, x[1], x[2]), st)]
            elif op == "unreachable":
                self.fault(st, "unreachable", TRUE, f.name)
                self.dropped += 1
                return []
            elif op == "nop" or op == "landingpad":
                pass
            else:
                raise Unsupported("instruction %r" % (x,))
        raise Unsupported("block without terminator")

    def fbin(self, op, t, a, b):
        if isinstance(a, Agg):
            return Agg(self.fbin(op, t[2], p, q) for p, q in zip(a, b))
        if op == "frem": op = "fmod"
        r = fop(op, a, b)
        if t[0] == "float": r = fop("to32", r)
        return r

    def ibin(self, st, op, a, b, nsw=False):
        if isinstance(a, Agg): return Agg(self.ibin(st, op, p, q, nsw) for p, q in zip(a, b))
        if a.sort == "B":
            if op == "and": return band(a, b)
            if op == "or": return bor(a, b)
            if op in ("xor", "add", "sub"): return tm.bxor(a, b)
            if op == "mul": return band(a, b)
            raise Unsupported("i1 " + op)
        if op in ("udiv", "urem", "sdiv", "srem"):
            z = tm.icmp("eq", b, I(0, b.w))
            if z is not FALSE:
                self.fault(st, "div-by-zero", z, "integer division")
                if tm.isc(b): return tm.undef("I", a.w)
        if nsw and op in ("add", "sub", "mul") and not (tm.isc(a) and tm.isc(b)) and a.w <= 64:
            w = a.w; W = 2 * w if op == "mul" else w + 8
            r = tm.iop(op, a, b)
            bad = bnot(tm.icmp("eq", tm.sext(r, W), tm.iop(op, tm.sext(a, W), tm.sext(b, W))))
            if bad is not FALSE: self.fault(st, "signed-overflow", bad, "integer " + op)
            return r
        if op in ("shl", "lshr", "ashr"):
            big = tm.icmp("uge", b, I(a.w, b.w))
            if big is not FALSE: self.fault(st, "shift-exponent", big, "shift by the width or more")
        return tm.iop(op, a, b)

def bxor_eq(pred, a, b):
    if pred == "eq": return bnot(tm.bxor(a, b))
    if pred == "ne": return tm.bxor(a, b)
    if pred in ("ugt",): return band(a, bnot(b))
    if pred in ("ult",): return band(bnot(a), b)
    if pred == "uge": return bor(a, bnot(b))
    if pred == "ule": return bor(bnot(a), b)
    raise Unsupported("icmp i1 " + pred)

def _ins(v, idx, e):
    l = list(v)
    l[idx[0]] = e if len(idx) == 1 else _ins(l[idx[0]], idx[1:], e)
    return Agg(l)

NULL = Ptr(None, I(0, 64))
