"""A harness group: symbolic encoding and native execution of its functions."""
import ctypes, marshal, struct, time, contextlib
from . import term as tm
from .term import F, I, T, TRUE
from .ir import Module
from .exec import Executor, Unsupported, PathEnd

LOG = None      # shared memory of this worker: the native call in progress (see ctx.par)

def _begin(what):
    if LOG is None: return
    try: d = marshal.dumps(what)
    except ValueError: d = marshal.dumps(("?", repr(what)[:2000], None))
    if len(d) > len(LOG) - 12: d = marshal.dumps((what[0], what[1], None))
    LOG[12:12 + len(d)] = d
    LOG[0:12] = struct.pack("di", time.time(), len(d))

def _end():
    if LOG is not None: LOG[8:12] = b"\0\0\0\0"

@contextlib.contextmanager
def inside(group, fn, *inputs):
    """marks a native call that does not go through Group.native"""
    _begin((group.name, fn + " " + repr(inputs)[:1500], None))
    try: yield
    finally: _end()

def in_progress(log):
    """(start, (group, function, arguments)) of the native call a worker was in, or None"""
    t, n = struct.unpack("di", log[0:12])
    return (t, marshal.loads(log[12:12 + n])) if n else None

class Result:
    __slots__ = ("opaque", "again", "ret", "outs", "faults", "effects", "pc", "returns", "state", "ins")

class Group:
    def __init__(self, builder, name):
        self.name = name
        self.b = builder
        self.th = builder.start(name)
        self._ex = None
        self._lib = None
    @property
    def ex(self):
        if self._ex is None:
            path = self.b.wait(("ir", self.name), self.th[("ir", self.name)])
            self.mod = Module(open(path).read())
            self._ex = Executor(self.mod)
        return self._ex
    @property
    def lib(self):
        if self._lib is None:
            path = self.b.wait(("so", self.name), self.th[("so", self.name)])
            self._lib = ctypes.CDLL(path)
        return self._lib
    def has(self, fn):
        self.ex
        return fn in self.mod.funcs

    opaque = True
    nopaque = 0
    def fresh(self):
        Group.nopaque += 1
        return "opaque!%d" % Group.nopaque
    def sym(self, fn, *args, st=None):
        """args: list of F terms (read-only double array), int n (output of n doubles), I/B term or ('raw', value)."""
        ex = self.ex
        free = self.opaque and st is None
        st = st or ex.base.fork()
        n0, e0 = len(ex.faults), len(ex.effects)
        av, outs, ins = [], [], []
        for k, a in enumerate(args):
            if isinstance(a, (list, tuple)) and not (a and a[0] == "raw"):
                p = ex.new(st, 8 * len(a), "in", "arg%d" % k)
                for j, x in enumerate(a):
                    ex._store_at(st, p.obj, 8 * j, ("double",), x)
                av.append(p); ins.append((p, list(a)))
            elif isinstance(a, int):
                p = ex.new(st, 8 * a, "out", "out%d" % k)
                av.append(p); outs.append((p, a))
            elif isinstance(a, tuple):
                av.append(a[1])
            else:
                av.append(a)
        res = Result(); res.opaque = res.again = None
        try: r = ex.call(st, fn, av, ("i", 32))
        except PathEnd: r = None; ex.depth = 0
        except (Unsupported, NotImplementedError, RecursionError) as e:
            if not free: raise
            r = None; ex.depth = ex.in_guard = 0
            res.opaque = "%s: %s" % (type(e).__name__, e)
        res.faults = ex.faults[n0:]; res.effects = ex.effects[e0:]
        if r is None and free:
            # nothing is known about the results: obligations over them stay open (or hold for any
            # value whatever), and their candidate models are replayed on the native code
            res.returns = False; res.state = None; res.ins = []; res.pc = TRUE
            if res.opaque: res.faults = res.faults + [("not-encodable", TRUE, res.opaque)]
            res.ret = tm.ini(self.fresh(), 32)
            if all(isinstance(a, (list, int)) for a in args):
                res.again = lambda: self.native(fn, *[[1.0] * len(a) if isinstance(a, list) else a for a in args])[0]
            res.outs = [[tm.inp(self.fresh()) for _ in range(n)] for p, n in outs]
            return res
        res.returns = r is not None
        res.ret = None; res.outs = []; res.state = None
        if r is not None:
            res.ret, st2 = r
            res.state = st2
            res.pc = tm.band(*st2.pc)
            for p, n in outs:
                res.outs.append([ex.load(st2, tm_ptr(p, 8 * j), ("double",)) for j in range(n)])
            res.ins = [([ex.load(st2, tm_ptr(p, 8 * j), ("double",)) for j in range(len(a))], a) for p, a in ins]
        return res

    def native(self, fn, *args, restype=ctypes.c_int):
        """args: list of floats (input), int n (output), ('u', int) 64-bit, ('i', int) 32-bit. Returns (ret, outs)."""
        f = getattr(self.lib, fn)
        f.restype = restype
        av, outs = [], []
        for a in args:
            if isinstance(a, list):
                av.append((ctypes.c_double * max(1, len(a)))(*a))
            elif isinstance(a, int):
                o = (ctypes.c_double * a)(*([float("nan")] * a)); outs.append(o); av.append(o)
            elif a[0] == "u": av.append(ctypes.c_uint64(a[1]))
            elif a[0] == "i": av.append(ctypes.c_int(a[1]))
        _begin((self.name, fn, args))
        r = f(*av)
        _end()
        return r, [list(o) for o in outs]

def load_complex(builder):
    """Concrete evaluation of the complex library functions (used to validate encodings)."""
    th = builder.start("native", so_only=True)
    lib = ctypes.CDLL(builder.wait(("so", "native"), th[("so", "native")]))
    def mkf(name, part):
        f = getattr(lib, "n_" + name)
        n = 4 if name in ("divdc3", "cpow") else 2
        f.argtypes = [ctypes.c_double] * n + [ctypes.POINTER(ctypes.c_double)]
        f.restype = None
        def call(*a):
            o = (ctypes.c_double * 2)()
            f(*a, o)
            return o[part]
        return call
    for op in tm.CPLX:
        nm, part = op.rsplit("_", 1)
        tm.NATIVE_CPLX[op] = mkf(nm, 0 if part == "re" else 1)

def tm_ptr(p, off):
    from .exec import Ptr
    return Ptr(p.obj, I(off, 64))
