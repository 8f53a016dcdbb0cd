"""Streams: token sequences a writer produces, and native drivers."""
import ctypes, re
from .util import *
from sx.enc import inside
from sx import iomodel
from sx.exec import Ptr, PtrIte, Unsupported

ORDER = dict(D="x", S="0", V="123", B="456", T="7", P="0456", I="1237", C="07", X="123456", M="01234567")
NCOMP = dict(D=1, S=1, V=3, B=3, T=1, P=4, I=4, C=2, X=6, M=8)
GRADES = dict(S=[(0, 1)], V=[(0, 3)], B=[(0, 3)], T=[(0, 1)], P=[(0, 1), (1, 4)], I=[(0, 3), (3, 4)], C=[(0, 1), (1, 2)], X=[(0, 3), (3, 6)],
              M=[(0, 1), (1, 4), (4, 7), (7, 8)], a1=[(0, 1)], a2=[(0, 2)], a3=[(0, 3)], a4=[(0, 4)], a5=[(0, 5)])
FLOATFIELD, FIXED, SCIENTIFIC = 260, 4, 256

def leaves(t, cond=TRUE):
    """[(condition, constant)] of an ite tree"""
    if tm.isc(t): return [(cond, tm.cval(t))]
    if t.op == "ite":
        return leaves(t.args[1], band(cond, t.args[0])) + leaves(t.args[2], band(cond, bnot(t.args[0])))
    raise Unsupported("symbolic stream contents")

def buf(g, fn, *args, cap=1 << 16):
    """native driver writing text"""
    f = getattr(g.lib, fn); f.restype = ctypes.c_size_t
    b = ctypes.create_string_buffer(cap)
    av = []
    for a in args:
        if isinstance(a, list): av.append((ctypes.c_double * max(1, len(a)))(*a))
        elif a[0] == "u": av.append(ctypes.c_size_t(a[1]))
        else: av.append(ctypes.c_int(a[1]))
    with inside(g, fn, *args): n = f(*av, b, ctypes.c_size_t(cap))
    if n > cap: return buf(g, fn, *args, cap=n + 16)
    return b.raw[:n].decode("latin1")

def spell(v, conv, p):
    """how the C library prints v (as a pattern for NaN, whose sign is unspecified)"""
    if v != v: return None
    if v in (float("inf"), float("-inf")): return "inf" if v > 0 else "-inf"
    return "%.*%s".replace("%s", conv) % (p, v)

def examine(text, vals, conv, prec, width, lead_blank, flags=0):
    """Does text hold exactly vals in order, blank separated, in the format?  -> None or reason"""
    toks = [(m.start(), m.end(), m.group()) for m in re.finditer(r"[^ \t]+", text)]
    if len(toks) != len(vals):
        return "%d tokens for %d components" % (len(toks), len(vals))
    prev = 0
    for k, (a, b, s) in enumerate(toks):
        w = spell(vals[k], conv, prec)
        if w is None:
            if s.lstrip("+-").lower() != "nan": return "component %d printed as %r" % (k, s)
        elif s.lower() != w.lower() and s.lower() != "+" + w.lower(): return "component %d printed as %r, expected %r" % (k, s, w)
        if (lead_blank or k) and a == prev: return "component %d not preceded by whitespace" % k
        if width is not None and b - prev < width + (1 if (lead_blank or k) else 0): return "component %d in a field of %d" % (k, b - prev)
        prev = b
    return None

WITNESS = [(-1.2345e300, 7.7e250), (1.5, 2.25), (-1234567.25, 3.5), (0.0, -0.0), (1e-5, -3e-7), (float("nan"), float("inf")), (-99999999.125, 12345678.5), (1e20, -1e21)]

def witnesses(n):
    out = []
    for a, b in WITNESS:
        out.append([a if k % 2 == 0 else b for k in range(n)])
        out.append([(a if k % 2 == 0 else b) * (1.0 + 0.0625 * k) for k in range(n)])
        for j in range(min(n, 8)):
            out.append([(a if k == j else b) for k in range(n)])
    return out

def structure(tokens, nvals, lead_blank, int_ok=False):
    """Shape of a token sequence -> (numbers, problem or None)"""
    nums, blank, prob = [], False, None
    for t in tokens:
        if t[0] == "lit":
            if any(c not in b" \t" for c in t[1]): prob = prob or "text %r" % t[1]
            blank = True
        elif t[0] == "pad": pass
        elif t[0] == "num":
            if not blank and (lead_blank or nums): prob = prob or "number %d not separated" % len(nums)
            nums.append(t); blank = False
        else: prob = prob or "unexpected %s" % t[0]
    if len(nums) != nvals: prob = prob or "%d numbers for %d components" % (len(nums), nvals)
    return nums, prob

def check_tokens(rec, fn, ex, pc, handle, vals, names, conv, prec, width, judge, lead_blank=True, assume=TRUE, extra=()):
    """Obligations for everything written: order, values, separation and format."""
    field = FIXED if conv == "f" else SCIENTIFIC
    lv = leaves(handle)
    rec.leaves += len(lv)
    for li, (c, h) in enumerate(lv):
        if len(rec.violations) >= 3: break
        lab = fn if len(lv) == 1 else "%s:case %d" % (fn, li)
        cond = band(pc, c, assume)
        nums, prob = structure(ex.tokens(h), len(vals), lead_blank)
        if prob:
            fails(rec, lab + ":" + prob, cond, judge, names, len(vals)); continue
        fp.prove(rec, lab + ":values in order", band(*[ident(t[1], v) for t, v in zip(nums, vals)]), judge, assume=cond, inputs=names)
        fp.prove(rec, lab + ":notation", band(*[tm.icmp("eq", tm.iop("and", t[2], tm.I(FLOATFIELD, 32)), tm.I(field, 32)) for t in nums]), judge, assume=cond, inputs=names)
        fp.prove(rec, lab + ":digits after the point", band(*[tm.icmp("eq", t[3], prec) for t in nums]), judge, assume=cond, inputs=names)
        if width is not None:
            fp.prove(rec, lab + ":field width", band(*[tm.icmp("sge", t[4], width) for t in nums]), judge, assume=cond, inputs=names)
        fp.prove(rec, lab + ":padding is blank", band(*[tm.icmp("eq", t[5], tm.I(32, 8)) for t in nums]), judge, assume=cond, inputs=names)

def ident(a, b):
    """same number (also the sign of zero), or both NaN"""
    return bor(band(tm.fcmp("oeq", a, b), bnot(tm.bxor(tm.signbit(a), tm.signbit(b)))), band(tm.fpclass(3, a), tm.fpclass(3, b)))

def fails(rec, name, cond, judge, names, n):
    """the shape is wrong whenever cond holds: is cond satisfiable, and does it show natively?"""
    r, m = fp.check(cond, timeout=10.0)
    if r == "unsat":
        rec.ok(name + " (unreachable)"); return
    if r == "sat":
        full = {k: m.get(k, 0.0) for k in names}
        for k, v in m.items(): full[k] = v
        tries = [full]
        vn = [k for k in names if re.match(r"^[ab]\d+$", k)]
        for w in witnesses(len(vn)):
            d = dict(full); d.update(zip(vn, w)); tries.append(d)
        for d in tries:
            rec.replays += 1
            bad, detail = judge(d)
            if bad:
                rec.bad(name, {k: v for k, v in d.items() if not k.startswith("undef")}, detail); return
    rec.maybe(name, "not reproduced natively (solver %s)" % r)
