"""Model of iostreams, strings and C output.

A stream is an ordinary object with a fake virtual table, so that the compiled code finds
its ios_base subobject and manipulates flags, precision, width and state in memory itself.
What has been written (and what a string holds) is a handle: an integer naming an immutable
sequence of tokens, text or a number together with the flags, precision, width and fill it
was formatted with.  Reading a number has a symbolic outcome per position in the input.
"""
from . import term as tm
from .term import TRUE, FALSE, I, T, band, bor, bnot, ite

BASE = 1000
# offsets inside the ios_base / basic_ios subobject (Itanium ABI, libstdc++)
PREC, WIDTH, FLAGS, STATE, FILL, BUF, POS = 8, 16, 24, 32, 224, 232, 240
BAD, EOF, FAIL = 1, 2, 4
SKIPWS_DEC = 4098
OS, SS, IS = ("o", 112, 376), ("s", 128, 392), ("i", 120, 384)

class Tok(tuple):
    """("lit", bytes) | ("num", value, flags, precision, width, fill) | ("int", value) | ("pad", width, fill)"""

def install(ex):
    from .exec import Unsupported, Ptr, FuncPtr
    ex.toks = [()]; ex.tokid = {(): 0}; ex.vt = {}
    E = ex.externals
    STR = "_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE"
    STRC = "_ZNKSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE"
    def reg(h, *names):
        for n in names: E[n] = h
    # ------------------------------------------------------------ token sequences
    def tid(ts):
        ts = tuple(ts)
        if ts not in ex.tokid:
            ex.tokid[ts] = len(ex.toks); ex.toks.append(ts)
        return I(BASE + ex.tokid[ts], 64)
    def hmap(t, f):
        if not isinstance(t, T): raise Unsupported("stream contents")
        if tm.isc(t):
            k = tm.cval(t)
            return f(k)
        if t.op == "ite": return ite(t.args[0], hmap(t.args[1], f), hmap(t.args[2], f))
        raise Unsupported("symbolic stream contents")
    def toks(k):
        if not BASE <= k < BASE + len(ex.toks): raise Unsupported("not a string")
        return ex.toks[k - BASE]
    def cat(a, b):
        return hmap(a, lambda x: hmap(b, lambda y: tid(toks(x) + toks(y))))
    ex.tokens = toks; ex.tid = tid
    L = lambda st, p, off, w: ex.load(st, ex.padd(p, I(off, 64)), ("i", w))
    def W(st, p, off, v, w):
        p = ex.concptr(st, p)
        ex.store(st, ex.padd(p, I(off, 64)), ("i", w), v, init=True)
    def vt(off):
        if off not in ex.vt:
            p = ex.new(ex.base, 64, "vtable", "vtable%d" % off)
            ex._store_at(ex.base, p.obj, 0, ("i", 64), I(off, 64))
            ex.vt[off] = Ptr(p.obj, I(24, 64))
        return ex.vt[off]
    def ios(st, p):
        p = ex.concptr(st, p)
        v = ex.concptr(st, ex.load(st, p, ("ptr",)))
        off = ex.load(st, ex.padd(v, I(-24, 64)), ("i", 64))
        if not tm.isc(off): raise Unsupported("stream of unknown kind")
        return ex.padd(p, off)
    def mkstream(st, p, kind, flags=None, prec=None, width=None, state=None):
        k, off, _ = kind
        ex.store(st, p, ("ptr",), vt(off), init=True)
        if k == "s": ex.store(st, ex.padd(p, I(16, 64)), ("ptr",), vt(off - 16), init=True)
        b = ex.padd(p, I(off, 64))
        ex.store(st, b, ("ptr",), vt(0), init=True)
        W(st, b, PREC, I(6, 64) if prec is None else prec, 64)
        W(st, b, WIDTH, I(0, 64) if width is None else width, 64)
        W(st, b, FLAGS, I(SKIPWS_DEC, 32) if flags is None else flags, 32)
        W(st, b, STATE, I(0, 32) if state is None else state, 32)
        W(st, b, FILL, I(32, 8), 8)
        W(st, b, BUF, tid(()), 64)
        W(st, b, POS, I(BASE, 64), 64)
    def newstream(st, kind, kindname="stream", **kw):
        p = ex.new(st, kind[2], kindname, "stream")
        mkstream(st, p, kind, **kw)
        return p
    ex.newstream = newstream; ex.iosof = ios
    ex.contents = lambda st, p: L(st, ios(st, p), BUF, 64)
    ex.position = lambda st, p: L(st, ios(st, p), POS, 64)
    ex.iostate = lambda st, p: L(st, ios(st, p), STATE, 32)
    def extern_global(name, p):
        if name in ("_ZSt4cout", "_ZSt4cerr", "_ZSt4clog"):
            o = ex.base.mem[p.obj]; o.size = 376; o.kind = "extstream"; o.const = False
            mkstream(ex.base, p, OS); return True
        if name == "_ZSt3cin":
            o = ex.base.mem[p.obj]; o.size = 384; o.kind = "extstream"; o.const = False
            mkstream(ex.base, p, IS); return True
        return False
    ex.extern_global = extern_global
    def touch(st, p, what):
        o = ex._obj(st, ex.concptr(st, p).obj)
        if o.kind == "extstream":
            ex.effects.append(("io", ex.pcterm(st), "%s %s" % (what, o.name)))
            return True
        return False
    # ------------------------------------------------------------ output
    def emit(st, os, h):
        """h: handle of what is appended"""
        if touch(st, os, "output on"): return
        b = ios(st, os)
        s = L(st, b, STATE, 32)
        if not (tm.isc(s) and tm.cval(s) == 0): raise Unsupported("output on a stream that may have failed")
        W(st, b, BUF, cat(L(st, b, BUF, 64), h), 64)
    def padded(st, os, h):
        """text insertion: honours and resets the field width"""
        b = ios(st, os)
        w = L(st, b, WIDTH, 64)
        if not (tm.isc(w) and tm.cval(w) == 0):
            h = cat(tid([Tok(("pad", w, L(st, b, FILL, 8)))]), h)
        W(st, b, WIDTH, I(0, 64), 64)
        emit(st, os, h)
    def number(st, os, v):
        b = ios(st, os)
        t = Tok(("num", v, L(st, b, FLAGS, 32), L(st, b, PREC, 64), L(st, b, WIDTH, 64), L(st, b, FILL, 8)))
        W(st, b, WIDTH, I(0, 64), 64)
        emit(st, os, tid([t]))
    def lit(b):
        return tid([Tok(("lit", bytes(b)))] if b else [])
    def text(st, p):
        """Handle behind a pointer to the characters of a string (null: ordinary memory)."""
        p = ex.concptr(st, p)
        if p.obj is None or ex._obj(st, p.obj).kind != "text": return None
        if not (tm.isc(p.off) and tm.cval(p.off) == 0): raise Unsupported("pointer into text")
        return ex.load(st, p, ("i", 64))
    def lit_at(st, p, n=None):
        """Handle of the characters at p: n of them, or up to the terminating zero."""
        h = text(st, p)
        if h is None:
            if n is not None and not tm.isc(n): raise Unsupported("text of symbolic length")
            return lit(cstr(st, p, None if n is None else tm.cval(n)))
        if n is not None and not (isinstance(n, T) and ex.lens.get(n.id) is h): raise Unsupported("part of a text")
        return h
    ex.lens = {}
    def length(st, h):
        def f(k):
            ts = toks(k)
            return I(sum(len(t[1]) for t in ts), 64) if all(t[0] == "lit" for t in ts) else None
        if tm.isc(h) and f(tm.cval(h)) is not None: return f(tm.cval(h))
        n = tm.undef("I", 64)
        ex.lens[n.id] = h; ex.keep = getattr(ex, "keep", []) + [n]
        return n
    def strlen(ex_, st, nm, a, rt):
        h = text(st, a[0])
        return I(len(cstr(st, a[0])), 64) if h is None else length(st, h)
    reg(strlen, "strlen", "_ZNSt11char_traitsIcE6lengthEPKc")
    def cstr(st, p, n=None):
        p = ex.concptr(st, p); out = []
        while n is None or len(out) < n:
            c = ex.load(st, ex.padd(p, I(len(out), 64)), ("i", 8))
            if not tm.isc(c): raise Unsupported("symbolic character")
            if n is None and tm.cval(c) == 0: break
            out.append(tm.cval(c))
            if len(out) > 4096: raise Unsupported("long text")
        return out
    def put_double(ex_, st, nm, a, rt):
        number(st, a[0], a[1]); return a[0]
    reg(put_double, "_ZNSolsEd", "_ZNSolsEf", "_ZNSolsEe", "_ZNSo9_M_insertIdEERSoT_", "_ZNSo9_M_insertIeEERSoT_")
    def put_int(ex_, st, nm, a, rt):
        padded(st, a[0], tid([Tok(("int", a[1]))])); return a[0]
    reg(put_int, *["_ZNSolsE" + c for c in "ijlmstxybPK"])
    def put_cstr(ex_, st, nm, a, rt):
        padded(st, a[0], lit_at(st, a[1])); return a[0]
    reg(put_cstr, "_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc")
    def put_char(ex_, st, nm, a, rt):
        if not tm.isc(a[1]): raise Unsupported("symbolic character")
        padded(st, a[0], lit([tm.cval(a[1]) & 255])); return a[0]
    reg(put_char, "_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_c")
    def put_raw(ex_, st, nm, a, rt):
        if not tm.isc(a[1]): raise Unsupported("symbolic character")
        emit(st, a[0], lit([tm.cval(a[1]) & 255])); return a[0]
    reg(put_raw, "_ZNSo3putEc")
    def write(ex_, st, nm, a, rt):
        h = lit_at(st, a[1], a[2])
        (padded if "__ostream_insert" in nm else emit)(st, a[0], h); return a[0]
    reg(write, "_ZNSo5writeEPKcl", "_ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l")
    def put_string(ex_, st, nm, a, rt):
        padded(st, a[0], L(st, a[1], 0, 64)); return a[0]
    reg(put_string, "_ZStlsIcSt11char_traitsIcESaIcEERSt13basic_ostreamIT_T0_ES7_RKNSt7__cxx1112basic_stringIS4_S5_T1_EE")
    def setw(ex_, st, nm, a, rt):
        touch(st, a[0], "field width of"); W(st, ios(st, a[0]), WIDTH, tm.sext(a[1], 64), 64); return a[0]
    def setp(ex_, st, nm, a, rt):
        touch(st, a[0], "precision of"); W(st, ios(st, a[0]), PREC, tm.sext(a[1], 64), 64); return a[0]
    def setfill(ex_, st, nm, a, rt):
        touch(st, a[0], "fill of"); W(st, ios(st, a[0]), FILL, tm.trunc(a[1], 8), 8); return a[0]
    P2 = "_ZStlsIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_"
    reg(setw, P2 + "St5_Setw"); reg(setp, P2 + "St13_Setprecision"); reg(setfill, P2 + "St8_SetfillIS3_E")
    P3 = "_ZStrsIcSt11char_traitsIcEERSt13basic_istreamIT_T0_ES6_"
    reg(setw, P3 + "St5_Setw"); reg(setp, P3 + "St13_Setprecision")
    def flagop(set_, clear):
        def h(ex_, st, nm, a, rt):
            b = ios(st, a[0]); f = L(st, b, FLAGS, 32)
            W(st, b, FLAGS, tm.iop("or", tm.iop("and", f, I(~clear & 0xffffffff, 32)), I(set_, 32)), 32); return a[0]
        return h
    def setios(ex_, st, nm, a, rt):
        b = ios(st, a[0]); f = L(st, b, FLAGS, 32)
        f = tm.iop("or", f, a[1]) if nm.endswith("12_Setiosflags") else tm.iop("and", f, tm.iop("xor", a[1], I(-1, 32)))
        W(st, b, FLAGS, f, 32); return a[0]
    reg(setios, P2 + "St12_Setiosflags", P2 + "St14_Resetiosflags")
    def manip(ex_, st, nm, a, rt):
        f = a[1]
        if not isinstance(f, FuncPtr): raise Unsupported("stream manipulator")
        arg = a[0] if nm.endswith("PFRSoS_E") or nm.endswith("PFRSiS_E") else ios(st, a[0])
        if ex._obj(st, ex.concptr(st, a[0]).obj).kind == "extstream": touch(st, a[0], "manipulator on")
        r = ex.call(st, f.name, [arg], ("ptr",))
        if r is None: return "noreturn"
        return ("@state", a[0], r[1])
    reg(manip, "_ZNSolsEPFRSt8ios_baseS0_E", "_ZNSolsEPFRSt9basic_iosIcSt11char_traitsIcEES3_E", "_ZNSolsEPFRSoS_E",
        "_ZNSirsEPFRSt8ios_baseS0_E", "_ZNSirsEPFRSiS_E")
    def endl(ex_, st, nm, a, rt):
        emit(st, a[0], lit(b"\n")); return a[0]
    reg(endl, "_ZSt4endlIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_")
    same = lambda ex_, st, nm, a, rt: a[0]
    reg(same, "_ZSt5flushIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_", "_ZNSo5flushEv")
    # ------------------------------------------------------------ state of a stream (this: basic_ios)
    BI, BIC = "_ZNSt9basic_iosIcSt11char_traitsIcEE", "_ZNKSt9basic_iosIcSt11char_traitsIcEE"
    st32 = lambda st, p: L(st, p, STATE, 32)
    nz = lambda t, m: bnot(tm.icmp("eq", tm.iop("and", t, I(m, 32)), I(0, 32)))
    reg(lambda e, st, nm, a, rt: nz(st32(st, a[0]), FAIL | BAD), BIC + "4failEv", BIC + "ntEv")
    reg(lambda e, st, nm, a, rt: bnot(nz(st32(st, a[0]), FAIL | BAD)), BIC + "cvbEv")
    reg(lambda e, st, nm, a, rt: bnot(nz(st32(st, a[0]), 7)), BIC + "4goodEv")
    reg(lambda e, st, nm, a, rt: nz(st32(st, a[0]), EOF), BIC + "3eofEv")
    reg(lambda e, st, nm, a, rt: nz(st32(st, a[0]), BAD), BIC + "3badEv")
    reg(lambda e, st, nm, a, rt: st32(st, a[0]), BIC + "7rdstateEv")
    def setclear(ex_, st, nm, a, rt):
        W(st, a[0], STATE, a[1], 32)
    reg(setclear, BI + "5clearESt12_Ios_Iostate")
    def setstate(ex_, st, nm, a, rt):
        W(st, a[0], STATE, tm.iop("or", st32(st, a[0]), a[1]), 32)
    reg(setstate, BI + "8setstateESt12_Ios_Iostate", BI + "11_M_setstateESt12_Ios_Iostate")
    reg(lambda e, st, nm, a, rt: L(st, a[0], FILL, 8), BIC + "4fillEv")
    def fill1(ex_, st, nm, a, rt):
        o = L(st, a[0], FILL, 8); W(st, a[0], FILL, a[1], 8); return o
    reg(fill1, BI + "4fillEc")
    def copyfmt(ex_, st, nm, a, rt):
        for off, w in ((PREC, 64), (WIDTH, 64), (FLAGS, 32), (FILL, 8)): W(st, a[0], off, L(st, a[1], off, w), w)
        return a[0]
    reg(copyfmt, BI + "7copyfmtERKS2_")
    # ------------------------------------------------------------ string streams
    def ctor(kind):
        def h(ex_, st, nm, a, rt):
            if len(a) > 1 and isinstance(a[1], Ptr): raise Unsupported("stream constructed from text")
            mkstream(st, ex.concptr(st, a[0]), kind)
        return h
    nop = lambda ex_, st, nm, a, rt: None
    for nm, kind in (("19basic_ostringstream", OS), ("18basic_stringstream", SS), ("19basic_istringstream", IS)):
        p = "_ZNSt7__cxx11%sIcSt11char_traitsIcESaIcEE" % nm; c = "_ZNKSt7__cxx11%sIcSt11char_traitsIcESaIcEE" % nm
        reg(ctor(kind), p + "C1Ev", p + "C1ESt13_Ios_Openmode", p + "C1ERKNS_12basic_stringIcS2_S3_EESt13_Ios_Openmode")
        reg(nop, p + "D1Ev", p + "D2Ev")
        def getstr(ex_, st, nm_, a, rt):
            W(st, a[0], 0, L(st, ios(st, a[1]), BUF, 64), 64)
        reg(getstr, c + "3strEv")
        def setstr(ex_, st, nm_, a, rt):
            W(st, ios(st, a[0]), BUF, L(st, a[1], 0, 64), 64)
        reg(setstr, p + "3strERKNS_12basic_stringIcS2_S3_EE")
    # ------------------------------------------------------------ strings: handle in the first word
    H = lambda st, p: L(st, p, 0, 64)
    def sset(st, p, h): W(st, p, 0, h, 64)
    def s_empty(ex_, st, nm, a, rt): sset(st, a[0], tid(()))
    reg(s_empty, STR + "C1Ev", STR + "C2Ev", STR + "5clearEv", STR + "C1ERKS3_")
    def s_copy(ex_, st, nm, a, rt):
        sset(st, a[0], H(st, a[1])); return a[0]
    reg(s_copy, STR + "C1ERKS4_", STR + "C2ERKS4_", STR + "C1EOS4_", STR + "C2EOS4_", STR + "C1EOS4_RKS3_", STR + "C1ERKS4_RKS3_", STR + "aSERKS4_", STR + "aSEOS4_",
        STR + "6assignERKS4_", STR + "6assignEOS4_")
    def s_cstr(ex_, st, nm, a, rt):
        sset(st, a[0], lit_at(st, a[1])); return a[0]
    reg(s_cstr, STR + "C1EPKcRKS3_", STR + "C2EPKcRKS3_", STR + "C1IS3_EEPKcRKS3_", STR + "C2IS3_EEPKcRKS3_", STR + "aSEPKc", STR + "6assignEPKc")
    def s_fill(ex_, st, nm, a, rt):
        if not (tm.isc(a[1]) and tm.isc(a[2])): raise Unsupported("text of symbolic length")
        sset(st, a[0], lit([tm.cval(a[2]) & 255] * tm.cval(a[1]))); return a[0]
    reg(s_fill, STR + "C1EmcRKS3_", STR + "C2EmcRKS3_", STR + "C1IS3_EEmcRKS3_", STR + "C2IS3_EEmcRKS3_")
    def s_app(ex_, st, nm, a, rt):
        sset(st, a[0], cat(H(st, a[0]), H(st, a[1]))); return a[0]
    reg(s_app, STR + "6appendERKS4_", STR + "pLERKS4_")
    def s_appc(ex_, st, nm, a, rt):
        sset(st, a[0], cat(H(st, a[0]), lit_at(st, a[1]))); return a[0]
    reg(s_appc, STR + "6appendEPKc", STR + "pLEPKc")
    def s_appn(ex_, st, nm, a, rt):
        if not (tm.isc(a[1]) and tm.isc(a[2])): raise Unsupported("text of symbolic length")
        sset(st, a[0], cat(H(st, a[0]), lit([tm.cval(a[2]) & 255] * tm.cval(a[1])))); return a[0]
    reg(s_appn, STR + "6appendEmc")
    def s_push(ex_, st, nm, a, rt):
        if not tm.isc(a[1]): raise Unsupported("symbolic character")
        sset(st, a[0], cat(H(st, a[0]), lit([tm.cval(a[1]) & 255]))); return a[0]
    reg(s_push, STR + "9push_backEc", STR + "pLEc")
    def s_ins0(ex_, st, nm, a, rt):
        if not (tm.isc(a[1]) and tm.cval(a[1]) == 0): raise Unsupported("string insertion")
        sset(st, a[0], cat(H(st, a[2]) if nm.endswith("RKS4_") else lit(cstr(st, a[2])), H(st, a[0]))); return a[0]
    reg(s_ins0, STR + "6insertEmRKS4_", STR + "6insertEmPKc")
    def s_data(ex_, st, nm, a, rt):
        h = H(st, a[0])
        p = ex.new(st, 8, "text", "text"); ex.store(st, p, ("i", 64), h, init=True)
        return p
    reg(s_data, STRC + "5c_strEv", STRC + "4dataEv", STR + "4dataEv")
    reg(lambda e, st, nm, a, rt: length(st, H(st, a[0])), STRC + "4sizeEv", STRC + "6lengthEv")
    def s_part(ex_, st, nm, a, rt):
        h = lit_at(st, a[1], a[2])
        sset(st, a[0], cat(H(st, a[0]), h) if "append" in nm else h); return a[0]
    reg(s_part, STR + "C1EPKcmRKS3_", STR + "C2EPKcmRKS3_", STR + "6appendEPKcm", STR + "6assignEPKcm")
    reg(nop, STR + "D1Ev", STR + "D2Ev", STR + "7reserveEm", STR + "7reserveEv")
    def s_isempty(ex_, st, nm, a, rt):
        def f(k):
            ts = toks(k)
            if not ts: return TRUE
            if any(t[0] in ("lit", "num", "int") for t in ts): return FALSE
            raise Unsupported("length of text")
        def g(t):
            if tm.isc(t): return f(tm.cval(t))
            if t.op == "ite": return ite(t.args[0], g(t.args[1]), g(t.args[2]))
            raise Unsupported("length of text")
        return g(H(st, a[0]))
    reg(s_isempty, STRC + "5emptyEv")
    # concatenation: sret, lhs, rhs
    PL = "_ZStplIcSt11char_traitsIcESaIcEENSt7__cxx1112basic_stringIT_T0_T1_EE"
    def conv(st, p, k):
        if k == "s": return H(st, p)
        if k == "z": return lit_at(st, p)
        if not tm.isc(p): raise Unsupported("symbolic character")
        return lit([tm.cval(p) & 255])
    def plus(l, r):
        def h(ex_, st, nm, a, rt):
            sset(st, a[0], cat(conv(st, a[1], l), conv(st, a[2], r)))
        return h
    for l, r, ss in (("s", "s", ("RKS8_SA_", "RKS8_OS8_", "OS8_RKS8_", "OS8_S9_", "OS8_OS8_")), ("s", "z", ("RKS8_PKS5_", "OS8_PKS5_")),
                     ("z", "s", ("PKS5_RKS8_", "PKS5_OS8_")), ("s", "c", ("RKS8_S5_", "OS8_S5_")), ("c", "s", ("S5_RKS8_", "S5_OS8_"))):
        for x in ss: reg(plus(l, r), PL + x)
    # ------------------------------------------------------------ input
    def get_double(ex_, st, nm, a, rt):
        if touch(st, a[0], "input from"): pass
        b = ios(st, a[0])
        s = L(st, b, STATE, 32); pos = L(st, b, POS, 64)
        good = tm.icmp("eq", s, I(0, 32))
        old = ex.load(st, a[1], ("double",))
        def sel(f):
            def g(t):
                if tm.isc(t): return f(tm.cval(t) - BASE)
                if t.op == "ite": return ite(t.args[0], g(t.args[1]), g(t.args[2]))
                raise Unsupported("position in the input")
            return g(pos)
        bit = lambda c, v: ite(c, I(v, 32), I(0, 32))
        raised = sel(lambda k: tm.iop("or", bit(tm.inb("rf%d" % k), FAIL), tm.iop("or", bit(tm.inb("re%d" % k), EOF), bit(tm.inb("rb%d" % k), BAD))))
        val = sel(lambda k: ite(band(tm.inb("rf%d" % k), tm.inb("rk%d" % k)), old, tm.inp("v%d" % k)))
        W(st, b, STATE, ite(good, raised, tm.iop("or", s, I(FAIL, 32))), 32)
        ex.store(st, a[1], ("double",), ite(good, val, old))
        nxt = sel(lambda k: I(BASE + k + 1, 64))
        W(st, b, POS, ite(good, nxt, pos), 64)
        return a[0]
    reg(get_double, "_ZNSirsERd", "_ZNSi10_M_extractIdEERSiRT_")
    # ------------------------------------------------------------ C output
    def cio(ex_, st, nm, a, rt):
        ex.effects.append(("io", ex.pcterm(st), nm)); return I(0, 32)
    reg(cio, "puts", "putchar", "printf", "fputs", "fputc", "putc", "fprintf", "fflush", "perror", "write", "vprintf", "vfprintf", "dprintf", "putchar_unlocked")
    def cio64(ex_, st, nm, a, rt):
        ex.effects.append(("io", ex.pcterm(st), nm)); return I(0, 64)
    reg(cio64, "fwrite", "time", "clock", "random")
    def hidden(ex_, st, nm, a, rt):
        ex.effects.append(("hidden-state", ex.pcterm(st), nm)); return tm.undef("I", 32)
    reg(hidden, "rand")
    for fn in ("fegetround", "fesetround", "feclearexcept", "feraiseexcept"):
        reg((lambda ex_, st, nm, a, rt: (ex.effects.append(("fp-environment", ex.pcterm(st), nm)), I(0, 32))[1]) if fn != "fegetround"
            else (lambda ex_, st, nm, a, rt: I(0, 32)), fn)
