"""Parser for the textual LLVM IR (clang 18, opaque pointers) of the harnesses."""
import re

TOK = re.compile(r'''\s*(?:
  (?P<str>c?"(?:[^"\\]|\\.)*")
 |(?P<name>[%@$](?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
 |(?P<meta>![-a-zA-Z$._0-9]*)
 |(?P<attr>\#\d+)
 |(?P<num>[-+]?\d+\.\d+(?:e[-+]?\d+)?|0x[KHLMR]?[0-9A-Fa-f]+|-?\d+)
 |(?P<word>[a-zA-Z_][a-zA-Z0-9_.]*)
 |(?P<ell>\.\.\.)
 |(?P<p>[()\[\]{}<>,=*:|])
)''', re.X)

class IRError(Exception):
    pass

def tokenize(s):
    out = []
    i, n = 0, len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == "" or s[i:].lstrip().startswith(";"):
                break
            raise IRError("tokenize: " + s[i:i + 60])
        if m.lastgroup is None:
            break
        k = m.lastgroup
        v = m.group(k)
        if k == "name" and v[1] == '"':
            v = v[0] + v[2:-1]
        out.append((k, v))
        i = m.end()
        # comment
        r = s[i:].lstrip()
        if r.startswith(";"):
            break
    return out

# types: ('i',w) ('double',) ('float',) ('x86_fp80',) ('ptr',) ('void',)
#        ('arr',n,T) ('struct',[T],packed) ('vec',n,T) ('named',name) ('fn',ret,[T],va) ('metadata',) ('label',)

class Parser:
    def __init__(self, mod, toks):
        self.m = mod; self.t = toks; self.i = 0
    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else (None, None)
    def next(self):
        x = self.peek(); self.i += 1; return x
    def acc(self, v):
        if self.peek()[1] == v:
            self.i += 1
            return True
        return False
    def exp(self, v):
        if not self.acc(v):
            raise IRError("expected %r got %r in %s" % (v, self.peek(), self.t))
    def type(self):
        k, v = self.next()
        if v == "void": t = ("void",)
        elif v == "ptr":
            t = ("ptr",)
            if self.peek()[1] == "addrspace":
                self.next(); self.exp("("); self.next(); self.exp(")")
        elif v in ("double", "float", "x86_fp80", "metadata", "label", "half", "token"): t = (v,)
        elif k == "word" and re.fullmatch(r"i\d+", v): t = ("i", int(v[1:]))
        elif v == "[":
            n = int(self.next()[1]); self.exp("x"); e = self.type(); self.exp("]")
            t = ("arr", n, e)
        elif v == "<":
            if self.peek()[1] == "{":
                self.next(); t = self._struct(True); self.exp(">")
            else:
                n = int(self.next()[1]); self.exp("x"); e = self.type(); self.exp(">")
                t = ("vec", n, e)
        elif v == "{":
            t = self._struct(False)
        elif k == "name": t = ("named", v)
        else: raise IRError("type? %r in %r" % (v, self.t[:self.i + 4]))
        while self.peek()[1] == "(" :
            # function type
            self.next(); ps = []; va = False
            while not self.acc(")"):
                if self.peek()[1] == "...": self.next(); va = True
                else: ps.append(self.type())
                self.acc(",")
            t = ("fn", t, ps, va)
        return t
    def _struct(self, packed):
        es = []
        while not self.acc("}"):
            es.append(self.type()); self.acc(",")
        return ("struct", es, packed)
    PARAM_ATTRS = set("noundef nonnull noalias nocapture readonly writeonly readnone returned signext zeroext inreg immarg writable dead_on_unwind nofree allocptr swiftself nest inalloca nounwind noreturn cold nobuiltin builtin allocalign dead_on_return".split())
    def attrs(self):
        out = {}
        while True:
            k, v = self.peek()
            if k == "word" and v in ("align", "dereferenceable", "dereferenceable_or_null", "memory", "nofpclass", "captures", "initializes", "range", "allockind", "allocsize"):
                self.next()
                if self.acc("("):
                    d = 1
                    while d:
                        x = self.next()[1]
                        d += (x == "(") - (x == ")")
                elif v == "align": self.next()
            elif k == "word" and v in ("sret", "byval", "byref", "elementtype", "preallocated"):
                self.next()
                if self.acc("("):
                    out[v] = self.type(); self.exp(")")
            elif k == "word" and v in self.PARAM_ATTRS:
                self.next(); out[v] = True
            elif k == "attr": self.next()
            elif k == "str":
                self.next()
                if self.acc("="): self.next()
            else:
                return out
    def value(self, ty):
        """Value of known type -> tuple tree."""
        k, v = self.next()
        if k == "name":
            return ("loc", v) if v[0] == "%" else ("glob", v)
        if k == "num":
            if ty[0] == "i": return ("int", int(v), ty[1])
            return ("fp", v, ty[0])
        if v == "true": return ("int", 1, 1)
        if v == "false": return ("int", 0, 1)
        if v == "null": return ("null",)
        if v in ("undef", "poison"): return ("undef", ty)
        if v == "zeroinitializer": return ("zero", ty)
        if k == "str" and v.startswith("c"):
            b = re.sub(rb"\\([0-9A-Fa-f]{2})", lambda m: bytes([int(m.group(1), 16)]), v[2:-1].encode("latin1"))
            return ("bytes", b)
        if v in ("{", "[", "<"):
            close = {"{": "}", "[": "]", "<": ">"}[v]
            packed = False
            if v == "<" and self.peek()[1] == "{":
                self.next(); close = "}"; packed = True
            es = []
            while not self.acc(close):
                t = self.type(); es.append((t, self.value(t))); self.acc(",")
            if packed: self.exp(">")
            return ("agg", es)
        if v == "getelementptr":
            flags = []
            while self.peek()[1] in ("inbounds", "nuw", "nusw", "inrange"):
                if self.next()[1] == "inrange" and self.acc("("):
                    while not self.acc(")"): self.next()
            self.exp("(")
            bt = self.type(); self.exp(",")
            ops = []
            while not self.acc(")"):
                t = self.type(); ops.append((t, self.value(t))); self.acc(",")
            return ("cgep", bt, ops)
        if v in ("bitcast", "inttoptr", "ptrtoint", "addrspacecast", "trunc", "zext", "sext"):
            self.exp("("); t = self.type(); x = self.value(t); self.exp("to"); t2 = self.type(); self.exp(")")
            return ("ccast", v, t, x, t2)
        if v in ("add", "sub", "mul", "xor", "and", "or", "shl"):
            while self.peek()[1] in ("nsw", "nuw"): self.next()
            self.exp("("); t = self.type(); a = self.value(t); self.exp(","); t2 = self.type(); b = self.value(t2); self.exp(")")
            return ("cbin", v, t, a, b)
        if v == "asm": return ("asm",)
        raise IRError("value? %r in %r" % (v, self.t))
    def tv(self):
        t = self.type()
        a = self.attrs()
        if t == ("metadata",):
            # skip metadata operand
            d = 0
            while True:
                x = self.peek()[1]
                if x is None or (d == 0 and x in (",", ")")): break
                d += (x in "({[") - (x in ")}]")
                self.next()
            return t, ("undef", t), a
        return t, self.value(t), a

class Func:
    __slots__ = ("name", "ret", "params", "blocks", "order", "lines", "rpo", "mod", "entry", "retattrs")

class Module:
    def __init__(self, text):
        self.types = {}
        self.globals = {}
        self.funcs = {}
        self.decls = set()
        self.aliases = {}
        self.parse(text)
        self._layout = {}

    def parse(self, text):
        lines = text.split("\n")
        i = 0
        while i < len(lines):
            ln = lines[i]
            if ln.startswith("define "):
                j = i + 1
                while lines[j] != "}": j += 1
                f = self._define(ln, lines[i + 1:j])
                self.funcs[f.name] = f
                i = j + 1
                continue
            if ln.startswith("declare "):
                m = re.search(r'(@(?:"[^"]*"|[-a-zA-Z$._0-9]+))\(', ln)
                if m: self.decls.add(m.group(1)[1:].strip('"'))
            elif ln.startswith("%") and " = type " in ln:
                nm, rest = ln.split(" = type ", 1)
                nm = nm.strip()
                if nm[1] == '"': nm = "%" + nm[2:-1]
                if rest.strip() == "opaque":
                    self.types[nm] = ("struct", [], False)
                else:
                    self.types[nm] = Parser(self, tokenize(rest)).type()
            elif ln.startswith("@"):
                self._global(ln)
            i += 1

    def _global(self, ln):
        toks = tokenize(ln)
        name = toks[0][1][1:]
        p = Parser(self, toks); p.i = 2
        const = False
        ext = False
        tls = False
        while True:
            v = p.peek()[1]
            if v in ("constant", "global"):
                const = v == "constant"; p.next(); break
            if v == "alias":
                p.next(); t = p.type(); p.exp(","); p.type()
                self.aliases[name] = p.next()[1][1:]
                return
            if v == "external": ext = True
            if v == "thread_local": tls = True
            if v is None: return
            p.next()
            if v in ("thread_local", "addrspace", "comdat") and p.acc("("):
                while not p.acc(")"): p.next()
        t = p.type()
        init = None
        if not ext and p.peek()[1] not in (None, ",") :
            try:
                init = p.value(t)
            except IRError:
                init = ("unknown",)
        self.globals[name] = (t, init, const)

    def _define(self, head, body):
        toks = tokenize(head)
        # find the function name token followed by '('
        k = next(i for i, (a, v) in enumerate(toks) if a == "name" and v[0] == "@")
        f = Func(); f.mod = self
        f.name = toks[k][1][1:]
        # return type: parse backwards is awkward; parse from after linkage words
        p = Parser(self, toks); p.i = 1
        while True:
            kk, v = p.peek()
            if kk == "word" and v in ("dso_local", "linkonce_odr", "internal", "private", "weak_odr", "weak", "linkonce", "available_externally", "external", "hidden", "protected", "default", "unnamed_addr", "local_unnamed_addr", "fastcc", "ccc", "coldcc"):
                p.next()
            else:
                break
        f.retattrs = p.attrs()
        f.ret = p.type()
        p.i = k + 1
        p.exp("(")
        f.params = []
        n = 0
        while not p.acc(")"):
            if p.acc("..."): continue
            t = p.type(); a = p.attrs()
            kk, v = p.peek()
            if kk == "name" and v[0] == "%":
                p.next(); nm = v
            else:
                nm = "%" + str(n)
            f.params.append((nm, t, a)); n += 1
            p.acc(",")
        f.lines = body
        f.blocks = None
        # implicit entry label number = number of unnamed params
        f.entry = None
        return f

    def body(self, f):
        """Parse blocks lazily."""
        if f.blocks is not None: return f
        blocks = {}
        order = []
        # entry label
        cur = None
        nunnamed = sum(1 for nm, _, _ in f.params if re.fullmatch(r"%\d+", nm))
        cur = "%" + str(nunnamed)
        blocks[cur] = []; order.append(cur)
        pend = ""
        first = True
        for ln in f.lines:
            s = ln.strip()
            if not s or s.startswith(";"):
                continue
            m = re.match(r'^("(?:[^"]*)"|[-a-zA-Z$._0-9]+):(\s|$)', ln)
            if m and not ln.startswith(" "):
                lab = "%" + m.group(1).strip('"')
                if first and not blocks[cur]:
                    del blocks[cur]; order.pop()
                cur = lab
                blocks[cur] = []; order.append(cur)
                first = False
                continue
            first = False
            if pend:
                pend += " " + s
                if s.endswith("]"):
                    blocks[cur].append(self.instr(pend)); pend = ""
                continue
            if s.startswith("switch ") and not s.endswith("]"):
                pend = s; continue
            if s.startswith(("cleanup", "catch ", "filter ")) :
                continue
            if re.match(r"(%\S+ = )?landingpad", s):
                blocks[cur].append(("landingpad", None)); continue
            if s.startswith("to label"):
                # continuation of an invoke
                blocks[cur][-1] = self.instr(blocks[cur][-1][1] + " " + s); continue
            if re.match(r"(%\S+ = )?invoke ", s) and " to label " not in s:
                blocks[cur].append(("rawinvoke", s)); continue
            blocks[cur].append(self.instr(s))
        f.blocks = blocks; f.order = order; f.entry = order[0]
        # reverse post order
        succ = {b: self.succs(blocks[b][-1]) for b in order}
        seen = set(); post = []
        st = [(f.entry, iter(succ[f.entry]))]; seen.add(f.entry)
        while st:
            b, it = st[-1]
            for s2 in it:
                if s2 not in seen:
                    seen.add(s2); st.append((s2, iter(succ[s2]))); break
            else:
                post.append(b); st.pop()
        # loops must come before loop exits: RPO from DFS may place exits first;
        # compute with exit-later preference using loop nesting.
        rpo = list(reversed(post))
        f.rpo = self._looporder(f.entry, rpo, succ)
        return f

    @staticmethod
    def _looporder(entry, rpo, succ):
        """Topological order in which all blocks of a loop precede its exits (Bourdoncle-like)."""
        idx = {}
        counter = [0]
        def scc(nodes):
            nodes = set(nodes)
            index = {}; low = {}; st = []; on = set(); out = []; c = [0]
            def dfs(root):
                work = [(root, iter([s for s in succ[root] if s in nodes]))]
                index[root] = low[root] = c[0]; c[0] += 1; st.append(root); on.add(root)
                while work:
                    v, it = work[-1]
                    adv = False
                    for w in it:
                        if w not in index:
                            index[w] = low[w] = c[0]; c[0] += 1; st.append(w); on.add(w)
                            work.append((w, iter([s for s in succ[w] if s in nodes]))); adv = True
                            break
                        elif w in on:
                            low[v] = min(low[v], index[w])
                    if adv: continue
                    work.pop()
                    if work: low[work[-1][0]] = min(low[work[-1][0]], low[v])
                    if low[v] == index[v]:
                        comp = []
                        while True:
                            w = st.pop(); on.discard(w); comp.append(w)
                            if w == v: break
                        out.append(comp)
            for v in rpo:
                if v in nodes and v not in index: dfs(v)
            return list(reversed(out))   # topological
        def number(nodes, entries):
            for comp in scc(nodes):
                if len(comp) == 1:
                    idx[comp[0]] = counter[0]; counter[0] += 1
                else:
                    # header: first in rpo
                    h = min(comp, key=rpo.index)
                    idx[h] = counter[0]; counter[0] += 1
                    number([x for x in comp if x != h], None)
        number([b for b in rpo], entry)
        return idx

    @staticmethod
    def succs(ins):
        if ins[0] == "br": return [ins[1]] if len(ins) == 2 else [ins[2], ins[3]]
        if ins[0] == "switch": return [ins[3]] + [l for _, l in ins[4]]
        if ins[0] == "invoke": return [ins[-1]]
        return []

    def instr(self, s):
        # strip trailing metadata
        s = re.sub(r",\s*!(dbg|tbaa|srcloc|noundef|range|nonnull|llvm\.[a-z.]+|prof|heapallocsite|align|loop)\b.*$", "", s)
        toks = tokenize(s)
        p = Parser(self, toks)
        res = None
        if len(toks) > 1 and toks[1][1] == "=" and toks[0][0] == "name":
            res = toks[0][1]; p.i = 2
        k, op = p.next()
        if op in ("tail", "musttail", "notail"):
            k, op = p.next()
        FMF = {"nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "fast"}
        if op in ("fadd", "fsub", "fmul", "fdiv", "frem"):
            while p.peek()[1] in FMF: p.next()
            t = p.type(); a = p.value(t); p.exp(","); b = p.value(t)
            return ("fbin", res, op, t, a, b)
        if op == "fneg":
            while p.peek()[1] in FMF: p.next()
            t = p.type(); return ("fneg", res, t, p.value(t))
        if op in ("add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor"):
            nsw = False
            while p.peek()[1] in ("nsw", "nuw", "exact", "disjoint"):
                if p.next()[1] == "nsw": nsw = True
            t = p.type(); a = p.value(t); p.exp(","); b = p.value(t)
            return ("ibin", res, op, t, a, b, nsw)
        if op == "fcmp":
            while p.peek()[1] in FMF: p.next()
            pred = p.next()[1]; t = p.type(); a = p.value(t); p.exp(","); b = p.value(t)
            return ("fcmp", res, pred, t, a, b)
        if op == "icmp":
            pred = p.next()[1]; t = p.type(); a = p.value(t); p.exp(","); b = p.value(t)
            return ("icmp", res, pred, t, a, b)
        if op == "alloca":
            t = p.type()
            n = None
            if p.acc(","):
                if p.peek()[1] != "align":
                    nt = p.type(); n = p.value(nt)
            return ("alloca", res, t, n)
        if op == "load":
            p.acc("atomic"); p.acc("volatile")
            t = p.type(); p.exp(","); pt = p.type(); a = p.value(pt)
            return ("load", res, t, a)
        if op == "store":
            p.acc("atomic"); p.acc("volatile")
            t = p.type(); v = p.value(t); p.exp(","); pt = p.type(); a = p.value(pt)
            return ("store", None, t, v, a)
        if op == "getelementptr":
            while p.peek()[1] in ("inbounds", "nuw", "nusw"): p.next()
            bt = p.type(); p.exp(",")
            ops = []
            while p.peek()[1] is not None:
                t = p.type(); ops.append((t, p.value(t)))
                if not p.acc(","): break
            return ("gep", res, bt, ops)
        if op == "br":
            if p.acc("label"): return ("br", p.next()[1])
            t = p.type(); c = p.value(t); p.exp(","); p.exp("label"); a = p.next()[1]; p.exp(","); p.exp("label"); b = p.next()[1]
            return ("br", c, a, b)
        if op == "switch":
            t = p.type(); v = p.value(t); p.exp(","); p.exp("label"); d = p.next()[1]; p.exp("[")
            cases = []
            while not p.acc("]"):
                ct = p.type(); cv = p.value(ct); p.exp(","); p.exp("label"); cases.append((cv, p.next()[1]))
            return ("switch", t, v, d, cases)
        if op == "ret":
            t = p.type()
            return ("ret", None, None) if t == ("void",) else ("ret", t, p.value(t))
        if op == "phi":
            while p.peek()[1] in FMF: p.next()
            t = p.type(); inc = []
            while True:
                p.exp("["); v = p.value(t); p.exp(","); l = p.next()[1]; p.exp("]"); inc.append((v, l))
                if not p.acc(","): break
            return ("phi", res, t, inc)
        if op == "select":
            while p.peek()[1] in FMF: p.next()
            ct = p.type(); c = p.value(ct); p.exp(","); t = p.type(); a = p.value(t); p.exp(","); t2 = p.type(); b = p.value(t2)
            return ("select", res, t, c, a, b)
        if op in ("zext", "sext", "trunc", "fpext", "fptrunc", "sitofp", "uitofp", "fptosi", "fptoui", "bitcast", "ptrtoint", "inttoptr", "addrspacecast"):
            while p.peek()[1] in ("nneg", "nuw", "nsw"): p.next()
            t = p.type(); v = p.value(t); p.exp("to"); t2 = p.type()
            return ("cast", res, op, t, v, t2)
        if op == "extractvalue":
            t = p.type(); v = p.value(t); idx = []
            while p.acc(","): idx.append(int(p.next()[1]))
            return ("extractvalue", res, t, v, idx)
        if op == "insertvalue":
            t = p.type(); v = p.value(t); p.exp(","); t2 = p.type(); e = p.value(t2); idx = []
            while p.acc(","): idx.append(int(p.next()[1]))
            return ("insertvalue", res, t, v, t2, e, idx)
        if op == "extractelement":
            t = p.type(); v = p.value(t); p.exp(","); t2 = p.type(); i = p.value(t2)
            return ("extractelement", res, t, v, i)
        if op == "insertelement":
            t = p.type(); v = p.value(t); p.exp(","); t2 = p.type(); e = p.value(t2); p.exp(","); t3 = p.type(); i = p.value(t3)
            return ("insertelement", res, t, v, e, i)
        if op == "shufflevector":
            t = p.type(); a = p.value(t); p.exp(","); t2 = p.type(); b = p.value(t2); p.exp(","); t3 = p.type(); m = p.value(t3)
            return ("shufflevector", res, t, a, b, t3, m)
        if op == "freeze":
            t = p.type(); return ("freeze", res, t, p.value(t))
        if op == "unreachable": return ("unreachable",)
        if op == "resume": return ("unreachable",)
        if op in ("call", "invoke"):
            while p.peek()[1] in FMF or p.peek()[1] in ("fastcc", "ccc", "coldcc"): p.next()
            p.attrs()
            rt = p.type()
            k2, v2 = p.next()
            if v2 == "asm":
                raise IRError("inline asm")
            callee = ("glob", v2) if v2[0] == "@" else ("loc", v2)
            p.exp("(")
            args = []
            while not p.acc(")"):
                args.append(p.tv()); p.acc(",")
            if rt[0] == "fn": rt = rt[1]
            if op == "invoke":
                while p.peek()[1] != "to": p.next()
                p.next(); p.exp("label"); nd = p.next()[1]
                return ("invoke", res, rt, callee, args, nd)
            return ("call", res, rt, callee, args)
        if op in ("fence",): return ("nop", None)
        return ("unsupported", res, op, s)

    # ------------------------------------------------------------ data layout
    def resolve(self, t):
        while t[0] == "named":
            t = self.types[t[1]]
        return t

    def align(self, t):
        t = self.resolve(t); k = t[0]
        if k == "i": return max(1, min(8 if t[1] <= 64 else 16, 1 << ((t[1] + 7) // 8 - 1).bit_length()))
        if k in ("double", "ptr"): return 8
        if k == "float": return 4
        if k == "x86_fp80": return 16
        if k == "arr": return self.align(t[2])
        if k == "vec": return self.size(t)
        if k == "struct":
            return 1 if t[2] else max([self.align(e) for e in t[1]] or [1])
        if k == "void" or k == "fn": return 1
        raise IRError("align " + repr(t))

    def size(self, t):
        t = self.resolve(t); k = t[0]
        if k == "i": return (t[1] + 7) // 8
        if k in ("double", "ptr"): return 8
        if k == "float": return 4
        if k == "x86_fp80": return 16
        if k == "arr": return t[1] * self.size(t[2])
        if k == "vec": return t[1] * self.size(t[2])
        if k == "struct":
            o = 0
            for e in t[1]:
                if not t[2]:
                    a = self.align(e); o = (o + a - 1) // a * a
                o += self.size(e)
            if not t[2]:
                a = self.align(t); o = (o + a - 1) // a * a
            return o
        raise IRError("size " + repr(t))

    def fieldoff(self, t, i):
        t = self.resolve(t)
        o = 0
        for j, e in enumerate(t[1]):
            if not t[2]:
                a = self.align(e); o = (o + a - 1) // a * a
            if j == i: return o
            o += self.size(e)
        raise IRError("field")
