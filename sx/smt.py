"""SMT back end for real arithmetic queries: z3 in process first, then a portfolio of
solver processes with hard time limits."""
import subprocess, time, os, re, tempfile, shutil
from fractions import Fraction as Fr
import z3

class Stats:
    def __init__(self):
        self.queries = 0; self.time = 0.0; self.unsat = 0; self.sat = 0; self.unknown = 0
        self.ext = 0
        self.deadline = None
    def left(self):
        return 1e9 if self.deadline is None else self.deadline - time.time()
STATS = Stats()

def q(c):
    c = Fr(c)
    return z3.RealVal("%d/%d" % (c.numerator, c.denominator)) if c.denominator != 1 else z3.RealVal(c.numerator)

def modelval(m, v):
    x = m.eval(v, model_completion=True)
    if z3.is_rational_value(x): return Fr(x.numerator_as_long(), x.denominator_as_long())
    if z3.is_algebraic_value(x):
        x = x.approx(40)
        return Fr(x.numerator_as_long(), x.denominator_as_long())
    return None

_Z3BIN = shutil.which("z3-new") or shutil.which("z3")
_CVC5 = shutil.which("cvc5")

def check(cons, vars_=(), timeout=5.0, quick=1.0, logic=True):
    """-> ('unsat', None) | ('sat', {name: Fraction}) | ('unknown', None)"""
    t0 = time.time()
    STATS.queries += 1
    timeout = min(timeout, max(0.2, STATS.left()))
    quick = min(quick, timeout)
    try:
        r = _inproc(cons, vars_, quick)
        if r[0] == "unknown" and timeout > quick + 0.2:
            r = _portfolio(cons, vars_, timeout - quick)
    finally:
        STATS.time += time.time() - t0
    if r[0] == "unsat": STATS.unsat += 1
    elif r[0] == "sat": STATS.sat += 1
    else: STATS.unknown += 1
    return r

def _inproc(cons, vars_, tmo):
    for mk, share in ((lambda: z3.Solver(), 0.5), (lambda: z3.Tactic("qfnra-nlsat").solver(), 0.5)):
        s = mk()
        s.set("timeout", int(max(50, tmo * 1000 * share)))
        s.add(*cons)
        try:
            r = s.check()
        except z3.Z3Exception:
            continue
        if r == z3.unsat: return ("unsat", None)
        if r == z3.sat:
            m = s.model()
            try:
                return ("sat", {str(v): modelval(m, v) for v in vars_})
            except Exception:
                continue
    return ("unknown", None)

def _portfolio(cons, vars_, tmo):
    s = z3.Solver(); s.add(*cons)
    body = s.to_smt2().replace("(check-sat)", "")
    body = re.sub(r"\(set-info[^\n]*\n", "", body)
    names = [str(v) for v in vars_]
    gv = "(get-value (%s))" % " ".join(_sym(n) for n in names) if names else ""
    d = tempfile.mkdtemp(prefix="engq_")
    procs = []
    try:
        f1 = os.path.join(d, "a.smt2"); open(f1, "w").write("(set-option :pp.decimal true)(set-option :pp.decimal_precision 40)\n" + body + "(check-sat)\n" + gv)
        f2 = os.path.join(d, "b.smt2"); open(f2, "w").write("(set-option :pp.decimal true)(set-option :pp.decimal_precision 40)\n" + body + "(check-sat-using (then simplify purify-arith propagate-values solve-eqs qfnra-nlsat))\n" + gv)
        f3 = os.path.join(d, "c.smt2"); open(f3, "w").write("(set-logic QF_NRA)\n" + body + "(check-sat)\n")
        cmds = []
        if _Z3BIN: cmds += [[_Z3BIN, "-T:%d" % max(1, int(tmo + 1)), f1], [_Z3BIN, "-T:%d" % max(1, int(tmo + 1)), f2]]
        if _CVC5: cmds += [[_CVC5, "--tlimit=%d" % int(tmo * 1000), "--nl-cov", f3]]
        for c in cmds:
            procs.append(subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True))
        STATS.ext += len(procs)
        end = time.time() + tmo + 0.5
        live = list(procs)
        while live and time.time() < end:
            for p in list(live):
                if p.poll() is not None:
                    live.remove(p)
                    o = p.stdout.read()
                    first = o.strip().split("\n")[0] if o.strip() else ""
                    if "(error" in o and first not in ("sat", "unsat"): continue
                    if first == "unsat": return ("unsat", None)
                    if first == "sat" and p.args[0] != _CVC5:
                        mv = _parse(o, names)
                        if mv is not None: return ("sat", mv)
            time.sleep(0.01)
        return ("unknown", None)
    finally:
        for p in procs:
            if p.poll() is None: p.kill()
            p.wait(); p.stdout.close()
        shutil.rmtree(d, ignore_errors=True)

def _sym(n):
    return n if re.fullmatch(r"[A-Za-z_!][A-Za-z0-9_!.]*", n) else "|%s|" % n

def _num(e):
    if isinstance(e, str):
        e = e.rstrip("?")
        return Fr(e)
    if e[0] == "-": return -_num(e[1])
    if e[0] == "/": return _num(e[1]) / _num(e[2])
    raise ValueError

def _parse(o, names):
    try:
        txt = o[o.index("(("):]
    except ValueError:
        return {} if not names else None
    toks = re.findall(r"\(|\)|\|[^|]*\||[^\s()]+", txt)
    pos = 0
    def rd():
        nonlocal pos
        t = toks[pos]; pos += 1
        if t == "(":
            l = []
            while toks[pos] != ")": l.append(rd())
            pos += 1
            return l
        return t
    try:
        l = rd()
        out = {}
        for n, v in l: out[n.strip("|")] = _num(v)
        return out
    except Exception:
        return None


def lincheck(cons, tmo=0.5):
    """Linear real arithmetic: True when unsatisfiable."""
    t0 = time.time(); STATS.queries += 1
    s = z3.SolverFor("QF_LRA"); s.set("timeout", int(1000 * tmo)); s.add(*cons)
    r = s.check()
    STATS.time += time.time() - t0
    if r == z3.unsat: STATS.unsat += 1; return True
    if r == z3.sat: STATS.sat += 1
    else: STATS.unknown += 1
    return False
