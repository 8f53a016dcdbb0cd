"""Context of one check: builds, obligations, parallel execution, evidence, verdict."""
import os, sys, json, time, random, signal, threading, traceback, mmap, resource, multiprocessing as mp, multiprocessing.connection as mpc
from . import smt, real, enc, term as tm
from .build import Builder, BuildError, HERE, REPO
from .enc import Group
from .exec import Unsupported

class Rec:
    """What a (sub)task established."""
    def __init__(self):
        self.discharged = []; self.undecided = []; self.violations = []; self.samples = []
        self.leaves = 0; self.replays = 0; self.funcs = set(); self.steps = 0; self.notes = []
        self.queries = 0; self.qtime = 0.0; self.unsat = 0; self.sat = 0; self.unknown = 0; self.validated = 0
        self.known = []
        self.fallback = None    # (name, judge, models): candidates to replay when the code cannot be encoded
    def try_fallback(self):
        """not a verdict on the property: only looks for a native counterexample of what the encoding leaves open"""
        if not self.fallback: return
        name, judge, models = self.fallback; self.fallback = None
        for m in models:
            self.replays += 1
            bad, d = judge(m)
            if bad: self.bad(name, {k: v for k, v in m.items()}, d); return
    def merge(self, o):
        self.discharged += o.discharged; self.undecided += o.undecided; self.violations += o.violations
        self.samples += o.samples; self.notes += o.notes; self.known += o.known
        for k in ("leaves", "replays", "steps", "queries", "unsat", "sat", "unknown", "validated"):
            setattr(self, k, getattr(self, k) + getattr(o, k))
        self.qtime += o.qtime; self.funcs |= o.funcs
    def ok(self, name): self.discharged.append(name)
    def maybe(self, name, why): self.undecided.append((name, str(why)[:4000]))
    def bad(self, name, inputs, detail, calls=None, key=None):
        self.violations.append(dict(obligation=name, inputs=_js(inputs), detail=_js(detail), calls=calls, key=key))
    def note(self, s):
        if s not in self.notes: self.notes.append(s)
    def prover(self, p):
        p.merged = True
        self.discharged += p.proved; self.undecided += [(n, w[:4000]) for n, w in p.undecided]
        self.leaves += p.leaves; self.replays += p.replays; self.validated += p.validated
        for label, name, ins, detail in p.violations:
            self.bad("%s [%s]" % (label, name), ins, detail)
        self.samples += [dict(obligation=l, inputs=_js(i)) for l, i in p.witnesses[:2]]
    def stats(self):
        s = smt.STATS
        self.queries += s.queries; self.qtime += s.time; self.unsat += s.unsat; self.sat += s.sat; self.unknown += s.unknown
        s.queries = s.unsat = s.sat = s.unknown = 0; s.time = 0.0

def _js(x):
    if isinstance(x, dict): return {str(k): _js(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)): return [_js(v) for v in x]
    if isinstance(x, float): return x.hex() + " (%r)" % x if x == x and abs(x) != float("inf") else repr(x)
    if isinstance(x, (int, bool, str)) or x is None: return x
    return str(x)

_TASKS = []
_BASE = []

class TaskTimeout(BaseException): pass

def _alarm(*a): raise TaskTimeout()

def _arm(t):
    # repeated: an exception raised inside a destructor is lost
    signal.setitimer(signal.ITIMER_REAL, max(t, 0.05) if t else 0, 0.5 if t else 0)

def _leftovers(rec, limit):
    """after a task was cut short: keep what its provers established and replay ordinary points"""
    t1 = time.time() + limit
    for p in real.LIVE:
        if p.merged: continue
        left = t1 - time.time()
        if not p.violations and left > 0.2:
            p.hunted = 0.0
            p.hunt(p.label + ":cut short", seconds=left)
        rec.prover(p)

def _run(i):
    label, fn, ctx = _TASKS[i]
    rec = Rec()
    main = threading.current_thread() is threading.main_thread()
    del real.LIVE[:]
    if main:
        signal.signal(signal.SIGALRM, _alarm)
        _arm(min(ctx.deadline - time.time() + 2, ctx.task_budget + (8 if ctx.quick else 60)))
    smt.STATS.queries = smt.STATS.unsat = smt.STATS.sat = smt.STATS.unknown = 0; smt.STATS.time = 0.0
    smt.STATS.deadline = min(ctx.deadline, time.time() + ctx.task_budget)
    for g in ctx.groups.values():
        if g._ex: g._ex.funcs = set()
    s0 = sum(g._ex.steps for g in ctx.groups.values() if g._ex)
    cut = False
    try:
        try: fn(rec)
        finally:
            if main: _arm(0)
    except TaskTimeout:
        cut = True
        if main: _arm(0)
    except (Unsupported, NotImplementedError, RecursionError) as e:
        rec.maybe(label, "not encodable: %s: %s" % (type(e).__name__, e))
        try: rec.try_fallback()
        except Exception as e2: rec.note("fallback of %s: %s" % (label, e2))
    except Exception as e:
        rec.maybe(label, "internal: %s: %s %s" % (type(e).__name__, e, traceback.format_exc()[-600:]))
        try: rec.try_fallback()
        except Exception as e2: rec.note("fallback of %s: %s" % (label, e2))
    if cut:
        rec.maybe(label, "time budget of the task exhausted")
        try:
            if main: _arm(12)
            try:
                rec.try_fallback()
                _leftovers(rec, 6)
            finally:
                if main: _arm(0)
        except TaskTimeout:
            if main: _arm(0)
        except Exception as e2: rec.note("after the timeout of %s: %s" % (label, e2))
    rec.fallback = None
    rec.stats()
    for g in ctx.groups.values():
        if g._ex: rec.funcs |= g._ex.funcs
    rec.steps += sum(g._ex.steps for g in ctx.groups.values() if g._ex) - s0
    return i, rec

class Ctx:
    def __init__(self, pid, tier="quick", seed=1):
        self.pid = pid; self.tier = tier; self.seed = seed
        self.quick = tier != "thorough"
        self.t0 = time.time()
        self.budget = 150 if self.quick else 3000
        self.task_budget = 60 if self.quick else 900
        self.deadline = self.t0 + self.budget
        self.b = Builder()
        self.groups = {}
        self.rec = Rec()
        self.assumptions = []
        self.bounds = {}
        self.method = ""
        self.rng = random.Random(seed)
    def group(self, name):
        if name not in self.groups: self.groups[name] = Group(self.b, name)
        return self.groups[name]
    def load(self, *names):
        gs = [self.group(n) for n in names]
        if not tm.NATIVE_CPLX and "func" in names:
            from .enc import load_complex
            load_complex(self.b)
        for g in gs: g.ex; g.lib
        return gs if len(gs) > 1 else gs[0]
    def assume(self, *s):
        for x in s:
            if x not in self.assumptions: self.assumptions.append(x)
    def par(self, tasks, workers=8):
        """tasks: [(label, fn(rec))]"""
        global _TASKS
        base = len(_TASKS)
        _TASKS += [(l, f, self) for l, f in tasks]
        todo = set(range(base, base + len(tasks)))
        if os.environ.get("SX_SERIAL"):
            for i in sorted(todo):
                self.rec.merge(_run(i)[1]); 
            return
        kf = known_findings(self.pid)
        c = mp.get_context("fork")
        order = sorted(todo); nxt = 0; cut = None
        ws = {}                         # connection -> [process, task or None, log of native calls]
        def spawn():
            pa, ch = c.Pipe()
            log = mmap.mmap(-1, 1 << 14)
            p = c.Process(target=_worker, args=(ch, [w for w in ws] + [pa], log), daemon=True)
            p.start(); ch.close(); ws[pa] = [p, None, log]
            return pa
        def give(conn):
            nonlocal nxt
            if nxt < len(order):
                ws[conn][1] = order[nxt]; conn.send(order[nxt]); nxt += 1
            else: ws[conn][1] = None
        def lost(conn, hung):
            """the code under test ended (or did not return to) the process it was replayed in"""
            p, i, log = ws.pop(conn)
            if hung: p.kill()
            p.join(2); conn.close()
            todo.discard(i)
            self.rec.merge(self.aftermath(_TASKS[i][0], p.exitcode, enc.in_progress(log), hung))
            if nxt < len(order): give(spawn())
        for _ in range(min(workers, len(order))): give(spawn())
        stop = "time budget of the check exhausted"
        while any(w[1] is not None for w in ws.values()):
            left = min(self.deadline + 15, cut or 1e18) - time.time()
            if left <= 0: break
            for conn in mpc.wait([k for k, w in ws.items() if w[1] is not None], timeout=min(left, 2.0)):
                try: rec = conn.recv()
                except (EOFError, OSError, ConnectionError):
                    lost(conn, False); continue
                todo.discard(ws[conn][1]); self.rec.merge(rec)
                give(conn)
            for conn in [k for k, w in ws.items() if w[1] is not None]:
                c0 = enc.in_progress(ws[conn][2])
                if c0 and time.time() - c0[0] > 20: lost(conn, True)
            nv = sum(1 for v in self.rec.violations if v["key"] not in kf)
            if cut is None and (nv >= 3 or nv and time.time() - self.t0 > 45):
                cut = time.time() + 10; stop = "not decided: violations were found already"
        for conn, (p, _, _) in ws.items():
            p.kill()
        for i in sorted(todo): self.rec.maybe(_TASKS[i][0], stop)

    def aftermath(self, label, code, call, hung):
        """verdict on a native call that crashed or hung; a crash or hang of the real code on concrete
        arguments is a violation when it happens again in a fresh process"""
        rec = Rec(); rec.replays += 1
        if call is None or not (hung or code and -code in CRASH):
            rec.maybe(label, "the native replay ended its process (exit code %s)" % code); return rec
        grp, fn, args = call[1]
        how = "no return within 20 s" if hung else "signal %d" % -code
        if args is not None and grp in self.groups:
            g = self.groups[grp]
            pid = os.fork()
            if pid == 0:
                try:
                    enc.LOG = None
                    signal.signal(signal.SIGALRM, signal.SIG_DFL); signal.setitimer(signal.ITIMER_REAL, 10)
                    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                    d = os.open(os.devnull, os.O_WRONLY); os.dup2(d, 1); os.dup2(d, 2)
                    g.native(fn, *args)
                finally: os._exit(0)
            st = os.waitpid(pid, 0)[1]
            sg = os.WTERMSIG(st) if os.WIFSIGNALED(st) else 0
            if sg not in CRASH and sg != signal.SIGALRM:
                rec.maybe(label, "%s in %s, not repeated" % (how, fn)); return rec
            how = "no return within 10 s" if sg == signal.SIGALRM else "signal %d (%s)" % (sg, signal.Signals(sg).name)
        rec.bad(label + ": the call does not return", dict(function=fn, arguments=args), dict(native=how))
        return rec

CRASH = {signal.SIGSEGV, signal.SIGABRT, signal.SIGFPE, signal.SIGBUS, signal.SIGILL}

def _worker(conn, others, log):
    enc.LOG = log
    for o in others: o.close()
    while True:
        try: i = conn.recv()
        except (EOFError, OSError): os._exit(0)
        r = _run(i)[1]
        conn.send(r)

# ------------------------------------------------------------------ verdict
def known_findings(pid):
    out = {}
    try:
        for l in open(os.path.join(HERE, "known-findings.txt")):
            l = l.strip()
            if l.startswith("finding: property=%s " % pid):
                d = l.split(" ", 2)[2]
                k, what = d.split(" ", 1)
                out[k.split("=", 1)[1]] = what
    except OSError: pass
    return out

def finish(ctx):
    r = ctx.rec
    r.stats()
    kf = known_findings(ctx.pid)
    new, seen = [], {}
    for v in r.violations:
        if v["key"] in kf: seen[v["key"]] = v
        else: new.append(v)
    rd = os.path.join(HERE, "replay"); os.makedirs(rd, exist_ok=True)
    for k in sorted(seen): print("KNOWN-FINDING: property=%s %s (%s)" % (ctx.pid, kf[k], k))
    path = None
    if new:
        path = os.path.join(rd, "%s.json" % ctx.pid)
        json.dump(dict(property=ctx.pid, violations=new[:20]), open(path, "w"), indent=1)
        for v in new[:5]:
            print("  broken: %s\n    inputs %s\n    %s" % (v["obligation"], json.dumps(v["inputs"])[:600], json.dumps(v["detail"])[:600]))
        print("VIOLATION property=%s replay=%s" % (ctx.pid, path))
    nob = len(r.discharged) + len(r.undecided) + len(r.violations)
    fn = sorted(f for f in r.funcs if not f.startswith("llvm."))
    lib = [f for f in fn if "engabra" in f]
    ev = dict(property=ctx.pid, tier=ctx.tier, seed=ctx.seed, level="model_checking",
              coverage=dict(states=r.leaves, transitions=r.steps, traces_validated_against_impl=r.replays,
                            samples=r.samples[:6] or [dict(note="no path witness was needed")],
                            obligations=nob, discharged=len(r.discharged), undecided=len(r.undecided),
                            undecided_list=[dict(obligation=a, why=b) for a, b in r.undecided[:60]],
                            queries=r.queries, unsat=r.unsat, sat=r.sat, unknown=r.unknown, solver_s=round(r.qtime, 2),
                            encoding_validations=r.validated, functions_encoded=len(fn),
                            engabra_functions=len(lib), functions=lib[:400], bounds=ctx.bounds, method=ctx.method,
                            explanation="states: symbolic paths (leaves of the case analysis) reached; transitions: LLVM IR instructions executed "
                            "symbolically; traces_validated_against_impl: solver models run on the native build and compared with the oracle; "
                            "encoding_validations: encoded terms evaluated at such a model and compared with the native result",
                            notes=r.notes, known_findings=sorted(seen)),
              assumptions=ctx.assumptions, wall_s=round(time.time() - ctx.t0, 2), violations=len(new))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", ctx.pid + ".json"), "w"), indent=1)
    print("%s %s: %d obligations, %d discharged, %d undecided, %d violated (%d known); %d paths, %d replays, %d queries, solver %.1f s, wall %.1f s"
          % (ctx.pid, ctx.tier, nob, len(r.discharged), len(r.undecided), len(r.violations), len(r.violations) - len(new), r.leaves, r.replays,
             r.queries, r.qtime, time.time() - ctx.t0))
    return 1 if new else 0
