"""Compile a harness group from /repo's current working tree: LLVM IR for the symbolic
executor and a native shared library for replays."""
import os, re, subprocess, tempfile, shutil, ctypes, threading
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("ENGABRA_REPO", "/repo")
CLANG = "/usr/bin/clang++-18" if os.path.exists("/usr/bin/clang++-18") else "clang++"
IRFLAGS = "-w -std=c++17 -ffp-contract=off -S -emit-llvm -O0 -fignore-exceptions -g0 -DNDEBUG -DENGV_IR -Wno-invalid-constexpr -Wno-c++11-narrowing".split()
SOFLAGS = "-w -std=c++17 -O2 -DNDEBUG -shared -fPIC".split()

class BuildError(Exception):
    pass

class Builder:
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="engv_")
        self.jobs = {}
    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)
    def _run(self, key, cmd, out):
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode and key[0] == "ir":
            p = self._relax(cmd, p)
        self.jobs[key] = (p.returncode, p.stdout, out)
    def _relax(self, cmd, p):
        """g++ folds more calls in constant expressions than clang (std::sqrt, ...): where that is
        all clang objects to, encode a scratch copy in which those variables are only const."""
        inc = os.path.join(REPO, "include")
        d = tempfile.mkdtemp(prefix="inc", dir=self.dir)
        cp = os.path.join(d, "include")
        shutil.copytree(inc, cp)
        cmd = [cp if c == inc else c for c in cmd]
        for _ in range(8):
            q = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if q.returncode == 0: return q
            errs = re.findall(r"^(\S+?):(\d+):\d+: error: (.*)$", q.stdout, re.M)
            hit = [(f, int(l)) for f, l, m in errs if "constexpr variable" in m and "constant expression" in m and f.startswith(cp)]
            if not hit: return p
            for f, l in hit:
                with open(f) as h: ls = h.read().split("\n")
                k = l - 1
                while k >= max(0, l - 4) and "constexpr" not in ls[k]: k -= 1
                if "constexpr" not in ls[k]: return p
                ls[k] = ls[k].replace("constexpr", "const", 1)
                with open(f, "w") as h: h.write("\n".join(ls))
        return p
    def start(self, group, so_only=False):
        src = os.path.join(HERE, "harness", group + ".cpp")
        inc = ["-I", os.path.join(REPO, "include")]
        ir = os.path.join(self.dir, group + ".ll"); so = os.path.join(self.dir, group + ".so")
        ths = []
        for key, cmd, out in [j for j in ((("ir", group), [CLANG] + IRFLAGS + inc + [src, "-o", ir], ir),
                              (("so", group), ["g++"] + SOFLAGS + inc + [src, "-o", so], so)) if not so_only or j[0][0] == "so"]:
            t = threading.Thread(target=self._run, args=(key, cmd, out)); t.start(); ths.append((key, t))
        return dict(ths)
    def wait(self, key, th):
        th.join()
        rc, log, out = self.jobs[key]
        if rc != 0:
            raise BuildError("cannot build %s for %s:\n%s" % (key[0], key[1], log[-3000:]))
        return out
