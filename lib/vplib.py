"""Runner shared by all checks: scratch space, sanitizer builds, child processes, verdicts, evidence.

Verdicts are three-valued: exit 0 held on what was observed, exit 1 with a VIOLATION line, exit 2 inconclusive
(harness could not be built, monitor never reached, watchdog).
"""
import argparse, hashlib, json, os, random, resource, shutil, signal, subprocess, sys, tempfile, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SRC = REPO + "/source"
PY = "/opt/venv/bin/python"

ENV = dict(os.environ)
ENV.update(PATH="/opt/venv/bin:/opt/cuda/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
           CUDA_HOME="/opt/cuda", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg",
           LANG="C.UTF-8", LC_ALL="C.UTF-8", HOME="/root", OMP_NUM_THREADS="2", MKL_NUM_THREADS="2")

CXXFLAGS = ["-std=c++17", "-O1", "-g", "-fno-omit-frame-pointer", "-w", "-I" + VERIF + "/cpp", "-I" + SRC]
SANFLAGS = ["-fsanitize=address,undefined", "-fno-sanitize=vptr", "-fno-sanitize-recover=all",
            "-D_GLIBCXX_ASSERTIONS"]


class Inconclusive(Exception):
    pass


class Mon:
    """Recorder used inside a Python workload (runs in a child process)."""

    def __init__(self, seed, tier, only=None):
        self.seed, self.tier, self.only = seed, tier, only
        self.thorough = tier == "thorough"
        self.evaluations = 0
        self.counters, self.tagcount = {}, {}
        self.sigs = set()
        self.samples, self.violations = [], []
        self.cur = None
        self.statefile = None
        self.scratch = None

    def hit(self, c, n=1):
        self.counters[c] = self.counters.get(c, 0) + int(n)

    def sig(self, *a):
        self.sigs.add(hashlib.md5(repr(a).encode()).hexdigest())

    def sample(self, s):
        if len(self.samples) < 6:
            self.samples.append(s if isinstance(s, (str, dict, list)) else repr(s))

    def fail(self, tag, what):
        self.tagcount[tag] = self.tagcount.get(tag, 0) + 1
        if self.tagcount[tag] <= 3:
            self.violations.append({"tag": tag, "what": str(what)[:3000], "case": self.cur})

    def check(self, ok, tag, what=""):
        self.hit("asserts")
        if not ok:
            self.fail(tag, what() if callable(what) else what)
        return bool(ok)

    def rng(self, stream, k):
        import numpy as np
        h = int(hashlib.md5(("%s/%s/%s" % (self.seed, stream, k)).encode()).hexdigest()[:15], 16)
        return np.random.default_rng(h)

    def run(self, stream, n, body):
        """body(rng, k) for k in range(n). An exception is a violation, also when the oracle cannot interpret a result."""
        for k in range(n):
            name = "%s/%d" % (stream, k)
            if self.only is not None and self.only != name:
                continue
            self.cur = name
            if self.statefile:
                with open(self.statefile, "w") as f:
                    f.write(name)
            self.evaluations += 1
            try:
                body(self.rng(stream, k), k)
            except (Exception, SystemExit) as e:
                self.caught(e, stream)
        self.cur = None

    def caught(self, e, stream):
        tb = traceback.extract_tb(e.__traceback__)
        repo = [f for f in tb if f.filename.startswith(REPO + "/") or "/matersdk/" in f.filename]
        if not repo:
            # the oracle could not interpret what the code returned or wrote; troubles of the machine stay inconclusive
            if isinstance(e, (MemoryError, ImportError, KeyboardInterrupt)) or isinstance(e, OSError) and not isinstance(e, (FileNotFoundError, FileExistsError, IsADirectoryError, NotADirectoryError)):
                raise e
            g = tb[-1]
            self.fail("%s:uninterpretable:%s" % (stream, type(e).__name__),
                      "the result could not be interpreted: %s: %s (%s:%d)" % (type(e).__name__, str(e)[:500], os.path.basename(g.filename), g.lineno))
            return
        f = repo[-1]
        self.fail("%s:exception:%s" % (stream, type(e).__name__),
                  "%s: %s raised at %s (%s)" % (type(e).__name__, str(e)[:500], os.path.basename(f.filename), f.name))

    def dump(self, path):
        json.dump({"evaluations": self.evaluations, "distinct": len(self.sigs), "counters": self.counters,
                   "samples": self.samples, "violations": self.violations, "violation_counts": self.tagcount},
                  open(path, "w"), default=str)


class Check:
    def __init__(self, pid, level="exploration", rule="", assumptions=(), need=None):
        ap = argparse.ArgumentParser()
        ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
        ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
        ap.add_argument("--replay")
        ap.add_argument("--worker")
        a, _ = ap.parse_known_args()
        self.pid, self.level, self.rule = pid, level, rule
        self.assumptions = list(assumptions)
        self.tier = a.tier if a.tier in ("quick", "thorough") else "quick"
        self.thorough = self.tier == "thorough"
        self.seed, self.worker = a.seed, a.worker
        self.only = None
        self.onlydrv = None
        if a.replay:
            r = json.load(open(a.replay))
            self.seed, self.tier = r["seed"], r["tier"]
            self.thorough = self.tier == "thorough"
            self.onlydrv, self.only = r["part"], r["case"]
        self.t0 = time.time()
        self.res = {"evaluations": 0, "distinct": 0, "counters": {}, "samples": [], "violations": [],
                    "violation_counts": {}}
        self.parts = {}
        self.scratch = None
        self.need = need or {}

    # ---------------------------------------------------------------- scratch and builds
    def tmp(self):
        if not self.scratch:
            self.scratch = tempfile.mkdtemp(prefix="vp_%s_" % self.pid)
        return self.scratch

    def torch_flags(self):
        import glob
        t = glob.glob("/opt/venv/lib/python3*/site-packages/torch")[0]
        inc = ["-I%s/include" % t, "-I%s/include/torch/csrc/api/include" % t]
        lib = ["-L%s/lib" % t, "-Wl,-rpath,%s/lib" % t, "-Wl,--no-as-needed", "-ltorch", "-ltorch_cpu", "-lc10"]
        return inc, lib

    def compile(self, out, srcs, san=True, torch=False, extra=(), cxx="g++", wait=True, shared=False, libs=()):
        d = self.tmp()
        exe = os.path.join(d, out)
        inc, lib = self.torch_flags() if torch else ([], [])
        flags = list(CXXFLAGS)
        if torch:
            flags.append("-D_GLIBCXX_USE_CXX11_ABI=1")
        if torch:                       # big headers: one process per source file, then link
            flags[flags.index("-std=c++17")] = "-std=c++20"
            ps = []
            for i, f in enumerate(srcs):
                o = "%s.%d.o" % (exe, i)
                a = [cxx] + flags + SANFLAGS + list(extra) + inc + ["-c", f, "-o", o]
                ps.append((o, subprocess.Popen(a, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT), a))
            res = [(o, p.communicate()[0].decode("utf8", "replace"), p.returncode, a) for o, p, a in ps]
            for o, t, rc, a in res:
                if rc != 0 and ("Killed" in t or "out of memory" in t or "memory exhausted" in t or rc < 0):   # ended for want of memory: once more, alone
                    r = subprocess.run(a, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                    t, rc = r.stdout.decode("utf8", "replace"), r.returncode
                if rc != 0:
                    raise Inconclusive("driver %s does not compile against the tree:\n%s" % (out, t[-6000:]))
            cmd = [cxx] + SANFLAGS + [o for o, _, _ in ps] + ["-o", exe] + lib + list(libs)
        else:
            cmd = [cxx] + flags + (SANFLAGS if san else []) + (["-shared", "-fPIC"] if shared else []) \
                + list(extra) + inc + list(srcs) + ["-o", exe] + lib + list(libs)
        p = subprocess.Popen(cmd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        job = (p, exe, out)
        return self.compiled(job) if wait else job

    def compiled(self, job):
        p, exe, out = job
        o = p.communicate()[0].decode("utf8", "replace")
        if p.returncode != 0:
            raise Inconclusive("driver %s does not compile against the tree:\n%s" % (out, o[-6000:]))
        return exe

    # ---------------------------------------------------------------- running
    def merge(self, part, r):
        self.parts[part] = {k: r[k] for k in ("evaluations", "distinct", "counters")}
        for k in ("evaluations", "distinct"):
            self.res[k] += r[k]
        for k, v in r["counters"].items():
            self.res["counters"][k] = self.res["counters"].get(k, 0) + v
        for s in r["samples"][:4]:
            self.res["samples"].append({"part": part, "case": s})
        for k, v in r["violation_counts"].items():
            self.res["violation_counts"][k] = self.res["violation_counts"].get(k, 0) + v
        for v in r["violations"]:
            self.res["violations"].append(dict(v, part=part))

    @staticmethod
    def _limit(cpu):
        def f():
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 30))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        return f

    def start_cpp(self, part, exe, cases, cpu=600, env=None, args=()):
        """Starts one sanitized driver; collect with wait_cpp."""
        d = self.tmp()
        if self.onlydrv is not None and self.onlydrv != part:
            return None
        out, st, log = [os.path.join(d, part + s) for s in (".json", ".state", ".log")]
        e = dict(ENV)
        e.update(ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=86:halt_on_error=1:detect_odr_violation=0:"
                              "detect_stack_use_after_return=0:allocator_may_return_null=1:max_allocation_size_mb=8000:"
                              "malloc_fill_byte=197:max_malloc_fill_size=268435456",
                 UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:exitcode=87")
        e.update(env or {})
        cmd = [exe, "--seed", str(self.seed), "--cases", str(cases), "--out", out, "--state", st, "--tier", self.tier]
        if self.only is not None:
            cmd += ["--only", str(self.only)]
        cmd += list(args)
        lf = open(log, "wb")
        p = subprocess.Popen(cmd, env=e, stdout=lf, stderr=lf, cwd=d, preexec_fn=self._limit(cpu))
        return (part, p, out, st, log, cases)

    def wait_cpp(self, h, timeout=840):
        if h is None:
            return
        part, p, out, st, log, cases = h
        try:
            rc = p.wait(timeout=max(5, timeout - (time.time() - self.t0)))
        except subprocess.TimeoutExpired:
            p.kill(); p.wait()
            raise Inconclusive("driver %s: wall-clock watchdog" % part)
        txt = open(log, "rb").read().decode("utf8", "replace")
        state = open(st).read().strip() if os.path.exists(st) else ""
        if os.path.exists(out) and rc == 0:
            r = json.load(open(out))
            self.merge(part, r)
            return
        case = int(state.split()[0]) if state.split() else -1
        if case < 0:
            raise Inconclusive("driver %s ended with %s before its first case:\n%s" % (part, rc, txt[-3000:]))
        tag, what = classify(rc, txt)
        self.merge(part, {"evaluations": case + 1, "distinct": 0, "counters": {}, "samples": [],
                          "violations": [{"tag": part + ":" + tag, "what": what, "case": case}],
                          "violation_counts": {part + ":" + tag: 1}})

    def run_cpp(self, *a, **k):
        self.wait_cpp(self.start_cpp(*a, **k))

    def run_py(self, part, func, cpu=700, timeout=840):
        """Runs func(mon) in a forked child; a crash of the child is a violation."""
        if self.onlydrv is not None and self.onlydrv != part:
            return
        d = self.tmp()
        out, st, log = [os.path.join(d, part + s) for s in (".json", ".state", ".log")]
        sys.stdout.flush(); sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            code = 3
            try:
                os.environ.update({k: ENV[k] for k in ("PYTHONDONTWRITEBYTECODE", "MPLBACKEND", "PATH")}, OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1")
                sys.dont_write_bytecode = True
                fd = os.open(log, os.O_CREAT | os.O_WRONLY | os.O_TRUNC, 0o644)
                os.dup2(fd, 1); os.dup2(fd, 2)
                self._limit(cpu)()
                mon = Mon(self.seed, self.tier, self.only)
                mon.statefile = st
                mon.scratch = os.path.join(d, part + ".d")
                os.makedirs(mon.scratch, exist_ok=True)
                os.chdir(mon.scratch)
                func(mon)
                mon.dump(out)
                code = 0
            except ImportError as e:
                traceback.print_exc()
                fs = [f.filename for f in traceback.extract_tb(e.__traceback__) if "importlib" not in f.filename]
                if fs and os.path.realpath(fs[-1]).startswith(os.path.realpath(REPO) + os.sep) and (e.name or "").startswith("matersdk"):
                    mon.fail("import", "a module of the repository imports what the repository does not have: %s" % e)
                    mon.dump(out)
                    code = 0
            except BaseException:
                traceback.print_exc()
            finally:
                sys.stdout.flush(); sys.stderr.flush()
                os._exit(code)
        t = time.time()
        while True:
            q, stt = os.waitpid(pid, os.WNOHANG)
            if q:
                break
            if time.time() - self.t0 > timeout:
                os.kill(pid, signal.SIGKILL); os.waitpid(pid, 0)
                raise Inconclusive("workload %s: wall-clock watchdog" % part)
            time.sleep(0.02)
        txt = open(log, "rb").read().decode("utf8", "replace") if os.path.exists(log) else ""
        if os.WIFEXITED(stt) and os.WEXITSTATUS(stt) == 0:
            self.merge(part, json.load(open(out)))
            return
        state = open(st).read().strip() if os.path.exists(st) else None
        if os.WIFSIGNALED(stt) and state and os.WTERMSIG(stt) != signal.SIGKILL:
            s = os.WTERMSIG(stt)
            tag = "no-progress" if s == signal.SIGXCPU else "crash"
            self.merge(part, {"evaluations": 1, "distinct": 0, "counters": {}, "samples": [],
                              "violations": [{"tag": part + ":" + tag, "what": "workload ended by signal %d\n%s" % (s, txt[-1500:]), "case": state}],
                              "violation_counts": {part + ":" + tag: 1}})
            return
        raise Inconclusive("workload %s failed in the harness (%s, case %s):\n%s" % (part, stt, state, txt[-5000:]))

    # ---------------------------------------------------------------- verdict
    def known(self):
        k = {}
        p = os.path.join(VERIF, "known_findings.txt")
        if os.path.exists(p):
            for l in open(p):
                if l.startswith("known: property=%s " % self.pid):
                    rest = l.split(None, 2)[2].strip()
                    tag, _, what = rest.partition(" ")
                    assert tag.startswith("tag=")
                    k[tag[4:]] = what
        return k

    def main(self, body):
        code = 2
        try:
            try:
                body(self)
                code = self.finish()
            except Inconclusive as e:
                if self.res["violations"]:
                    code = self.finish(partial=True)
                    if code == 0:
                        print("INCONCLUSIVE property=%s %s" % (self.pid, e)); code = 2
                else:
                    print("INCONCLUSIVE property=%s %s" % (self.pid, e))
            except Exception:
                traceback.print_exc()
                print("INCONCLUSIVE property=%s harness error" % self.pid)
        finally:
            if self.scratch and not os.environ.get("VP_KEEP"):
                shutil.rmtree(self.scratch, ignore_errors=True)
        sys.stdout.flush()
        os._exit(code)

    def finish(self, partial=False):
        known = self.known()
        new, seen = [], {}
        for v in self.res["violations"]:
            if v["tag"] in known:
                seen[v["tag"]] = v
            else:
                new.append(v)
        for t in known:
            if t in seen:
                print("KNOWN-FINDING: property=%s %s" % (self.pid, known[t]))
        short = []
        if self.onlydrv is None and not new and not partial:
            for c, n in self.need.items():
                if self.res["counters"].get(c, 0) < n:
                    short.append("%s=%d (needs %d)" % (c, self.res["counters"].get(c, 0), n))
        wall = time.time() - self.t0
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": {"evaluations": self.res["evaluations"], "distinct_nontrivial": self.res["distinct"],
                           "rule": self.rule, "samples": self.res["samples"][:12] or ["none"],
                           "monitor_events": self.res["counters"], "parts": self.parts,
                           "known_findings_seen": sorted(seen)},
              "assumptions": self.assumptions, "wall_s": round(wall, 2), "violations": len(new)}
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        with open("%s/evidence/%s.json" % (VERIF, self.pid), "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=False, default=str)
        print("%s tier=%s seed=%d evaluations=%d distinct=%d wall=%.1fs events=%s" % (
            self.pid, self.tier, self.seed, self.res["evaluations"], self.res["distinct"], wall,
            json.dumps(self.res["counters"])))
        if new:
            rp = "%s/evidence/replay" % VERIF
            os.makedirs(rp, exist_ok=True)
            path = "%s/%s.json" % (rp, self.pid)
            v = new[0]
            json.dump({"property": self.pid, "seed": self.seed, "tier": self.tier, "part": v["part"], "case": v["case"],
                       "violation": v, "all": new, "counts": self.res["violation_counts"]}, open(path, "w"), indent=1)
            for v in new[:8]:
                print("  [%s] part=%s case=%s: %s" % (v["tag"], v["part"], v["case"], v["what"][:600]))
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
            return 1
        if short:
            print("INCONCLUSIVE property=%s monitor not reached: %s" % (self.pid, ", ".join(short)))
            return 2
        return 0


def classify(rc, txt):
    import re
    m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", txt)
    if m:
        return "asan-" + m.group(1), txt[txt.find("ERROR: AddressSanitizer"):][:2500]
    m = re.search(r"runtime error: (.*)", txt)
    if m:
        return "ubsan", txt[max(0, txt.find("runtime error:") - 200):][:2000]
    if rc is not None and rc < 0:
        if -rc == signal.SIGXCPU:
            return "no-progress", "the case exceeded its CPU budget\n" + txt[-800:]
        return "crash-signal%d" % -rc, txt[-2000:]
    return "abnormal-exit-%s" % rc, txt[-2000:]
