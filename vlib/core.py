"""Common machinery of the checks: building the harness from /repo's working tree,
driving it, running TLC on recorded traces, reporting."""
import os, sys, json, time, subprocess, hashlib, shutil, random, re, threading, select, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARN = os.path.join(VERIF, "harness")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
CPUS = max(2, min(8, os.cpu_count() or 2))
CXX = "g++"
CXXFLAGS = ["-std=gnu++98", "-O0", "-g0", "-w", "-fsanitize=address,bounds,return,unreachable",
            "-fno-sanitize-recover=all"]


class CheckError(Exception):
    """Error of the check itself (exit 2)."""


def quick():
    return TIER != "thorough"


def scale(q, t):
    return q if quick() else t


def rng(name=""):
    return random.Random("%d/%s/%s" % (SEED, TIER, name))


_work = None


def workdir():
    global _work
    if _work is None:
        _work = tempfile.mkdtemp(prefix="verif-")
        import atexit
        atexit.register(lambda: shutil.rmtree(_work, ignore_errors=True))
    return _work


def treehash(extra):
    h = hashlib.sha256()
    for base in (os.path.join(REPO, "include"), HARN):
        for d, _, fs in sorted(os.walk(base)):
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, base).encode() + b"\0")
                with open(p, "rb") as fh:
                    h.update(fh.read())
    h.update(repr(extra).encode())
    return h.hexdigest()[:24]


def build(name, tus, flags=(), ldflags=()):
    """Compile the harness 'name' from the translation units tus = [(source, [defines])] against
    /repo's working tree.  The result is cached under a hash of all sources it depends on."""
    key = treehash((name, tus, CXXFLAGS, tuple(flags), tuple(ldflags)))
    cache = os.path.join(VERIF, ".cache", key)
    exe = os.path.join(cache, name)
    if os.path.exists(exe):
        return exe
    wd = os.path.join(workdir(), "build-" + name)
    os.makedirs(wd, exist_ok=True)

    def comp(it):
        i, (src, defs) = it
        o = os.path.join(wd, "%d.o" % i)
        cmd = [CXX] + (list(flags) or CXXFLAGS) + ["-I" + os.path.join(REPO, "include"), "-I" + HARN] + ["-D" + d for d in defs] + \
              ["-c", "-o", o, os.path.join(HARN, src)]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        return o, r.returncode, r.stdout.decode("utf8", "replace")
    with ThreadPoolExecutor(CPUS) as ex:
        res = list(ex.map(comp, enumerate(tus)))
    for o, rc, out in res:
        if rc:
            raise CheckError("harness %s does not compile:\n%s" % (name, out[:3000]))
    tmp = os.path.join(wd, name)
    r = subprocess.run([CXX] + (list(flags) or CXXFLAGS) + list(ldflags) + ["-o", tmp] + [o for o, _, _ in res], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise CheckError("harness %s does not link:\n%s" % (name, r.stdout.decode("utf8", "replace")[:3000]))
    try:
        base = os.path.join(VERIF, ".cache")
        os.makedirs(base, exist_ok=True)
        old = sorted((os.path.join(base, d) for d in os.listdir(base)), key=os.path.getmtime)
        for d in old[:-24]:
            shutil.rmtree(d, ignore_errors=True)
        os.makedirs(cache, exist_ok=True)
        t2 = exe + ".%d" % os.getpid()
        shutil.copy(tmp, t2)
        os.rename(t2, exe)
        return exe
    except OSError:
        return tmp


class TooManyCrashes(Exception):
    """The code under test dies on many requests: there is no point in running the others."""


class Harness:
    """Runs request lines through a pool of harness processes; survives crashes and hangs of the code under test.
    A request that kills the process is answered with 'CRASH <reason>'.  After MAXCRASH of them in one
    batch the rest of it is not run: TooManyCrashes tells the request and the answer."""
    MAXCRASH = 8
    ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0:allow_user_segv_handler=0:symbolize=0",
               UBSAN_OPTIONS="halt_on_error=1:print_stacktrace=0:symbolize=0")

    def __init__(self, exe):
        self.exe = exe

    def run_pre(self, reqs, pre):
        return self.run(reqs, pre)

    def _run_batch(self, reqs, pre=None):
        out = []
        i = 0
        ncrash = 0
        while i < len(reqs):
            p = subprocess.Popen([self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=self.ENV)
            data = ("\n".join(([pre] if pre else []) + reqs[i:]) + "\n").encode()
            so, se = p.communicate(data)
            lines = so.decode("latin1").split("\n")
            if pre:
                lines = lines[1:]
            complete = lines[:-1]
            out.extend(complete[:len(reqs) - i])
            n = len(complete)
            i += n
            if i < len(reqs):
                err = se.decode("latin1", "replace")
                m = re.search(r"(AddressSanitizer|runtime error|HANG|terminate)[^\n]*", err)
                out.append("CRASH rc=%s %s" % (p.returncode, re.sub(r" (on|at|pc|bp|sp) (address )?0x[0-9a-f]+", "", m.group(0))[:200] if m else err[:200].replace("\n", " ")))
                ncrash += 1
                if ncrash >= self.MAXCRASH:
                    raise TooManyCrashes(reqs[i], out[-1])
                i += 1
        return out

    def run(self, reqs, pre=None):
        if not reqs:
            return []
        n = min(CPUS, max(1, len(reqs) // 8))
        k = (len(reqs) + n - 1) // n
        parts = [reqs[j:j + k] for j in range(0, len(reqs), k)]
        with ThreadPoolExecutor(n) as ex:
            res = list(ex.map(lambda q: self._run_batch(q, pre), parts))
        return [x for r in res for x in r]


# ------------------------------------------------------------------ TLC
class TlcResult:
    def __init__(self):
        self.ok = False
        self.violated = None
        self.state = ""
        self.generated = 0
        self.distinct = 0
        self.depth = 0
        self.out = ""
        self.wall = 0


def tlc(module, cfg=None, env=None, workers=None, extra=(), timeout=840, javaopts=None, expect_violation=False):
    cfg = cfg or module + ".cfg"
    wd = tempfile.mkdtemp(prefix="tlc-", dir=workdir())
    e = dict(os.environ)
    e["JAVA_TOOL_OPTIONS"] = (javaopts or "-Xmx6g -Xss64m -XX:+UseParallelGC") + " -Djava.io.tmpdir=" + wd
    e.update(env or {})
    cmd = ["tlc", "-workers", str(workers or CPUS), "-metadir", os.path.join(wd, "meta"), "-noGenerateSpecTE", "-deadlock"] + list(extra) + \
          ["-config", os.path.join(SPEC, cfg), os.path.join(SPEC, module + ".tla")]
    t0 = time.time()
    try:
        p = subprocess.run(cmd, cwd=wd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise CheckError("TLC timed out on %s" % module)
    r = TlcResult()
    r.wall = time.time() - t0
    r.out = p.stdout.decode("utf8", "replace")
    shutil.rmtree(wd, ignore_errors=True)
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", r.out)
    if m:
        r.generated, r.distinct = int(m[-1][0]), int(m[-1][1])
    m = re.search(r"The depth of the complete state graph search is (\d+)", r.out)
    if m:
        r.depth = int(m.group(1))
    m = re.search(r"Invariant (\S+) is violated", r.out) or re.search(r"(?:Action property|Temporal properties|property) ?(\S*) (?:is|were) violated", r.out)
    if m:
        r.violated = m.group(1)
        st = re.split(r"\nState \d+: ", r.out)
        r.state = st[-1] if len(st) > 1 else r.out[-4000:]
        if "is violated by the initial state" in r.out:
            r.state = r.out[r.out.index("is violated by the initial state"):]
        return r
    if "Model checking completed. No error has been found" in r.out or ("-simulate" in extra and p.returncode == 0):
        r.ok = True
        return r
    raise CheckError("TLC failed on %s (rc %s):\n%s" % (module, p.returncode, tail_err(r.out)))


def tail_err(o):
    i = o.find("Error:")
    return (o[i:i + 3000] if i >= 0 else o[-3000:])


def statevar(state, name):
    m = re.search(r"(?:^|\n)(?:/\\ )?%s = (.*?)(?=\n/\\ |\n\n|\Z)" % re.escape(name), state, re.S)
    return m.group(1).strip() if m else None


# ------------------------------------------------------------------ reporting
class Report:
    def __init__(self, prop):
        self.prop = prop
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.execs = 0
        self.samples = []
        self.info = {}
        self.assumptions = []
        self.violations = []
        self.findings = []

    def add_tlc(self, r):
        self.states += r.distinct
        self.transitions += r.generated

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)

    def violation(self, what, data):
        d = os.path.join(VERIF, "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%d.json" % (self.prop, len(self.violations) + 1))
        with open(path, "w") as f:
            json.dump({"property": self.prop, "what": what, "data": data}, f, indent=1)
        self.violations.append((what, path))
        print("violated: %s: %s" % (self.prop, what[:600]))
        print("VIOLATION property=%s replay=%s" % (self.prop, path))
        sys.stdout.flush()

    def finding(self, what):
        self.findings.append(what)
        print("KNOWN-FINDING: property=%s %s" % (self.prop, what))

    def write(self):
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "executions_of_the_code": self.execs,
               "samples": self.samples}
        cov.update(self.info)
        ev = {"property": self.prop, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED,
              "level": "model_checking", "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        with open(os.path.join(d, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)

    def finish(self):
        self.write()
        print("%s: %d states, %d traces validated, %d executions, %d violations, %.1f s" % (
            self.prop, self.states, self.traces, self.execs, len(self.violations), time.time() - self.t0))
        return 1 if self.violations else 0


def known_findings():
    p = os.path.join(VERIF, "known_findings.txt")
    res = {}
    for l in open(p):
        m = re.match(r"finding: property=(\S+) id=(\S+) (.*)", l)
        if m:
            res[(m.group(1), m.group(2))] = m.group(3)
    return res


def validate(rep, module, runs, label, extra_data=None, cfg=None, key="runs", confirm=None, max_viol=3, chunk=None):
    """Have TLC judge the recorded runs (list of JSON records, one behaviour each).
    confirm(i) -> freshly recorded record of run i (or None when not repeatable) is used to
    make sure a rejection repeats."""
    if not runs:
        return
    todo = list(range(len(runs)))
    nviol = 0
    unstable = {}
    while todo:
        f = os.path.join(workdir(), "trace-%s.json" % module)
        data = dict(extra_data or {})
        data[key] = [runs[i] for i in todo]
        with open(f, "w") as fh:
            json.dump(data, fh, separators=(",", ":"))
        r = tlc(module, cfg=cfg, env={"TRACE": f})
        rep.add_tlc(r)
        if r.ok:
            rep.traces += len(todo)
            return
        v = statevar(r.state, "i")
        if v is None or not v.isdigit():
            raise CheckError("TLC rejected traces of %s but the run is not identified:\n%s" % (module, r.state[:2000] or r.out[-2000:]))
        idx = todo[int(v) - 1]
        rec = runs[idx]
        if confirm is not None:
            again = confirm(idx)
            if again is not None and again != rec and unstable.get(idx, 0) < 2:
                unstable[idx] = unstable.get(idx, 0) + 1
                print("note: rejection of run %d did not repeat, the fresh recording is judged instead" % idx)
                runs[idx] = again
                continue
        nviol += 1
        rep.violation("%s: %s violates %s of %s" % (label, describe(rec), r.violated, module),
                      {"label": label, "recorded": rec, "invariant": r.violated, "module": module, "model_state": r.state[:8000]})
        if nviol >= max_viol or time.time() - rep.t0 > 100:
            return
        todo.remove(idx)


def describe(rec):
    s = json.dumps({k: (txt(v) if k in ("doc",) else v) for k, v in rec.items()} if isinstance(rec, dict) else rec)
    return s[:500]


def txt(cps):
    try:
        return "".join(chr(c) if 0 <= c < 0x110000 and not 0xD800 <= c < 0xE000 else "\\{%x}" % c for c in cps)
    except Exception:
        return cps
