"""Shared machinery: importing the code under test, running TLC, verdicts,
evidence files and known findings.  See DESIGN.md."""
from __future__ import annotations
import json, os, re, shutil, signal, subprocess, sys, tempfile, time, traceback, types, warnings
from concurrent.futures import ThreadPoolExecutor
from contextlib import contextmanager

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
EVID = os.environ.get("VERIF_EVIDENCE", os.path.join(VERIF, "evidence"))   # overridden only while testing planted bugs
NCPU = min(8, os.cpu_count() or 1)


class Machinery(Exception):
    """The check itself failed (never a verdict about the code)."""


def import_qinfer():
    """Import qinfer from the working tree (no build step needed: pure Python;
    version.py is generated by the build and git-ignored, so stub it if absent)."""
    src = os.path.join(REPO, "src")
    if src in sys.path:
        sys.path.remove(src)
    sys.path.insert(0, src)
    sys.dont_write_bytecode = True
    if not os.path.exists(os.path.join(src, "qinfer", "version.py")):
        m = types.ModuleType("qinfer.version")
        m.version = "0+verif"
        sys.modules["qinfer.version"] = m
    warnings.simplefilter("ignore")
    import qinfer
    assert os.path.abspath(qinfer.__file__).startswith(os.path.abspath(src)), qinfer.__file__
    return qinfer


# ------------------------------------------------------------------ TLC

class TlcResult:
    def __init__(self):
        self.emitted = []      # decoded JSON payloads of "@@" lines
        self.states = 0
        self.distinct = 0
        self.ok = False
        self.invariant = None
        self.raw = ""
        self.wall = 0.0
        self.coverage = {}


_STAT = re.compile(r"(\d+) states generated, (\d+) distinct states found")
_SIMSTAT = re.compile(r"The number of states generated: (\d+)")
_SIMPROG = re.compile(r"Progress: (\d+) states checked")


def run_tlc(module, cfg, workers=1, env=None, simulate=None, depth=None, seed=None,
            timeout=800, heap="3g", coverage=False, allow_violation=False, extra=()):
    """Run TLC on spec/<module>.tla with configuration text `cfg`.
    simulate=N: simulation mode with N behaviours of `depth`."""
    work = tempfile.mkdtemp(prefix="verif-tlc-")
    try:
        cfgp = os.path.join(work, module + ".cfg")
        with open(cfgp, "w") as f:
            f.write(cfg)
        cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xmx" + heap,
               "-Xss16m",
               "-Djava.io.tmpdir=" + work,
               "-DTLA-Library=" + SPEC, "-cp", TLA_CP, "tlc2.TLC",
               "-config", cfgp, "-metadir", os.path.join(work, "meta"),
               "-noGenerateSpecTE", "-workers", str(workers)]
        if simulate is not None:
            cmd += ["-simulate", "num=%d" % simulate, "-depth", str(depth or 100)]
            cmd += ["-seed", str(seed if seed is not None else 1)]
        if coverage:
            cmd += ["-coverage", "1"]
        cmd += list(extra)
        cmd += [os.path.join(SPEC, module + ".tla")]
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        if env:
            e.update({k: str(v) for k, v in env.items()})
        t0 = time.time()
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               env=e, cwd=work, timeout=timeout, text=True, errors="replace")
        except subprocess.TimeoutExpired as ex:
            raise Machinery("TLC timed out on %s after %ss" % (module, timeout)) from ex
        r = TlcResult()
        r.wall = time.time() - t0
        r.raw = p.stdout
        for line in p.stdout.splitlines():
            if line.startswith('"@@'):
                try:
                    r.emitted.append(json.loads(json.loads(line)[2:]))
                except ValueError as ex:
                    raise Machinery("unreadable TLC emission: %r" % line[:300]) from ex
            m = _STAT.search(line)
            if m:
                r.states, r.distinct = int(m.group(1)), int(m.group(2))
            m = _SIMSTAT.search(line)
            if m:
                r.states = r.distinct = int(m.group(1))
            m = re.match(r"Error: Invariant (\S+) is violated|Error: Action property (\S+) is violated", line)
            if m:
                r.invariant = m.group(1) or m.group(2)
            m = re.match(r"<(\w+) line .*>: (\d+):(\d+)", line)
            if m:
                r.coverage[m.group(1)] = r.coverage.get(m.group(1), 0) + int(m.group(3))
        r.ok = "No error has been found" in p.stdout or (
            simulate is not None and p.returncode == 0 and
            not any(l.startswith("Error") for l in p.stdout.splitlines()))
        if not r.ok and not (allow_violation and r.invariant):
            noise = ("Parsing", "Semantic", "Linting", '"@@')
            tail = "\n".join(l for l in p.stdout.splitlines() if not l.startswith(noise))
            raise Machinery("TLC failed on %s (rc %s):\n%s" % (module, p.returncode, tail[-6000:]))
        return r
    finally:
        shutil.rmtree(work, ignore_errors=True)


def parallel(jobs, n=None):
    """Run thunks in threads, return their results in order."""
    with ThreadPoolExecutor(n or NCPU) as ex:
        return [f.result() for f in [ex.submit(j) for j in jobs]]


def tla(v):
    """Python value -> TLA+ literal for cfg CONSTANTS (ints, strings, bools, sets, small seqs)."""
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return '"%s"' % v
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(tla(x) for x in sorted(v, key=repr)) + "}"
    raise TypeError(v)


def cfg(constants=None, spec="Spec", invariants=(), properties=(), constraints=(),
        action_constraints=(), view=None, symmetry=None, postcondition=None, deadlock=False):
    out = ["SPECIFICATION " + spec]
    if constants:
        out.append("CONSTANTS")
        out += ["  %s = %s" % (k, tla(v)) for k, v in constants.items()]
    for i in invariants:
        out.append("INVARIANT " + i)
    for i in properties:
        out.append("PROPERTY " + i)
    for i in constraints:
        out.append("CONSTRAINT " + i)
    for i in action_constraints:
        out.append("ACTION_CONSTRAINT " + i)
    if view:
        out.append("VIEW " + view)
    if postcondition:
        out.append("POSTCONDITION " + postcondition)
    out.append("CHECK_DEADLOCK " + ("TRUE" if deadlock else "FALSE"))
    return "\n".join(out) + "\n"


# ------------------------------------------------------------------ running the code under test

class Hang(BaseException):
    pass


class Outcome:
    """Result of one call into the code under test."""
    __slots__ = ("value", "exc", "msg", "warns", "tb")

    def __init__(self):
        self.value = None
        self.exc = ""
        self.msg = ""
        self.warns = []
        self.tb = ""

    def warned(self, *cats):
        return any(any(c.__name__ in cats for c in w.__mro__) for w in self.warns)


def call(fn, *a, _timeout=20, **k):
    """Call the implementation; record value / exception type / warning categories.
    A call that does not return within _timeout seconds counts as exc='HANG'."""
    o = Outcome()

    def onalarm(sig, frm):
        raise Hang()
    old = signal.signal(signal.SIGALRM, onalarm)
    signal.setitimer(signal.ITIMER_REAL, _timeout)
    try:
        with warnings.catch_warnings(record=True) as rec:
            warnings.simplefilter("always")
            try:
                o.value = fn(*a, **k)
            except Hang:
                o.exc = "HANG"
            except Exception as ex:
                o.exc = type(ex).__name__
                o.msg = str(ex)[:300]
                o.tb = traceback.format_exc()[-1500:]
            o.warns = [w.category for w in rec]
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
    return o


# ------------------------------------------------------------------ check context

class Check:
    def __init__(self, pid, tier, seed, level="model_checking"):
        self.pid, self.tier, self.seed, self.level = pid, tier, seed, level
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.steps = 0
        self.samples = []
        self.extra = {}
        self.assumptions = []
        self.viol = []          # list of dicts
        self.known_hit = {}
        self.known = load_known(pid)
        self.coverage = {}

    @property
    def quick(self):
        return self.tier == "quick"

    def pick(self, quick, thorough):
        return quick if self.quick else thorough

    # -- model checking
    def model(self, module, cfgtext, name=None, **kw):
        r = run_tlc(module, cfgtext, **kw)
        self.states += r.distinct
        self.transitions += r.states
        self.extra.setdefault("tlc_runs", []).append(
            {"model": name or module, "states": r.states, "distinct": r.distinct,
             "emitted": len(r.emitted), "wall_s": round(r.wall, 2)})
        return r

    def emitted(self, module, cfgtext, **kw):
        return self.model(module, cfgtext, **kw).emitted

    # -- verdicts
    def violation(self, clause, case, detail=""):
        """case: JSON-able description of the failing input/history."""
        for f in self.known:
            if finding_matches(f, clause, case):
                self.known_hit[f["id"]] = f
                return False
        self.viol.append({"clause": clause, "case": case, "detail": str(detail)[:2000]})
        return True

    def expect(self, cond, clause, case, detail=""):
        self.steps += 1
        if not cond:
            self.violation(clause, case, detail)
        return bool(cond)

    def sample(self, s):
        if len(self.samples) < 6:
            self.samples.append(s)

    def trace_check(self, module, traces, constants=None, workers=None, timeout=800, name=None,
                    describe=None, chunk=400):
        """Validate recorded traces with spec/<module>.tla.  The module reads the file
        named by IOEnv.TRACES (JSON array) and emits one verdict
        [t |-> index, ok |-> BOOLEAN, l |-> step, bad |-> seq of clause names] per trace."""
        if not traces:
            return []
        chunks = [(i, traces[i:i + chunk]) for i in range(0, len(traces), chunk)]
        work = tempfile.mkdtemp(prefix="verif-tr-")
        try:
            def judge(base, part):
                p = os.path.join(work, "t%d_%d.json" % (base, len(part)))
                with open(p, "w") as f:
                    json.dump(part, f)
                return base, part, self.model(
                    module, cfg(constants or {}, spec="TraceSpec", invariants=["Verdict"]),
                    name=name or module, workers=1, env={"TRACES": p}, timeout=timeout)

            def job(base, part):
                """The verdicts on a chunk; a recorded trace outside the specification's vocabulary, on which
                the judge cannot be evaluated, is narrowed down and rejected."""
                try:
                    return [judge(base, part)]
                except Machinery as ex:
                    if not re.match(r"TLC failed on \w+ \(rc 7[567]\)", str(ex)):
                        raise
                    if len(part) == 1:
                        return [(base, part, None)]
                    # one offender is enough for the verdict
                    k = len(part) // 2
                    a = job(base, part[:k])
                    return a if a[-1][2] is None else a + job(base + k, part[k:])
            rejected = []
            for base, part, r in [j for js in parallel([(lambda b=b, p=p: job(b, p)) for b, p in chunks]) for j in js]:
                if r is None:
                    self.traces += 1
                    rejected.append((base, 0, ["outside_the_specification"]))
                    continue
                seen = {}
                for v in r.emitted:
                    seen.setdefault(v["t"], []).append(v)
                for i in range(len(part)):
                    vs = seen.get(i + 1)
                    if not vs:
                        raise Machinery("%s gave no verdict for trace %d" % (module, base + i))
                    self.traces += 1
                    # a nondeterministic trace spec may emit several verdicts: accept if any accepts
                    if not any(v["ok"] for v in vs):
                        v = max(vs, key=lambda v: v["l"])
                        rejected.append((base + i, v["l"], sorted(v["bad"])))
            for i, l, bad in rejected:
                tr = traces[i]
                case = describe(tr, l) if describe else {"trace": tr, "step": l}
                for b in (bad[:4] or ["?"]):
                    self.violation(b, case, "trace %d rejected by %s at step %d: %s" % (i, module, l, bad))
            return rejected
        finally:
            shutil.rmtree(work, ignore_errors=True)

    # -- end of run
    def finish(self):
        ev = {
            "property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level,
            "coverage": dict({
                "states": self.states, "transitions": self.transitions,
                "traces_validated_against_impl": self.traces,
                "evaluations": self.steps,
                "samples": self.samples or ["(none)"],
            }, **self.extra),
            "assumptions": self.assumptions,
            "violations": len(self.viol),
            "wall_s": round(time.time() - self.t0, 2),
        }
        os.makedirs(EVID, exist_ok=True)
        rc = 0
        for f in self.known_hit.values():
            print("KNOWN-FINDING: property=%s %s" % (self.pid, f["what"]))
        if self.known_hit:
            ev["coverage"]["known_findings_hit"] = sorted(self.known_hit)
        if self.viol:
            d = os.path.join(EVID, "replay")
            os.makedirs(d, exist_ok=True)
            rp = os.path.join(d, "%s.json" % self.pid)
            with open(rp, "w") as f:
                json.dump(self.viol[:50], f, indent=1, default=str)
            shown = {}
            for v in self.viol:
                shown.setdefault(v["clause"], v)
            for v in list(shown.values())[:6]:
                print("  clause=%s %s" % (v["clause"], v["detail"][:400]))
                print("    case: %s" % json.dumps(v["case"], default=str)[:500])
            print("VIOLATION property=%s replay=%s" % (self.pid, os.path.relpath(rp, VERIF)))
            rc = 1
        with open(os.path.join(EVID, "%s.json" % self.pid), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        print("%s tier=%s: %d states, %d traces, %d comparisons, %d violation(s), %.1fs" % (
            self.pid, self.tier, self.states, self.traces, self.steps, len(self.viol), ev["wall_s"]))
        return rc


# ------------------------------------------------------------------ known findings

def load_known(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        d = json.load(f)
    return [x for x in d.get("findings", []) if x["property"] == pid and x.get("status") == "open"]


def finding_matches(f, clause, case):
    if f["clause"] != clause:
        return False
    want = f.get("case", {})
    if not isinstance(case, dict):
        return False
    return all(case.get(k) == v for k, v in want.items())


# ------------------------------------------------------------------ helpers

def as_int(x, tol=1e-6, bad=-999999):
    """Float that must be an integer -> int (or a sentinel if it is not one)."""
    try:
        x = float(x)
    except Exception:
        return bad
    if not (abs(x) < 2 ** 30):
        return bad
    r = round(x)
    return int(r) if abs(x - r) <= tol else bad


def fixed(x, scale=100000, cap=2 * 10 ** 9, bad=-999999999):
    """Float -> fixed point integer for TLC (32-bit)."""
    try:
        x = float(x)
    except Exception:
        return bad
    v = x * scale
    if not (abs(v) < cap):
        return bad
    return int(round(v))


def rat(v):
    """JSON [num, den] -> float."""
    return v[0] / v[1]


def close(a, b, tol=1e-9):
    try:
        return abs(float(a) - float(b)) <= tol * max(1.0, abs(float(b)))
    except Exception:
        return False
