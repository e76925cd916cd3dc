"""C17: performance tests (spec/PerfTest.tla)."""
import threading
import numpy as np
from lib.vlib import import_qinfer, parallel, cfg, call

qinfer = import_qinfer()
from qinfer.perf_testing import perf_test, perf_test_multiple

DTYPES = {"scalar": "int", "fields": [("e", "int")], "two": [("z", "float"), ("e", "int")]}


class Planned(Exception):
    pass


def ev(e):
    e = np.asarray(e)
    return int(np.ravel(e["e"] if e.dtype.names else e)[0])


class Slot(object):
    """What happens in one trial."""
    def __init__(self, i):
        self.i, self.truth, self.heur, self.sims, self.means, self.nexp, self.err = i, False, False, 0, [], 0, ""


class World(object):
    """One performance test: who is running, what is planned, and the order of turns."""

    def __init__(self, q, b, form):
        self.q, self.b, self.c, self.form = q, b, b["c"], form
        self.local = threading.local()
        self.slots = []
        self.gate = lambda i: None
        c, w = self.c, self

        def fail(slot, kind, k):
            f = c["fail"][slot.i - 1]
            return f["kind"] == kind and f["at"] == k

        class Base(q.FiniteOutcomeModel):
            is_n_outcomes_constant = True
            modelparam_names = None
            expparams_dtype = DTYPES[form]
            def n_outcomes(self, e): return 2
            def are_models_valid(self, m): return np.ones(len(m), bool)

        class Est(Base):
            n_modelparams = c["ne"]
            modelparam_names = list("abc")[:c["ne"]]
            Q = np.array(c["q"], float)
            k = c["ke"]

            def likelihood(self, o, m, e):
                super(Est, self).likelihood(o, m, e)
                s = w.now()
                if fail(s, "update", s.sims):
                    raise Planned("update")
                if fail(s, "divide", s.sims):
                    np.divide(np.ones(2), np.zeros(2))
                L = np.array([[[1 + (x + ev(e) * (int(a) + 1)) % 3] for x in m[:, 0]] for a in np.atleast_1d(o)], float)
                return L * 0 if fail(s, "zero", s.sims) else L

            def update_timestep(self, m, e):
                m = np.asarray(m)
                s = w.now()
                if c["same"] and len(m) == 1 and fail(s, "evolve", s.sims):
                    raise Planned("evolve")
                return (self.k * m + ev(e))[:, :, None]

            def simulate_experiment(self, m, e, repeat=1):
                s = w.now()
                s.sims += 1
                if fail(s, "simulate", s.sims):
                    raise Planned("simulate")
                m = np.asarray(m)
                assert m.ndim == 2 and m.shape == (1, self.n_modelparams), m.shape
                return int(np.sum(m) + ev(e)) % 2

        class True_(Est):
            n_modelparams = c["nt"]
            modelparam_names = list("xyz")[:c["nt"]]
            Q = np.full(c["nt"], 7.)
            k = c["kt"]

            def likelihood(self, *a):
                raise AssertionError("the true model was asked for likelihoods")

            def update_timestep(self, m, e):
                s = w.now()
                if fail(s, "evolve", s.sims):
                    raise Planned("evolve")
                return (self.k * np.asarray(m) + ev(e))[:, :, None]

        def truth():
            s = w.slot("truth")
            return np.array([[j + 2 * s.i for j in range(1, c["nt"] + 1)]], float)

        class TruePrior(q.Distribution):
            n_rvs = c["nt"]
            def sample(self, n=1):
                assert n == 1
                return truth()

        class Prior(q.Distribution):
            n_rvs = c["ne"]
            def sample(self, n=1):
                if n == 1:
                    if c["src"] != "prior":
                        raise AssertionError("the truth was drawn from the wrong distribution")
                    return truth()
                return np.array([[p + 2 * j - 2 for j in range(1, c["ne"] + 1)] for p in range(1, n + 1)], float)

        class Heuristic(object):
            def __init__(self, u):
                self.u = u
                s = self.s = w.slot("heur")
                if c["fail"][s.i - 1]["kind"] == "setup":
                    w.gate(s.i)
                    raise Planned("setup")

            def __call__(self):
                s, u = self.s, self.u
                w.gate(s.i)
                s.nexp += 1
                if fail(s, "heuristic", s.nexp):
                    raise Planned("heuristic")
                s.means.append(np.array(u.est_mean()))
                d = u.data_record
                e = (len(d) + (int(d[-1]) if len(d) else 0) + s.i) % 4
                out = np.zeros(1, dtype=u.model.expparams_dtype)
                if form == "scalar":
                    out[0] = e
                else:
                    out["e"] = e
                    if form == "two":
                        out["z"] = e + .5
                return out

        def shift(model, u):
            return type("D", (), dict(particle_locations=np.array(u.particle_locations) + 1, n_particles=u.n_particles,
                                      particle_weights=np.ones(u.n_particles) / u.n_particles))()
        self.model = Est()
        kw = {"extra_updater_args": {"resample_thresh": 2, "resampler": shift}} if c["rs"] else {"extra_updater_args": {"resample_thresh": 0}}
        if not c["same"]:
            kw["true_model"] = True_()
        if c["src"] == "true_prior" or (c["src"] == "prior" and c["nt"] != c["ne"]):
            kw["true_prior"] = TruePrior()
        if c["src"] == "mps":
            t = np.arange(2., c["nt"] + 2)
            self.mps = kw["true_mps"] = t if c["np"] == 2 else t[None, :]
            if len(b["sched"]) % 2:
                kw["true_prior"] = TruePrior()      # a given truth takes precedence
        self.kw, self.prior, self.heuristic = kw, Prior(), Heuristic

    def now(self):
        return self.local.slot

    def slot(self, what):
        s = getattr(self.local, "slot", None)
        if s is None or (getattr(s, what) and not hasattr(self.local, "fixed")):
            s = self.begin(len(self.slots) + 1)
        if getattr(s, what):
            raise AssertionError("a trial did its %s twice" % what)
        setattr(s, what, True)
        return s

    def begin(self, i):
        s = self.local.slot = Slot(i)
        self.slots.append(s)
        return s


class Turns(object):
    """apply() whose trials run in threads that take turns in the order of the schedule."""

    def __init__(self, world, order, n):
        self.w, self.order, self.n, self.pos = world, list(order), n, 0
        self.cv = threading.Condition()
        self.over, self.handles = set(), []
        self.current = None
        self.errs = None
        world.gate = self.gate

    def advance(self):
        while self.pos < len(self.order):
            i = self.order[self.pos]
            self.pos += 1
            if i not in self.over and i <= len(self.handles):
                self.current = i
                self.cv.notify_all()
                return
        left = [i for i in range(1, len(self.handles) + 1) if i not in self.over]
        self.current = left[0] if left else None
        self.cv.notify_all()

    def gate(self, i):
        with self.cv:
            h = self.handles[i - 1]
            if h.fresh:            # its first turn is the one that started it
                h.fresh = False
                return
            self.advance()
            self.cv.wait_for(lambda: self.current == i, timeout=15)

    def __call__(self, fn, *a, **k):
        t = self
        class Handle(object):
            fresh, val, exc, ran = True, None, None, 0
            def get(self, *x):
                t.run()
                if self.exc is not None:
                    raise self.exc
                return self.val
        h = Handle()
        h.fn, h.errs = (lambda: fn(*a, **k)), np.geterr()
        self.handles.append(h)
        return h

    def run(self):
        if self.errs is not None:
            return
        self.errs = True

        def body(i, h):
            with self.cv:
                self.cv.wait_for(lambda: self.current == i, timeout=15)
            np.seterr(**h.errs)
            self.w.local.fixed = True
            self.w.begin(i)
            h.ran += 1
            try:
                h.val = h.fn()
            except Exception as ex:
                h.exc = ex
            with self.cv:
                self.over.add(i)
                self.advance()
        ths = [threading.Thread(target=body, args=(i + 1, h), daemon=True) for i, h in enumerate(self.handles)]
        for th in ths:
            th.start()
        with self.cv:
            self.advance()
        for th in ths:
            th.join(20)


class Bar(object):
    log = None
    def start(self, m): self.log.append(("start", m))
    def update(self, k): self.log.append(("update", k))
    def finished(self): self.log.append(("finished",))


class BarText(Bar):
    description = ""


def rows_equal(E, form, rows, want, where):
    if not E(len(rows) == len(want), where + ".rows", "%d rows, expected %d" % (len(rows), len(want))):
        return
    for k, (r, x) in enumerate(zip(rows, want)):
        for f in ("true",):
            E(np.array_equal(np.ravel(r[f]), x[f]), where + "." + f, "row %d: %s, expected %s" % (k, np.ravel(r[f]), x[f]))
        E(int(r["outcome"]) == x["o"], where + ".outcome", "row %d: %s, expected %s" % (k, r["outcome"], x["o"]))
        e = r["experiment"] if form == "scalar" else r["e"]
        E(int(np.ravel(e)[0]) == x["e"], where + ".experiment", "row %d: %s, expected %s" % (k, e, x["e"]))
        if form == "two":
            E(float(np.ravel(r["z"])[0]) == x["e"] + .5, where + ".experiment", "row %d: z %s" % (k, r["z"]))
        E(np.allclose(np.ravel(r["est"]), [m[0] / m[1] for m in x["est"]], atol=1e-9), where + ".est", "row %d: %s, expected %s" % (k, r["est"], x["est"]))
        E(abs(float(r["loss"]) - x["loss"][0] / x["loss"][1]) <= 1e-8 * (1 + x["loss"][0] / x["loss"][1]), where + ".loss", "row %d: %s, expected %s" % (k, r["loss"], x["loss"]))
        E(int(r["resample_count"]) == x["rsc"], where + ".resample_count", "row %d: %s, expected %s" % (k, r["resample_count"], x["rsc"]))
        E(0 <= float(r["elapsed_time"]) < 20, where + ".elapsed_time", "row %d: %s" % (k, r["elapsed_time"]))


def posteriors(E, slot, rows):
    want = [[m[0] / m[1] for m in r["prior"]] for r in rows]
    E(len(slot.means) == len(want) and np.allclose(slot.means, want, atol=1e-9) if want else not slot.means, "chosen_from_posterior",
      "trial %d chose from %s, expected %s" % (slot.i, slot.means, want))


ERRS = [dict(divide="warn", over="warn", under="ignore", invalid="warn"), dict(divide="ignore", over="raise", under="warn", invalid="ignore"),
        dict(divide="raise", over="ignore", under="ignore", invalid="raise")]


def multiple(chk, q, b, n, threads):
    c, form = b["c"], ["scalar", "fields", "two"][n % 3]
    w = World(q, b, form)
    case = {"c": c, "sched": b["sched"] if threads else "default apply", "form": form, "bar": n % 4}
    E = lambda cond, clause, detail="": chk.expect(cond, clause, case, detail)
    log = []
    bar = type("B", (BarText if n % 2 else Bar,), {"log": log})
    kw = dict(w.kw)
    if n % 4:
        kw["progressbar"] = bar
    turns = None
    if threads:
        turns = kw["apply"] = Turns(w, b["sched"], c["trials"])
    errs = ERRS[n % len(ERRS)]
    keep = w.mps.copy() if c["src"] == "mps" else None
    old = np.seterr(**errs)
    try:
        o = call(perf_test_multiple, c["trials"], w.model, c["np"], w.prior, c["steps"], w.heuristic, allow_failures=c["allow"], **kw)
        after = np.geterr()
    finally:
        np.seterr(**old)
    E(after == errs, "numpy_policy_restored", "%s, before the test %s" % (after, errs))
    if keep is not None:
        E(np.array_equal(keep, w.mps), "true_mps_modified")
    bad = [i for i, t in enumerate(b["tr"]) if t["err"]]
    if c["allow"] or not bad:
        if not E(o.exc == "", "exception", o.exc + " " + o.msg + o.tb):
            return
        p = o.value
        E(isinstance(p, np.ma.MaskedArray) == c["allow"], "masked_array", str(type(p)))
        if not E(p.shape == (c["trials"], c["steps"]), "shape", str(p.shape)):
            return
        for i, t in enumerate(b["tr"]):
            if c["allow"]:
                mk = np.array([[all(np.ravel(x)) if t["err"] else any(np.ravel(x)) for x in np.ma.getmaskarray(p)[i, k].tolist()] for k in range(c["steps"])])
                E(np.all(mk) if t["err"] else not np.any(mk), "mask", "row %d (%s): %s" % (i, t["err"] or "ok", mk.tolist()))
            if not t["err"]:
                rows_equal(E, form, [np.ma.getdata(p)[i, k] for k in range(c["steps"])], t["rows"], "multiple")
        E(len(w.slots) == c["trials"], "trials_started", "%d, expected %d" % (len(w.slots), c["trials"]))
    else:
        kinds = {b["tr"][i]["err"] for i in bad} | ({"FloatingPointError"} if any(b["tr"][i]["err"] == "RuntimeError" for i in bad) else set())
        E(o.exc in kinds, "raises", "%s %s, expected one of %s" % (o.exc, o.msg, sorted(kinds)))
        E(len(w.slots) <= c["trials"], "trials_started", "%d, at most %d" % (len(w.slots), c["trials"]))
    if n % 4:
        if E(log[:1] == [("start", c["trials"])] and log[-1:] == [("finished",)] and log.count(("finished",)) == 1, "progressbar", str(log)):
            ups = [x[1] for x in log[1:-1]]
            E(all(x[0] == "update" for x in log[1:-1]) and ups == sorted(ups) and all(0 <= u <= c["trials"] for u in ups), "progressbar.updates", str(log))
    if turns is not None:
        E(len(turns.handles) == c["trials"], "applied", "%d trials were applied" % len(turns.handles))
        E(all(h.ran == (1 if turns.errs else 0) for h in turns.handles), "ran_once")
    for s in w.slots:
        if s.i <= len(b["tr"]):
            t = b["tr"][s.i - 1]
            posteriors(E, s, t["rows"])
    chk.traces += 1


def single(chk, q, b, n):
    """Each trial on its own."""
    c, form = b["c"], ["scalar", "fields", "two"][n % 3]
    w = World(q, b, form)
    errs = dict(ERRS[n % len(ERRS)], divide="raise")
    for i, t in enumerate(b["tr"]):
        case = {"c": c, "trial": i + 1, "form": form}
        E = lambda cond, clause, detail="": chk.expect(cond, clause, case, detail)
        w.local.fixed = True
        w.begin(i + 1)
        old = np.seterr(**errs)
        try:
            o = call(perf_test, w.model, c["np"], w.prior, c["steps"], w.heuristic, **w.kw)
            after = np.geterr()
        finally:
            np.seterr(**old)
        E(after == errs, "numpy_policy_restored", "%s, before the test %s" % (after, errs))
        if t["err"]:
            E(o.exc == t["err"] or (t["err"] == "RuntimeError" and o.exc == "FloatingPointError"), "single.raises", "%s %s, expected %s" % (o.exc, o.msg, t["err"]))
        elif E(o.exc == "", "single.exception", o.exc + " " + o.msg + o.tb):
            E(o.value.shape == (c["steps"],), "single.shape", str(o.value.shape))
            rows_equal(E, form, o.value, t["rows"], "single")
        posteriors(E, w.slots[-1], t["rows"])
    chk.traces += 1


def elapsed(chk, q):
    """The elapsed time of a row covers the update it stands for: it is at least the time the model slept."""
    import time

    class Slow(q.FiniteOutcomeModel):
        n_modelparams, modelparam_names, is_n_outcomes_constant, expparams_dtype = 1, ["x"], True, "int"
        nap = 0.
        def n_outcomes(self, e): return 2
        def are_models_valid(self, m): return np.ones(len(m), bool)
        def likelihood(self, o, m, e):
            super(Slow, self).likelihood(o, m, e)
            time.sleep(self.nap)
            return np.full((len(np.atleast_1d(o)), len(m), len(np.atleast_1d(e))), .5)
        def simulate_experiment(self, m, e, repeat=1):
            self.nap = .004 * (1 + int(np.ravel(e)[0]))
            return 0

    class Heur(object):
        def __init__(self, u): self.k = -1
        def __call__(self):
            self.k += 1
            return np.array([self.k])
    o = call(perf_test, Slow(), 5, q.UniformDistribution([0, 1]), 3, Heur)
    if chk.expect(o.exc == "", "elapsed.exception", {}, o.exc + " " + o.msg):
        t = np.array(o.value["elapsed_time"], float)
        chk.expect(np.all(t >= .003 * np.arange(1, 4)) and np.all(t < 20), "elapsed_time_covers_update", {}, str(t.tolist()))


def serial(chk, q):
    """The serial stand-in for an engine calls its function once, with the given arguments, however often its result is asked for."""
    from qinfer.perf_testing import apply_serial
    for out in (np.zeros(3, dtype=[("resample_count", "int"), ("loss", "float")]), None, 0, [], "x"):
        seen = []

        def fn(*a, **k):
            seen.append((a, k))
            return out
        r = apply_serial(fn, 1, "b", c=3)
        got = [call(r.get) for _ in range(3)]
        chk.expect(all(o.exc == "" and o.value is out for o in got) and seen == [((1, "b"), {"c": 3})], "apply_serial", {"result": repr(out)},
                   "called %d times" % len(seen))


def run(chk):
    q = qinfer
    elapsed(chk, q)
    serial(chk, q)
    inv = ["Independent", "FailsAsPlanned", "RowsFull", "TruthChain"]
    small = dict(DEPTH=2, TRIALS={2}, DIMS=chk.pick({1}, {1, 2}), SIM=False)
    big = dict(DEPTH=3, TRIALS={1, 2, 3}, DIMS={1, 2, 3}, SIM=True)
    res = parallel([lambda: chk.model("PerfTest", cfg(small, invariants=inv, properties=["Terminates"]), workers=4, name="PerfTest/exhaustive"),
                    lambda: chk.emitted("PerfTest", cfg(big, invariants=inv + ["Emit"]), simulate=chk.pick(700, 12000), depth=90, seed=chk.seed * 131, name="PerfTest/sim"),
                    lambda: chk.emitted("PerfTest", cfg(big, invariants=inv + ["Emit"]), simulate=chk.pick(700, 12000), depth=90, seed=chk.seed * 137, name="PerfTest/sim2")])
    seen = set()
    for b in res[1] + res[2]:
        k = repr(b)
        if k in seen:
            continue
        seen.add(k)
        n = len(seen)
        multiple(chk, q, b, n, False)
        multiple(chk, q, b, n // 2, True)
        if n % 2:
            single(chk, q, b, n)
    chk.sample({"c": b["c"], "sched": b["sched"], "errors": [t["err"] for t in b["tr"]]})
