"""C15: models parallelised over engines (spec/Parallel.tla)."""
import pickle
import numpy as np
from lib.vlib import import_qinfer, parallel, cfg, call

qinfer = import_qinfer()
import qinfer.parallel


EVALS = []      # (parameter vectors, experiments) of every evaluation on any copy of the model


class Tagged(qinfer.FiniteOutcomeModel):
    """Likelihoods and outcomes that spell out what they are the likelihood or outcome of."""
    n_modelparams = 2
    modelparam_names = ["x", "y"]
    expparams_dtype = [("e", "float")]
    is_n_outcomes_constant = True
    cleared = 0

    def n_outcomes(self, e): return 2
    def are_models_valid(self, m): return np.ones(len(m), bool)
    def clear_cache(self): self.cleared += 1

    def likelihood(self, o, m, e):
        super(Tagged, self).likelihood(o, m, e)
        if len(m) == 0 or len(e) == 0 or len(o) == 0:
            raise ValueError("nothing to evaluate")
        EVALS.append((m[:, 0].copy(), e["e"].copy()))
        return np.asarray(o)[:, None, None] * 10000. + m[None, :, :1] * 100 + e["e"][None, None, :]

    def simulate_experiment(self, m, e, repeat=1):
        if len(m) == 0 or len(e) == 0:
            raise ValueError("nothing to simulate")
        EVALS.append((m[:, 0].copy(), e["e"].copy()))
        v = np.arange(repeat)[:, None, None] * 10000. + m[None, :, :1] * 100 + e["e"][None, None, :]
        return v[0, 0, 0] if v.size == 1 else v


class Handle(object):
    def __init__(self, v): self.v = v
    def get(self, timeout=None): return self.v
    def wait(self, timeout=None): pass
    def ready(self): return True
    def __iter__(self): return iter(self.v)


class View(object):
    """Direct view whose engines finish in a given order and see pickled copies of their arguments."""

    def __init__(self, n):
        self.n, self.order, self.jobs, self.log, self.fail = n, [], [], [], False
        self.results = {}
        self.client = self

    def __len__(self): return self.n
    targets = property(lambda self: list(range(self.n)))

    def map(self, f, *seqs, **kw):
        jobs = list(zip(*[list(s) for s in seqs]))
        self.jobs.append(jobs)
        out = [None] * len(jobs)
        rank = [i - 1 for i in self.order if i <= len(jobs)]
        for i in rank + [i for i in range(len(jobs)) if i not in rank]:
            out[i] = f(*[pickle.loads(pickle.dumps(a)) for a in jobs[i]])
        return out if kw.get("block", True) else Handle(out)

    def map_sync(self, f, *s): return self.map(f, *s, block=True)
    def map_async(self, f, *s): return self.map(f, *s, block=False)

    def purge_results(self, what):
        self.log.append(("purge", what))
        if self.fail:
            raise RuntimeError("engine gone")

    def purge_everything(self): self.log.append(("client",))


def replay(chk, q, b):
    c = b["c"]
    view = View(c["eng"])
    base = Tagged()
    kw = {} if c["thr"] == -1 else {"serial_threshold": c["thr"]}
    o = call(q.DirectViewParallelizedModel, base, view, purge_client=c["purge"], **kw)
    if not chk.expect(o.exc == "", "construct", {"c": c}, o.exc + o.msg):
        return
    m = o.value
    for i, s in enumerate(b["steps"]):
        case = {"c": c, "steps": [{k: x for k, x in t.items() if k in ("op", "n", "m", "r", "order", "fail")} for t in b["steps"][:i + 1]]}
        E = lambda cond, clause, detail="": chk.expect(cond, clause, case, detail)
        if s["op"] == "pickle":
            o = call(lambda: pickle.loads(pickle.dumps(m)))
            if not E(o.exc == "", "pickle", o.exc + o.msg):
                return
            m = o.value
            base = m.underlying_model
            E(m.n_engines == 0, "pickle.n_engines", str(m.n_engines))
            E((m.call_count, m.sim_count) == (s["calls"], s["sims"]), "pickle.counters", str((m.call_count, m.sim_count)))
            o = call(lambda: m.allow_identical_outcomes)
            E(o.exc == "", "pickle.options", o.exc + o.msg)
            continue
        if s["op"] == "clear":
            view.log, view.fail, n0 = [], s["fail"], base.cleared
            o = call(m.clear_cache)
            E(o.exc == "" and base.cleared == n0 + 1, "clear_cache", o.exc + o.msg)
            E(view.log == ([("purge", "all")] if s["purge"] else []) + ([("client",)] if s["client"] else []), "clear_cache.purge", str(view.log))
            continue
        lik, byexp = s["op"] == "lik", s["op"] == "simexp"
        nx, ne = (s["m"], s["n"]) if byexp else (s["n"], s["m"])
        xs = np.stack([np.arange(1, nx + 1), -np.arange(nx)], axis=1).astype(float)
        es = np.zeros(ne, dtype=m.expparams_dtype)
        es["e"] = np.arange(1, ne + 1)
        os_ = np.arange(s["r"])
        view.order, view.jobs = s["order"], []
        del EVALS[:]
        ux, ue = xs.copy(), es.copy()
        o = call(m.likelihood, os_, xs, es) if lik else call(m.simulate_experiment, xs, es, **dict({"split_by_modelparams": False} if byexp else {}, **({} if s["r"] == 1 else {"repeat": s["r"]})))
        E(o.exc == s["exc"], "exception", "%s %s, expected %s; %s" % (o.exc, o.msg, s["exc"] or "none", o.tb))
        E((m.call_count, m.sim_count) == (s["calls"], s["sims"]), "counters", "%s, expected %s" % ((m.call_count, m.sim_count), (s["calls"], s["sims"])))
        E(np.array_equal(xs, ux) and np.array_equal(es, ue), "inputs_modified")
        evals = list(EVALS)
        jobs = [j for js in view.jobs for j in js]
        E(bool(jobs) == (s["par"] and s["exc"] == ""), "engines_used", "%d items given to engines" % len(jobs))
        if s["exc"] or o.exc:
            continue
        ref = Tagged()
        want = ref.likelihood(os_, xs, es) if lik else ref.simulate_experiment(xs, es, repeat=s["r"])
        E(np.shape(o.value) == np.shape(want), "shape", "%s, serial model: %s" % (np.shape(o.value), np.shape(want)))
        E(np.shape(o.value) == np.shape(want) and np.array_equal(o.value, want), "values", "%s, serial model: %s" % (np.asarray(o.value).tolist(), np.asarray(want).tolist()))
        if jobs:
            given = [int(v) for ms, ee in evals for v in (ee if byexp else ms)]
            E(sorted(given) == list(range(1, s["n"] + 1)), "items_handled_once", str(given))
    chk.traces += 1


def run(chk):
    q = qinfer
    if qinfer.parallel.ipp is None:
        chk.extra["note"] = "ipyparallel is not importable: a stand-in marks it as present"
        qinfer.parallel.ipp = object()
    small = dict(ENG=chk.pick({1, 2, 3}, {1, 2, 3, 4}), ITEMS=chk.pick({1, 2, 3, 4}, {1, 2, 3, 4, 5}), DEPTH=1, SIM=False)
    big = dict(ENG={1, 2, 3, 4, 5, 8}, ITEMS={1, 2, 3, 4, 5, 6, 7, 9}, DEPTH=6, SIM=True)
    edge = dict(ENG={1, 2}, ITEMS={3, 9, 10, 11, 19, 20, 21, 25}, DEPTH=5, SIM=True)
    inv = ["Assembled", "NoEngineBelow", "Emit"]
    res = parallel([lambda: chk.emitted("Parallel", cfg(small, invariants=inv, properties=["Completes"]), name="Parallel/exhaustive"),
                    lambda: chk.emitted("Parallel", cfg(big, invariants=inv), simulate=chk.pick(1500, 20000), depth=90, seed=chk.seed * 101, name="Parallel/sim"),
                    lambda: chk.emitted("Parallel", cfg(edge, invariants=inv), simulate=chk.pick(400, 4000), depth=90, seed=chk.seed * 103, name="Parallel/thresholds")])
    for bs in res:
        seen = set()
        for b in bs:
            k = repr(b)
            if k not in seen:
                seen.add(k)
                replay(chk, q, b)
        if bs:
            chk.sample({"c": bs[-1]["c"], "ops": [s["op"] for s in bs[-1]["steps"]]})
