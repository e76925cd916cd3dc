"""C12: repeated-measurement models (spec/Counts.tla)."""
import math
import numpy as np
from lib.vlib import import_qinfer, parallel, cfg, call


def base_model(q, w, K, scalar):
    class Table(q.FiniteOutcomeModel):
        n_modelparams = 1
        modelparam_names = ["i"]
        expparams_dtype = "int" if scalar else [("e", "int"), ("junk", "float")]
        is_n_outcomes_constant = True

        def n_outcomes(self, e):
            return K

        def idx(self, e):
            e = np.asarray(e)
            if scalar:
                assert e.dtype.names is None, "structured experiments given to a scalar-experiment model"
            return [int(i) for i in np.ravel(e if e.dtype.names is None else e["e"])]

        def are_models_valid(self, m):
            return np.array([w["valid"][int(x) - 1] for x in m[:, 0]])

        def update_timestep(self, m, e):
            return m[:, :, None] + 10 * np.array(self.idx(e))[None, None, :]

        def likelihood(self, o, m, e):
            super(Table, self).likelihood(o, m, e)
            return np.array([[[w["t"][k - 1][int(x) - 1][int(c)] / 4. for k in self.idx(e)] for x in m[:, 0]]
                             for c in np.atleast_1d(o)]).reshape(np.size(o), len(m), len(self.idx(e)))
    return Table()


class Fixed:
    n_rvs = 1

    def sample(self, n=1):
        return np.arange(1, n + 1, dtype=float)[:, None]


def static(model):
    """The updater's view of the model without its (stub) time step."""
    model.update_timestep = lambda m, e: np.repeat(m[:, :, None], len(e), axis=2)
    return model


def near(a, b, tol=1e-9):
    a = np.asarray(a)
    return a.shape == np.shape(b) and bool(np.all(np.abs(a - b) <= tol * (1 + np.abs(b))))


def replay(chk, q, b, v):
    w, K, kind = b["w"], b["k"], b["kind"]
    scalar = v % 2 == 1
    base = base_model(q, w, K, scalar)
    m = (q.BinomialModel if kind == "binomial" else q.MultinomialModel)(base)

    def E_(es, model=m):
        a = np.zeros(len(es), dtype=m.expparams_dtype)
        a["x" if scalar else "e"] = es
        a["n_meas"] = [w["ns"][e - 1] for e in es]
        return a

    def B_(es):
        return np.array(es, dtype=int) if scalar else np.array([(e, 0.) for e in es], dtype=base.expparams_dtype)

    def O_(os):
        if kind == "binomial":
            return np.array([o[1] for o in os])
        return np.array([(o,) for o in os], dtype=[("k", int, K)])
    n = 4
    upd = q.SMCUpdater(static((q.BinomialModel if kind == "binomial" else q.MultinomialModel)(base_model(q, w, K, scalar))), n, Fixed(),
                       resample_thresh=0, zero_weight_policy="ignore")
    one = q.SMCUpdater(static(base_model(q, w, K, scalar)), n, Fixed(), resample_thresh=0, zero_weight_policy="ignore")
    first = True
    for i, st in enumerate(b["steps"]):
        case = {"kind": kind, "scalar": scalar, "world": w, "step": {k: x for k, x in st.items() if k not in ("p", "members")}}
        E = lambda cond, clause, detail="": chk.expect(cond, clause, case, detail)
        if st["op"] == "lik":
            os_, xs, es = O_(st["os"]), np.array(st["xs"], float)[:, None], E_(st["es"])
            want = np.array([[[p[0] / p[1] for p in r] for r in t] for t in st["p"]])
            c0 = m.call_count
            keep = [a.copy() for a in (os_, xs, es)]
            o = call(m.likelihood, os_, xs, es)
            E(o.exc == "" and near(o.value, want), "likelihood", "%s %s" % (o.exc + o.msg, o.value if o.exc == "" else o.tb))
            E(m.call_count - c0 == want.size, "call_count", str(m.call_count - c0))
            E(all(np.array_equal(a, k) for a, k in zip((os_, xs, es), keep)), "inputs_modified")
        elif st["op"] == "domain":
            es = E_(st["es"])
            o = call(m.domain, es)
            if E(o.exc == "" and len(o.value) == len(es), "domain", o.exc + o.msg):
                for d, mem in zip(o.value, st["members"]):
                    vals = call(lambda: d.values)
                    if not E(vals.exc == "", "domain.values", vals.exc + vals.msg):
                        continue
                    got = [int(t) for t in vals.value] if kind == "binomial" else [tuple(int(s) for s in t) for t in vals.value["k"]]
                    want = [x[1] for x in mem] if kind == "binomial" else [tuple(x) for x in mem]
                    E(sorted(got) == sorted(want), "domain.values", "%s vs %s" % (got, want))
                    E(d.n_members == len(want) and d.is_finite, "domain.n_members", str(d.n_members))
                    E(all(d.in_domain(vals.value[k:k + 1]) for k in range(len(want))), "domain.in_domain")
            o = call(m.n_outcomes, es)
            E(o.exc == "" and [int(t) for t in np.ravel(o.value)] == [len(x) for x in st["members"]], "n_outcomes", "%s %s" % (o.exc + o.msg, o.value))
            E(not m.is_n_outcomes_constant, "is_n_outcomes_constant")
        elif st["op"] == "facets":
            xs, es = np.array(st["xs"], float)[:, None], E_(st["es"])
            o = call(m.are_models_valid, xs)
            E(o.exc == "" and list(map(bool, o.value)) == st["valid"], "are_models_valid", "%s" % o.value)
            o = call(m.update_timestep, xs, es)
            E(o.exc == "" and near(o.value, np.array(st["step"], float)[:, None, :]), "update_timestep", "%s %s" % (o.exc + o.msg, o.value))
            E(list(m.modelparam_names) == ["i"] and m.n_modelparams == 1, "modelparam_names", str(m.modelparam_names))
            names = [f[0] for f in m.expparams_dtype]
            E(names == (["x", "n_meas"] if scalar else ["e", "junk", "n_meas"]), "expparams_dtype", str(m.expparams_dtype))
            E(m.underlying_model is base and m.base_model is base and tuple(m.model_chain) == (base,), "model_chain")
            E(np.array_equal(m.Q, base.Q), "Q")
        else:
            if first:   # the initial weights are the specification's
                prev = np.array(st["pre"], float)
                upd.particle_weights = prev / prev.sum()
                one.particle_weights = prev / prev.sum()
                first = False
            out = O_([st["v"]])
            out = out[0] if (v + i) % 2 else out
            if kind == "binomial" and (v + i) % 3 == 0:
                out = int(st["v"][1])
            W = np.array(st["W"], float) / sum(st["W"])
            o = call(upd.update, out, E_([st["e"]]))
            E(o.exc == "" and near(upd.particle_weights, W), "update.posterior", "%s %s vs %s" % (o.exc + o.msg + o.tb, upd.particle_weights, W))
            if o.exc == "":
                nm = float(np.ravel(upd.normalization_record[-1])[0])
                E(abs(nm - st["norm"][0] / st["norm"][1]) < 1e-9, "update.normalization", str(nm))
            for s in st["shots"]:
                o = call(one.update, s - 1, B_([st["e"]]))
                E(o.exc == "", "update.shots", o.exc + o.msg)
            E(near(one.particle_weights, W), "update.shots", "%s vs %s" % (one.particle_weights, W))
    chk.traces += 1


def fisher(chk, q):
    """n shots carry n times the Fisher information, for structured and for scalar experiments."""
    for name, base, xs, es in (
            ("coin", q.CoinModel(), [[.25], [.5]], None), ("inversion", q.SimpleInversionModel(), [[.3], [.8]], [(2., .1), (3., .5)]),
            ("precession", q.SimplePrecessionModel(), [[.3], [.8]], [2., 5.]),
            ("rb", q.RandomizedBenchmarkingModel(), [[.9, .5, .4], [.8, .3, .5]], [(2,), (3,)])):
        xs = np.array(xs)
        for ns in ([1, 1], [3, 5], [4, 0]):
            case = {"model": name, "n_meas": ns}
            E = lambda cond, clause, detail="": chk.expect(cond, clause, case, detail)
            o = call(q.DifferentiableBinomialModel, base)
            if not E(o.exc == "", "differentiable", o.exc + o.msg):
                continue
            m = o.value
            e = np.zeros(2, dtype=m.expparams_dtype)
            if es is not None:
                for i, t in enumerate(es):
                    for f, u in zip(e.dtype.names, np.atleast_1d(t) if np.ndim(t) else (t,)):
                        e[f][i] = u
            e["n_meas"] = ns
            be = (np.zeros(2, dtype=base.expparams_dtype) if es is None else np.array(es, dtype=base.expparams_dtype))
            f1 = base.fisher_information(xs, be)
            o = call(m.fisher_information, xs, e)
            E(o.exc == "" and near(o.value, f1 * np.array(ns)), "fisher_information", "%s %s vs %s" % (o.exc + o.msg, o.value, f1 * np.array(ns)))
            # and it is the outcome average of the counts' own score: for one parameter, sum_k p'(k)^2/p(k)
            if xs.shape[1] == 1 and max(ns) <= 5:
                for j in range(2):
                    for k in range(2):
                        d = 1e-5
                        ks = np.arange(ns[k] + 1)
                        L = [m.likelihood(ks, xs[j:j + 1] + s, e[k:k + 1])[:, 0, 0] for s in (-d, 0, d)]
                        num = np.sum(((L[2] - L[0]) / (2 * d)) ** 2 / L[1]) if ns[k] else 0.
                        E(o.exc == "" and abs(o.value[0, 0, j, k] - num) <= 1e-4 * (1 + abs(num)), "fisher_information.score", "%s vs %g" % (o.value, num))


def refused(chk, q):
    """Only two-outcome models can be repeated binomially."""
    for n, const in ((1, True), (3, True), (2, False), (5, False)):
        class Other(q.FiniteOutcomeModel):
            n_modelparams = 1
            expparams_dtype = [("e", "int")]
            is_n_outcomes_constant = const
            def n_outcomes(self, e): return n if const else np.full(np.size(e), n)
            def are_models_valid(self, m): return np.ones(len(m), bool)
            def likelihood(self, o, m, e): return np.full((np.size(o), len(m), np.size(e)), 1. / n)
        o = call(q.BinomialModel, Other())
        chk.expect(o.exc == "ValueError", "refused", {"outcomes": n, "constant": const}, o.exc)


def run(chk):
    q = import_qinfer()
    runs = [("binomial", 2, 4), ("binomial", 2, 6), ("multinomial", 2, 4), ("multinomial", 3, 3), ("multinomial", 4, 2)]
    n = chk.pick(60, 1200)
    res = parallel([lambda i=i, t=t: chk.emitted("Counts", cfg(dict(KIND=t[0], K=t[1], NMAX=t[2], DEPTH=8), invariants=["Lawful", "OrderFree", "DomainSize", "Emit"]),
                    simulate=n, depth=10, seed=chk.seed * 83 + i, name="Counts/%s-%d" % t[:2]) for i, t in enumerate(runs)])
    for bs in res:
        with np.errstate(all="ignore"):
            for v, b in enumerate(bs):
                replay(chk, q, b, v)
        if bs:
            chk.sample({"kind": bs[0]["kind"], "world": bs[0]["w"], "ops": [{k: s[k] for k in s if k in ("op", "e", "v", "shots")} for s in bs[0]["steps"]]})
    fisher(chk, q)
    refused(chk, q)
