"""The bundled models on the lattices of spec/Models.tla, and the replay of its behaviours (C10, C11)."""
import math
import numpy as np
from lib.vlib import call, cfg, parallel

MODELS = ["inversion", "precession", "t2", "coin", "noisycoin", "ndie3", "ndie4", "rb", "rbi", "tomo"]


def r(x):
    return x[0] / x[1]


def tens(t):
    return np.array([tens(a) for a in t]) if isinstance(t[0], list) else r(t)


def vary(q):
    """A caller's model with as many outcomes as the experiment says (returned as an array, like the bundled ones do)."""
    class Vary(q.FiniteOutcomeModel, q.DifferentiableModel):
        n_modelparams = 2
        expparams_dtype = [("n", "int")]
        is_n_outcomes_constant = False
        modelparam_names = ["p_1", "p_2"]

        def n_outcomes(self, e):
            return np.asarray(e["n"]).astype(int)

        def are_models_valid(self, m):
            return np.all(m >= 0, axis=1) & (m.sum(axis=1) <= 1)

        def prob(self, o, m, n):
            rest = 1 - m[:, 0] - (m[:, 1] if n > 2 else 0)
            return m[:, 0] if o == 0 else m[:, 1] if o == 1 and n > 2 else rest / max(1, n - 2)

        def likelihood(self, o, m, e):
            super(Vary, self).likelihood(o, m, e)
            o, e = np.atleast_1d(o), np.atleast_1d(e)
            assert o.ndim == 1 and m.ndim == 2 and e.ndim == 1
            return np.array([[self.prob(a, m, n) if a < n else 0 * m[:, 0] for n in e["n"]] for a in o]).transpose(0, 2, 1)

        def score(self, o, m, e, return_L=False):
            assert np.ndim(o) == 1 and m.ndim == 2 and e.ndim == 1
            s = np.zeros((2, len(o), len(m), len(e)))
            for i, a in enumerate(o):
                for k, n in enumerate(e["n"]):
                    p = self.prob(a, m, n)
                    if a == 0:
                        s[0, i, :, k] = 1 / p
                    elif a == 1 and n > 2:
                        s[1, i, :, k] = 1 / p
                    else:
                        s[0, i, :, k] = -1 / (p * max(1, n - 2))
                        s[1, i, :, k] = s[0, i, :, k] if n > 2 else 0
            return (s, self.likelihood(o, m, e)) if return_L else s
    return Vary


class Lattice:
    def __init__(self, q, name):
        self.q, self.name = q, name
        self.m = {"inversion": q.SimpleInversionModel, "precession": q.SimplePrecessionModel, "t2": q.UnknownT2Model,
                  "coin": q.CoinModel, "noisycoin": q.NoisyCoinModel, "ndie3": lambda: q.NDieModel(3),
                  "ndie4": lambda: q.NDieModel(4), "rb": q.RandomizedBenchmarkingModel,
                  "rbi": lambda: q.RandomizedBenchmarkingModel(interleaved=True),
                  "vary": lambda: vary(q)(),
                  "tomo": lambda: q.tomography.TomographyModel(q.tomography.pauli_basis(1))}[name]()

    def xs(self, xs):
        a = np.array(xs, float)
        n = self.name
        if n in ("inversion", "precession"):
            return a * math.pi / 3
        if n == "t2":
            return a * np.array([math.pi / 3, math.log(2)])
        if n in ("coin", "noisycoin"):
            return a / 4
        if n.startswith("ndie") or n == "vary":
            return a / 8
        if n == "rb":
            return a / np.array([4., 8, 8])
        if n == "rbi":
            return a / np.array([4., 4, 8, 8])
        return np.concatenate([np.ones((len(a), 1)), a / 5], axis=1) / math.sqrt(2)

    def es(self, es, variant=0):
        n, m = self.name, self.m
        if n == "precession":
            t = np.array([float(e[0]) for e in es])
            return t if variant % 2 else np.array([(x,) for x in t], dtype=[("t", "float")])
        ep = np.zeros(len(es), dtype=m.expparams_dtype)
        if n == "coin":
            return ep
        for i, e in enumerate(es):
            if n == "inversion":
                ep["t"][i], ep["w_"][i] = e[0], e[1] * math.pi / 3
            elif n == "vary":
                ep["n"][i] = e[0]
            elif n == "t2":
                ep["t"][i] = e[0]
            elif n == "noisycoin":
                ep["alpha"][i], ep["beta"][i] = e[0] / 4., e[1] / 4.
            elif n.startswith("ndie"):
                ep["exp_num"][i] = e[0]
            elif n == "rb":
                ep["m"][i] = e[0]
            elif n == "rbi":
                ep["m"][i], ep["reference"][i] = e[0], bool(e[1])
            else:
                ep["meas"][i] = np.array(e, float) / 5 / math.sqrt(2)
        return ep


def near(a, b, tol=1e-9):
    a = np.asarray(a)
    return a.shape == np.shape(b) and a.dtype.kind in "fiu" and bool(np.all(np.abs(a - b) <= tol * (1 + np.abs(b))))


def scorers(q, L, xs, v, fisher=False):
    """The model's own score, and the numerical score of the same likelihood with several steps (name, model, parameters, tolerance)."""
    out = []
    if isinstance(L.m, q.DifferentiableModel):
        out.append(("", L.m, xs, 1e-7))
    cls, k = type(L.m), xs.shape[1]
    made = {"interleaved": True} if L.name == "rbi" else {"n": k} if L.name.startswith("ndie") else {}
    h = [None, 2. ** -12, 2. ** -np.arange(11., 11 + k), np.array([2. ** -13])][v % 4]
    if h is not None and L.name == "tomo":
        return out
    body = {} if h is None else {"_h": h} if v % 3 else {"h": property(lambda s: h * np.ones(k))}
    if fisher:
        # the Fisher information as the average over outcomes of the numerical scores
        body["fisher_information"] = q.DifferentiableModel.fisher_information
    num = type("Num", (q.ScoreMixin, cls) + (() if issubclass(cls, q.DifferentiableModel) else (q.DifferentiableModel,)), body)(**made)
    tol = 1e-3 if h is None else 1e-4
    out.append(("numerical.", num, xs, tol))
    if k == 1 and not fisher:
        out.append(("numerical.flat.", num, xs[:, 0], tol))
    return out


def readonly(*arrs):
    for a in arrs:
        a.flags.writeable = False


def replay(chk, q, b, v):
    L = Lattice(q, b["model"])
    m = L.m
    calls = sims = 0
    base = m.call_count
    for i, st in enumerate(b["steps"]):
        case = {"model": b["model"], "op": st["op"], "os": st.get("os"), "xs": st.get("xs"), "es": st.get("es"), "repeat": st.get("repeat")}
        E = lambda cond, clause, detail="": chk.expect(cond, clause, case, detail)
        xs = L.xs(st["xs"]) if "xs" in st else None
        es = L.es(st["es"], v) if "es" in st else None
        os_ = np.array(st["os"]) if "os" in st else None
        keep = [None if a is None else a.copy() for a in (xs, es, os_)]
        if (v + i) % 3 == 0:
            readonly(*[a for a in (xs, es, os_) if a is not None])
        if st["op"] == "lik":
            arg = os_ if len(st["os"]) > 1 or (v + i) % 2 else [int(os_[0]), np.int64(os_[0]), np.array(int(os_[0]))][v % 3]
            o = call(m.likelihood, arg, xs, es)
            want = tens(st["p"])
            if np.ndim(arg) == 0:
                case["scalar_outcome"] = True
                case["axes_swapped"] = o.exc == "" and np.ndim(o.value) == 3 and near(np.swapaxes(o.value, 0, 1), want)
            E(o.exc == "" and near(o.value, want), "likelihood", "%s %s" % (o.exc + o.msg, "" if o.exc else np.shape(o.value)))
            if not o.exc:
                calls += want.size
                case["counted"] = m.call_count - base
                E(m.call_count - base == calls, "call_count", "%d, expected %d" % (m.call_count - base, calls))
                calls, base = 0, m.call_count
            if v % 4 == 0 and not o.exc and np.shape(o.value) == want.shape:
                # the same entries one at a time
                for a in range(want.shape[0]):
                    for j in range(want.shape[1]):
                        for k in range(want.shape[2]):
                            o1 = call(m.likelihood, os_[a:a + 1], xs[j:j + 1], es[k:k + 1])
                            E(o1.exc == "" and near(o1.value, want[a:a + 1, j:j + 1, k:k + 1]), "likelihood.single", o1.exc + o1.msg)
                base = m.call_count
        elif st["op"] == "valid":
            o = call(m.are_models_valid, xs)
            E(o.exc == "" and np.shape(o.value) == (len(xs),) and [bool(t) for t in o.value] == st["v"], "validity", "%s" % (o.value,))
            for x, t in zip(xs, st["v"]):
                o = call(m.is_model_valid, x)
                E(o.exc == "" and bool(o.value) == t, "is_model_valid", "%s" % (o.value,))
        elif st["op"] == "nout":
            o = call(m.n_outcomes, es)
            E(o.exc == "" and np.all(np.asarray(o.value) == np.array(st["n"])), "n_outcomes", "%s" % (o.value,))
            o = call(m.domain, es)
            E(o.exc == "" and len(o.value) == len(es) and all(list(np.ravel(d.values)) == list(range(k)) for d, k in zip(o.value, st["n"])), "domain",
              "%s" % (o.value,))
            E(bool(m.is_n_outcomes_constant) == (b["model"] != "vary"), "is_n_outcomes_constant")
            E(m.are_expparam_dtypes_consistent(es), "are_expparam_dtypes_consistent")
            if b["model"] != "vary":
                o = call(m.domain, None)
                E(o.exc == "" and list(np.ravel(o.value.values)) == list(range(st["n"][0])), "domain.constant", "%s" % (o.value,))
        elif st["op"] == "describe":
            describe(E, q, L, m, xs, L.xs(st["ys"]), es, st, v + i)
            base = m.call_count
        elif st["op"] == "rates":
            x, d = r(st["x"]), st["dim"]
            for f, w, clause in ((q.rb.p, r(st["p"]), "rb.p"), (q.rb.F, r(st["f"]), "rb.F")):
                for args in [(x, d)] + [(x,)] * (d == 2) + [(np.array([x, x]), d)]:
                    o = call(f, *args)
                    E(o.exc == "" and np.shape(o.value) == np.shape(args[0]) and near(np.asarray(o.value), np.broadcast_to(w, np.shape(args[0]))), clause,
                      "%s %s of %s" % (o.exc + o.msg, o.value, args))
        elif st["op"] == "score":
            want = np.moveaxis(tens(st["s"]), 3, 0) * math.sqrt(b["surd"])
            for num, mo, x, tol in scorers(q, L, xs, v + i):
                case["scorer"] = num
                o = call(mo.score, os_, x, es)
                E(o.exc == "" and near(o.value, want, tol), num + "score", "%s %s vs %s" % (o.exc + o.msg, o.value, want))
                o = call(mo.score, os_, x, es, return_L=True)
                if E(o.exc == "" and isinstance(o.value, tuple) and len(o.value) == 2, num + "score.return_L", o.exc + o.msg):
                    E(near(o.value[0], want, tol) and near(o.value[1], m.likelihood(os_, xs, es)), num + "score.with_likelihood")
            base = m.call_count
        elif st["op"] == "fisher":
            want = np.moveaxis(np.moveaxis(tens(st["f"]), 2, 0), 3, 1)
            for num, mo, x, tol in scorers(q, L, xs, v + i, True):
                case["scorer"] = num
                o = call(mo.fisher_information, x, es)
                E(o.exc == "" and near(o.value, want, 10 * tol), num + "fisher_information", "%s %s vs %s" % (o.exc + o.msg, o.value, want))
            base = m.call_count
        elif st["op"] == "sim":
            simulate(chk, m, xs, es, st, case, chk.seed * 7919 + v * 31 + i)
            base = m.call_count
        for a, k in zip((xs, es, os_), keep):
            if a is not None:
                E(np.array_equal(a, k), "inputs_modified")
    chk.traces += 1


def describe(E, q, L, m, xs, ys, es, st, v):
    """What a model says about itself."""
    unit = np.abs(L.xs([[1] * len(st["xs"][0])])[0] - L.xs([[0] * len(st["xs"][0])])[0])
    k = st["npar"]
    E(m.n_modelparams == k and len(m.modelparam_names) == k and all(isinstance(s, str) and s for s in m.modelparam_names)
      and len(set(m.modelparam_names)) == k, "names", "%s" % (m.modelparam_names,))
    E(np.shape(m.Q) == (k,) and np.all(np.asarray(m.Q) == 1), "scale_matrix", "%s" % (m.Q,))
    o = call(m.experiment_cost, es)
    E(o.exc == "" and near(np.asarray(o.value), np.ones(len(es))), "experiment_cost", o.exc + o.msg)
    o = call(m.update_timestep, xs, es)
    E(o.exc == "" and np.shape(o.value) == (len(xs), k, len(es)) and np.array_equal(o.value, np.repeat(xs[:, :, None], len(es), axis=2)), "update_timestep",
      o.exc + o.msg)
    scale = np.array([r(a) for a in st["q"]])
    for mo, f in ((m, lambda a: a / scale[len(scale) - a.shape[-1]:]), (type(m), None)):
        if f is None:
            if v % 2:
                continue
            mo = type("Scaled", (type(m),), {"Q": property(lambda s: scale)})(**({"interleaved": True} if L.name == "rbi" else {"n": k} if L.name.startswith("ndie")
                      else {"basis": q.tomography.pauli_basis(1)} if L.name == "tomo" else {}))
            f = lambda a: a
        o = call(mo.distance, xs, ys)
        want = (f(tens(st["d"])) * unit[len(unit) - len(st["d"][0]):]).sum(axis=1)
        E(o.exc == "" and near(o.value, want), "distance", "%s %s, expected %s" % (o.exc + o.msg, o.value, want))


def simulate(chk, m, xs, es, st, case, seed):
    """Outcome counts of integer-valued models."""
    E = lambda cond, clause, detail="": chk.expect(cond, clause, case, detail)
    np.random.seed(seed % 2 ** 31)
    rep, nx, ne = st["repeat"], len(xs), len(es)
    P = tens(st["p"])
    s0 = m.sim_count
    o = call(m.simulate_experiment, xs, es, **({} if rep == 1 and seed % 2 else {"repeat": rep}))
    if not E(o.exc == "", "simulate.exception", o.exc + o.msg):
        return
    E(m.sim_count - s0 == rep * nx * ne, "sim_count", "%d" % (m.sim_count - s0))
    if rep == nx == ne == 1:
        if not E(np.ndim(o.value) == 0, "simulate.scalar", "%s" % (np.shape(o.value),)):
            return
    out = np.reshape(o.value, (rep, nx, ne)) if np.size(o.value) == rep * nx * ne else None
    if not E(out is not None and (rep == nx == ne == 1 or np.shape(o.value) == (rep, nx, ne)), "simulate.shape", "%s" % (np.shape(o.value),)):
        return
    n = P.shape[0]
    for j in range(nx):
        for k in range(ne):
            E(all(0 <= int(t) < n and int(t) == t and P[int(t), j, k] > 0 for t in out[:, j, k]), "simulate.support", "%s" % out[:, j, k])
    if seed % 3 == 0:
        N = 3000
        o = call(m.simulate_experiment, xs, es, repeat=N)
        if not E(o.exc == "" and np.shape(o.value) == (N, nx, ne), "simulate.shape", o.exc + o.msg):
            return
        out = np.asarray(o.value)
        for j in range(nx):
            for k in range(ne):
                for t in range(n):
                    p = P[t, j, k]
                    c = int(np.sum(out[:, j, k] == t))
                    E(abs(c - N * p) <= 6 * math.sqrt(N * p * (1 - p)) + 1e-6, "simulate.frequency", "%d of %d, p=%g" % (c, N, p))
                    # neighbouring repetitions are independent
                    c2 = int(np.sum((out[:-1, j, k] == t) & (out[1:, j, k] == t)))
                    var = (N - 1) * p * p * (1 - p) * (1 + 3 * p) + 1
                    E(abs(c2 - (N - 1) * p * p) <= 6 * math.sqrt(var), "simulate.independence", "%d of %d, p=%g" % (c2, N, p))


def run_family(chk, q, ops, n, depth, seed, models=MODELS):
    res = parallel([lambda i=i, mo=mo: chk.emitted("Models", cfg(dict(MODEL=mo, DEPTH=depth, OPS=ops),
                    invariants=["RatesInvert", "SampledDistribution", "ScoresMatchFisher", "Emit"]), simulate=n, depth=depth + 1,
                    seed=seed * 97 + i, name="Models/" + mo) for i, mo in enumerate(models)])
    for bs in res:
        with np.errstate(all="ignore"):
            for v, b in enumerate(bs):
                replay(chk, q, b, v)
        if bs:
            chk.sample({"model": bs[0]["model"], "steps": [{k: x for k, x in s.items() if k not in ("p", "s", "f")} for s in bs[0]["steps"]]})
