"""C13: stacks of model decorators (spec/Decor.tla)."""
import math
import numpy as np
from lib.vlib import import_qinfer, parallel, cfg, call

LAYERS = {"plain", "poison", "mle", "walk", "hyper", "grw", "grwfix", "grwdense", "binom", "multi", "par"}


def near(a, b, tol=1e-9):
    a = np.asarray(a)
    return a.shape == np.shape(b) and bool(np.all(np.abs(a - b) <= tol * (1 + np.abs(b))))


class Steps:
    """Step distribution that always adds column number + 1."""

    def __init__(self, n):
        self.n_rvs = n

    def sample(self, n=1):
        return np.tile(np.arange(1, self.n_rvs + 1, dtype=float), (n, 1))


def make(q, stack, pw=2):
    class Base(q.FiniteOutcomeModel):
        n_modelparams = 2
        modelparam_names = ["a", "b"]
        expparams_dtype = [("e", "int")]
        is_n_outcomes_constant = True
        log = None

        @property
        def Q(self): return np.array([3., 2.])
        def n_outcomes(self, e): return 2
        def chk(self, m):
            assert m.ndim == 2 and m.shape[1] == 2, "the base model was given %s columns" % (m.shape[1:],)
            return m
        def are_models_valid(self, m): return (self.chk(m)[:, 0] >= 0) & (m[:, 0] <= 4)
        def canonicalize(self, m):
            m = np.array(self.chk(m))
            m[:, 1] = np.abs(m[:, 1])
            return m
        def update_timestep(self, m, e):
            return self.chk(m)[:, :, None] + np.array([1., -1.])[None, :, None] * np.asarray(e["e"], float)[None, None, :]
        def experiment_cost(self, e): return 2 * e["e"] + 1
        def clear_cache(self): self.cleared = getattr(self, "cleared", 0) + 1
        def likelihood(self, o, m, e):
            super(Base, self).likelihood(o, m, e)
            a = self.chk(m)[:, :1]
            e = np.asarray(e["e"])[None, :]
            p1 = np.where(e == 0, .5, np.where(e == 1, a / 4, (4 - a) / 4))
            L = q.FiniteOutcomeModel.pr0_to_likelihood_array(np.atleast_1d(o), 1 - p1)
            self.given = getattr(self, "given", [])[-20:] + [(L, L.copy())]
            return L
    class Plain(q.derived_models.DerivedModel):
        def likelihood(self, o, mp, e):
            super(Plain, self).likelihood(o, mp, e)
            return self.underlying_model.likelihood(o, mp, e)

        def simulate_experiment(self, mp, e, repeat=1):
            super(Plain, self).simulate_experiment(mp, e, repeat)
            return self.underlying_model.simulate_experiment(mp, e, repeat)
    base = Base()
    base.cleared = 0
    m = base
    chain = []
    for m_i, k in enumerate(stack):
        chain.append(m)
        if k == "plain":
            m = Plain(m)
        elif k == "poison":
            m = q.PoisonedModel(m, tol=0.)
        elif k == "mle":
            m = q.MLEModel(m, pw if m_i == len(stack) - 1 else 2)
        elif k == "walk":
            m = q.RandomWalkModel(m, Steps(m.n_modelparams))
        elif k == "hyper":
            m = q.GaussianHyperparameterizedModel(m)
        elif k == "grw":
            m = q.GaussianRandomWalkModel(m, random_walk_idxs=np.s_[:2])
        elif k == "grwfix":
            m = q.GaussianRandomWalkModel(m, random_walk_idxs=np.s_[:1], fixed_covariance=np.zeros(1))
        elif k == "grwdense":
            m = q.GaussianRandomWalkModel(m, random_walk_idxs=np.s_[:2], diagonal=False)
        elif k == "binom":
            m = q.BinomialModel(m)
        elif k == "multi":
            m = q.MultinomialModel(m)
        elif k == "par":
            m = q.DirectViewParallelizedModel(m, [None, None], serial_threshold=10 ** 6)
    return base, m, chain


def pdf(x, mu, var):
    return math.exp(-(x - mu) ** 2 / (2. * var)) / math.sqrt(2 * math.pi * var)


def replay(chk, q, b, v):
    stack = b["stack"]
    o = call(make, q, stack, b["pw"][0] / b["pw"][1])
    if not chk.expect(o.exc == "", "construct", {"stack": stack}, o.exc + o.msg + o.tb):
        return
    base, m, chain = o.value
    counts = "binom" in stack or "multi" in stack
    hyper = "hyper" in stack
    np.random.seed((chk.seed * 1009 + v) % 2 ** 31)
    c0, s0 = m.call_count, m.sim_count

    def E_(es):
        a = np.zeros(len(es), dtype=m.expparams_dtype)
        a["e"] = [e[0] for e in es]
        if counts:
            a["n_meas"] = [e[1] for e in es]
        return a
    for i, st in enumerate(b["steps"]):
        case = {"stack": stack, "step": i, "op": {k: x for k, x in st.items() if k in ("op", "xs", "es", "os", "repeat")}}
        E = lambda cond, clause, detail="": chk.expect(cond, clause, case, detail)
        base.given = []
        xs = np.array(st["xs"], float) if "xs" in st else None
        es = E_(st["es"]) if "es" in st else None
        case["power"] = b["pw"]
        keep = [None if a is None else a.copy() for a in (xs, es)]
        nb = [c.call_count for c in chain]
        if st["op"] == "facets":
            n = st["width"]
            E(m.n_modelparams == n, "n_modelparams", str(m.n_modelparams))
            names = list(m.modelparam_names)
            E(len(names) == n and names[:2] == ["a", "b"] and len(set(names)) == (n if sum(k.startswith("grw") for k in stack) < 2 else len(set(names))),
              "modelparam_names", str(names))
            o = call(lambda: m.Q)
            E(o.exc == "" and len(np.ravel(o.value)) == n and list(o.value[:2]) == [3., 2.] and all(x == 1. for x in np.ravel(o.value)[2:]), "Q", "%s" % o.value)
            fields = [f[0] for f in np.dtype(m.expparams_dtype).descr]
            E(fields == (["e", "n_meas"] if counts else ["e"]), "expparams_dtype", str(fields))
            o = call(m.are_models_valid, xs)
            E(o.exc == "" and list(map(bool, o.value)) == st["valid"], "are_models_valid", "%s %s, expected %s" % (o.exc + o.msg, o.value, st["valid"]))
            o = call(m.is_model_valid, xs[0])
            E(o.exc == "" and bool(o.value) == st["valid"][0], "is_model_valid", "%s" % o.value)
            o = call(m.canonicalize, xs.copy())
            E(o.exc == "" and near(o.value, np.array(st["canon"], float)), "canonicalize", "%s %s" % (o.exc + o.msg, o.value))
            if True:
                o = call(m.experiment_cost, es)
                E(o.exc == "" and near(o.value, np.array(st["cost"], float)), "experiment_cost", "%s %s" % (o.exc + o.msg, o.value))
            if not counts:
                E(bool(m.is_n_outcomes_constant), "is_n_outcomes_constant", str(m.is_n_outcomes_constant))
                o = call(m.n_outcomes, es)
                E(o.exc == "" and np.all(np.asarray(o.value) == 2), "n_outcomes", "%s" % o.value)
            else:
                E(not m.is_n_outcomes_constant, "is_n_outcomes_constant", str(m.is_n_outcomes_constant))
                o = call(m.n_outcomes, es)
                E(o.exc == "" and [int(t) for t in np.ravel(o.value)] == [e[1] + 1 for e in st["es"]], "n_outcomes", "%s" % o.value)
            o = call(m.domain, es)
            if E(o.exc == "" and len(o.value) == len(es), "domain", o.exc + o.msg):
                for d, e in zip(o.value, st["es"]):
                    E(d.is_continuous if hyper else d.n_members == (e[1] + 1 if counts else 2), "domain", repr(d))
            o = call(m.are_expparam_dtypes_consistent, es)
            E(o.exc == "" and o.value, "are_expparam_dtypes_consistent", o.exc + o.msg)
            E(m.base_model is base, "base_model")
            E(m.underlying_model is chain[-1], "underlying_model")
            E(base.underlying_model is None and base.base_model is base and len(base.model_chain) == 0, "base_model")
            E(len(m.model_chain) == len(chain) and all(a is c for a, c in zip(m.model_chain, chain)), "model_chain", str(m.model_chain))
        elif st["op"] == "step":
            o = call(m.update_timestep, xs, es)
            want = np.moveaxis(np.array(st["out"], float), 2, 1)
            E(o.exc == "" and near(o.value, want), "update_timestep", "%s %s vs %s" % (o.exc + o.msg, None if o.exc else o.value.tolist(), want.tolist()))
        elif st["op"] == "lik":
            if hyper:
                os_ = np.array([2. * t - .5 for t in st["os"]])
                want = np.array([[[sum(st["mix"][j][k][s][0] / st["mix"][j][k][s][1] * pdf(z, x[st["at"] + s], x[st["at"] + 2 + s]) for s in (0, 1))
                                   ** (st["pow"][0] / st["pow"][1]) for k in range(len(es))] for j, x in enumerate(xs)] for z in os_])
            else:
                os_ = np.array(st["os"])
                want = np.array([[[(p[0] / p[1]) ** (st["pow"][0] / st["pow"][1]) for p in r] for r in t] for t in st["p"]])
                if "multi" in stack:
                    n = st["es"][0][1]
                    os_ = np.array([([n - k, k],) for k in st["os"]], dtype=[("k", int, 2)])
            o = call(m.likelihood, os_, xs, es)
            E(o.exc == "" and near(o.value, want), "likelihood", "%s %s vs %s" % (o.exc + o.msg + o.tb, None if o.exc else o.value.tolist(), want.tolist()))
            if "poison" in stack and not hyper and o.exc == "":
                E(np.all((o.value >= 0) & (o.value <= 1)), "likelihood.bounds")
            E(m.call_count - c0 == st["calls"], "call_count", "%d, expected %d" % (m.call_count - c0, st["calls"]))
            c0 = m.call_count - st["calls"]
            E(all(c.call_count > n for c, n in zip(chain, nb)), "call_count.underlying")
        elif st["op"] == "sim":
            rep, nx, ne = st["repeat"], len(xs), len(es)
            if hyper:           # readouts of wildly different widths tell the outcomes apart
                at = sum({"grw": 2, "grwdense": 3}.get(k, 0) for k in stack[:stack.index("hyper")]) + 2
                xs[:, at + 2], xs[:, at + 3] = 1e-24, 1.
                keep[0] = xs.copy()
            o = call(m.simulate_experiment, xs, es, repeat=rep)
            if E(o.exc == "", "simulate", o.exc + o.msg + o.tb):
                if rep == nx == ne == 1:
                    E(np.ndim(o.value) == 0, "simulate.scalar", str(np.shape(o.value)))
                    out = np.array(o.value).reshape(1, 1, 1)
                else:
                    out = o.value
                if E(np.shape(out) == (rep, nx, ne), "simulate.shape", str(np.shape(out))):
                    for j in range(nx):
                        for k in range(ne):
                            if hyper:
                                d0, d1 = np.abs(out[:, j, k] - xs[j, at]), np.abs(out[:, j, k] - xs[j, at + 1])
                                ok = np.zeros(rep, bool)
                                if 0 in st["law"][j][k]:
                                    ok |= d0 < 1e-11
                                if 1 in st["law"][j][k]:
                                    ok |= (d1 < 8) & (d1 > 1e-10)
                                E(ok.all(), "simulate.support", "readouts %s at means %s" % (out[:, j, k], xs[j, at:at + 2]))
                                continue
                            got = out[:, j, k]["k"][:, 1] if "multi" in stack else out[:, j, k]
                            E(all(int(t) in st["law"][j][k] for t in got), "simulate.support", "%s not in %s" % (got, st["law"][j][k]))
            E(m.sim_count - s0 == st["sims"], "sim_count", "%d, expected %d" % (m.sim_count - s0, st["sims"]))
            s0 = m.sim_count - st["sims"]
            c0 = m.call_count - (c0c(b["steps"], i))
        elif st["op"] == "clear":
            n0 = getattr(base, "cleared", 0)
            o = call(m.clear_cache)
            E(o.exc == "" and base.cleared == n0 + 1, "clear_cache", o.exc + o.msg)
        for a, k in zip((xs, es), keep):
            E(a is None or np.array_equal(a, k), "inputs_modified")
        E(all(np.array_equal(a, k) for a, k in base.given), "underlying_arrays_modified")
    chk.traces += 1


def c0c(steps, i):
    """Likelihood evaluations the specification has counted up to step i (simulating may evaluate likelihoods: resynchronise)."""
    return max([s["calls"] for s in steps[:i + 1] if s["op"] == "lik"] or [0])


def poison(chk, q):
    """Noise of the documented strength, independent per entry, clipped to [0,1]; one of the two options must be given."""
    base, _, _ = make(q, [])
    for kw in ({}, {"tol": .1, "n_samples": 10}):
        o = call(q.PoisonedModel, base, **kw)
        chk.expect(o.exc == "ValueError", "poison.options", {"options": kw}, "%s %s" % (o.exc, o.msg))
    N = 4000
    xs = np.tile([[1., 0.], [2., 0.], [0., 0.], [4., 0.]], (N // 4, 1))
    es = np.array([(1,), (2,)], dtype=base.expparams_dtype)
    L0 = base.likelihood(np.array([0, 1]), xs, es)
    for kw, sd in (({"tol": .02}, lambda p: .02 + 0 * p), ({"n_samples": 400}, lambda p: np.sqrt(p * (1 - p) / 401.)),
                   ({"n_samples": 400, "hedge": .5}, lambda p: np.sqrt(p * (1 - p) / 402.))):
        np.random.seed(chk.seed + 5)
        case = {"options": kw}
        E = lambda cond, clause, detail="": chk.expect(cond, clause, case, detail)
        m = q.PoisonedModel(base, **kw)
        o = call(m.likelihood, np.array([0, 1]), xs, es)
        if not E(o.exc == "" and np.shape(o.value) == L0.shape, "poison.likelihood", o.exc + o.msg):
            continue
        E(np.all((o.value >= 0) & (o.value <= 1)), "poison.bounds")
        mid = (L0 > .2) & (L0 < .8)
        z = (o.value - L0)[mid] / sd(L0[mid])
        E(abs(z.mean()) < 6 / math.sqrt(z.size) and abs((z ** 2).mean() - 1) < 6 * math.sqrt(2. / z.size), "poison.strength", "%g %g" % (z.mean(), (z ** 2).mean()))
        E(len(np.unique(z)) > .99 * z.size, "poison.independence")


def run(chk):
    q = import_qinfer()
    runs = [(LAYERS, 1, chk.pick(80, 600)), (LAYERS, 2, chk.pick(250, 3000)), (LAYERS, 3, chk.pick(250, 4000)),
            (LAYERS - {"plain", "par", "poison"}, 4, chk.pick(120, 2500))]
    res = parallel([lambda i=i, t=t: chk.emitted("Decor", cfg(dict(LAYERS=t[0], NLMAX=t[1], DEPTH=7), invariants=["CanonLaws", "Emit"]),
                    simulate=t[2], depth=9, seed=chk.seed * 89 + i, name="Decor/%d" % t[1]) for i, t in enumerate(runs)])
    v = 0
    for bs in res:
        with np.errstate(all="ignore"):
            for b in bs:
                replay(chk, q, b, v)
                v += 1
        if bs:
            chk.sample({"stack": bs[0]["stack"], "ops": [s["op"] for s in bs[0]["steps"]]})
    chk.extra["distinct_stacks"] = len({tuple(b["stack"]) for bs in res for b in bs})
    with np.errstate(all="ignore"):
        poison(chk, q)
