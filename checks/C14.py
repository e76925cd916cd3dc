"""C14: random walks of model parameters (spec/Walk.tla)."""
import math
import numpy as np
from lib.vlib import import_qinfer, parallel, cfg, call

MODES = {"rw", "diag", "dense", "fixdiag", "fixdense"}
MOVED, NONE = 999, -9
COPIES = 24             # every particle of the specification stands for this many particles


def mag(u):
    return 0. if u == NONE else 2. ** (60 * u)


def T(x):
    y = np.array(x, float)
    if x.shape[1] == 1:
        return 2 * y + 1
    y[:, 0] += y[:, 1]
    y[:, 2:] = 2 * y[:, 2:] - 1
    return y


def Tinv(y):
    x = np.array(y, float)
    if y.shape[1] == 1:
        return (x - 1) / 2
    x[:, 0] -= x[:, 1]
    x[:, 2:] = (x[:, 2:] + 1) / 2
    return x


class Drawn:
    """Step distribution whose rows are all different and recorded."""

    def __init__(self, n):
        self.n_rvs, self.at = n, 0

    def sample(self, n=1):
        a = np.arange(self.at + 1, self.at + n + 1, dtype=float)
        self.at += n
        return 16 * a[:, None] + np.arange(self.n_rvs)[None, :]


class Stats:
    """Moments of the recovered noise and products of neighbouring noises, per clause."""

    def __init__(self):
        self.z = {}

    def add(self, key, v):
        n, s = self.z.get(key, (0, 0.))
        self.z[key] = (n + v.size, s + float(v.sum()))


def build(q, c, cov, magn):
    n = c["n"]

    class Base(q.FiniteOutcomeModel):
        n_modelparams = n
        modelparam_names = list("abc")[:n]
        expparams_dtype = [("s", "float"), ("other", "float")]
        is_n_outcomes_constant = True
        def n_outcomes(self, e): return 2
        def are_models_valid(self, m): return np.ones(len(m), bool)
        def likelihood(self, o, m, e): raise AssertionError("not needed")
    if c["mode"] == "rw":
        d = Drawn(n)
        return q.RandomWalkModel(Base(), d), d
    kw = {}
    idx = [i - 1 for i in c["idx"]]
    if c["form"] == "list":
        kw["random_walk_idxs"] = idx
    if c["mode"] in ("dense", "fixdense"):
        kw["diagonal"] = False
    if c["mode"] == "fixdiag":
        kw["fixed_covariance"] = np.array([mag(u) if magn else float(u) for u in cov[0]]) ** 2
    if c["mode"] == "fixdense":
        L = tri(cov[0], len(idx))
        kw["fixed_covariance"] = L.dot(L.T)
    if c["scale"] == "field":
        kw["scale_mult"] = "s"
    if c["scale"] == "call":
        kw["scale_mult"] = lambda e: e["s"] * 1.
    if c["tr"]:
        def t(x):
            assert x.shape[1] == n, "transformation given %d columns" % x.shape[1]
            return T(x)

        def ti(x):
            assert x.shape[1] == n, "inverse transformation given %d columns" % x.shape[1]
            return Tinv(x)
        kw["model_transformation"] = (t, ti)
    return q.GaussianRandomWalkModel(Base(), **kw), None


def tri(v, r):
    L = np.zeros((r, r))
    L[np.tril_indices(r)] = v
    return L


def replay(chk, q, b, v, st, magn):
    c, cov = b["c"], b["cov"]
    np.random.seed((chk.seed * 7013 + v) % 2 ** 31)
    o = call(build, q, c, cov, magn)
    if not chk.expect(o.exc == "", "construct", {"c": c, "cov": cov}, o.exc + o.msg + o.tb):
        return
    m, drawn = o.value
    n, idx = c["n"], [i - 1 for i in c["idx"]]
    learned = c["mode"] in ("diag", "dense")
    xs = np.array(b["steps"][0]["xs"], float)
    if learned:
        xs = np.concatenate([xs, np.array([[mag(u) if magn else float(u) for u in r] for r in cov])], axis=1)
    J = len(xs)
    x = np.repeat(xs, COPIES, axis=0)
    keepcov = x[:, n:].copy()
    prev = None
    chk.expect(m.n_modelparams == x.shape[1], "n_modelparams", {"c": c}, "%d for %d columns" % (m.n_modelparams, x.shape[1]))
    for si, s in enumerate(b["steps"][1:]):
        case = {"c": c, "cov": cov, "xs": b["steps"][0]["xs"], "step": si, "ss": s.get("ss"), "copies": COPIES}
        E = lambda cond, clause, detail="": chk.expect(cond, clause, case, detail)
        if s["op"] == "cov":
            want = np.array([[e[0] / e[1] for e in r] for r in s["cov"]])
            o = call(m.est_update_covariance, x.copy())
            E(o.exc == "" and np.shape(o.value) == want.shape and np.allclose(o.value, want, rtol=1e-9, atol=1e-12), "est_update_covariance",
              "%s %s, expected %s" % (o.exc + o.msg, o.value, want.tolist()))
            continue
        K = len(s["ss"])
        es = np.zeros(K, dtype=m.expparams_dtype)
        es["s"] = [mag(u) if magn else u for u in s["ss"]]
        es["other"] = 1e3
        x0, e0 = x.copy(), es.copy()
        o = call(m.update_timestep, x, es)
        if not E(o.exc == "" and np.shape(o.value) == (J * COPIES, x.shape[1], K), "update_timestep.shape", "%s %s" % (o.exc + o.msg + o.tb, np.shape(o.value))):
            return
        E(np.array_equal(x, x0) and np.array_equal(es, e0), "inputs_modified")
        new = np.array(o.value)
        E(np.array_equal(new[:, n:, :], np.repeat(keepcov[:, :, None], K, axis=2)), "covariance_parameters_moved")
        tx = T(x[:, :n]) if c["tr"] else x[:, :n]
        tn = np.stack([T(new[:, :n, k]) if c["tr"] else new[:, :n, k] for k in range(K)], axis=2)
        for j in range(J):
            for i in range(n):
                if s["t"][j][i] != MOVED:
                    want = float(s["t"][j][i])
                    got = tn[j * COPIES:(j + 1) * COPIES, i, :]
                    E(np.all(np.abs(got - want) <= 1e-9 * (1 + abs(want))) if c["tr"] else np.all(got == want), "other_parameters_moved",
                      "particle %d parameter %d: %s, expected %s" % (j, i, got[0], want))
        d = tn - tx[:, :, None]
        if c["mode"] == "rw":
            rows = d.transpose(0, 2, 1).reshape(-1, n)
            ids = np.floor(rows[:, 0] / 16 + 1e-9)
            ok = np.allclose(rows, 16 * ids[:, None] + np.arange(n)[None, :], atol=1e-6) and ids.min() >= 1 and ids.max() <= drawn.at
            E(ok, "random_walk.steps_are_draws", "steps %s" % rows[:4].tolist())
            E(len(np.unique(ids)) == len(ids), "random_walk.independent_draws", "%d different draws for %d steps" % (len(np.unique(ids)), len(ids)))
            x = new[:, :, s["go"] - 1].copy()
            continue
        d = d[:, idx, :]
        z = np.full(d.shape, np.nan)
        for j in range(J):
            for k in range(K):
                w = d[j * COPIES:(j + 1) * COPIES, :, k]
                F = s["F"][j][k]
                if magn:
                    for i, u in enumerate(F):
                        if u == NONE:
                            E(np.all(w[:, i] == 0), "zero_deviation_moves", "particle %d experiment %d parameter %d: %s" % (j, k, idx[i], w[:3, i]))
                        elif si == 0:       # later positions are rounded to the size of earlier steps
                            z[j * COPIES:(j + 1) * COPIES, i, k] = w[:, i] / mag(u)
                else:
                    F = np.array(F, float)
                    sol = np.linalg.lstsq(F, w.T, rcond=None)[0]
                    E(np.all(np.abs(F.dot(sol) - w.T) < 1e-7), "step_outside_covariance", "particle %d experiment %d factor %s: steps %s" % (j, k, F.tolist(), w[:3].tolist()))
                    if np.linalg.matrix_rank(F) == len(F):
                        z[j * COPIES:(j + 1) * COPIES, :, k] = sol.T
        g = z[~np.isnan(z)]
        if g.size:
            E(np.all(np.abs(g) < 7) and np.all(np.abs(g) > 1e-9), "step_size", "standardised steps between %g and %g" % (np.abs(g).min(), np.abs(g).max()))
            E(len(np.unique(g)) == g.size, "steps_shared", "%d different values in %d standardised steps" % (len(np.unique(g)), g.size))
            E(abs((g ** 2).mean() - 1) < 6.5 * math.sqrt(2. / g.size) + 40. / g.size, "step_variance", "variance of %d standardised steps: %g" % (g.size, (g ** 2).mean()))
            key = c["mode"] + ("/tr" if c["tr"] else "")
            f = lambda name, a: st.add((key, name), a[~np.isnan(a)])
            f("mean", z)
            f("square", z ** 2 - 1)
            f("between particles", z[1:] * z[:-1])
            f("between parameters", z[:, 1:] * z[:, :-1])
            f("between experiments", z[:, :, 1:] * z[:, :, :-1])
            if prev is not None and prev.shape[0] == z.shape[0]:
                f("between time steps", z[:, :, 0] * prev[:, :, 0])
            prev = z
        x = new[:, :, s["go"] - 1].copy()
    chk.traces += 1


def refused(chk, q):
    """Walks that cannot be taken are refused when they are described."""
    class Flat(q.FiniteOutcomeModel):
        n_modelparams = 3
        modelparam_names = ["a", "b", "c"]
        expparams_dtype = [("e", "int")]
        is_n_outcomes_constant = True
        def n_outcomes(self, e): return 2
        def are_models_valid(self, m): return np.ones(len(m), bool)
        def likelihood(self, o, m, e): return np.full((np.size(o), len(m), np.size(e)), .5)

    class Step(object):
        def __init__(self, n): self.n_rvs = n
        def sample(self, n=1): return np.zeros((n, self.n_rvs))
    for n in (1, 2, 3, 4, 6):
        o = call(q.RandomWalkModel, Flat(), Step(n))
        chk.expect(o.exc == ("" if n == 3 else "TypeError"), "refused.step_distribution", {"n_rvs": n}, o.exc + o.msg)
    I = np.eye
    for kw, exn in (({}, ""), ({"random_walk_idxs": [0, 2]}, ""), ({"random_walk_idxs": []}, "IndexError"), ({"random_walk_idxs": np.s_[3:]}, "IndexError"),
                    ({"random_walk_idxs": [5]}, "IndexError"), ({"random_walk_idxs": [3]}, "IndexError"),
                    ({"fixed_covariance": np.ones(3)}, ""), ({"fixed_covariance": np.ones(2)}, "ValueError"), ({"fixed_covariance": np.ones(4)}, "ValueError"),
                    ({"fixed_covariance": np.ones(1)}, "ValueError"), ({"fixed_covariance": I(3)}, "ValueError"), ({"fixed_covariance": np.ones((3, 1))}, "ValueError"),
                    ({"fixed_covariance": np.ones(2), "random_walk_idxs": [0, 2]}, ""), ({"fixed_covariance": np.ones(3), "random_walk_idxs": [0, 2]}, "ValueError"),
                    ({"fixed_covariance": I(3), "diagonal": False}, ""), ({"fixed_covariance": I(2), "diagonal": False}, "ValueError"),
                    ({"fixed_covariance": I(4), "diagonal": False}, "ValueError"), ({"fixed_covariance": np.ones(9), "diagonal": False}, "ValueError"),
                    ({"fixed_covariance": np.ones(3), "diagonal": False}, "ValueError"),
                    ({"fixed_covariance": I(2), "diagonal": False, "random_walk_idxs": [2, 1]}, ""),
                    ({"fixed_covariance": np.ones((1, 4)), "diagonal": False, "random_walk_idxs": [2, 1]}, "ValueError"),
                    ({"fixed_covariance": np.ones((4, 1)), "diagonal": False, "random_walk_idxs": [2, 1]}, "ValueError"),
                    ({"fixed_covariance": I(3)[None], "diagonal": False}, "ValueError")):
        o = call(q.GaussianRandomWalkModel, Flat(), **kw)
        chk.expect(o.exc == exn, "refused.covariance", {k: str(v) for k, v in kw.items()}, o.exc + o.msg)
    # what the walking covariance is made of is named, once for each
    for k in (1, 2, 3):
        for diag in (True, False):
            m = q.GaussianRandomWalkModel(Flat(), random_walk_idxs=list(range(k)), diagonal=diag)
            names = list(m.modelparam_names)
            want = 3 + (k if diag else k * (k + 1) // 2)
            chk.expect(len(names) == want == m.n_modelparams and len(set(names)) == want, "names", {"walking": k, "diagonal": diag}, str(names))


def run(chk):
    q = import_qinfer()
    runs = [(MODES, 2, chk.pick(500, 8000), False), (MODES, 3, chk.pick(500, 8000), False), (MODES - {"dense", "fixdense", "rw"}, 3, chk.pick(400, 6000), True)]
    res = parallel([lambda i=i, t=t: chk.emitted("Walk", cfg(dict(MODES=t[0], NP=t[1], DEPTH=4, MAG=t[3]), invariants=["Stays", "Symmetric", "Emit"]),
                    simulate=t[2], depth=7, seed=chk.seed * 97 + i, name="Walk/%d%s" % (t[1], "/mag" if t[3] else "")) for i, t in enumerate(runs)])
    st = Stats()
    v = 0
    for bs, t in zip(res, runs):
        for b in bs:
            replay(chk, q, b, v, st, t[3])
            v += 1
        if bs:
            chk.sample({"c": bs[0]["c"], "cov": bs[0]["cov"], "steps": len(bs[0]["steps"])})
    for (key, name), (n, s) in sorted(st.z.items()):
        sd = math.sqrt(2.) if name == "square" else 1.
        chk.expect(abs(s) < 6.5 * sd * math.sqrt(n) + 10, "noise." + name.replace(" ", "_"), {"mode": key, "samples": n}, "sum %g over %d" % (s, n))
    chk.extra["noise_samples"] = {"%s %s" % k: n for k, (n, _) in st.z.items()}
    refused(chk, q)
