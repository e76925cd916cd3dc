"""C25: the laws priors draw from (spec/Laws.tla) and what draws depend on (spec/Tape.tla)."""
import warnings
import numpy as np
from lib.vlib import import_qinfer, parallel, cfg, call, rat

qinfer = import_qinfer()
from qinfer import distributions as D


def build(c, cov, lo, form):
    p, f = c, c["fam"]
    a, b, n = rat(p["a"]), rat(p["b"]), p["n"]
    F = float
    if f == "beta":
        return D.BetaDistribution(F(a), F(b)) if form else D.BetaDistribution(mean=a / (a + b), var=a * b / ((a + b) ** 2 * (a + b + 1)))
    if f == "gamma":
        return D.GammaDistribution(F(a), F(b)) if form else D.GammaDistribution(mean=a / b, var=a / b ** 2)
    if f == "betabinom":
        if form or n == 1:
            return D.BetaBinomialDistribution(n, F(a), F(b))
        return D.BetaBinomialDistribution(n, mean=n * a / (a + b), var=n * a * b * (a + b + n) / ((a + b) ** 2 * (a + b + 1)))
    if f == "uniform":
        r = [[a, a + b], [-b, 0.], [0., 1.]]
        return D.UniformDistribution(r) if form else D.ProductDistribution(D.UniformDistribution(np.array(r[:2])), D.UniformDistribution())
    if f == "dirichlet":
        return D.DirichletDistribution([F(a), F(b), F(n)])
    if f == "mvn":
        C = np.array([[rat(x) for x in r] for r in cov])
        return D.MultivariateNormalDistribution(np.array([a, b]) if form else [[a], [b]], C)
    if f == "trunc":
        return D.NormalDistribution(a, b ** 2, trunc=(a + b * lo[0] / 4., a + b * lo[1] / 4.))
    if f == "slanted":
        return D.SlantedNormalDistribution([a, a + 1], weight=b) if form else D.SlantedNormalDistribution(np.array([[a, a + 1]]), b)
    if f == "lognormal":
        if (a, b) == (0, 1):
            return D.LogNormalDistribution()
        return D.LogNormalDistribution(a, b) if form else D.LogNormalDistribution(sigma=b, mu=a)
    if f == "normtable" and (a, b) == (0, .5) and form:
        return D.InterpolatedUnivariateDistribution(lambda x: 3 * np.exp(-(x - a) ** 2 / (2 * b ** 2)))
    if f == "normtable":
        return D.InterpolatedUnivariateDistribution(lambda x: 3 * np.exp(-(x - a) ** 2 / (2 * b ** 2)), 2 * b + abs(a), 3000)
    if f == "tent":
        return D.InterpolatedUnivariateDistribution(lambda x: np.maximum(0, 1 - np.abs(x) / b), b, 3000)
    return {"normal": lambda: D.NormalDistribution(a, b ** 2), "discrete": lambda: D.DiscreteUniformDistribution(n), "mvuniform": lambda: D.MVUniformDistribution(n) if n < 6 else D.MVUniformDistribution(),
            "hs": lambda: D.HilbertSchmidtUniform(n) if n > 2 else D.HilbertSchmidtUniform(),
            "haar": lambda: D.HaarUniform(2) if form else D.HaarUniform(), "ginibre": lambda: D.GinibreUniform(2, n) if n != 2 else D.GinibreUniform()}[f]()


def rows(d, N, sizes):
    """N rows, drawn in calls of the given sizes."""
    out, n, k = [], 0, 0
    while n < N:
        m = sizes[k % len(sizes)]
        k += 1
        r = call(d.sample, m) if m != 1 or k % 2 else call(d.sample)
        if r.exc:
            return r.exc + " " + r.msg
        if not isinstance(r.value, np.ndarray) or r.value.shape != (m, d.n_rvs):
            return "sample(%d) gave %s" % (m, np.shape(r.value))
        out.append(r.value)
        n += m
    return np.concatenate(out).astype(float)[:N]


def statistic(t, x):
    with np.errstate(all="ignore"):
        if t["kind"] == "ratio":
            return x[:, 0] / (x[:, 0] + x[:, 1])
        v = (x - np.array([rat(o) for o in t["off"]])) @ np.array([rat(c) for c in t["coef"]])
        return np.log(v) if t["kind"] == "log" else v


def binomial(chk, count, n, p, err, clause, case, detail):
    """count of n events of probability p, known to within err"""
    chk.expect(abs(count - n * p) <= 6.2 * np.sqrt(n * max(p * (1 - p), err)) + n * err + 4, clause, case, "%d of %d for probability %.5f %s" % (count, n, p, detail))


def law(chk, b, N, form):
    c = b["c"]
    case = {k: c[k] for k in ("fam", "a", "b", "n")}
    o = call(build, c, b["cov"], b["lo"], form)
    N = N // 4 if c["fam"] == "hs" and c["n"] == 4 else N
    if not chk.expect(o.exc == "", "build." + c["fam"], case, o.exc + " " + o.msg):
        return
    err = 2e-4 if c["fam"] in ("normtable", "tent") else 2e-5
    S = N // (160 if c["fam"] in ("normal", "trunc", "lognormal") else 48)     # (these make their SciPy distribution anew for every call)
    for size, x in (("one", rows(o.value, S, [1])), ("two", rows(o.value, S, [2])), ("mixed", rows(o.value, S, [3, 1, 0, 5, 2])), ("many", rows(o.value, N, [4000]))):
        case["size"] = size
        if not chk.expect(isinstance(x, np.ndarray), "draw." + c["fam"], case, x) or not cells(chk, b, x, err, case):
            return
    del case["size"]
    for pt, g in zip(b["points"], b["grad"]):
        w = np.array([[rat(u) for u in g]])
        at = np.array([[rat(u) for u in pt[:len(g)]]])
        r = call(o.value.grad_log_pdf, at)
        chk.expect(r.exc == "" and np.shape(r.value) == w.shape and np.allclose(r.value, w, rtol=1e-9, atol=1e-9), "gradient." + c["fam"], dict(case, at=at.tolist()), "%s %s for %s" % (r.exc, r.value, w))
    if b["grad"]:
        W = np.array([[rat(u) for u in g] for g in b["grad"]])
        At = np.array([[rat(u) for u in pt[:W.shape[1]]] for pt in b["points"]])
        for d, m in ((o.value, 3), (o.value, 2), (o.value, 7), (D.PostselectedDistribution(o.value, None), 3)):
            w, at = W[np.arange(m) % 3], At[np.arange(m) % 3]
            r = call(d.grad_log_pdf, at)
            chk.expect(r.exc == "" and np.shape(r.value) == w.shape and np.allclose(r.value, w, rtol=1e-9, atol=1e-9), "gradients." + c["fam"], dict(case, of=type(d).__name__, n=m), "%s %s for %s" % (r.exc, r.value, w))
    chk.traces += 1


def cells(chk, b, x, err, case):
    """The cells of every statistic of the rows, and of pairs of statistics and of rows."""
    fam, N, zs = b["c"]["fam"], len(x), []
    for k, t in enumerate(b["s"]):
        cdf = np.array([rat(p) for p in t["cdf"]])
        cuts = np.array([rat(u) for u in t["cuts"]])
        if t["kind"] == "int":
            cuts = cuts + .5
        v = statistic(t, x)
        if not chk.expect(np.all(np.isfinite(v)), "finite." + fam, dict(case, stat=k), ""):
            return False
        z = np.searchsorted(cuts, v, side="left")
        p = np.diff(np.concatenate([[0], cdf, [1]]))
        zs.append((z, p))
        for i in range(len(p)):
            binomial(chk, np.sum(z == i), N, p[i], err, "law." + fam, dict(case, stat=k, cell=i), "cuts %s" % cuts.tolist())
        for i in range(len(cuts)):
            binomial(chk, np.sum(z <= i), N, cdf[i], err, "law." + fam, dict(case, stat=k, cut=i), "below %s" % cuts[i])
        # rows are independent of each other: neighbours, the halves and the two ends of a call, and different calls
        for lag in (1, 2, 7):
            n = (N // (2 * lag)) * 2 * lag
            y = z[:n].reshape(-1, 2, lag)
            joint(chk, y[:, 0].ravel(), p, y[:, 1].ravel(), p, err, "rows." + fam, dict(case, stat=k, lag=lag))
        if case["size"] == "many" and N % 4000 == 0:
            y = z.reshape(-1, 4000)
            joint(chk, y[:, :2000].ravel(), p, y[:, 2000:].ravel(), p, err, "rows." + fam, dict(case, stat=k, lag="half"))
            joint(chk, y[:, :2000].ravel(), p, y[:, :1999:-1].ravel(), p, err, "rows." + fam, dict(case, stat=k, lag="mirror"))
            m = len(y) // 2
            joint(chk, y[:m].ravel(), p, y[m:2 * m].ravel(), p, err, "rows." + fam, dict(case, stat=k, lag="calls"))
    for i, j in b["ind"]:
        joint(chk, zs[i - 1][0], zs[i - 1][1], zs[j - 1][0], zs[j - 1][1], err, "columns." + fam, dict(case, stats=[i, j]))
    return True


def joint(chk, z1, p1, z2, p2, err, clause, case, slack=1.):
    m = min(len(z1), len(z2))
    cnt = np.zeros((len(p1), len(p2)))
    np.add.at(cnt, (z1[:m], z2[:m]), 1)
    P = np.outer(p1, p2)
    bad = np.abs(cnt - m * P) > 6.2 * slack * np.sqrt(m * np.maximum(P * (1 - P), 2 * err)) + 2 * m * err + 4
    chk.expect(not np.any(bad), clause, case, "counts %s, expected %s" % (cnt.tolist(), (m * P).round(1).tolist()) if np.any(bad) else "")


def session(chk, b, k):
    """A behaviour of Tape.tla: equal tapes give equal rows, others do not."""
    mk = [lambda: D.UniformDistribution([[0, 1], [2, 5]]), lambda: D.NormalDistribution(1, 4), lambda: D.NormalDistribution(0, 1, trunc=(-1, 2)),
          lambda: D.MultivariateNormalDistribution([0, 1], np.array([[2., 1], [1, 2]])), lambda: D.SlantedNormalDistribution([0, 1]), lambda: D.LogNormalDistribution(),
          lambda: D.BetaDistribution(2, 3), lambda: D.GammaDistribution(2, 3), lambda: D.DirichletDistribution([1, 2, 3]), lambda: D.MVUniformDistribution(3),
          lambda: D.HaarUniform(), lambda: D.GinibreUniform(2, 2), lambda: D.HilbertSchmidtUniform(2),
          lambda: D.InterpolatedUnivariateDistribution(lambda x: np.exp(-x ** 2), 1),
          lambda: D.ProductDistribution(D.UniformDistribution([0, 1]), D.BetaDistribution(1, 2)),
          lambda: D.MixtureDistribution([.5, .5], [D.UniformDistribution([0, 1]), D.NormalDistribution(3, 1)]),
          lambda: D.MixtureDistribution([.3, .7], D.NormalDistribution, dist_args=np.array([[0, 1.], [3, 2.]]), shuffle=False),
          lambda: D.ConstrainedSumDistribution(D.ProductDistribution(D.GammaDistribution(1., 1.), D.GammaDistribution(2., 1.)), 2),
          lambda: D.ParticleDistribution(particle_locations=np.random.RandomState(1).rand(2 ** 20, 1), particle_weights=np.ones(2 ** 20)),
          lambda: D.PostselectedDistribution(D.UniformDistribution([-1, 1]), type("V", (), {"are_models_valid": staticmethod(lambda m: m[:, 0] > 0)})())]
    pick = [mk[(k + 7 * j) % len(mk)] for j in range(3)]
    ds = {j + 1: f() for j, f in enumerate(pick)}
    names = [type(d).__name__ for d in ds.values()]
    saved, outs = [], []
    for op in b["ops"]:
        if op["op"] == "seed":
            np.random.seed(chk.seed * 1000 + 10 * k + op["x"])
        elif op["op"] == "save":
            saved.append(np.random.get_state())
        elif op["op"] == "load":
            np.random.set_state(saved[op["x"] - 1])
        elif op["op"] == "fresh":
            ds[op["x"]] = pick[op["x"] - 1]()
        else:
            r = call(ds[op["x"]].sample, op["n"])
            case = {"dist": type(ds[op["x"]]).__name__, "n": op["n"], "ops": [[o["op"], o["x"], o["n"]] for o in b["ops"]]}
            if not chk.expect(r.exc == "" and np.shape(r.value) == (op["n"], ds[op["x"]].n_rvs), "tape.draw", case, r.exc + " " + r.msg):
                return
            outs.append((case, np.array(r.value, float), op))
    for i, s in enumerate(b["same"]):
        case, v, op = outs[i]
        if s - 1 != i:
            chk.expect(np.array_equal(v, outs[s - 1][1]), "tape.reproducible", case, "call %d gave %s, call %d gave %s" % (s, outs[s - 1][1][:2].tolist(), i + 1, v[:2].tolist()))
        elif op["n"]:
            for j in range(i):
                if outs[j][2]["x"] == op["x"] and outs[j][2]["n"] and b["same"][j] == j + 1:
                    w = outs[j][1]
                    # every prior here is continuous: no row comes up twice unless the generator was set back; set back, it may
                    # give rows again, but not all of them
                    m = min(len(v), len(w))
                    if not (any(o["op"] in ("load", "seed") for o in b["ops"][1:])):
                        chk.expect(not np.any(np.all(v[:, None, :] == w[None, :, :], axis=2)), "tape.fresh", case, "calls %d and %d: %s" % (j + 1, i + 1, v[:2].tolist()))
            chk.expect(len({tuple(r) for r in v.tolist()}) == len(v), "tape.rows_differ", case, v.tolist())
    chk.traces += 1


def refusals(chk):
    """Shapes and moments that are not there are asked for."""
    for name, cls, lead in (("beta", D.BetaDistribution, ()), ("gamma", D.GammaDistribution, ()), ("betabinom", D.BetaBinomialDistribution, (4,))):
        for kw in ({}, {"alpha": 1.}, {"beta": 1.}, {"mean": .5}, {"var": .1}, {"alpha": 1., "mean": .5}, {"alpha": 1., "var": .1}, {"beta": 2., "var": .1}):
            o = call(cls, *lead, **kw)
            chk.expect(o.exc == "ValueError", "refused." + name, kw, o.exc or repr(o.value))
    for a in ([[1., 2.]], 1.):
        o = call(D.DirichletDistribution, a)
        chk.expect(o.exc == "ValueError", "refused.dirichlet", {"alpha": a}, o.exc or repr(o.value))


def run(chk):
    N = chk.pick(24000, 150000)
    res = parallel([lambda: chk.emitted("Laws", cfg(dict(WIDE=not chk.quick), invariants=["Rising", "Mirror", "Counts1", "White", "Middle", "Emit"])),
                    lambda: chk.model("Tape", cfg(dict(DISTS=1, STEPS=chk.pick(5, 6), SIM=False), invariants=["Classes"], properties=["Grows"]), workers=2, name="Tape/exhaustive"),
                    lambda: chk.emitted("Tape", cfg(dict(DISTS=3, STEPS=14, SIM=True), invariants=["Classes", "Emit"]), simulate=chk.pick(50, 1000), depth=15, seed=chk.seed * 31, name="Tape/sim"),
                    lambda: chk.emitted("Tape", cfg(dict(DISTS=1, STEPS=7, SIM=True), invariants=["Classes", "Emit"]), simulate=chk.pick(150, 2000), depth=8, seed=chk.seed * 41, name="Tape/sim3"),
                    lambda: chk.emitted("Tape", cfg(dict(DISTS=2, STEPS=8, SIM=True), invariants=["Classes", "Emit"]), simulate=chk.pick(50, 1000), depth=9, seed=chk.seed * 37, name="Tape/sim2")])
    np.random.seed(chk.seed * 11 + 3)
    warnings.simplefilter("ignore")
    refusals(chk)
    for j, b in enumerate(res[0]):
        law(chk, b, N, j % 2)
        if b["c"]["fam"] in ("beta", "gamma", "betabinom", "uniform", "mvn"):
            law(chk, b, N // 2, 1 - j % 2)
    # a behaviour where something is drawn twice from the same tape says more than one where nothing is
    again = lambda b: any(s != i + 1 for i, s in enumerate(b["same"]))
    k = 0
    for r in res[2:]:
        seen = set()
        for b in r:
            if repr(b) not in seen:
                seen.add(repr(b))
                for _ in range(3 if again(b) else len(seen) % 3 == 0):
                    session(chk, b, k)
                    k += 1
    chk.sample({"law": res[0][0]["c"], "laws": len(res[0])})
