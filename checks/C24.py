"""C24: clusters, distances, densities and displays of clouds of particles (spec/Density.tla)."""
import re
import numpy as np
from lib.vlib import import_qinfer, parallel, cfg, call, rat

qinfer = import_qinfer()
import qinfer.metrics as QM
import qinfer.utils as U
from qinfer.clustering import particle_clusters


def rats(x):
    return np.array([rats(y) for y in x]) if isinstance(x[0], (list, tuple)) else rat(x)


class Flat(qinfer.FiniteOutcomeModel):
    def __init__(self, d, Q=None):
        self.d, self._q = d, Q
        super(Flat, self).__init__()
        if Q is not None:
            self._Q = np.array(Q, float)
    n_modelparams = property(lambda s: s.d)
    modelparam_names = property(lambda s: ["p_%d" % k for k in range(s.d)])
    expparams_dtype = [("x", "float")]
    is_n_outcomes_constant = True

    def n_outcomes(self, e):
        return 2

    def are_models_valid(self, m):
        return np.ones(len(m), bool)

    def likelihood(self, o, m, e):
        return np.full((np.size(o), len(m), np.size(e)), .5)


def updater(x, w, Q=None):
    d = x.shape[1]

    class Prior:
        n_rvs = d

        def sample(s, n=1):
            return np.zeros((n, d))
    up = qinfer.SMCUpdater(Flat(d, Q), len(x), Prior())
    up.particle_locations = np.array(x, float)
    up.particle_weights = np.array(w, float) / np.sum(w)
    return up


def cloud(x, w, k):
    x, w = np.array(x, float), np.array(w, float)
    if k % 2:
        return updater(x, w)
    return qinfer.ParticleDistribution(particle_locations=x, particle_weights=w / w.sum())


def near(a, b, tol=1e-9):
    return np.shape(a) == np.shape(b) and bool(np.allclose(a, b, rtol=tol, atol=tol))


def clusters(chk, c, f, n):
    case = {k: c[k] for k in ("x", "w", "metric", "eps", "min", "pow")}
    opts = dict(eps=c["eps"] / 10., min_particles=c["min"], metric=c["metric"], weighted=c["pow"] > 0, w_pow=c["pow"] / 2. if c["pow"] else .5)
    # what equals its default is left out half of the time
    opts = {k: v for k, v in opts.items() if n % 2 or v != dict(eps=0.5, min_particles=5, metric="euclidean", weighted=False, w_pow=0.5)[k]}
    x = np.array(c["x"], float)
    w = np.array(c["w"], float)
    w /= w.sum()
    x0, w0 = x.copy(), w.copy()
    o = call(lambda: list(particle_clusters(x, w, **opts)))
    if not chk.expect(o.exc == "", "clusters.failed", case, o.exc + " " + o.msg):
        return
    chk.expect(np.array_equal(x, x0) and np.array_equal(w, w0), "clusters.arguments", case)
    labels = [l for l, m in o.value]
    masks = [np.array(m) for l, m in o.value]
    homes = f["homes"]
    ok = chk.expect(all(m.dtype == bool and m.shape == (c["n"],) for m in masks) and np.all(np.sum(masks, axis=0) == 1), "clusters.partition", case, str(o.value))
    names = sorted({h for hs in homes for h in hs})
    want_labels = ([-1] if any(not h for h in homes) else []) + list(range(len(names)))
    ok = chk.expect(labels == want_labels, "clusters.labels", case, "%s for %s" % (labels, want_labels)) and ok
    if not ok:
        return
    lab = np.zeros(c["n"], int)
    for l, m in o.value:
        lab[m] = l
    # the cluster of each name is the label of its first core point
    name = {h: lab[h - 1] for h in names}
    chk.expect(len(set(name.values())) == len(names) and -1 not in name.values(), "clusters.merged", case, lab.tolist())
    for i in range(c["n"]):
        chk.expect(lab[i] in ({name[h] for h in homes[i]} or {-1}), "clusters.member", dict(case, particle=i), lab.tolist())
    chk.expect(o.warned("ResamplerWarning") == (10 * f["noise"] >= c["n"]), "clusters.warning", case, f["noise"])
    if c["pow"] == 0 and n % 2:
        o = call(lambda: [(l, m.tolist()) for l, m in particle_clusters(x, **opts)])
        chk.expect(o.exc == "" and o.value == [(l, m.tolist()) for l, m in zip(labels, masks)], "clusters.no_weights", case, o.exc + o.msg)
    if not f["sure"] or "none" in f["moments"]:
        return
    d = cloud(c["x"], c["w"], n)
    mom = f["moments"]
    opts2 = dict(opts)
    o = call(lambda: list(d.est_cluster_moments(opts2)))
    if not chk.expect(o.exc == "" and [r[0] for r in o.value] == labels, "moments.labels", case, o.exc + o.msg):
        return
    chk.expect(opts2 == opts, "moments.options", case)
    for l, wt, mu, cov in o.value:
        S = set((np.nonzero(lab == l)[0] + 1).tolist())
        g = [g for g in mom["groups"] if set(g["set"]) == S]
        if not g:
            chk.expect(abs(wt) < 1e-12, "moments.weight", case, wt)
            continue
        g = g[0]
        chk.expect(near(wt, rat(g["weight"])), "moments.weight", dict(case, label=l), wt)
        chk.expect(near(mu, rats(g["mean"])), "moments.mean", dict(case, label=l), np.asarray(mu).tolist())
        chk.expect(near(cov, rats(g["cov"])), "moments.covariance", dict(case, label=l), np.asarray(cov).tolist())
    o = call(d.est_cluster_covs, opts)
    if chk.expect(o.exc == "" and len(o.value) == 3, "covariances.failed", case, o.exc + o.msg):
        for got, key in zip(o.value, ("within", "between", "total")):
            chk.expect(near(got, rats(mom[key])), "covariances." + key, case, np.asarray(got).tolist())
    tot = np.diag(rats(mom["total"]))
    if np.all(tot > 0):
        o = call(d.est_cluster_metric, opts)
        chk.expect(o.exc == "" and near(o.value, np.diag(rats(mom["between"])) / tot, 1e-8), "metric", case, o.exc or o.value)


def distances(chk, c, f, n):
    kinds = c["kinds"]
    Q = np.array(c["roots"], float) ** 2

    def make(x, k):
        x = np.array(x, float)
        return x if k == "array" else qinfer.ParticleDistribution(particle_locations=x, particle_weights=np.ones(len(x)) / len(x)) if k == "cloud" else updater(x, np.ones(len(x)), Q)
    if kinds[1] == "updater" and kinds[0] != "updater":
        return                                   # whose scale holds is not said
    o = call(QM.rescaled_distance_mtx, make(c["x"], kinds[0]), make(c["y"], kinds[1]))
    chk.expect(o.exc == "" and near(o.value, np.sqrt(np.array(f["d2"], float))), "distances", {k: c[k] for k in ("x", "y", "kinds", "roots")}, o.exc + o.msg or np.asarray(o.value).tolist())


def heavy(chk, c, f, n):
    X, w = np.array(c["x"], float), np.array(c["w"], float)
    w /= w.sum()
    X0, w0 = X.copy(), w.copy()
    kw = {} if c["pow"] == 1 and c["metric"] == "euclidean" and n % 2 else dict(metric=c["metric"], w_pow=c["pow"] / 2.)
    o = call(QM.weighted_pairwise_distances, X, w, **kw)
    chk.expect(o.exc == "" and near(o.value, np.sqrt(rats(f["d2"]))), "heavy", {k: c[k] for k in ("x", "w", "metric", "pow")}, o.exc + o.msg or np.asarray(o.value).tolist())
    chk.expect(np.array_equal(X, X0) and np.array_equal(w, w0), "heavy.arguments", {"x": c["x"]})


def marginal(chk, c, f, n):
    up = updater(np.array(c["x"]), c["w"])
    case = {k: c[k] for k in ("x", "w", "idx", "res", "range", "r0", "r1")}
    kw = dict(idx_param=c["idx"] - 1, res=c["res"])
    if c["range"] in ("min", "both"):
        kw["range_min"] = rat(c["r0"])
    if c["range"] in ("max", "both"):
        kw["range_max"] = rat(c["r1"])
    o = call(up.posterior_marginal, **kw)
    if not chk.expect(o.exc == "" and len(o.value) == 2, "marginal.failed", case, o.exc + o.msg):
        return
    ps, pr = np.array(o.value[0]), np.array(o.value[1])
    chk.expect(near(ps, np.array([rat(v) for v in f["grid"]])), "marginal.grid", case, ps.tolist())
    want = np.array([rat(v) for v in f["pr"]])
    if chk.expect(pr.shape == want.shape, "marginal.shape", case, pr.shape):
        for k in range(len(want)):
            if not {k, k + 1, k + 2} & set(f["jump"]):
                chk.expect(near(pr[k], want[k], 1e-8), "marginal", dict(case, point=k), "%s for %s" % (pr.tolist(), want.tolist()))
    # smoothing moves probability, and neither makes nor loses any
    sm = call(up.posterior_marginal, smoothing=.7, **kw)
    chk.expect(sm.exc == "" and near(sm.value[0], ps) and abs(np.sum(sm.value[1]) - pr.sum()) <= 1e-8 * (1 + abs(pr.sum())), "marginal.smoothing", case, sm.exc)
    if n % 10 == 0 and c["range"] == "none":
        import matplotlib
        matplotlib.use("agg")
        import matplotlib.pyplot as plt
        fig = plt.figure()
        try:
            true = np.array([np.arange(3) + .5])
            ln = call(up.plot_posterior_marginal, c["idx"] - 1, c["res"], true_model=true if n % 20 else true[0])
            if chk.expect(ln.exc == "" and len(ln.value) == 1, "marginal.plot", case, ln.exc + ln.msg):
                chk.expect(near(ln.value[0].get_xdata(), ps) and near(ln.value[0].get_ydata(), pr), "marginal.plot", case)
                seg = plt.gca().collections[0].get_segments()[0]
                chk.expect(np.all(seg[:, 0] == true[0, c["idx"] - 1]), "marginal.plot.true", case, seg.tolist())
                chk.expect(plt.gca().get_xlabel() == "$p_%d$" % (c["idx"] - 1), "marginal.plot.label", case, plt.gca().get_xlabel())
        finally:
            plt.close(fig)


def widths(chk):
    """A long grid: the smoothed marginal of a symmetric peak keeps its mean and gains the variance of the kernel."""
    rs = np.random.RandomState(chk.seed)
    for sm in (.5, 1., 2.):
        x = np.concatenate([[-20, 20], rs.uniform(-3, 3, 300)])[:, None]
        up = updater(x, np.r_[1e-9, 1e-9, np.ones(300)])
        v = []
        for s in (0, sm):
            ps, pr = up.posterior_marginal(res=400, smoothing=s)
            m = np.sum(ps * pr) / np.sum(pr)
            v.append((m, np.sum((ps - m) ** 2 * pr) / np.sum(pr)))
        chk.expect(abs(v[1][0] - v[0][0]) < .05 and abs(v[1][1] - v[0][1] - sm ** 2) < .06 * sm ** 2 + .02, "marginal.width", {"smoothing": sm}, str(v))


def mesh(chk, c, f, n):
    up = updater(np.array(c["x"]), c["w"])
    case = {k: c[k] for k in ("x", "w", "i1", "i2", "res1", "res2", "width")}
    args = (c["i1"] - 1, c["i2"] - 1, c["res1"], c["res2"], float(c["width"]))
    o = call(up.posterior_mesh, *args)
    shape = (c["res2"], c["res1"])
    if not chk.expect(o.exc == "" and len(o.value) == 3 and all(np.shape(v) == shape for v in o.value), "mesh.failed", case, o.exc + o.msg):
        return
    g1, g2 = np.array([rat(v) for v in f["g1"]]), np.array([rat(v) for v in f["g2"]])
    chk.expect(near(o.value[0], np.tile(g1, (len(g2), 1))) and near(o.value[1], np.tile(g2[:, None], (1, len(g1)))), "mesh.grid", case)
    w = np.array(c["w"], float)
    w /= w.sum()
    want = np.sum(w * np.exp(-rats(f["e"])), axis=-1) / (2 * np.pi * c["width"] ** 2)
    chk.expect(near(o.value[2], want), "mesh", case, "%s for %s" % (np.asarray(o.value[2]).tolist(), want.tolist()))
    if n % 12 == 0 and np.ptp(want) > 0 and len(set(g1)) > 1 and len(set(g2)) > 1:
        import matplotlib
        matplotlib.use("agg")
        import matplotlib.pyplot as plt
        fig = plt.figure()
        try:
            q = call(up.plot_posterior_contour, *args)
            chk.expect(q.exc == "" and near(q.value.zmax, want.max()) and near(q.value.zmin, want.min()), "mesh.plot", case, q.exc + q.msg)
        finally:
            plt.close(fig)


def diverge(chk, c, f, n):
    case = {k: c[k] for k in ("x", "y", "w", "v")}
    P, R = cloud(c["x"], c["w"], n), cloud(c["y"], c["v"], n // 2)
    y2 = np.array(c["y"]) + 4 + c["shift"]
    far = cloud(y2, c["v"], n // 2)
    kern = lambda d: 1 / (1 + d ** 2)
    w = np.array(c["w"], float)
    w /= w.sum()
    ent = -np.sum([a * np.log(a) for a in w if a > 0])
    cross = [-np.sum(w * np.log([rat(v) for v in f[k]])) for k in ("smooth", "far")]
    o = call(P.est_kl_divergence, R, kern, 1.)
    chk.expect(o.exc == "" and near(o.value, cross[0] - ent), "divergence", case, o.exc or "%s for %s" % (o.value, cross[0] - ent))
    # a kernel of finite support: only particles of positive weight count
    d2 = np.sum((np.array(c["x"])[:, None, :] - np.array(c["y"])[None, :, :]) ** 2, axis=-1)
    q = (d2 < 3) @ (np.array(c["v"], float) / np.sum(c["v"]))
    box = -np.sum([a * np.log(b) for a, b in zip(w, q) if a > 0])
    o = call(P.est_kl_divergence, R, lambda d: np.asarray(d) < 1.7, 1.)
    chk.expect(o.exc == "" and (near(o.value, box - ent) or o.value == box), "divergence.support", case, o.exc or "%s for %s" % (o.value, box - ent))
    # the same up to the order of particles, and with one of them in two halves
    perm = np.random.RandomState(n).permutation(len(c["y"]))
    R2 = cloud(np.vstack([np.array(c["y"])[perm], c["y"][0:1]]), np.append(np.where(perm == 0, .5, 1) * np.array(c["v"], float)[perm], c["v"][0] / 2.), n // 3)
    o2 = call(P.est_kl_divergence, R2, kernel=kern, delta=1.)
    chk.expect(o2.exc == "" and near(o2.value, cross[0] - ent), "divergence.split", case, o2.exc)
    # a cloud farther off diverges more, at any resolution, for the usual kernel, too
    for kw in (dict(delta=.5), dict(delta=1.), dict(kernel=kern)):
        a, b = call(P.est_kl_divergence, R, **kw), call(P.est_kl_divergence, far, **kw)
        chk.expect(a.exc == b.exc == "" and a.value < b.value and not np.isnan(a.value), "divergence.order", dict(case, options=str(sorted(kw))), "%s %s %s" % (a.value, b.value, a.exc))


def displays(chk):
    """Formatted estimates and times read back as what they stand for, to the last digit shown."""
    rs = np.random.RandomState(chk.seed + 7)
    num = r"(-?[0-9.]+)"
    for t in range(chk.pick(400, 5000)):
        v = float(rs.randint(-9999, 9999)) * 10. ** rs.randint(-8, 5)
        u = float(rs.randint(1, 100)) * 10. ** rs.randint(-7, 4)
        if rs.rand() < .1:
            v = 0.
        o = call(U.format_uncertainty, v, u)
        case = {"value": v, "uncertainty": u}
        if not chk.expect(o.exc == "", "format.failed", case, o.exc + o.msg):
            continue
        m = re.match(r"^\(%s \\pm %s\) \\times 10\^\{(-?\d+)\}$" % (num, num), o.value) or re.match(r"^%s \\pm %s$" % (num, num), o.value)
        if not chk.expect(m is not None, "format.shape", case, o.value):
            continue
        s = 10. ** int(m.group(3)) if m.lastindex == 3 else 1.
        unit = 10. ** np.floor(np.log10(u) + 1e-12)
        chk.expect(abs(float(m.group(2)) * s - u) <= .5001 * unit, "format.uncertainty", case, o.value)
        chk.expect(abs(float(m.group(1)) * s - v) <= .5001 * unit, "format.value", case, o.value)
    chk.expect(call(U.format_uncertainty, 2.5, 0).value == "2.500000", "format.certain", {})
    res = parallel([lambda: chk.emitted("Displays", cfg(dict(SIM=False), invariants=["Injective", "ReadsBack", "Emit"]), workers=1, name="Displays/exhaustive"),
                    lambda: chk.emitted("Displays", cfg(dict(SIM=True), invariants=["ReadsBack", "Emit"]), simulate=chk.pick(150, 2000), depth=3, seed=chk.seed * 241, name="Displays/sim")])
    for b in res[0] + res[1]:
        c, f = b["c"], b["f"]
        if c["what"] == "time":
            t = c["secs"]
            for x in (t, float(t)) if t < 400000 else (t,):
                o = call(U.pretty_time, x, **({"force_" + c["force"]: True} if c["force"] else {}))
                chk.expect(o.exc == "" and str(o.value) in f["texts"], "time", {"secs": x, "force": c["force"], "want": sorted(f["texts"])}, o.exc or o.value)
        else:
            x = np.array([q["m"] / 1000. * 10. ** q["e"] for q in c["q"]])
            y = np.array([(q["m"] / 1000. + a / float(d)) * 10. ** q["e"] for q, (a, d) in zip(c["q"], f["off"])])
            before = x.copy(), y.copy()
            o = call(U.assert_sigfigs_equal, x, y, c["figs"]) if c["figs"] != 3 else call(U.assert_sigfigs_equal, x, y)
            case = {"x": x.tolist(), "y": y.tolist(), "figures": c["figs"]}
            want = {"same": [""], "apart": ["AssertionError"], "either": ["", "AssertionError"]}[f["verdict"]]
            chk.expect(o.exc in want, "figures", case, o.exc + " " + o.msg[:100])
            chk.expect(np.array_equal(x, before[0]) and np.array_equal(y, before[1]), "figures.arguments", case)
        chk.traces += 1


def report(chk):
    """The summary of an updater names the parameters with their means and deviations."""
    rs = np.random.RandomState(chk.seed + 3)
    for t in range(chk.pick(10, 60)):
        d = rs.randint(1, 4)
        up = updater(rs.randint(-5, 6, (6, d)) + .5, rs.randint(1, 5, 6))
        o = call(up._repr_html_)
        case = {"x": up.particle_locations.tolist()}
        if not chk.expect(o.exc == "", "summary.failed", case, o.exc + o.msg):
            continue
        cells = re.findall(r"<td>\$(.*?)\$</td>", o.value)
        chk.expect(cells[:d] == ["p_%d" % k for k in range(d)] and len(cells) == 2 * d and "SMCUpdater" in o.value and "Flat" in o.value, "summary.names", case, str(cells))
        sd = np.sqrt(np.diag(up.est_covariance_mtx()))
        chk.expect(cells[d:] == [U.format_uncertainty(a, b) for a, b in zip(up.est_mean(), sd)], "summary.values", case, str(cells))
        chk.expect(re.search(r"Resample count:</em>\s*0", o.value) is not None, "summary.resamplings", case)


def run(chk):
    inv = ["Dense", "TotalVariance", "WeightsAdd", "Rising", "Farther"]
    N = chk.pick(170, 2500)
    sim = lambda k: (lambda: chk.emitted("Density", cfg(dict(SIM=True), invariants=inv + ["Emit"]), simulate=N, depth=3, seed=chk.seed * k, name="Density/sim"))
    res = parallel([lambda: chk.model("Density", cfg(dict(SIM=False), invariants=inv), workers=3, name="Density/exhaustive"), sim(227), sim(229)])
    fn = dict(clusters=clusters, distances=distances, heavy=heavy, marginal=marginal, mesh=mesh, diverge=diverge)
    n = {}
    seen = set()
    for r in res[1:]:
        for b in r:
            k = repr(b)
            if k in seen:
                continue
            seen.add(k)
            what = b["c"]["what"]
            n[what] = n.get(what, 0) + 1
            with np.errstate(all="ignore"):
                fn[what](chk, b["c"], b["f"], n[what])
            chk.traces += 1
    widths(chk)
    displays(chk)
    report(chk)
    chk.extra["cases"] = n
    chk.sample({"what": what, "cases": n[what]})
