"""C07: particle estimators and credible regions (spec/Cloud.tla)."""
import math
import numpy as np
from lib.vlib import import_qinfer, parallel, cfg, call

INV = ["EssBounds", "CovPSD", "MeanInHull", "RegionLaws", "TotalCovariance", "ClustersPartition", "Emit"]


def r(x):
    return x[0] / x[1]


def arr(x):
    return np.array([arr(y) for y in x]) if isinstance(x[0], list) else r(x)


def near(a, b, tol=1e-9):
    a = np.asarray(a)
    return a.shape == np.shape(b) and bool(np.all(np.abs(a - b) <= tol * (1 + np.abs(b))))


class Box:
    """The cloud, held by a plain distribution or by an updater."""

    def __init__(self, q, kind):
        self.q, self.kind, self.up = q, kind, None
        if kind == "updater":
            class Dummy(q.FiniteOutcomeModel):
                n_modelparams = 1
                expparams_dtype = [("x", "float")]
                is_n_outcomes_constant = True
                def n_outcomes(self, e): return 2
                def are_models_valid(self, m): return np.ones(len(m), bool)
                def likelihood(self, o, m, e): return np.full((np.size(o), len(m), np.size(e)), .5)
            self.model = Dummy()

    def build(self, chk, W, locs, case):
        w, l = np.array(W, float), np.array(locs, float)
        if self.kind == "updater":
            class Prior:
                n_rvs = 1
                def sample(s, n=1): return np.zeros((n, 1))
            self.up = self.q.SMCUpdater(self.model, len(W), Prior())
            self.up.particle_locations = l
            self.up.particle_weights = w / w.sum()
            return
        if self.kind == "ints":
            w = np.array(W)
        if self.kind == "scaled":
            w = w * 3e-5
        if self.kind == "readonly":
            w.flags.writeable = False
            l.flags.writeable = False
        w0, l0 = w.copy(), l.copy()
        self.up = self.q.ParticleDistribution(particle_locations=l, particle_weights=w)
        chk.expect(np.array_equal(w, w0) and np.array_equal(l, l0) and w.dtype == w0.dtype, "constructor.modifies_arguments", case)
        chk.expect(near(self.up.particle_weights, w0 / w0.sum()) and np.array_equal(self.up.particle_locations, l0),
                   "constructor.normalise", case, str(self.up.particle_weights))


def rows(a):
    return [tuple(float(v) for v in x) for x in np.atleast_2d(a)]


def one(chk, b, st, case, rng_seed):
    op, pre = st["op"], st["pre"]
    d = b.up
    W, locs = np.array(pre["W"], float), np.array(pre["locs"], float)
    n, D = locs.shape
    E = lambda cond, clause, detail="": chk.expect(cond, clause, case, detail)
    if op == "moments":
        E(d.n_particles == st["n"] and d.n_rvs == st["dim"], "counts")
        E(near(d.n_ess, r(st["ess"])), "n_ess", "%r vs %s" % (d.n_ess, st["ess"]))
        E(near(d.est_mean(), arr(st["mean"])), "est_mean", "%s" % d.est_mean())
        cov = arr(st["cov"])
        o = call(d.est_covariance_mtx)
        E(o.exc == "" and near(o.value, cov, 1e-8), "est_covariance_mtx", "%s vs %s" % (o.value, cov))
        # the deprecated functions of weights and locations say the same
        from qinfer.utils import particle_meanfn, particle_covariance_mtx
        w = W / W.sum()
        keep = w.copy(), locs.copy()
        for fn, want in ((None, arr(st["mean"])), (lambda x: np.stack([x[:, 0] * x[:, -1], x[:, -1] + 1, 3 + 0 * x[:, 0]], axis=1), arr(st["f2"]))):
            o = call(particle_meanfn, w, locs, fn) if fn else call(particle_meanfn, w, locs)
            E(o.exc == "" and near(o.value, want, 1e-8), "particle_meanfn", "%s vs %s" % (o.value, want))
        o = call(particle_covariance_mtx, w, locs)
        E(o.exc == "" and near(o.value, cov, 1e-8), "particle_covariance_mtx", "%s vs %s" % (o.value, cov))
        E(np.array_equal(w, keep[0]) and np.array_equal(locs, keep[1]), "deprecated.arguments", "")
        if all(cov[i, i] > 0 for i in range(D)):
            o = call(d.est_covariance_mtx, corr=True)
            s = np.sqrt(np.diag(cov))
            E(o.exc == "" and near(o.value, cov / np.outer(s, s), 1e-7), "correlation", "%s" % o.value)
            o = call(d.est_covariance_mtx)
            E(near(o.value, cov, 1e-8), "est_covariance_mtx.again")
        o = call(d.est_meanfn, lambda x: x[:, 0] ** 2 - x[:, 0])
        E(o.exc == "" and near(o.value, r(st["f1"])), "est_meanfn.scalar", "%s %s" % (o.value, o.msg))
        o = call(d.est_meanfn, lambda x: np.stack([x[:, 0] * x[:, -1], x[:, -1] + 1, 3 + 0 * x[:, 0]], axis=1))
        E(o.exc == "" and near(o.value, arr(st["f2"])), "est_meanfn.vector", "%s %s" % (o.value, o.msg))
        def f3(x):
            z = np.zeros((len(x), 2, 2))
            z[:, 0, 0], z[:, 1, 0], z[:, 1, 1] = x[:, 0], x[:, -1] ** 2, 1
            return z
        o = call(d.est_meanfn, f3)
        E(o.exc == "" and near(o.value, arr(st["f3"])), "est_meanfn.matrix", "%s %s" % (o.value, o.msg))
        ent = -sum(r(p) * math.log(r(p)) for p in st["probs"] if p[0] > 0)
        o = call(d.est_entropy)
        E(o.exc == "" and near(o.value, ent), "est_entropy", "%s vs %s" % (o.value, ent))
    elif op == "region":
        lev = st["level"] / 16.0
        cols = [c - 1 for c in st["cols"]]
        sl = None
        if cols:
            sl = cols if rng_seed % 2 else np.array(cols)
            if cols == list(range(cols[0], cols[-1] + 1)) and rng_seed % 3:
                sl = slice(cols[0], cols[-1] + 1)
        cols = cols or list(range(D))
        for outside in (False, True):
            o = call(d.est_credible_region, level=lev, return_outside=outside, modelparam_slice=sl)
            if not E(o.exc == "", "region.exception", "%s %s" % (o.exc, o.msg)):
                return
            if not E(isinstance(o.value, tuple) == outside, "region.returns"):
                return
            ins = o.value[0] if outside else o.value
            if not E(ins.shape == (st["k"], len(cols)), "region.size", "%s, expected %s" % (ins.shape, (st["k"], len(cols)))):
                return
            rest = rows(ins)
            for i in st["sure"]:
                t = tuple(locs[i - 1, cols])
                if not E(t in rest, "region.heaviest", "particle %d missing" % i):
                    return
                rest.remove(t)
            may = [tuple(locs[i - 1, cols]) for i in st["may"]]
            for t in rest:
                if not E(t in may, "region.members", "%s" % (t,)):
                    return
                may.remove(t)
            if outside:
                out = o.value[1]
                E(out.shape == (n - st["k"], len(cols)) and
                  sorted(rows(ins) + (rows(out) if len(out) else [])) == sorted(rows(locs[:, cols])), "region.partition", "%s" % (out,))
    elif op == "hull":
        pts = np.array([p[:2] for p in st["pts"] if p[2] != "edge"], float)
        want = [p[2] == "in" for p in st["pts"] if p[2] != "edge"]
        if len(pts):
            o = call(d.in_credible_region, pts, level=st["level"] / 16., method="hpd-hull", tol=None)
            E(o.exc == "" and list(o.value) == want, "in_credible_region.hull", "%s %s %s" % (o.value, want, o.msg))
            if rng_seed % 3 == 0:
                # marginalising a padded cloud over its extra parameters gives the same answer
                o = call(d.in_credible_region, pts, level=st["level"] / 16., modelparam_slice=slice(0, 2))
                E(o.exc == "" and list(o.value) == want, "in_credible_region.hull.default", "%s %s %s" % (o.value, want, o.msg))
    elif op == "pce":
        cols, n = st["cols"], d.n_rvs
        sel = slice(cols[0] - 1, cols[0]) if len(cols) == 1 else slice(cols[0] - 1, cols[1], cols[1] - cols[0])
        for lev, thr1 in ((.3, .148471862), (.5, .454936423), (.9, 2.705543454), (.99, 6.634896601)):
            # chi-squared quantiles for one and two degrees of freedom
            thr = thr1 if len(cols) == 1 else -2 * math.log(1 - lev)
            pp = [p for p in st["pts"] if abs(r(p[-1]) - thr) > 1e-6]
            kw = {} if n == len(cols) and rng_seed % 2 else {"modelparam_slice": sel}
            o = call(d.in_credible_region, np.array([p[:-1] for p in pp], float), level=lev, method="pce", **kw)
            want = [r(p[-1]) <= thr for p in pp]
            E(o.exc == "" and list(o.value) == want, "in_credible_region.pce", "%s %s %s %s" % (kw, o.value, want, o.msg))
    elif op == "clusters":
        o = call(lambda: list(d.est_cluster_moments(dict(eps=1.1, min_particles=1))))
        if E(o.exc == "" and len(o.value) == len(st["groups"]), "clusters.count", "%s %s" % (o.value, o.msg)):
            got = sorted([float(np.round(w, 9))] + [float(np.round(x, 9) + 0) for x in np.ravel(m)] +
                         [float(np.round(x, 9) + 0) for x in np.ravel(c)] for _, w, m, c in o.value)
            want = sorted([float(np.round(r(g["w"]), 9))] + [float(np.round(x, 9) + 0) for x in np.ravel(arr(g["mean"]))] +
                          [float(np.round(x, 9) + 0) for x in np.ravel(arr(g["cov"]))] for g in st["groups"])
            E(np.allclose(got, want, atol=1e-7), "clusters.moments", "%s vs %s" % (got, want))
        if D > 1:      # the structured record used for the summary needs at least two parameters
            o = call(d.est_cluster_covs, dict(eps=1.1, min_particles=1))
            E(o.exc == "" and all(np.allclose(x, arr(st[k]), atol=1e-8) for x, k in zip(o.value, ("within", "between", "total"))),
              "clusters.covs", "%s %s" % (o.value, o.msg))
    elif op == "sample":
        np.random.seed(rng_seed)
        N = 4000
        o = call(d.sample, N)
        if not E(o.exc == "" and np.shape(o.value) == (N, D), "sample.shape", o.msg):
            return
        p = np.array([r(x) for x in st["probs"]])
        want = {}
        for t, x in zip(rows(locs), p):
            want[t] = want.get(t, 0) + x
        got = {}
        for t in rows(o.value):
            got[t] = got.get(t, 0) + 1
        E(all(want.get(t, 0) > 0 for t in got), "sample.support", "%s" % got)
        E(all(abs(got.get(t, 0) - N * x) <= 6 * math.sqrt(N * x * (1 - x)) + 1e-9 for t, x in want.items()),
          "sample.frequency", "%s vs %s" % (got, want))
        o = call(d.sample)
        E(o.exc == "" and np.shape(o.value) == (1, D) and want.get(rows(o.value)[0], 0) > 0, "sample.one")
        if len(o.value):
            o.value[...] = 77       # samples are the caller's to change


def replay(chk, q, b, v):
    box = Box(q, ["floats", "updater", "ints", "readonly", "scaled"][v % 5])
    if box.kind == "scaled" and b.get("pow2"):
        box.kind = "floats"
    s0 = b["steps"][0]["pre"]
    box.build(chk, s0["W"], s0["locs"], {"kind": box.kind, "W": s0["W"], "locs": s0["locs"]})
    for k, st in enumerate(b["steps"]):
        case = {"kind": box.kind, "op": st["op"], "W": st["pre"]["W"], "locs": st["pre"]["locs"], "level": st.get("level"),
                "cols": st.get("cols")}
        if st["op"] == "reweight":
            w = np.array(st["W2"], float)
            if v % 2:
                box.up.particle_weights = w / w.sum()
            else:
                box.build(chk, st["W2"], st["pre"]["locs"], case)
            continue
        if st["op"] == "relocate":
            if v % 2:
                box.up.particle_locations = np.array(st["locs2"], float)
            else:
                box.build(chk, st["pre"]["W"], st["locs2"], case)
            continue
        w0, l0 = box.up.particle_weights.copy(), box.up.particle_locations.copy()
        one(chk, box, st, case, chk.seed * 1000 + v * 10 + k)
        chk.expect(np.array_equal(w0, box.up.particle_weights) and np.array_equal(l0, box.up.particle_locations), "purity", case)
    chk.traces += 1


def constructor_modes(chk, q):
    for n in (1, 2, 5):
        d = q.ParticleDistribution(n_mps=n)
        chk.expect(d.n_particles == 1 and d.n_rvs == n and near(d.particle_weights, np.ones(1)) and
                   near(d.est_mean(), np.zeros(n)) and near(d.n_ess, 1.), "constructor.n_mps", {"n_mps": n})
    o = call(q.ParticleDistribution, n_mps=1, particle_locations=np.zeros((2, 1)), particle_weights=np.ones(2))
    chk.expect(o.exc == "ValueError", "constructor.both", {"n_mps": 1}, o.exc)


def known_regions(chk, q, b, n):
    """Hulls and ellipsoids of regions whose answers are known exactly (spec/Regions.tla)."""
    c, f, r = b["c"], b["f"], b["r"]
    d, s, k = c["d"], float(c["scale"]), r["first"]
    rs = np.random.RandomState(n)
    core = np.array(c["hull"] + c["inside"] + r["far"], float).reshape(-1, d) / s
    w = np.array(r["wts"], float)
    X = rs.normal(size=(len(core), r["cols"])) * 10
    X[:, k:k + d] = core
    p = rs.permutation(len(X))
    whole = r["cols"] == d
    sl = [slice(k, k + d), np.s_[k:k + d]][n % 2] if not (whole and n % 3) else None
    box = q.ParticleDistribution(particle_locations=X[p], particle_weights=w[p])
    cov = np.array(f["LLt"], float) * 4 * f["rad2"] / s ** 2
    ctr = np.array(f["centre"], float) / s
    V = np.array(c["hull"], float) / s
    case = {"points": core.tolist(), "weights": r["wts"], "columns": [k, r["cols"]], "level": r["level"]}
    E = lambda cond, clause, detail="": chk.expect(bool(cond), clause, case, detail)
    lev = r["level"][0] / float(r["level"][1])
    kw = dict(level=lev) if sl is None else dict(level=lev, modelparam_slice=sl)
    o = call(box.region_est_hull, **kw)
    if E(o.exc == "" and len(o.value) == 2, "region_est_hull.failed", o.exc + " " + o.msg):
        F, W = np.asarray(o.value[0]), np.asarray(o.value[1])
        key = lambda a: sorted({tuple(np.round(x, 9) + 0.) for x in a})
        E(F.ndim == 3 and F.shape[1:] == (d, d) and W.ndim == 2 and W.shape[1] == d, "region_est_hull.shape", "%s %s" % (F.shape, W.shape))
        E(key(W) == key(V) and len(W) == len(key(V)), "region_est_hull.vertices", "%s for %s" % (W.tolist(), V.tolist()))
        E(F.ndim == 3 and set(key(F.reshape(-1, d))) <= set(key(V)), "region_est_hull.faces", F.tolist())
        # the faces bound the body: every face has all the points on one side of it
        for a in F if F.ndim == 3 and F.shape[1:] == (d, d) else []:
            m = np.linalg.svd(a[1:] - a[0])[2][-1]
            t = (V - a[0]) @ m
            E(np.all(t <= 1e-7) or np.all(t >= -1e-7), "region_est_hull.faces", a.tolist())
    for tol in (None, 1e-2, 1e-5):
        kt = dict(kw) if tol is None else dict(kw, tol=tol)
        slack = 6 * (tol or 1e-4) * (d + 1)
        o = call(box.region_est_ellipsoid, **kt)
        if E(o.exc == "" and len(o.value) == 2 and np.shape(o.value[0]) == (d, d) and np.shape(o.value[1]) == (d,), "region_est_ellipsoid.failed", o.exc + " " + o.msg):
            A, z = o.value
            y = V - z
            m = np.einsum("ij,jk,ik->i", y, np.linalg.inv(A), y).max()
            E(m <= 1 + slack, "region_est_ellipsoid.contains", "largest form %s" % m)
            v = np.sqrt(np.linalg.det(A) / np.linalg.det(cov))
            E(abs(v - 1) <= 2 * slack * d, "region_est_ellipsoid.volume", "%s times the least" % v)
            e = np.abs(np.linalg.eigvals(np.linalg.solve(cov, A)) - 1).max()
            E(e <= 20 * slack * d, "region_est_ellipsoid.matrix", "%s for %s" % (A.tolist(), cov.tolist()))
            E((z - ctr) @ np.linalg.solve(cov, z - ctr) <= 4 * slack, "region_est_ellipsoid.centre", z.tolist())
    P = np.array([ctr + t["t"] / 10. * (V[t["v"] - 1] - ctr) for t in r["probes"]])
    want = [t["t"] < 10 for t in r["probes"]]
    for method, km in (("hpd-mvee", {}), ("hpd-mvee", {"tol": None}), ("hpd-mvee", {"tol": 1e-5}), ("hpd-hull", {}), ("hpd-hull", {"tol": None}), (None, {})):
        km = dict(kw, **km)
        if method:
            km["method"] = method
        o = call(box.in_credible_region, P, **km)
        E(o.exc == "" and np.shape(o.value) == (len(P),) and list(o.value) == want, "in_credible_region.%s" % (method or "default"), "%s at %s, expected %s %s" % (o.value, P.tolist(), want, o.msg))
        o = call(box.in_credible_region, P[0], **km)
        E(o.exc == "" and np.size(o.value) == 1 and bool(np.ravel(o.value)[0]) == want[0], "in_credible_region.one.%s" % (method or "default"), "%s at %s" % (o.value, P[0]))
    chk.traces += 1


def crowd(chk, q, b, n):
    """Large clouds whose weights differ by orders of magnitude (spec/Crowd.tla)."""
    o, cl = b["o"], b["cl"]
    rs = np.random.RandomState(n)
    w = np.concatenate([np.full(c[0], float(c[1])) for c in cl])
    x = np.concatenate([np.tile(np.array(c[2], float), (c[0], 1)) for c in cl])
    kinds = np.repeat(np.arange(len(cl)), [c[0] for c in cl])
    p = rs.permutation(len(w))
    w, x, kinds = w[p], np.column_stack([x[p], kinds[p]]), kinds[p]
    if n % 2:
        d = q.SMCUpdater(q.NDieModel(3), len(w), Fixed(x), resample_thresh=0, canonicalize=False)
        d.particle_weights = w / w.sum()
    else:
        d = q.ParticleDistribution(particle_locations=x, particle_weights=w.copy())
    case = {"classes": cl, "order": n}
    E = lambda cond, clause, detail="": chk.expect(cond, clause, case, detail)
    E(d.n_particles == o["n"], "crowd.n")
    E(near(d.n_ess, r(o["ess"]), 1e-9 * r(o["ess"])), "crowd.n_ess", "%r vs %s" % (d.n_ess, o["ess"]))
    E(near(d.est_mean()[:2], arr(o["mean"])), "crowd.est_mean", "%s" % d.est_mean())
    E(near(d.est_covariance_mtx()[:2, :2], arr(o["cov"])), "crowd.est_covariance_mtx", "%s" % d.est_covariance_mtx())
    ent = -sum(c[0] * c[1] / o["tot"] * math.log(c[1] / o["tot"]) for c in cl)
    E(near(d.est_entropy(), ent), "crowd.est_entropy", "%s vs %s" % (d.est_entropy(), ent))
    for g in o["regions"]:
        v = call(d.est_credible_region, level=g["level"] / 16., return_outside=True)
        if E(v.exc == "" and len(v.value) == 2, "crowd.region", v.exc + v.msg):
            ins, outs = v.value
            got = [int(np.sum(ins[:, 2] == k)) for k in range(len(cl))]
            E(got == g["inside"] and len(ins) + len(outs) == o["n"] and [int(np.sum(outs[:, 2] == k)) for k in range(len(cl))] == [c[0] - a for c, a in zip(cl, got)],
              "crowd.region", "level %s: %s of each class, expected %s" % (g["level"], got, g["inside"]))
    chk.traces += 1


class Fixed:
    def __init__(self, locs):
        self.locs, self.n_rvs = locs, locs.shape[1]

    def sample(self, n=1):
        return self.locs.copy()


def run(chk):
    q = import_qinfer()
    constructor_modes(chk, q)
    for j, b in enumerate(chk.emitted("Crowd", cfg(dict(), invariants=["Bounds", "RegionsTight", "Emit"]), simulate=chk.pick(300, 1000), depth=3, seed=chk.seed * 67)):
        with np.errstate(all="ignore"):
            crowd(chk, q, b, j)
    for j, b in enumerate(chk.emitted("Regions", cfg(dict(SIM=True), spec="RSpec", invariants=["Exactly", "REmit"]), simulate=chk.pick(150, 3000), depth=4, seed=chk.seed * 61)):
        with np.errstate(all="ignore"):
            known_regions(chk, q, b, j)
    n = chk.pick(12, 150)
    runs = [(NP, D, wm, p) for NP, D, wm, p in [(1, 1, 4, False), (2, 2, 5, False), (3, 1, 3, False), (4, 2, 4, True), (4, 3, 6, False),
            (5, 2, 5, False), (5, 2, 8, True), (6, 2, 4, False), (6, 3, 7, False), (3, 2, 4, True), (6, 2, 2, False), (6, 2, 8, True)]]
    res = parallel([lambda i=i, t=t: chk.emitted("Cloud", cfg(dict(NP=t[0], D=t[1], WMAX=t[2], DEPTH=6, POW2=t[3]), invariants=INV),
                                                 simulate=n, depth=7, seed=chk.seed * 53 + i) for i, t in enumerate(runs)])
    v = 0
    for t, bs in zip(runs, res):
        for b in bs:
            b["pow2"] = t[3]
            with np.errstate(all="ignore"):
                replay(chk, q, b, v)
            v += 1
        if bs:
            chk.sample(bs[0])
