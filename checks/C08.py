"""C08: mixed approximate updating (spec/Mixed.tla, spec/MixedTrace.tla)."""
import numpy as np
from lib.vlib import import_qinfer, cfg, call, fixed, as_int

GOOD = [[[8, 4, 1], [0, 4, 7]], [[2, 6, 0], [3, 1, 8], [3, 1, 0]], [[0, 0, 0], [8, 8, 8]]]
APX = [[[6, 4, 2], [2, 4, 6]], [[4, 4, 4], [2, 2, 2], [2, 2, 2]], [[0, 1, 0], [8, 7, 8]]]
DT = [("k", "int")]


def models(q, log):
    class Tab(q.FiniteOutcomeModel):
        n_modelparams = 2
        expparams_dtype = DT
        is_n_outcomes_constant = False

        def __init__(self, name, tab):
            self.name, self.tab = name, tab
            super().__init__()

        def n_outcomes(self, ep):
            return np.array([len(self.tab[k - 1]) for k in np.atleast_1d(ep)["k"]])

        def are_models_valid(self, mp):
            return np.ones(len(mp), bool)

        def likelihood(self, outcomes, mp, ep):
            super().likelihood(outcomes, mp, ep)
            outcomes, ep = np.atleast_1d(outcomes), np.atleast_1d(ep)
            L = np.zeros((len(outcomes), mp.shape[0], ep.shape[0]))
            for i, o in enumerate(outcomes):
                for j, v in enumerate(mp):
                    for e, k in enumerate(ep["k"]):
                        log.append((self.name, int(o), int(k), int(v[0])))
                        L[i, j, e] = self.tab[k - 1][int(o)][int(v[1]) - 1] / 8.
            return L
    return Tab("good", GOOD), Tab("apx", APX)


class Prior:
    n_rvs = 2

    def __init__(self, locs):
        self.locs = locs

    def sample(self, n=1):
        return self.locs.copy()


def record(q, rng, nmax, steps):
    n = int(rng.integers(1 if nmax < 9 else 7, nmax + 1))
    while True:
        w0 = rng.integers(0, 4, n)
        if rng.random() < .3:
            w0[:] = 1
        elif nmax < 9 and rng.random() < .3:
            n = 4
            w0 = np.array([[2, 1, 1, 0], [1, 2, 4, 1], [1, 0, 1, 2], [1, 1, 1, 1], [4, 2, 1, 1]][rng.integers(5)])[rng.permutation(4)]
        if w0.sum():
            break
    g = np.gcd.reduce(w0)
    w0 = w0 // g
    x = rng.integers(1, 4, n)
    r = [(0, 1), (1, 4), (1, 2), (2, 3), (1, 1), (1, 10), (9, 10), (3, 7)][rng.integers(8)]
    th = [(0, 1), (5, 17), (2, 17), (9, 17), (1, 1), (2, 1), (1, 4), (1, 2), (1, 8)][rng.integers(9)]
    m = int(rng.choice([0, 0, 1, 2, 3, n, n + 1]))
    log = []
    good, apx = models(q, log)
    locs = np.stack([np.arange(1, n + 1), x], 1).astype(float)
    opts = dict(mixture_ratio=r[0] / r[1], mixture_thresh=th[0] / th[1], min_good=m)
    if rng.random() < .5:
        # options at their documented defaults need not be given
        opts = {k: v for k, v in opts.items() if v != {"mixture_ratio": .5, "mixture_thresh": 1., "min_good": 0}[k]}
    up = q.MixedApproximateSMCUpdater(good, apx, n, Prior(locs), resample_thresh=0, **opts)
    up.particle_weights = w0 / w0.sum()
    tr = {"w0": w0.tolist(), "x": x.tolist(), "r": list(r), "th": list(th), "m": m, "steps": []}
    np.random.seed(int(rng.integers(2 ** 31)))
    updates = 0
    for _ in range(steps):
        upd = rng.random() < .55
        if upd and updates == (3 if n <= 6 else 1):     # larger numbers do not fit TLC's integers
            break
        if upd:
            updates += 1
            eps = [int(rng.integers(1, 4))]
            outs = [int(rng.integers(len(GOOD[eps[0] - 1])))]
        else:
            eps = [int(k) for k in rng.integers(1, 4, rng.integers(1, 4))]
            outs = [int(k) for k in rng.integers(0, min(len(GOOD[k - 1]) for k in eps), rng.integers(1, 3))]
        ep = np.array([(k,) for k in eps], dtype=DT)
        oa = np.array(outs)
        ep0, oa0, locs0 = ep.copy(), oa.copy(), up.particle_locations.copy()
        log.clear()
        st = {"op": "update" if upd else "hyp", "outs": [o + 1 for o in outs], "eps": eps, "lik": [], "wt": [], "norm": []}
        if upd:
            o = call(up.update, int(outs[0]), ep)
        else:
            v = int(rng.integers(4))
            o = call(up.hypothetical_update, oa if len(oa) > 1 or v % 2 else outs[0], ep,
                     return_likelihood=v > 0, return_normalization=v != 1)
            if not o.exc:
                val = o.value if isinstance(o.value, tuple) else (o.value,)
                st["wt"] = [[[fixed(w) for w in e] for e in a] for a in val[0]]
                if v > 0:
                    st["lik"] = [[[as_int(8 * w) for w in e] for e in a] for a in val[1]]
                if v != 1:
                    st["norm"] = [[fixed(w) for w in e] for e in np.reshape(val[-1], (len(outs), len(eps)))]
        st["exn"] = o.exc
        seen = list(log)
        # repeated (outcome, experiment) pairs in one call: split the record evenly between them
        def cell(name, oi, ei):
            mult = sum(a == outs[oi] for a in outs) * sum(b == eps[ei] for b in eps)
            ids = [i for nm, a, b, i in seen if nm == name and a == outs[oi] and b == eps[ei]]
            res = []
            for i in sorted(set(ids)):
                c = ids.count(i)
                res += [i] * (c // mult if c % mult == 0 else c + 1)
            return res
        st["good"] = [[cell("good", a, b) for b in range(len(eps))] for a in range(len(outs))]
        st["apx"] = [[cell("apx", a, b) for b in range(len(eps))] for a in range(len(outs))]
        st["after"] = [fixed(w) for w in up.particle_weights]
        st["same"] = bool(np.array_equal(ep, ep0) and np.array_equal(oa, oa0) and np.array_equal(locs0, up.particle_locations))
        st["msg"] = o.msg[:100]
        tr["steps"].append(st)
    return tr


def resampling(chk, q):
    """The other options are those of the plain updater: when it resamples, and with what."""
    n = 4
    locs = np.stack([np.arange(1, n + 1), [1, 2, 3, 3]], 1).astype(float)
    for opts in ({}, {"resample_thresh": .5}, {"resample_thresh": .9}, {"resample_thresh": 0}, {"resample_thresh": .24}):
        for w in ([1, 1, 1, 1], [97, 1, 1, 1], [40, 40, 10, 10], [50, 48, 1, 1], [60, 38, 1, 1]):
            for form in range(3):
                good, apx = models(q, [])
                calls = []

                def move(model, dist):
                    calls.append((model, np.array(dist.particle_weights)))
                    return q.ParticleDistribution(particle_locations=dist.particle_locations + 0., particle_weights=np.ones(n))
                kw = dict(opts, resampler=move)
                if form == 2:
                    kw = dict(opts, resample_a=.5)
                up = q.MixedApproximateSMCUpdater(good, apx, n, Prior(locs), *((None, move, opts["resample_thresh"]) if form == 1 and opts else ()), **({} if form == 1 and opts else kw))
                up.particle_weights = np.array(w, float) / sum(w)
                case = {"options": opts, "weights": w, "form": form}
                o = call(up.update, 1, np.array([(3,)], dtype=DT))
                if not chk.expect(o.exc == "", "options.exception", case, o.exc + " " + o.msg):
                    continue
                v = np.array(w, float)
                # the likelihoods of this experiment are equal under the good model, nearly so under the approximate one
                lo = np.sum(v) ** 2 / np.sum(v ** 2)
                due = lo / n < opts.get("resample_thresh", .5)
                if abs(lo / n - opts.get("resample_thresh", .5)) > .06:
                    chk.expect(up.resample_count == int(due) and len(calls) == (int(due) if form < 2 else 0), "options.resample", case,
                               "%d resamplings, %d calls of the resampler, ESS %s" % (up.resample_count, len(calls), lo))
                    if due and form < 2:
                        chk.expect(calls[0][0] is good, "options.model", case)
    good, apx = models(q, [])
    up = q.MixedApproximateSMCUpdater(good, apx, n, Prior(locs), resample_a=.25)
    chk.expect(getattr(up.resampler, "a", None) == .25, "options.resample_a", {}, repr(up.resampler))


def run(chk):
    q = import_qinfer()
    for np_, wm, d in chk.pick([(1, 3, 2), (2, 3, 2), (3, 2, 1)], [(2, 4, 2), (3, 2, 2), (4, 2, 1)]):
        chk.model("Mixed", cfg(dict(NP=np_, WMAX=wm, DEPTH=d), invariants=["SplitExists", "SplitLaws", "SizesSuffice"]),
                  name="Mixed NP=%d" % np_, workers=4)
    with np.errstate(all="ignore"):
        resampling(chk, q)
    rng = np.random.default_rng(chk.seed * 7 + 1)
    with np.errstate(all="ignore"):
        traces = [record(q, rng, nm, 5) for nm in (2, 4, 6) for _ in range(chk.pick(250, 2000))] + [record(q, rng, 40, 4) for _ in range(chk.pick(120, 700))]
    traces = [t for t in traces if t["steps"]]
    chk.trace_check("MixedTrace", traces, chunk=100, describe=lambda t, l: {
        "w0": t["w0"], "x": t["x"], "ratio": t["r"], "thresh": t["th"], "min_good": t["m"],
        "history": [(s["op"], s["outs"], s["eps"], s["exn"], s["msg"]) for s in t["steps"][:l]]})
    chk.steps += sum(len(t["steps"]) for t in traces)
    chk.sample({k: traces[-1][k] for k in ("w0", "x", "r", "th", "m")})
