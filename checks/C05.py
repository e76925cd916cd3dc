"""C05: hypothetical updates, Bayes risk and expected information gain (spec/Design.tla)."""
import math
import numpy as np
from lib.vlib import import_qinfer, parallel, cfg, call
from checks import smcworld

P = [[[4, 2, 1], [0, 2, 3]], [[1, 1, 2], [1, 2, 0], [2, 1, 2]], [[4, 4, 4], [0, 0, 0]],
     [[0, 0, 0], [2, 0, 4], [2, 4, 0]], [[1, 1, 1], [0, 1, 2], [3, 1, 0], [0, 1, 1]],
     [[1, 3, 2], [3, 1, 2]], [[0, 0, 0], [4, 4, 4]], [[2, 1, 4], [2, 3, 0], [0, 0, 0]]]
DT = [("kind", "int")]
RARE = 100


def make_model(q, Q, constant):
    class M(q.FiniteOutcomeModel):
        n_modelparams = 2
        expparams_dtype = DT
        is_n_outcomes_constant = constant is not None

        def __init__(self):
            self._QQ = np.array(Q, dtype=float)
            super().__init__()

        @property
        def Q(self):
            return self._QQ

        def n_outcomes(self, expparams):
            if constant is not None:
                return constant
            return np.array([2 if k == RARE else len(P[k - 1]) for k in np.atleast_1d(expparams)["kind"]])

        rare = None     # (table, eps, whether the rare outcome is the first)

        def prob(self, k, o, x):
            if k == RARE:
                tab, eps, first = self.rare
                return tab[x] / 4. * eps if (o == 0) == first else 1 - tab[x] / 4. * eps
            return P[k - 1][o][x] / 4.

        @staticmethod
        def are_models_valid(mp):
            return np.ones(mp.shape[0], dtype=bool)

        def likelihood(self, outcomes, mp, ep):
            super().likelihood(outcomes, mp, ep)
            ep = np.atleast_1d(ep)
            return np.array([[[self.prob(k, int(o), int(x)) for k in ep["kind"]] for x in mp[:, 0]]
                             for o in np.atleast_1d(outcomes)]).reshape(
                                 len(np.atleast_1d(outcomes)), mp.shape[0], ep.shape[0])
    return M()


class Fixed:
    def __init__(self, locs):
        self.locs = np.array(locs, dtype=float)
        self.n_rvs = 2

    def sample(self, n=1):
        return self.locs.copy()


def r(x):
    return x[0] / x[1]


def snapshot(up):
    return (np.array(up.particle_weights), np.array(up.particle_locations), list(up.data_record),
            [float(np.ravel(x)[0]) for x in up.normalization_record], up.resample_count, up.just_resampled,
            up.min_n_ess)


def same(a, b):
    return all(np.array_equal(x, y) for x, y in zip(a, b))


def rare(chk, up, b, st, case):
    """An experiment with a rare outcome: its part counts in proportion."""
    e, tab = 10. ** -st["eps"], st["tab"]
    up.model.rare = (tab, e, st["first"])
    pre = snapshot(up)
    ep = np.array([(RARE,)], dtype=DT)
    a0, w = r(st["a0"]), [r(x) for x in st["w"]]
    t = [tab[p[0]] / 4. for p in st["pre"]["locs"]]
    risk = 0.
    for Q, c in zip(b["Q"], st["parts"]):
        c = {k: r(x) for k, x in c.items()}
        risk += Q * (e * c["rv"] + (c["m2"] - e * c["a2"]) - (c["m1"] - e * c["a1"]) ** 2 / (1 - e * a0))
    gain = sum(wi * (e * ti * (math.log(ti / a0) if ti else 0) + (1 - e * ti) * (math.log1p(-e * ti) - math.log1p(-e * a0))) for wi, ti in zip(w, t) if wi)
    o = call(up.bayes_risk, ep)
    chk.expect(o.exc == "" and np.shape(o.value) == (1,) and abs(o.value[0] - risk) <= 1e-13, "rare.risk", case, "%s, expected %s" % (o.value, risk))
    o = call(up.expected_information_gain, ep)
    chk.expect(o.exc == "" and np.shape(o.value) == (1,) and abs(o.value[0] - gain) <= 1e-14 + 1e-6 * gain, "rare.gain", case, "%s, expected %s" % (o.value, gain))
    rows = np.array([[r(x) for x in st["post"]], [wi * (1 - e * ti) / (1 - e * a0) for wi, ti in zip(w, t)]])[::1 if st["first"] else -1]
    o = call(up.hypothetical_update, np.arange(2), ep, return_normalization=True)
    chk.expect(o.exc == "" and np.allclose(np.squeeze(o.value[0], 1), rows, atol=1e-9) and
               np.allclose(np.ravel(o.value[1]), np.array([e * a0, 1 - e * a0])[::1 if st["first"] else -1], rtol=1e-9, atol=0), "rare.hyp", case, o.exc + o.msg)
    chk.expect(same(pre, snapshot(up)), "purity", case)


def replay(chk, q, b, const, v):
    s0 = b["steps"][0]["pre"]
    W = np.array(s0["W"], float)
    up = q.SMCUpdater(make_model(q, b["Q"], const), b["NP"], Fixed(s0["locs"]), resample_thresh=0,
                      zero_weight_policy="ignore", canonicalize=False)
    up.particle_weights = W / W.sum()
    for st in b["steps"]:
        w0 = np.array(st["pre"]["W"], float)
        case = {"NP": b["NP"], "Q": b["Q"], "constant": const, "step": {k: x for k, x in st.items() if k not in ("w", "n", "lik", "val")}}
        pre = snapshot(up)
        if not chk.expect(np.allclose(pre[0], w0 / w0.sum(), atol=1e-12), "state", case, str(pre[0])):
            return
        chk.steps += 1
        if st["op"] == "update":
            ep = np.array([(st["kind"],)], dtype=DT)
            hw = call(up.hypothetical_update, st["o"], ep)
            o = call(up.update, st["o"], ep)
            p = np.array(st["post"], float)
            if not chk.expect(o.exc == "" and np.allclose(up.particle_weights, p / p.sum(), atol=1e-12), "update", case, o.msg):
                return
            chk.expect(hw.exc == "" and np.shape(hw.value) == (1, 1, b["NP"]) and
                       np.allclose(hw.value[0, 0], up.particle_weights, atol=1e-12),
                       "hypothetical_equals_actual", case, hw.msg)
            continue
        if st["op"] == "rare":
            rare(chk, up, b, st, case)
            continue
        eps = np.array([(k,) for k in st["eps"]], dtype=DT)
        eps0 = eps.copy()
        if st["op"] == "hyp":
            os_ = np.array(st["os"])
            ew = np.array([[[r(x) for x in e] for e in a] for a in st["w"]])
            en = np.array([[r(e) for e in a] for a in st["n"]])
            el = np.array(st["lik"], float) / 4
            for fl, fn in ((False, False), (True, False), (False, True), (True, True)):
                arg = os_ if len(os_) > 1 or v % 2 else int(os_[0])
                o = call(up.hypothetical_update, arg, eps, return_likelihood=fl, return_normalization=fn)
                if not chk.expect(o.exc == "", "hyp.exception", case, o.exc + o.msg):
                    break
                val = o.value if isinstance(o.value, tuple) else (o.value,)
                if not chk.expect(len(val) == 1 + fl + fn, "hyp.returns", case):
                    break
                chk.expect(np.shape(val[0]) == ew.shape and np.allclose(val[0], ew, atol=1e-12), "hyp.weights", case, "%s" % val[0])
                if fl:
                    chk.expect(np.shape(val[1]) == el.shape and np.allclose(val[1], el, atol=1e-12), "hyp.likelihood", case)
                if fn:
                    chk.expect(np.size(val[-1]) == en.size and np.allclose(np.reshape(val[-1], en.shape), en, atol=1e-12),
                               "hyp.norm", case)
                for x in val:
                    if x.flags.writeable:
                        x[...] = 7
        else:
            fn = up.bayes_risk if st["op"] == "risk" else up.expected_information_gain
            if st["op"] == "risk":
                ex = [r(x) for x in st["val"]]
            else:
                ex = [sum(r(t[2]) * math.log(r(t[3])) for t in x) for x in st["val"]]
            o = call(fn, eps)
            ok = chk.expect(o.exc == "" and np.shape(o.value) == (len(ex),) and np.allclose(o.value, ex, atol=1e-9, rtol=1e-9),
                            st["op"], case, "spec %s code %s %s" % (ex, o.value, o.msg))
            if st["op"] == "risk" and len(ex) == 1 and ok:
                o = call(up.risk, st["eps"][0])
                chk.expect(o.exc == "" and np.allclose(o.value, ex, atol=1e-9), "risk.scalar", case, o.msg)
        chk.expect(np.array_equal(eps, eps0), "arguments", case)
        chk.expect(same(pre, snapshot(up)), "purity", case)
    chk.traces += 1


def run(chk):
    q = import_qinfer()
    inv = ["TotalProbability", "RiskBounds", "PosteriorsAverageToPrior", "Emit"]
    n = chk.pick(30, 400)
    runs = []
    for i, (np_, kinds, const, Q) in enumerate([
            (3, {1, 3, 6, 7}, 2, (1, 1)), (4, {2, 4, 8}, 3, (1, 3)), (3, {1, 2, 3, 4, 5, 8}, None, (2, 0)),
            (2, {5}, 4, (0, 1)), (5, {1, 2, 5, 7}, None, (1, 2)), (1, {1, 3}, 2, (1, 1)), (4, {1, 6}, None, (3, 1))]):
        runs.append((const, lambda i=i, np_=np_, kinds=kinds, Q=Q: chk.emitted(
            "Design", cfg(dict(NP=np_, KINDSET=kinds, QX=Q[0], QY=Q[1], DEPTH=4), invariants=inv),
            simulate=n, depth=5, seed=chk.seed * 31 + i)))
    for (const, _), bs in zip(runs, parallel([x[1] for x in runs])):
        for v, b in enumerate(bs):
            with np.errstate(all="ignore"):
                replay(chk, q, b, const, v)
        if bs:
            chk.sample({"steps": [{k: x for k, x in s.items() if k not in ("w", "lik")} for s in bs[0]["steps"]]})
