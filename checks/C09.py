"""C09: Bayesian information updater (spec/BCRB.tla, spec/BCRBTrace.tla; and spec/SMC.tla for everything else)."""
import re
import numpy as np
from lib.vlib import import_qinfer, call, fixed, SPEC
from checks import smcworld as sw

P = [[[8, 4, 1], [0, 4, 7]], [[2, 6, 1], [3, 1, 6], [3, 1, 1]], [[4, 4, 4], [4, 4, 4]]]
SC = [[[[1, 0], [2, 1], [0, 3]], [[5, 5], [-2, 1], [1, -1]]],
      [[[0, 1], [1, 1], [2, -1]], [[1, 2], [0, 0], [-1, 0]], [[3, 0], [1, -2], [0, 2]]],
      [[[0, 0]] * 3, [[0, 0]] * 3]]
GR = np.array([[1, -2], [0, 3], [2, 2]], float)
DT = [("k", "int"), ("d", "int")]


def make_model(q, constant):
    class M(q.FiniteOutcomeModel, q.DifferentiableModel):
        n_modelparams = 2
        expparams_dtype = DT
        is_n_outcomes_constant = constant

        def n_outcomes(self, ep):
            if constant:
                return 2
            return max(len(P[k - 1]) for k in np.atleast_1d(ep)["k"])

        def are_models_valid(self, mp):
            return np.ones(len(mp), bool)

        def likelihood(self, outcomes, mp, ep):
            super().likelihood(outcomes, mp, ep)
            outcomes, ep = np.atleast_1d(outcomes), np.atleast_1d(ep)
            return np.array([[[P[k - 1][int(o)][int(x)] / 8. for k in ep["k"]] for x in mp[:, 0]] for o in outcomes]
                            ).reshape(len(outcomes), len(mp), len(ep))

        def score(self, outcomes, mp, ep, return_L=False):
            outcomes, ep = np.atleast_1d(outcomes), np.atleast_1d(ep)
            s = np.array([[[[float(SC[k - 1][int(o)][int(x)][a]) for k in ep["k"]] for x in mp[:, 0]] for o in outcomes]
                          for a in (0, 1)]).reshape(2, len(outcomes), len(mp), len(ep))
            return (s, self.likelihood(outcomes, mp, ep)) if return_L else s

        def update_timestep(self, mp, ep):
            out = np.repeat(mp[:, :, None], len(ep), axis=2)
            out[:, 0, :] = (mp[:, :1] + np.atleast_1d(ep)["d"][None, :]) % 3
            return out
    return M()


class Prior:
    n_rvs = 2

    def __init__(self, rng):
        self.rng, self.log = rng, []

    def sample(self, n=1):
        x = self.rng.integers(0, 3, n)
        self.log += x.tolist()
        return np.stack([x, np.arange(n)], 1).astype(float)

    def grad_log_pdf(self, v):
        return GR[np.round(v[:, 0]).astype(int)]


class Res:
    def __init__(self, q, rng):
        self.q, self.rng = q, rng

    def __call__(self, model, dist, *a, **k):
        n = dist.n_particles
        l = np.stack([self.rng.integers(0, 3, n), np.arange(n)], 1).astype(float)
        return self.q.ParticleDistribution(particle_locations=l, particle_weights=np.ones(n) / n)


def mat(a):
    a = np.asarray(a, float)
    return [[fixed(a[i, j], 10000) for j in (0, 1)] for i in (0, 1)] if a.shape == (2, 2) else [[-999999, 0], [0, 0]]


def xs(up):
    return [int(round(v)) for v in up.particle_locations[:, 0]]


def record(q, rng, steps):
    n = int(rng.integers(1, 7))
    constant = bool(rng.integers(2))
    prior = Prior(rng)
    given, adaptive = bool(rng.integers(2)), bool(rng.integers(2))
    kw = {}
    b0 = None
    if given:
        b0 = [np.array([[2., .5], [.5, 3.]]), np.array([[4, 1], [1, 2]]), np.zeros((2, 2)),
              np.array([[1., 0], [0, 1.]])][rng.integers(4)]
        if rng.integers(4) == 0:
            b0.flags.writeable = False
        kw["initial_bim"] = b0
    elif rng.integers(2):
        kw["initial_bim"] = None
    if adaptive:
        kw["adaptive"] = True
    elif rng.integers(2):
        kw["adaptive"] = False
    b00 = None if b0 is None else b0.copy()
    model = make_model(q, constant)
    if rng.integers(2):
        o = call(q.SMCUpdaterBCRB, model, n, prior, resampler=Res(q, rng), resample_thresh=0, **kw)
    else:
        o = call(q.SMCUpdaterBCRB, model=model, n_particles=n, prior=prior, resampler=Res(q, rng), resample_thresh=0, **kw)
    Z = [[0, 0], [0, 0]]
    tr = {"given": given, "adaptive": adaptive, "n": n, "const": constant, "w0": [1] * n, "x0": prior.log[:n],
          "init": {"exn": o.exc, "cur": Z, "ada": Z, "want": Z if b00 is None else mat(b00), "msg": o.msg[:80]}, "steps": []}
    if o.exc:
        return tr
    up = o.value
    ada = (lambda: mat(up.adaptive_bim)) if adaptive else (lambda: Z)
    tr["x0"] = xs(up)
    tr["init"]["cur"], tr["init"]["ada"] = mat(up.current_bim), ada()
    if not adaptive:
        if call(lambda: up.adaptive_bim).exc != "ValueError":
            tr["init"]["exn"] = "adaptive_bim without tracking"
    for _ in range(steps):
        op = ["update", "update", "update", "prior_info", "posterior_info", "resample", "poke"][rng.integers(7)]
        st = {"op": op, "k": 1, "o": 1, "d": 0, "draws": [], "ks": [], "res": [], "n": 0, "x": []}
        prior.log.clear()
        ks = [1, 3] if constant else [1, 2, 3]
        if op == "update":
            x, w = xs(up), up.particle_weights
            poss = [(k, oo) for k in ks for oo in range(len(P[k - 1])) if any(P[k - 1][oo][a] and ww > 0 for a, ww in zip(x, w))]
            k, oo = poss[rng.integers(len(poss))]
            st["k"], st["o"], st["d"] = k, oo + 1, int(rng.integers(3))
            ep = np.array([(k, st["d"])], dtype=DT)
            r = rng.integers(3)
            if r == 2:
                o = call(up.batch_update, np.array([oo]), ep)
            else:
                o = call(up.update, oo, ep, **({"check_for_resample": False} if r else {}))
            st["draws"] = list(prior.log)
        elif op in ("prior_info", "posterior_info"):
            st["ks"] = [int(ks[i]) for i in rng.integers(0, len(ks), rng.integers(1, 4))]
            ep = np.array([(k, 0) for k in st["ks"]], dtype=DT)
            if op == "prior_info":
                m = int(rng.integers(0, 5))
                o = call(up.prior_bayes_information, ep, **({"n_samples": m} if m else {}))
                st["n"] = m
                st["draws"] = list(prior.log)
            else:
                o = call(up.posterior_bayes_information, ep)
            if not o.exc:
                v = np.asarray(o.value)
                st["res"] = [mat(v[:, :, e]) if v.shape == (2, 2, len(st["ks"])) else [[-9999999, 0], [0, 0]] for e in range(len(st["ks"]))]
        elif op == "resample":
            o = call(up.resample)
            st["x"] = xs(up)
        else:
            o = call(lambda: None)
            up.current_bim[...] = 55
            if adaptive:
                up.adaptive_bim[...] = 66
        st["exn"], st["msg"] = o.exc, o.msg[:80]
        st["cur"], st["ada"] = mat(up.current_bim), ada()
        st["caller"] = b0 is None or bool(np.array_equal(b0, b00))
        tr["steps"].append(st)
    return tr


def plain_behaviour(chk, q):
    """Everything but the matrices: behaviours of spec/SMC.tla through the Bayesian information updater."""
    def wrap(model):
        class D(type(model), q.DifferentiableModel):
            def score(self, *a, **k):
                raise NotImplementedError

            def fisher_information(self, mp, ep):
                return np.ones((2, 2, len(mp), len(ep)))
        model.__class__ = D
        return model

    class Quiet(sw.Prior):
        quiet = False

        def sample(self, n=1):
            if self.quiet:
                return np.zeros((n, 2))
            return super().sample(n)

        def grad_log_pdf(self, v):
            return np.ones_like(v)

    class Rig(sw.Rig):
        def __init__(self, q_, b, variant=0, track=False, debug=False):
            orig = (q_.SMCUpdater, sw.make_model, sw.Prior)
            try:
                sw.Prior = Quiet
                sw.make_model = lambda *a: wrap(orig[1](*a))
                class Q:
                    def __getattr__(self, k):
                        return getattr(q_, k)
                qq = Q()
                kw = {} if variant % 2 else {"initial_bim": np.eye(2)}
                if variant % 3:
                    kw["adaptive"] = True
                qq.SMCUpdater = lambda *a, **k: q_.SMCUpdaterBCRB(*a, **dict(k, **kw))
                super().__init__(qq, b, variant, track, debug)
                self.q = q_
            finally:
                sw.make_model, sw.Prior = orig[1], orig[2]

        def apply(self, op):
            self.prior.quiet = op["op"] in ("update", "batch", "badbatch")
            try:
                return super().apply(op)
            finally:
                self.prior.quiet = False
    orig = sw.Rig
    sw.Rig = Rig
    try:
        specs = []
        for i, (pol, canon, NP) in enumerate([("error", True, 3), ("skip", False, 3), ("ignore", True, 4), ("warn", False, 2)]):
            specs.append(dict(conf=sw.base_conf(POLICY=pol, CANON=canon, NP=NP, RESMODE="grow" if i % 2 else "same"),
                              opset={"update", "reset", "resample", "batch", "preset"}, depth=5, num=chk.pick(25, 300),
                              kinds=(0, 3, 1), dts=(1, 2), maxlen=8))
        sw.run_family(chk, q, specs)
    finally:
        sw.Rig = orig
    # remaining constructor options
    m = wrap(sw.make_model(q))
    o = call(q.SMCUpdaterBCRB, m, 4, Quiet(), resample_a=0.5, zero_weight_policy="skip", zero_weight_thresh=2.0)
    chk.expect(o.exc == "" and getattr(o.value.resampler, "a", None) == 0.5, "option.resample_a", {}, o.msg)
    if not o.exc:
        # the normalised total weight is below the threshold: every update is skipped
        w0 = o.value.particle_weights.copy()
        qd = o.value.prior
        qd.quiet = True
        call(o.value.update, 0, sw.ep1(6, 0))
        chk.expect(np.array_equal(o.value.particle_weights, w0) and list(o.value.data_record) == [0], "option.zero_weight_thresh", {})
    o = call(q.SMCUpdaterBCRB, m, 4, Quiet(), initial_bim=np.eye(2), no_such_option=1)
    p = call(q.SMCUpdater, m, 4, Quiet(), no_such_option=1)
    chk.expect(o.exc == p.exc, "option.unknown", {}, "%s vs %s" % (o.exc, p.exc))
    o = call(q.SMCUpdaterBCRB, sw.make_model(q), 4, Quiet(), initial_bim=np.eye(2))
    chk.expect(o.exc == "ValueError", "non_differentiable", {}, o.exc)


def run(chk):
    q = import_qinfer()
    rng = np.random.default_rng(chk.seed * 11 + 3)
    with np.errstate(all="ignore"):
        traces = [record(q, rng, 6) for _ in range(chk.pick(700, 8000))]
    chk.trace_check("BCRBTrace", traces, chunk=100, describe=lambda t, l: {
        "n": t["n"], "given": t["given"], "adaptive": t["adaptive"], "init": t["init"],
        "history": [(s["op"], s["k"], s["o"], s["exn"], s["msg"]) for s in t["steps"][:l]]})
    chk.steps += sum(len(t["steps"]) for t in traces)
    chk.sample({k: traces[0][k] for k in ("given", "adaptive", "n", "x0")})
    plain_behaviour(chk, q)
