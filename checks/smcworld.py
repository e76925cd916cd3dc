"""The lattice world of spec/SMC.tla, as plug-ins of the real SMCUpdater, and the replay of
specification behaviours into it."""
import numpy as np
from lib.vlib import call, Machinery

LQ = [[[4, 2, 1], [0, 2, 3]],
      [[0, 1, 4], [4, 3, 0]],
      [[2, 2, 2], [2, 2, 2]],
      [[0, 0, 0], [4, 4, 4]],
      [[0, 0, 0], [4, 4, 4]],
      [[-1, 2, 4], [4, 2, -1]],
      [[4, 2, 1], [4, 4, 4]]]
RARE = 2.0 ** -30
TINY = 2.0 ** -60


def step(loc, kind, dt):
    return [(loc[0] + dt) % 3, loc[1] + dt * (1000 + 100 * kind)]


# what the caller calls the outcomes 0 and 1 of the specification
CODES = {"int": [0, 1], "float": [0.25, 1.25], "str": ["no", "yes"], "neg": [-0.5, 0.5]}


def make_model(q, cachefail=False, code="int"):
    codes = CODES[code]

    class World(q.FiniteOutcomeModel):
        def __init__(self):
            super().__init__()
            self.clears = 0

        @property
        def n_modelparams(self):
            return 2

        @property
        def expparams_dtype(self):
            return [('kind', 'int'), ('dt', 'int')]

        @property
        def is_n_outcomes_constant(self):
            return True

        def n_outcomes(self, expparams):
            return 2

        if code != "int":
            def domain(self, expparams):
                class Dom(object):
                    values = np.array(codes)
                    n_members = 2
                    is_finite = True
                    is_continuous = False
                    example_point = values[0]
                    dtype = values.dtype
                if expparams is None:
                    return Dom()
                return [Dom() for _ in range(np.size(expparams))]

        @staticmethod
        def are_models_valid(modelparams):
            return np.ones((modelparams.shape[0],), dtype=bool)

        def likelihood(self, outcomes, modelparams, expparams):
            super().likelihood(outcomes, modelparams, expparams)
            modelparams = np.asarray(modelparams)
            ep = np.atleast_1d(expparams)
            os_ = np.atleast_1d(outcomes)
            L = np.empty((os_.shape[0], modelparams.shape[0], ep.shape[0]))
            for a, o in enumerate(os_):
                o = codes.index(o)
                for b, x in enumerate(modelparams[:, 0]):
                    for c in range(ep.shape[0]):
                        v = LQ[int(ep['kind'][c])][int(o)][int(round(x))] / 4.0
                        if int(ep['kind'][c]) == 4 and int(o) == 0:
                            v = TINY * (1 + int(round(x)))
                        if int(ep['kind'][c]) == 6 and int(o) == 0:
                            v *= RARE
                        L[a, b, c] = v
            return L

        def canonicalize(self, modelparams):
            mp = np.array(modelparams, dtype=float)
            if mp.ndim != 2 or mp.shape[1] != 2:
                raise ValueError("canonicalize got shape %s" % (mp.shape,))
            mp[:, 1] = np.abs(mp[:, 1])
            return mp

        def update_timestep(self, modelparams, expparams):
            ep = np.atleast_1d(expparams)
            out = np.empty(modelparams.shape + (ep.shape[0],))
            for c in range(ep.shape[0]):
                for i, l in enumerate(modelparams):
                    out[i, :, c] = step([int(round(l[0])), l[1]], int(ep['kind'][c]), int(ep['dt'][c]))
            return out

        def clear_cache(self):
            self.clears += 1
            if cachefail:
                raise RuntimeError("cache on fire")
    return World()


class Prior:
    n_rvs = 2

    def __init__(self):
        self.k = 0
        self.sizes = []

    def sample(self, n=1):
        self.k += 1
        self.sizes.append(n)
        k = self.k
        return np.array([[(i * k + k) % 3, (-1 if i % 2 == 0 else 1) * (10 * k + i)]
                         for i in range(1, n + 1)], dtype=float)


class Resampler:
    def __init__(self, q, np0, mode):
        self.q, self.np0, self.mode, self.k = q, np0, mode, 0
        self.seen = []

    def __call__(self, model, particle_dist, *a, **kw):
        self.k += 1
        ls = np.array(particle_dist.particle_locations)
        self.seen.append((ls.copy(), np.array(particle_dist.particle_weights).copy()))
        n = ls.shape[0]
        m = (n + 1 if n <= self.np0 else n - 2) if self.mode == "grow" else n
        locs = np.array([[(round(ls[(i - 1) % n][0]) + 1) % 3, -(100 * self.k + i)]
                         for i in range(1, m + 1)], dtype=float)
        w = np.array([2.0 if (self.mode == "grow" and i == 1) else 1.0 for i in range(1, m + 1)])
        return self.q.ParticleDistribution(particle_locations=locs, particle_weights=w / w.sum())


EPDT = [('kind', 'int'), ('dt', 'int')]


def ep1(kind, dt):
    return np.array([(kind, dt)], dtype=EPDT)


class Rig:
    """The real updater inside the world, plus projection and operations."""

    def __init__(self, q, b, variant=0, track=False, debug=False):
        self.q = q
        self.code = ["int", "float", "int", "str", "int", "neg"][(variant // 2) % 6]
        self.codes = CODES[self.code]
        self.model = make_model(q, b["CACHEFAIL"], self.code)
        self.prior = Prior()
        self.resampler = Resampler(q, b["NP"], b["RESMODE"])
        self.variant = variant
        self.track = track
        self.debug = debug
        kw = dict(resampler=self.resampler, resample_thresh=b["TN"] / b["TD"],
                  zero_weight_policy=b["POLICY"], canonicalize=b["CANON"])
        if track:
            kw["track_resampling_divergence"] = True
        if debug:
            kw["debug_resampling"] = True
        o = call(q.SMCUpdater, self.model, b["NP"], self.prior, **kw)
        self.up = o.value
        self.init_exc = o.exc
        self.last_call = o

    def outcome(self, o):
        v = self.variant % 4
        c = self.codes[o]
        if self.code != "int":
            return c if v else np.array([c])
        return [int(c), np.int64(c), np.int32(c), np.array([c])][v]

    def outcomes(self, os_):
        return np.array([self.codes[o] for o in os_])

    def apply(self, op):
        up = self.up
        k = op["op"]
        if k == "update":
            if op["check"] and self.variant % 2:
                return call(up.update, self.outcome(op["o"]), ep1(op["kind"], op["dt"]))
            return call(up.update, self.outcome(op["o"]), ep1(op["kind"], op["dt"]),
                        check_for_resample=op["check"])
        if k == "batch":
            os_ = self.outcomes([i["o"] for i in op["items"]])
            eps = np.array([(i["kind"], i["dt"]) for i in op["items"]], dtype=EPDT)
            if self.variant % 2:
                eps = eps[:, None]
            before = (os_.copy(), eps.copy())
            r = call(up.batch_update, os_, eps, resample_interval=op["interval"])
            if not ((os_ == before[0]).all() and (eps == before[1]).all()):
                r.exc = "MutatedArguments"
            return r
        if k == "badbatch":
            return call(up.batch_update, self.outcomes([0, 1]), np.array([(0, 1)] * 3, dtype=EPDT))
        if k == "resample":
            return call(up.resample)
        if k == "reset":
            if op["n"] == up.n_particles and self.variant % 2:
                return call(up.reset)
            return call(up.reset, op["n"])
        if k == "preset":
            cols = [c - 1 for c in sorted(op["cols"])]
            if len(cols) == 2 and self.variant % 2:
                cols = slice(None)
            return call(up.reset, only_params=cols, reset_weights=op["rw"])
        if k == "badreset":
            return call(up.reset, n_particles=5, only_params=[0])
        if k == "peek":
            return call(self.peek)
        raise Machinery("unknown op %r" % (op,))

    def peek(self):
        """Everything that must not disturb the updater."""
        up = self.up
        eps = np.array([(0, 1), (1, 1), (2, 1)], dtype=EPDT)
        up.hypothetical_update(self.outcomes([0, 1]), eps)
        up.hypothetical_update(self.codes[0], eps[:1])
        w, L, n = up.hypothetical_update(self.outcomes([0, 1]), eps, return_likelihood=True,
                                         return_normalization=True)
        w[...] = -1
        n[...] = -1
        up.bayes_risk(eps)
        up.expected_information_gain(eps)
        up.est_mean()
        up.est_covariance_mtx()
        d = up.data_record
        d.append(17)
        up.sample(3)
        up.n_ess
        up.log_total_likelihood if len(up.normalization_record) else None

    def project(self):
        up = self.up
        return {
            "W": np.array(up.particle_weights, dtype=float),
            "locs": np.array(up.particle_locations, dtype=float),
            "data": [self.codes.index(np.ravel(x)[0]) for x in up.data_record],
            "norms": [float(np.ravel(x)[0]) if np.size(x) == 1 else float('nan')
                      for x in up.normalization_record],
            "rc": int(up.resample_count), "jr": bool(up.just_resampled),
            "miness": float(up.min_n_ess), "ess": float(up.n_ess),
            "n": int(up.n_particles),
            "pc": self.prior.k, "cc": self.model.clears, "rk": self.resampler.k,
            "div": None if up.resampling_divergences is None else len(up.resampling_divergences),
        }


def diffs(rig, o, post, kind):
    """Compare the real updater after a call with the specification's post-state;
    returns the list of (field, spec, real) that disagree."""
    out = []
    try:
        with np.errstate(all="ignore"):
            p = rig.project()
    except Exception as ex:
        return [("unprojectable", "", repr(ex))]

    def chk(name, ok, a, b):
        if not ok:
            out.append((name, a, b))
    W = np.array(post["W"], dtype=float)
    w = W / W.sum() if W.sum() > 0 else W
    locs = np.array(post["locs"], dtype=float)
    chk("exn", post["exn"] == o.exc, post["exn"], o.exc + " " + o.msg)
    chk("weights", p["W"].shape == w.shape and np.allclose(p["W"], w, rtol=1e-9, atol=1e-12), w, p["W"])
    chk("locations", p["locs"].shape == locs.shape and np.allclose(p["locs"], locs, rtol=0, atol=1e-6), locs, p["locs"])
    chk("n", p["n"] == len(W), len(W), p["n"])
    chk("data", p["data"] == post["data"], post["data"], p["data"])
    nr = [a / b * 2.0 ** -e for a, b, e in post["norms"]]
    chk("norms", len(nr) == len(p["norms"]) and np.allclose(nr, p["norms"], rtol=1e-9, atol=1e-16), nr, p["norms"])
    if nr and min(nr) > 0 and len(nr) == len(p["norms"]):
        lt = sum(np.log(a / b) - e * np.log(2) for a, b, e in post["norms"])
        try:
            got = float(rig.up.log_total_likelihood)
        except Exception as ex:
            got = repr(ex)
        chk("log_total_likelihood", isinstance(got, float) and abs(got - lt) <= 1e-9 * (1 + abs(lt)), lt, got)
    for f in ("rc", "jr", "pc", "cc"):
        chk(f, post[f] == p[f], post[f], p[f])
    chk("resampler_calls", post["rc"] == p["rk"], post["rc"], p["rk"])
    if rig.track:
        chk("divergences", p["div"] == post["rc"], post["rc"], p["div"])
    m = post["miness"][0] / post["miness"][1]
    chk("miness", abs(m - p["miness"]) < 1e-9 * max(1, m), m, p["miness"])
    if post["ess"][1]:
        e = post["ess"][0] / post["ess"][1]
        chk("ess", abs(e - p["ess"]) < 1e-9 * max(1, e), e, p["ess"])
    # (covariance estimates, used when peeking or debugging, have their own numerical warning)
    if not rig.debug and kind not in ("peek", "resample"):
        chk("approx_warning", post["approx"] == o.warned("ApproximationWarning"), post["approx"], o.warns)
    chk("resampler_warning", post["reswarn"] == o.warned("ResamplerWarning"), post["reswarn"], o.warns)
    return out


def replay(chk, q, b, variant=0, extra=None):
    """Replay one specification behaviour; stops at the first disagreement."""
    rig = Rig(q, b, variant, track=(variant % 4 == 3), debug=(variant % 5 == 4))
    conf = {k: b[k] for k in ("NP", "TN", "TD", "POLICY", "CANON", "CACHEFAIL", "RESMODE")}
    if rig.up is None:
        chk.violation("init", {"conf": conf}, rig.init_exc)
        return False
    hist = []
    for i, st in enumerate([{"op": {"op": "init"}, "post": b["init"]}] + b["steps"]):
        with np.errstate(all="ignore"):
            o = rig.last_call if i == 0 else rig.apply(st["op"])
        hist.append(st["op"])
        chk.steps += 1
        if extra:
            extra(rig, st, o, chk, conf, hist)
        d = diffs(rig, o, st["post"], st["op"]["op"])
        if d:
            chk.violation(st["op"]["op"] + "." + d[0][0],
                          {"conf": conf, "history": hist, "variant": variant},
                          "; ".join("%s: spec %s, code %s" % x for x in d))
            return False
    chk.traces += 1
    return True


def generate(chk, conf, opset, depth, num, kinds=(0, 1), outs=(0, 1), dts=(1,), maxlen=12, seed=1,
             module="SMCGen", timeout=300):
    from lib.vlib import cfg
    c = dict(conf, KINDS=set(kinds), OUTS=set(outs), DTS=set(dts), MAXLEN=maxlen, DEPTH=depth,
             OPSET=set(opset))
    return chk.emitted(module, cfg(c, spec="GSpec", invariants=["Emit"]), simulate=num,
                       depth=depth + 1, seed=seed, timeout=timeout, name="%s/%s" % (module, conf["POLICY"]))


def base_conf(**kw):
    c = dict(NP=3, TN=1, TD=2, POLICY="error", CANON=True, CACHEFAIL=False, RESMODE="same")
    c.update(kw)
    return c


INVS = ["BayesRule", "WellFormed", "NormsAreProbabilities", "RecordBound", "RecordTight",
        "CanonicalInv", "CountsCoupled"]
PROPS = ["DataAppendOnly", "MinEssMonotone", "CountMonotone", "FailureIsAtomic",
         "ResetTouchesOnlyCloud"]


def explore(chk, conf, kinds=(0, 3), outs=(0, 1), dts=(1,), maxlen=2, workers=4, timeout=600):
    """Exhaustive check of the specification's own properties for small constants."""
    from lib.vlib import cfg
    c = dict(conf, KINDS=set(kinds), OUTS=set(outs), DTS=set(dts), MAXLEN=maxlen)
    return chk.model("SMC", cfg(c, invariants=INVS, properties=PROPS), workers=workers, timeout=timeout,
                     name="SMC/%s" % conf["POLICY"])


def run_family(chk, q, specs, explore_jobs=()):
    """specs: list of dicts(conf, opset, depth, num, kinds, dts, maxlen).  Generates all in
    parallel, replays them serially."""
    from lib.vlib import parallel
    jobs = [(lambda e=e: explore(chk, **e)) for e in explore_jobs]
    for i, s in enumerate(specs):
        jobs.append(lambda i=i, s=s: generate(chk, s["conf"], s["opset"], s["depth"], s["num"],
                                              kinds=s.get("kinds", (0, 1)), dts=s.get("dts", (1,)),
                                              maxlen=s.get("maxlen", 12), seed=chk.seed * 1000 + i))
    res = parallel(jobs)[len(explore_jobs):]
    for i, bs in enumerate(res):
        seen = set()
        import json
        for j, b in enumerate(bs):
            k = json.dumps(b, sort_keys=True)
            if k in seen:
                continue
            seen.add(k)
            replay(chk, q, b, variant=j)
        if bs:
            chk.sample({"conf": specs[i]["conf"], "behaviour": [s["op"] for s in bs[0]["steps"]],
                        "final": bs[0]["steps"][-1]["post"]})
