"""C20: adaptive likelihood estimation (spec/Ale.tla)."""
from fractions import Fraction
import numpy as np
from lib.vlib import import_qinfer, parallel, cfg, call, rat

qinfer = import_qinfer()
from qinfer.ale import ALEApproximateModel


def make(q, pat, kind, drawn):
    """A simulator with scripted outcomes; drawn[i][j] counts what it handed out."""
    class Sim(q.Simulatable):
        n_modelparams = 1
        expparams_dtype = [("e", int)]
        is_n_outcomes_constant = True
        def n_outcomes(self, ep): return 2
        def are_models_valid(self, mps): return np.ones(len(mps), bool)
        def domain(self, ep): return q.IntegerDomain(min=0, max=1) if ep is None else [q.IntegerDomain(min=0, max=1)] * len(ep)

        def simulate_experiment(self, modelparams, expparams, repeat=1):
            super(Sim, self).simulate_experiment(modelparams, expparams, repeat)
            repeat = int(repeat)
            out = np.zeros((repeat, len(modelparams), len(expparams)), dtype=[int, bool, float][kind % 3])
            for a, m in enumerate(modelparams[:, 0]):
                for b, e in enumerate(expparams["e"]):
                    i, j = int(m) - 1, int(e) - 1
                    if sum(map(sum, drawn)) > 20000:
                        raise AssertionError("does not stop")
                    p, k = pat[i][j], drawn[i][j]
                    out[:, a, b] = [p[(k + r) % len(p)] for r in range(repeat)]
                    drawn[i][j] += repeat
            if kind % 2 and out.size == 1:
                return out[0, 0, 0]
            return out
    return Sim()


def args(s):
    ep = np.zeros(len(s["es"]), dtype=[("e", int)])
    ep["e"] = s["es"]
    return np.array(s["ms"], float)[:, None], ep


def replay(chk, q, b, kind):
    c, pat = b["c"], b["pat"]
    drawn = [[0] * len(p) for p in pat]
    sim = make(q, pat, kind, drawn)
    kw = dict(error_tol=rat(c["tol"]), min_samp=c["mn"], samp_step=c["st"], est_hedge=rat(c["eh"]), adapt_hedge=rat(c["ah"]))
    o = call(ALEApproximateModel, sim, **kw)
    case = {"options": kw}
    if not chk.expect(o.exc == "", "construct", case, o.exc + o.msg):
        return
    ale = o.value
    for k, s in enumerate(b["steps"]):
        mps, ep = args(s)
        mp0 = mps.copy()
        case = {"options": kw, "pat": pat, "history": [(x["op"], x["ms"], x["es"]) for x in b["steps"][:k + 1]]}
        if s["op"] == "sim":
            o = call(ale.simulate_experiment, mps, ep, **({} if s["k"] == 1 else {"repeat": s["k"]}))
            ok = o.exc == "" and np.size(o.value) == np.size(s["out"]) and np.array_equal(np.reshape(o.value, np.shape(s["out"])), s["out"])
            chk.expect(ok, "simulate", case, o.exc + str(o.value))
        else:
            os = np.array(s["os"])
            o = call(ale.likelihood, os, mps, ep)
            L = [[[rat(v) for v in r] for r in m] for m in s["L"]]
            if chk.expect(o.exc == "" and np.shape(o.value) == np.shape(L), "likelihood", case, o.exc + " " + o.msg + str(np.shape(o.value))):
                chk.expect(drawn == s["pos"], "samples", case, "%s for %s" % (drawn, s["pos"]))
                chk.expect(np.allclose(o.value, L, rtol=0, atol=1e-12), "frequency", case, "%s for %s" % (o.value.tolist(), L))
        chk.expect(np.array_equal(mps, mp0) and ep["e"].tolist() == s["es"], "inputs", case)
        chk.expect(ale.sim_count == s["sims"] == sim.sim_count, "sim_count", case, "%s for %s" % (ale.sim_count, s["sims"]))
        chk.expect(ale.call_count == s["calls"], "call_count", case, "%s for %s" % (ale.call_count, s["calls"]))
        if drawn != s["pos"]:
            break
    if b["steps"]:
        chk.traces += 1


def defaults(chk, q):
    """Options left out are as documented: tolerance 1/100, ten samples and steps of ten, hedging 0.509."""
    hd = Fraction(509, 1000)
    for pat, opt in (([0], {}), ([1], {}), ([0, 0, 0, 1], {}), ([0], {"error_tol": .005}), ([0, 1], {"error_tol": .05, "min_samp": 3}), ([1], {"error_tol": .02, "samp_step": 7}),
                     ([0], {"error_tol": .03, "est_hedge": 0}), ([0], {"error_tol": .03, "adapt_hedge": 0}), ([0, 1, 1], {"error_tol": .03, "adapt_hedge": 2})):
        tol, mn, st = Fraction(str(opt.get("error_tol", .01))), opt.get("min_samp", 10), opt.get("samp_step", 10)
        eh, ah = [Fraction(opt[k]) if k in opt else hd for k in ("est_hedge", "adapt_hedge")]
        N = mn
        while True:
            n = sum(pat[k % len(pat)] for k in range(N))
            p = (n + ah) / (N + 2 * ah)
            if p * (1 - p) / (N + 2 * ah + 1) < tol ** 2:
                break
            N += st
        drawn = [[0]]
        ale = ALEApproximateModel(make(q, [[pat]], 0, drawn), **opt)
        o = call(ale.likelihood, np.array([0, 1]), np.array([[1.]]), np.array([(1,)], dtype=[("e", int)]))
        case = {"options": opt, "pattern": pat}
        if chk.expect(o.exc == "", "defaults", case, o.exc):
            p = float((n + eh) / (N + 2 * eh))
            chk.expect(drawn == [[N]], "defaults.samples", case, "%s for %d" % (drawn, N))
            chk.expect(np.allclose(o.value[:, 0, 0], [1 - p, p], rtol=0, atol=1e-12), "defaults.value", case, o.value)
    sim = make(q, [[[0]]], 0, [[0]])
    for bad in (dict(error_tol=0), dict(error_tol=-1), dict(error_tol=1.5), dict(min_samp=0), dict(min_samp=-2), dict(samp_step=0), dict(samp_step=-1), dict(est_hedge=-.1), dict(adapt_hedge=-.1)):
        chk.expect(call(ALEApproximateModel, sim, **bad).exc == "ValueError", "rejected", bad)
    for good in (dict(error_tol=1), dict(min_samp=1), dict(samp_step=1), dict(est_hedge=0), dict(adapt_hedge=0)):
        chk.expect(call(ALEApproximateModel, sim, **good).exc == "", "accepted", good)
    chk.expect(call(ALEApproximateModel, object()).exc == "TypeError", "rejected", {"simulator": "object"})
    three = make(q, [[[0]]], 0, [[0]])
    three.n_outcomes = lambda ep: 3
    chk.expect(call(ALEApproximateModel, three).exc == "ValueError", "rejected", {"outcomes": 3})
    three = make(q, [[[0]]], 0, [[0]])
    three.__class__.is_n_outcomes_constant = False
    chk.expect(call(ALEApproximateModel, three).exc == "ValueError", "rejected", {"outcomes": "not constant"})


def real(chk, q, n):
    """Around a bundled model and inside an updater: samples are counted and posteriors are products of estimates."""
    np.random.seed(chk.seed)
    for r in range(n):
        inner = q.SimplePrecessionModel()
        ale = ALEApproximateModel(inner, error_tol=.2, min_samp=int(np.random.randint(1, 9)), samp_step=int(np.random.randint(1, 9)))
        mps, ep = np.random.rand(3, 1), np.random.rand(2) * 5
        ep = ep.astype(ale.expparams_dtype)
        o = call(ale.likelihood, np.array([0, 1]), mps, ep)
        if chk.expect(o.exc == "" and np.shape(o.value) == (2, 3, 2), "real", {}, o.exc + o.msg):
            chk.expect(np.allclose(o.value.sum(axis=0), 1) and o.value.min() >= 0, "real.normalised", {})
            N, rest = divmod(inner.sim_count, 6)
            hits = o.value[1] * (N + 2 * .509) - .509
            chk.expect(rest == 0 and np.allclose(hits, np.round(hits), atol=1e-8), "real.frequency", {"N": N}, hits)


def run(chk):
    q = qinfer
    inv = ["Counts", "Normal", "NotLonger", "LongEnough", "Tally"]
    sim = lambda depth, seed, n: (lambda: chk.emitted("Ale", cfg(dict(DEPTH=depth, SIM=True, MAXSAMP=140), invariants=inv + ["Emit"]), simulate=n, depth=260,
                                                      seed=chk.seed * seed, name="Ale/sim%d" % depth))
    res = parallel([lambda: chk.model("Ale", cfg(dict(DEPTH=chk.pick(1, 2), SIM=False, MAXSAMP=100), invariants=inv, properties=["Stops"]), workers=4, name="Ale/exhaustive"),
                    sim(2, 161, chk.pick(400, 6000)), sim(4, 163, chk.pick(400, 6000)), sim(1, 165, chk.pick(800, 12000))])
    seen = set()
    for r in res[1:]:
        for b in r:
            k = repr(b)
            if k not in seen:
                seen.add(k)
                with np.errstate(all="ignore"):
                    replay(chk, q, b, len(seen))
    defaults(chk, q)
    real(chk, q, chk.pick(40, 400))
    chk.sample({"c": b["c"], "ops": [s["op"] for s in b["steps"]]})
