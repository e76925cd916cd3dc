"""C19: composite priors (spec/Composite.tla, spec/CompTrace.tla) and simple ones (spec/Priors.tla)."""
from fractions import Fraction
import numpy as np
from lib.vlib import import_qinfer, parallel, cfg, call, rat

qinfer = import_qinfer()
from qinfer import distributions as D


def ratio(v):
    v = float(v)
    if not np.isfinite(v) or abs(v) > 1e5:
        return [999999, 1]
    f = Fraction(v).limit_denominator(4000)
    return [f.numerator, f.denominator] if abs(float(f) - v) < 1e-9 * max(1, abs(v)) else [999999, 1]


class World(object):
    """The objects of one tree; every call of sample is logged."""

    def __init__(self, tree, maxiters=None):
        self.tree, self.ser, self.ev, self.objs = tree, 0, [], {}
        self.default_limit = maxiters
        for i in range(len(tree)):
            self.objs[i + 1] = Proxy(self, i + 1)
        self.root = self.objs[len(tree)]

    def inner(self, i):
        nd = self.tree[i - 1]
        kids = [self.objs[k] for k in nd["kids"]]
        if nd["k"] == "leaf":
            return Leaf(self, nd)
        if nd["k"] == "prod":
            return D.ProductDistribution(*kids) if i % 2 else D.ProductDistribution(kids)
        if nd["k"] == "csum":
            return D.ConstrainedSumDistribution(kids[0], rat(nd["tot"])) if i % 2 or nd["tot"] != [1, 1] else D.ConstrainedSumDistribution(kids[0])
        if nd["k"] == "post":
            m = Validity(self, nd["rule"])
            return D.PostselectedDistribution(kids[0], m) if self.default_limit else D.PostselectedDistribution(kids[0], m, maxiters=nd["maxit"])
        w = np.array(nd["w"], float) / sum(nd["w"])
        if i % 3 == 0:
            w = w.tolist()
        ids = np.array([[k] for k in nd["kids"]])
        world = self

        class Made(D.Distribution):
            def __init__(s, *a, **k):
                s.of = world.objs[int((a[0] if a else k["node"][0]))]
                if a and k:
                    assert int(k["node"][0]) == int(a[0]), "arguments of different components"
            n_rvs = property(lambda s: s.of.n_rvs)

            def sample(s, n=1):
                return s.of.sample(n)
        if nd["form"] == "list":
            return D.MixtureDistribution(w, kids, shuffle=nd["shuf"])
        return D.MixtureDistribution(w, Made, None if nd["form"] == "kw" else ids, None if nd["form"] == "args" else {"node": ids}, shuffle=nd["shuf"])


class Validity(object):
    def __init__(self, world, rule):
        self.world, self.rule = world, rule

    def are_models_valid(self, rows):
        r = self.rule
        v = np.abs(np.asarray(rows)[:, r["col"] - 1])
        return {"all": lambda: np.ones(len(v), bool), "none": lambda: np.zeros(len(v), bool), "mod": lambda: v % r["m"] != r["r"],
                "only": lambda: v % r["m"] == r["r"], "from": lambda: v > r["m"]}[r["op"]]()


class Leaf(D.Distribution):
    def __init__(self, world, nd):
        self.world, self.nd = world, nd
    n_rvs = property(lambda s: s.nd["cols"])

    def sample(self, n=1):
        w, nd = self.world, self.nd
        out = np.zeros((n, nd["cols"]))
        for j in range(n):
            s = w.ser + j + 1
            g = nd["sign"] or (1 if s % 2 == 0 else -1)
            out[j] = [g * s, g * (2 * s + 1)][:nd["cols"]]
        w.ser += n
        return out


class Proxy(D.Distribution):
    def __init__(self, world, i):
        self.world, self.i = world, i
        self.real = world.inner(i)
    n_rvs = property(lambda s: s.real.n_rvs)

    def sample(self, n=1):
        ev, n = self.world.ev, int(n)
        if len(ev) > 5000:
            raise AssertionError("too many calls")
        ev.append({"e": "call", "i": self.i, "n": n, "rows": [], "x": ""})
        try:
            rows = self.real.sample(n)
        except Exception as ex:
            ev.append({"e": "raise", "i": self.i, "n": n, "rows": [], "x": type(ex).__name__})
            raise
        a = np.asarray(rows)
        ok = isinstance(rows, np.ndarray) and a.ndim == 2
        ev.append({"e": "ret", "i": self.i, "n": n, "x": "",
                   "rows": [[ratio(v) for v in r] for r in a] if ok else [[[999999, 1]]] * (n + 1)})
        return rows


def session(chk, b, seed, limit=None):
    o = call(World, b["tree"], limit)
    case = {"tree": [{k: nd[k] for k in ("k", "kids", "cols")} for nd in b["tree"]]}
    if not chk.expect(o.exc == "", "construct", case, o.exc + " " + o.msg):
        return None
    w = o.value
    for i, nd in enumerate(b["tree"]):
        chk.expect(w.objs[i + 1].n_rvs == nd["cols"], "n_rvs." + nd["k"], case, w.objs[i + 1].n_rvs)
    np.random.seed(seed)
    for n in b["ns"]:
        o = call(w.root.sample, n)
        if o.exc == "HANG":
            chk.violation("hang", case)
            return None
    return {"tree": b["tree"], "ev": w.ev}


# ---------------------------------------------------------------- simple priors

def build(q, c):
    """Ways of making the prior of a case."""
    p, f = c["p"], c["p"]["fam"]
    a, b, n = rat(p["a"]), rat(p["b"]), p["n"]
    both = {"beta": D.BetaDistribution, "gamma": D.GammaDistribution}
    mv = dict(mean=rat(c["mean"][0]), var=rat(c["var"][0])) if c["back"] else None
    if f in both:
        return [both[f](a, b), both[f](alpha=a, beta=b), both[f](**mv)]
    if f == "betabinom":
        return [D.BetaBinomialDistribution(n, a, b)] + ([D.BetaBinomialDistribution(n, **mv)] if mv else [])
    if f == "uniform":
        r = [[a, b], [a + 1, b + 1]]
        return [D.UniformDistribution(r), D.UniformDistribution(np.array(r)),
                D.ProductDistribution(D.UniformDistribution(r[0]), D.UniformDistribution(np.array(r[1])))]
    return {"normal": lambda: [D.NormalDistribution(a, b)], "trunc": lambda: [D.NormalDistribution(0.25, b, trunc=(-a, b))],
            "discrete": lambda: [D.DiscreteUniformDistribution(n)], "const": lambda: [D.ConstantDistribution([a, b]), D.ConstantDistribution(np.array([a, b]))],
            "dirichlet": lambda: [D.DirichletDistribution([a, b, 1.]), D.DirichletDistribution(np.array([a, b, 1.]))],
            "mvn": lambda: [D.MultivariateNormalDistribution(np.array([a, -b]), np.array([[a + b, b], [b, b + 1]])),
                            D.MultivariateNormalDistribution([[a], [-b]], np.array([[a + b, b], [b, b + 1]]))],
            "slanted": lambda: [D.SlantedNormalDistribution([a, a + 1], weight=b)], "mvuniform": lambda: [D.MVUniformDistribution(n)]}[f]()


def sixsigma(chk, s, mean, var, clause, case):
    n = len(s)
    chk.expect(abs(np.mean(s) - mean) <= 6 * np.sqrt(var / n) + 1e-9, clause + ".mean", case, "%s for %s" % (np.mean(s), mean))
    d = (s - mean) ** 2
    # the fourth moment of heavy tails is underestimated by the sample: allow for it
    chk.expect(abs(np.mean(d) - var) <= 8 * np.std(d) / np.sqrt(n) + 0.03 * var + 1e-9, clause + ".var", case, "%s for %s" % (np.mean(d), var))


def simple(chk, q, c):
    p = c["p"]
    case = dict(p)
    o = call(build, q, c)
    if not chk.expect(o.exc == "", "build." + p["fam"], case, o.exc + o.msg):
        return
    for d in o.value:
        chk.expect(d.n_rvs == c["cols"], "n_rvs." + p["fam"], case, d.n_rvs)
        big = call(d.sample, 4000)
        outs = [call(d.sample, n) for n in (0, 1, 2, 5)] + [call(d.sample), big]
        for n, r in zip((0, 1, 2, 5, 1, 4000), outs):
            ok = r.exc == "" and isinstance(r.value, np.ndarray) and r.value.shape == (n, c["cols"])
            if not chk.expect(ok, "shape." + p["fam"], dict(case, n=n), r.exc + " " + str(getattr(r.value, "shape", None))):
                continue
            v, kept = r.value, np.array(r.value)
            chk.expect(np.all(np.isfinite(v)) and (not c["int"] or np.all(v == np.round(v))), "values." + p["fam"], dict(case, n=n), v[:3])
            # the array belongs to the caller
            o = call(v.__setitem__, Ellipsis, 77)
            again = call(d.sample, 3)
            chk.expect(o.exc == "" and again.exc == "" and not np.any(again.value == 77), "own." + p["fam"], case, o.exc + again.exc)
            v = r.value = kept
            for j in range(c["cols"]):
                # the second column of the uniform case is shifted by one
                lo, hi = (rat(p["a"]) + j, rat(p["b"]) + j) if p["fam"] == "uniform" else (rat(c["lo"]) if c["lo"][1] else -np.inf, rat(c["hi"]) if c["hi"][1] else np.inf)
                chk.expect(np.all(v[:, j] >= lo - 1e-9) and np.all(v[:, j] <= hi + 1e-9), "support." + p["fam"], dict(case, n=n, column=j), v[:3])
            if p["fam"] in ("dirichlet", "mvuniform"):
                chk.expect(np.allclose(v.sum(axis=1), 1), "simplex", dict(case, n=n))
        if big.exc == "" and np.shape(big.value) == (4000, c["cols"]):
            for j, (mu, var) in enumerate(zip(c["mean"], c["var"])):
                sixsigma(chk, np.asarray(big.value)[:, j], rat(mu), rat(var), "moments." + p["fam"], case)
            if p["fam"] == "mvn":
                # a sum has the variance the covariances give it
                a, b = rat(p["a"]), rat(p["b"])
                sixsigma(chk, big.value.sum(axis=1), a - b, a + b + 2 * b + b + 1, "moments.mvn.cov", case)
            if p["fam"] == "uniform":
                v = big.value
                sixsigma(chk, v[:, 0] + v[:, 1], rat(c["mean"][0]) + rat(c["mean"][1]), rat(c["var"][0]) + rat(c["var"][1]), "independent." + p["fam"], case)
            if p["fam"] not in ("const",) and not c["int"]:
                chk.expect(len(np.unique(big.value[:, 0])) > 3000, "repeated." + p["fam"], case)
        if c["back"]:
            for name, want in (("alpha", p["a"]), ("beta", p["b"]), ("mean", c["mean"][0]), ("var", c["var"][0])):
                chk.expect(abs(getattr(d, name) - rat(want)) <= 1e-8 * max(1, abs(rat(want))), "param." + p["fam"] + "." + name, case, getattr(d, name))


def others(chk, q, N):
    """States on the Bloch sphere or inside it, tabulated densities, and the laws of mixtures."""
    for d, pure in ((D.HaarUniform(), True), (D.GinibreUniform(2, 2), False), (D.GinibreUniform(2, 1), True), (D.GinibreUniform(2, 4), False), (D.HilbertSchmidtUniform(2), False)):
        case = {"dist": type(d).__name__}
        for n in (0, 1, 3, 500):
            r = call(d.sample, n)
            if chk.expect(r.exc == "" and np.shape(r.value) == (n, 3), "shape.bloch", dict(case, n=n), r.exc):
                rad = np.linalg.norm(r.value, axis=1)
                chk.expect(np.all(rad <= 1 + 1e-9) and (not pure or np.allclose(rad, 1)) and (pure or n < 500 or np.all(rad < 1)), "bloch", dict(case, n=n))
        if r.exc == "":
            for j in range(3):
                chk.expect(abs(np.mean(r.value[:, j])) <= 6 / np.sqrt(500), "bloch.mean", case)
    d = call(D.HilbertSchmidtUniform, 4)
    if chk.expect(d.exc == "", "build.hs4", {}, d.exc + d.msg):
        d = d.value
        r = call(d.sample, 20)
        P = [np.eye(2), np.diag([1, -1]), np.array([[0, -1j], [1j, 0]]), np.array([[0, 1], [1, 0]])]
        P2 = [np.kron(a, b) for a in P for b in P]
        if chk.expect(r.exc == "" and np.shape(r.value) == (20, 15), "shape.hs4", {}, r.exc):
            for x in r.value:
                rho = sum(c * p for c, p in zip(np.concatenate([[1.], x]), P2)) / 4
                chk.expect(np.linalg.eigvalsh(rho).min() > -1e-9, "hs4.physical", {})
    d = D.InterpolatedUnivariateDistribution(lambda x: np.exp(-(x - 1) ** 2 / 8), compactification_scale=3)
    for n in (0, 1, 4000):
        r = call(d.sample, n)
        chk.expect(r.exc == "" and np.shape(r.value) == (n, 1) and d.n_rvs == 1, "shape.interp", {"n": n}, r.exc)
    if r.exc == "" and np.size(r.value):
        sixsigma(chk, r.value[:, 0], 1, 4, "moments.interp", {})
    # numbers of draws from each component, and where they end up
    np.random.seed(chk.seed)
    C = [D.ConstantDistribution([float(k)]) for k in range(4)]
    for w in ([.5, .5, 0, 0], [.1, .2, .3, .4], [0, .75, 0, .25]):
        for form in (0, 1):
            m = D.MixtureDistribution(w, C) if form == 0 else D.MixtureDistribution(np.array(w), D.ConstantDistribution, dist_args=np.arange(4.).reshape(4, 1, 1))
            case = {"weights": w, "form": form}
            s = np.array([m.sample(6)[:, 0] for _ in range(N)])
            cnt = np.array([(s == k).sum(axis=1) for k in range(4)])
            for k in range(4):
                sixsigma(chk, cnt[k].astype(float), 6 * w[k], 6 * w[k] * (1 - w[k]), "mixture.counts", case)
                for pos in (0, 5):
                    sixsigma(chk, (s[:, pos] == k).astype(float), w[k], w[k] * (1 - w[k]), "mixture.order", case)
                for i, j in ((0, 1), (2, 5), (0, 5)):
                    both = w[k] ** 2
                    sixsigma(chk, ((s[:, i] == k) & (s[:, j] == k)).astype(float), both, both * (1 - both), "mixture.independent", case)


def leaf(cols, sign):
    return {"k": "leaf", "kids": [], "cols": cols, "sign": sign, "w": [], "shuf": False, "form": "list", "maxit": 0,
            "rule": {"op": "all", "m": 1, "r": 0, "col": 1}, "tot": [1, 1]}


def run(chk):
    q = qinfer
    inv = ["Shape", "NoReuse", "PostOk", "Limit", "Sums", "Positive"]
    sim = lambda nodes, maxn, seed, n: (lambda: chk.emitted("Composite", cfg(dict(SIM=True, NODES=nodes, MAXN=maxn), invariants=inv + ["Emit"]),
                                        simulate=n, depth=300, seed=chk.seed * seed, name="Composite/sim%d" % nodes))
    pinv = ["RoundTrip", "Positive", "Inside", "Emit"]
    res = parallel([lambda: chk.model("Composite", cfg(dict(SIM=False, NODES=5, MAXN=3), invariants=inv, properties=["Answered"]), workers=2, name="Composite/exhaustive"),
                    lambda: chk.emitted("Priors", cfg(dict(WIDE=not chk.quick), invariants=pinv)),
                    sim(5, 5, 151, chk.pick(1500, 20000)), sim(8, 6, 153, chk.pick(1500, 20000)), sim(11, 8, 155, chk.pick(1000, 15000))])
    trees, seen = [], set()
    for r in res[2:]:
        for b in r:
            if repr(b) not in seen:
                seen.add(repr(b))
                trees.append(b)
    traces = []
    for j, b in enumerate(trees):
        t = session(chk, b, chk.seed * 1000003 + j)
        if t is not None:
            traces.append(t)
    # the default iteration limit
    for n, need, cols in ((1, 99, 1), (1, 100, 2), (3, 296, 1), (3, 297, 1), (3, 298, 1), (3, 299, 1), (3, 300, 1), (2, 195, 2), (2, 198, 1), (2, 200, 1)):
        post = dict(leaf(cols, 1), k="post", kids=[1], maxit=100, rule={"op": "from", "m": need, "r": 0, "col": 1})
        t = session(chk, {"tree": [leaf(cols, 1), post], "ns": [n, n]}, 5, limit=100)
        if t is not None:
            traces.append(t)
    chk.trace_check("CompTrace", traces, {"SIM": False, "NODES": 5, "MAXN": 3}, chunk=max(1, len(traces) // 8 + 1),
                    describe=lambda tr, l: {"tree": [(nd["k"], nd["kids"], nd["w"], nd["form"], nd["shuf"], nd["maxit"], nd["rule"]["op"], nd["tot"]) for nd in tr["tree"]],
                                            "event": {k: v for k, v in tr["ev"][max(0, l - 1)].items() if k != "rows"}, "step": l})
    np.random.seed(chk.seed * 7 + 1)
    with np.errstate(all="ignore"):
        for c in res[1]:
            simple(chk, q, c)
        others(chk, q, chk.pick(1500, 10000))
    chk.extra["trees"] = len(trees)
    if trees:
        chk.sample({"tree": [(nd["k"], nd["kids"]) for nd in trees[0]["tree"]], "events": len(traces[0]["ev"])})
