"""C11: simulated data (spec/Outcomes.tla for table models and decorators, spec/Models.tla for the bundled models)."""
import math
from contextlib import contextmanager
import numpy as np
from lib.vlib import import_qinfer, parallel, cfg, call
from checks import models

KINDS = ["const", "shift", "struct", "vary", "varyc", "binomial", "multinomial", "poison", "mle", "walk", "grw", "hyper"]


def table(q, w, kind, shift, scalar):
    """A model whose parameter vector and experiment are indices into the table w['t'][e][x]."""
    t, ks = w["t"], w["ks"]

    class Table(q.FiniteOutcomeModel):
        n_modelparams = 1
        modelparam_names = ["i"]
        expparams_dtype = "int" if scalar else [("e", "int")]

        @property
        def is_n_outcomes_constant(self):
            return kind not in ("vary", "varyc")

        def n_outcomes(self, e):
            if self.is_n_outcomes_constant:
                return ks[0]
            return np.array([ks[i - 1] for i in self.idx(e)])

        def idx(self, e):
            e = np.asarray(e)
            return [int(i) for i in np.ravel(e if e.dtype.names is None else e["e"])]

        def domain(self, e):
            if kind in ("shift", "struct"):
                d = q.IntegerDomain(min=shift, max=shift + ks[0] - 1) if kind == "shift" else q.MultinomialDomain(n_meas=2, n_elements=2)
                return d if e is None else [d] * len(e)
            return super(Table, self).domain(e)

        def are_models_valid(self, m):
            return np.ones(len(m), bool)

        def likelihood(self, o, m, e):
            super(Table, self).likelihood(o, m, e)
            o = np.atleast_1d(np.asarray(o))
            if kind == "struct":
                col = [int(v["k"][1]) for v in o]
            else:
                col = [int(v) - (shift if kind == "shift" else 0) for v in o]
            return np.array([[[t[k - 1][int(x) - 1][c] / 4. if 0 <= c < len(t[k - 1][int(x) - 1]) else 0. for k in self.idx(e)]
                              for x in m[:, 0]] for c in col]).reshape(len(col), len(m), len(self.idx(e)))
    return Table()


MU, SIG = np.array([-50., 70.]), np.array([2., 3.])


class Sys:
    def __init__(self, q, b, v):
        self.kind, self.w = b["kind"], b["w"]
        self.scalar = self.kind in ("binomial", "multinomial", "const") and v % 2 == 1
        self.base = table(q, self.w, self.kind, b["shift"], self.scalar)
        if self.kind == "multinomial":
            self.base._domain = q.IntegerDomain(min=0, max=self.w["ks"][0] - 1)
        self.m = {"binomial": lambda: q.BinomialModel(self.base), "multinomial": lambda: q.MultinomialModel(self.base),
                  "poison": lambda: q.PoisonedModel(self.base, tol=.05), "mle": lambda: q.MLEModel(self.base, 2),
                  "walk": lambda: q.RandomWalkModel(self.base, q.NormalDistribution(0, 1)),
                  "grw": lambda: q.GaussianRandomWalkModel(self.base),
                  "hyper": lambda: q.GaussianHyperparameterizedModel(self.base)}.get(self.kind, lambda: self.base)()

    def xs(self, xs):
        a = np.array(xs, float)[:, None]
        if self.kind == "hyper":
            return np.concatenate([a, np.tile(np.r_[MU, SIG ** 2], (len(xs), 1))], axis=1)
        if self.kind == "grw":
            return np.concatenate([a, np.full((len(xs), 1), .5)], axis=1)
        return a

    def es(self, es):
        if self.kind in ("binomial", "multinomial"):
            a = np.zeros(len(es), dtype=self.m.expparams_dtype)
            a["x" if self.scalar else "e"] = es
            a["n_meas"] = [self.w["ns"][e - 1] for e in es]
            return a
        return np.array(es, dtype=int) if self.scalar else np.array([(e,) for e in es], dtype=self.m.expparams_dtype)

    def key(self, o):
        """The simulated datum as the specification writes it."""
        if self.kind == "hyper":
            for i in (0, 1):
                if abs(o - MU[i]) < 8 * SIG[i]:
                    return i
            return "far from both means: %r" % o
        if self.kind in ("multinomial", "struct"):
            return tuple(int(t) for t in np.ravel(o["k"]))
        return int(o) if float(o) == int(o) else float(o)


@contextmanager
def extreme(mode):
    """Uniform random numbers at the ends of [0,1)."""
    if mode is None:
        yield
        return
    v = 0. if mode == "zero" else 1 - 2. ** -53
    R = np.random
    old = {n: getattr(R, n) for n in ("random", "random_sample", "ranf", "sample", "rand")}
    try:
        for n in old:
            setattr(R, n, (lambda *s: np.full(s, v) if s else v) if n == "rand" else (lambda size=None: v if size is None else np.full(size, v)))
        yield
    finally:
        for n, f in old.items():
            setattr(R, n, f)


def freq(E, N, p, c, c2, what):
    E(abs(c - N * p) <= 6 * math.sqrt(N * p * (1 - p)) + 1e-6, "simulate.frequency", "%s: %d of %d, p=%g" % (what, c, N, p))
    var = (N - 1) * p * p * (1 - p) * (1 + 3 * p) + 1
    E(abs(c2 - (N - 1) * p * p) <= 6 * math.sqrt(var), "simulate.independence", "%s: %d pairs of %d, p=%g" % (what, c2, N, p))


def replay(chk, q, b, v, N):
    S = Sys(q, b, v)
    m = S.m
    base = m.sim_count
    for i, st in enumerate(b["steps"]):
        case = {"kind": b["kind"], "table": b["w"], "step": i, "xs": st["xs"], "es": st["es"], "repeat": st["repeat"]}
        E = lambda cond, clause, detail="": chk.expect(cond, clause, case, detail)
        xs, es, rep = S.xs(st["xs"]), S.es(st["es"]), st["repeat"]
        x0, e0 = xs.copy(), es.copy()
        np.random.seed((chk.seed * 7919 + v * 31 + i) % 2 ** 31)
        mode = [None, None, "zero", "top"][(v + i) % 4]
        with extreme(mode):
            o = call(m.simulate_experiment, xs, es, **({} if rep == 1 and (v + i) % 2 else {"repeat": rep}))
        E(np.array_equal(xs, x0) and np.array_equal(es, e0), "inputs_modified")
        if not E(o.exc == "", "simulate.exception", o.exc + o.msg + o.tb):
            continue
        nx, ne = len(xs), len(es)
        E(m.sim_count - base == st["sims"], "sim_count", "%d, expected %d" % (m.sim_count - base, st["sims"]))
        base = m.sim_count - st["sims"]
        if rep == nx == ne == 1:
            if not E(np.ndim(o.value) == 0, "simulate.scalar", str(np.shape(o.value))):
                continue
            out = np.array(o.value).reshape(1, 1, 1)
        else:
            out = o.value
            if not E(np.shape(out) == (rep, nx, ne), "simulate.shape", str(np.shape(out))):
                continue
        law = [[{(tuple(a) if isinstance(a, list) else a): p[0] / p[1] for a, p in c} for c in row] for row in st["law"]]
        for j in range(nx):
            for k in range(ne):
                bad = [S.key(t) for t in out[:, j, k] if S.key(t) not in law[j][k]]
                E(not bad, "simulate.support", "%s not among %s" % (bad[:3], sorted(law[j][k])))
        if b["kind"] not in ("hyper",):
            dom = m.domain(es) if b["kind"] not in ("const", "shift", "struct") or v % 2 else [m.domain(None)] * ne
            E(all(dom[k].in_domain(np.ascontiguousarray(out[:, :, k])) for k in range(ne)), "simulate.domain")
            E(all(out.dtype == d.dtype or out.dtype.kind in "iu" and np.dtype(d.dtype).kind in "iu" for d in dom), "simulate.dtype", str(out.dtype))
        if (v + i) % 5 == 0:
            o = call(m.simulate_experiment, xs, es, repeat=N)
            base += N * nx * ne
            if not E(o.exc == "" and np.shape(o.value) == (N, nx, ne), "simulate.shape", o.exc + o.msg):
                continue
            for j in range(nx):
                for k in range(ne):
                    ks = [S.key(t) for t in o.value[:, j, k]]
                    for t, p in law[j][k].items():
                        hit = np.array([a == t for a in ks])
                        freq(E, N, p, hit.sum(), (hit[1:] & hit[:-1]).sum(), str(t))
                    E(set(ks) <= set(law[j][k]), "simulate.support", str(set(ks)))
            if b["kind"] == "hyper":
                ks = np.vectorize(S.key)(o.value)
                z = (o.value - MU[ks]) / SIG[ks]
                E(len(np.unique(o.value)) > .99 * o.value.size, "simulate.independence", "readout noise repeated")
                E(abs(z.mean()) < 6 / math.sqrt(z.size) and abs((z ** 2).mean() - 1) < 6 * math.sqrt(2. / z.size), "simulate.frequency",
                  "readout noise mean %g, mean square %g" % (z.mean(), (z ** 2).mean()))
                for a, c in ((z[1:], z[:-1]), (z[:, 1:], z[:, :-1]), (z[..., 1:], z[..., :-1])):
                    if a.size:
                        E(abs((a * c).mean()) < 6 / math.sqrt(a.size), "simulate.independence", "readout noise correlated")
    chk.traces += 1


def run(chk):
    q = import_qinfer()
    n = chk.pick(40, 700)
    res = parallel([lambda i=i, k=k: chk.emitted("Outcomes", cfg(dict(KIND=k, DEPTH=4), invariants=["Lawful", "MeanCount", "Emit"]),
                    simulate=n, depth=6, seed=chk.seed * 71 + i, name="Outcomes/" + k) for i, k in enumerate(KINDS)])
    for bs in res:
        with np.errstate(all="ignore"):
            for v, b in enumerate(bs):
                replay(chk, q, b, v, chk.pick(800, 2000))
        if bs:
            chk.sample({"kind": bs[0]["kind"], "world": bs[0]["w"], "calls": [{k: s[k] for k in ("xs", "es", "repeat")} for s in bs[0]["steps"]]})
    models.run_family(chk, q, {"sim"}, chk.pick(10, 150), 3, chk.seed)
    chk.assumptions.append("frequencies and lag-1 pair counts of %d repetitions within six standard deviations" % chk.pick(800, 2000))
