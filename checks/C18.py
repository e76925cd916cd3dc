"""C18: experiment heuristics and the experiment designer (spec/Heuristics.tla)."""
import numpy as np
from lib.vlib import import_qinfer, parallel, cfg, call, rat

qinfer = import_qinfer()
from qinfer.expdesign import ExperimentDesigner, EnsembleHeuristic, ExpSparseHeuristic, Heuristic, OptimizationAlgorithms, PGH

RISK = np.array([0., 1., 3.])
DT = [("t", "float"), ("v", "float", 2), ("k", "int")]


class World(object):
    """The updater all heuristics hang on, with scripted draws and a quadratic risk."""

    def __init__(self, c, x):
        self.c, self.x = c, x
        self.data_record = []
        self.stream, self.used = [], 0
        w = self

        class Model(object):
            expparams_dtype = DT
            n_modelparams = c["dim"]

            def experiment_cost(self, ep):
                return c["c0"] + c["c1"] * ep["t"]

            def distance(self, a, b):
                return np.sqrt(np.sum((np.asarray(a) - np.asarray(b)) ** 2, axis=-1))
        self.model = Model()

    def bayes_risk(self, ep):
        assert ep.shape == (1,)
        return (ep["t"] - self.c["t0"]) ** 2 + (ep["v"][:, 0] - 1) ** 2 + (ep["v"][:, 1] + 2) ** 2 + RISK[ep["k"]]

    def sample(self, n=1):
        idx = self.stream[self.used:self.used + n]
        self.used += n
        if len(idx) < n:
            raise AssertionError("more draws than the iteration limit allows")
        return np.array([self.x[i - 1] for i in idx], float)

    def est_mean(self): return np.array([7.])
    def est_covariance_mtx(self): return np.array([[11.]])


def ep_of(g):
    e = np.zeros(1, dtype=DT)
    e["t"], e["v"], e["k"] = rat(g["t"]), [rat(v) for v in g["v"]], g["k"]
    return e


def same(e, g, tol):
    return isinstance(e, np.ndarray) and e.shape == (1,) and e.dtype == np.dtype(DT) and int(e["k"][0]) == g["k"] and \
        abs(e["t"][0] - rat(g["t"])) <= tol and np.allclose(e["v"][0], [rat(v) for v in g["v"]], rtol=0, atol=tol)


class Ticket(Heuristic):
    def __init__(self, i): self.i = i
    def __call__(self, *a): return (self.i, a)


def replay(chk, q, b, n):
    c = b["c"]
    w = World(c, b["x"])
    A, B = rat(c["scale"]), rat(c["base"])
    if c["form"] == "scalar":
        class U(object):
            model = type("M", (), {"expparams_dtype": "float"})()
            data_record = w.data_record
        sparse = ExpSparseHeuristic(U(), scale=A, base=B)
    elif c["form"] == "field":
        U = type("U", (), {"model": type("M", (), {"expparams_dtype": [("t", "float")]})(), "data_record": w.data_record})
        sparse = ExpSparseHeuristic(U(), scale=A, base=B, t_field="t")
    else:
        sparse = ExpSparseHeuristic(w, scale=A, base=B, t_field="t", other_fields={"k": 2, "v": np.array([4., 5.])})

    PD = [("x_", "float", c["dim"]), ("tau", "float"), ("g", "int")]
    inv, tf = [(lambda x: x, lambda t: t), (lambda x: 2 * x + 1, lambda t: 3 * t)][n % 2]
    pw = type("PW", (), {"model": type("PM", (type(w.model),), {"expparams_dtype": PD})(), "sample": lambda s, n=1: w.sample(n)})()
    pk = {} if n % 2 == 0 else {"inv_func": inv, "t_func": tf}
    pgh = PGH(pw, inv_field="x_", t_field="tau", maxiters=c["maxiters"], other_fields={"g": 9}, **pk)

    last, past = None, []
    algo = c["algo"] if not c["algo"].startswith("keep") else "NULL"
    des = ExperimentDesigner(w, getattr(OptimizationAlgorithms, algo)) if algo != "CG" or n % 2 else ExperimentDesigner(w)
    for i, s in enumerate(b["steps"]):
        case = {"c": c, "x": b["x"], "steps": b["steps"][max(0, i - 9):i + 1], "n": n}
        E = lambda cond, clause, detail="": chk.expect(cond, clause, case, detail)
        if s["op"] == "update":
            w.data_record.extend([0] * s["n"])
        elif s["op"] == "sparse":
            o = call(sparse)
            if not E(o.exc == "", "sparse.exception", o.exc + o.msg):
                continue
            e, t = o.value, rat(s["t"])
            ok = isinstance(e, np.ndarray) and e.shape == (1,)
            if c["form"] == "scalar":
                E(ok and e.dtype == float and abs(e[0] - t) <= 1e-12 * abs(t), "sparse", "%s, expected %s" % (e, t))
            else:
                E(ok and abs(e["t"][0] - t) <= 1e-12 * abs(t), "sparse", "%s, expected %s" % (e, t))
                if c["form"] == "others":
                    E(e.dtype == np.dtype(DT) and e["k"][0] == 2 and e["v"][0].tolist() == [4., 5.], "sparse.other_fields", str(e))
        elif s["op"] == "pgh":
            w.stream, w.used = s["draws"], 0
            o = call(pgh)
            E(w.used == s["used"], "pgh.draws", "%d, expected %d" % (w.used, s["used"]))
            if not s["ok"]:
                E(o.exc == "RuntimeError", "pgh.gives_up", o.exc + o.msg)
            elif E(o.exc == "", "pgh.exception", o.exc + o.msg):
                e = o.value
                if E(isinstance(e, np.ndarray) and e.shape == (1,) and e.dtype == np.dtype(PD), "pgh.dtype", str(e)):
                    xs = [inv(np.array(v, float)) for v in (s["x"], s["xp"])]
                    E(any(np.array_equal(np.ravel(e["x_"]), v) for v in xs), "pgh.inversion", "%s, drawn %s and %s" % (e, s["x"], s["xp"]))
                    E(abs(e["tau"][0] - tf(1 / s["d2"] ** .5)) <= 1e-12 * e["tau"][0], "pgh.time", "%s, squared distance %s" % (e, s["d2"]))
                    E(e["g"][0] == 9, "pgh.other_fields", str(e))
        elif s["op"] == "ens":
            pr = np.array(s["pr"], float) / sum(s["pr"])
            h = EnsembleHeuristic([(Ticket(j + 1), p) for j, p in enumerate(pr)])
            args = ((), (n,), (n, "b", None))[n % 3]
            o = call(h, *args)
            E(o.exc == "" and o.value[1] == args and o.value[0] in s["support"], "ensemble", "%s %s of %s" % (o.exc + o.msg, o.value, s["support"]))
            if n % 40 == 0:
                N = 2000
                got = np.array([h()[0] for _ in range(N)])
                for j, p in enumerate(pr):
                    k = int(np.sum(got == j + 1))
                    E(abs(k - N * p) <= 6 * np.sqrt(N * p * (1 - p)) + 1e-9, "ensemble.frequencies", "%d of %d, probability %g" % (k, N, p))
        elif s["op"] == "new_exp":
            call(des.new_exp)
        elif s["op"] == "scribble":
            if last is not None:
                last["t"], last["v"], last["k"] = 99, -99, 0
                past = [p for p in past if p[0] is not last]
        elif s["op"] == "design":
            g = ep_of(s["guess"])
            keep = g.copy()
            got = []

            def fn(idx_exp=None, mean=None, cov=None):
                got.append((idx_exp, mean, cov))
                return g if s["form"] == "alias" else g.copy()
            kw = {"store_guess": s["store"], "cost_mult": s["mult"]}
            if s["ks"] != 1 or n % 2:
                kw["cost_scale_k"] = s["ks"]
            o = call(des.design_expparams_field, g if s["form"] == "array" else fn, s["field"], **kw)
            last = None
            E(np.array_equal(g, keep), "guess_modified", "%s, given %s" % (g, keep))
            for a, v in past:
                E(np.array_equal(a, v), "earlier_result_modified", "%s, returned as %s" % (a, v))
            if not E(o.exc == "", "design.exception", o.exc + o.msg + o.tb):
                continue
            if s["form"] != "array":
                E(len(got) == 1 and got[0][0] == s["nd"] and got[0][1] is not None and got[0][1].tolist() == [7.] and got[0][2].tolist() == [[11.]], "guess_arguments", str(got))
            e = o.value
            E(any(same(e, x, 1e-2 if algo != "NULL" else 0) for x in s["out"]), "design.best" if s["store"] else "design.optimum", "%s, expected one of %s" % (e, s["out"]))
            f = [k for k in ("t", "v", "k") if k != s["field"]]
            if not s["store"]:
                E(isinstance(e, np.ndarray) and all(np.array_equal(e[k], keep[k]) for k in f), "design.other_fields", "%s, guessed %s" % (e, keep))
            last = e
            past.append((e, np.copy(e)))
    chk.traces += 1


def real(chk, q):
    """The particle guess heuristic on a real updater: only particles that have weight are ever guessed."""
    rs = np.random.RandomState(chk.seed * 7 + 3)
    for d, model, fields in [(1, q.SimpleInversionModel(), ("w_", "t")), (1, q.SimpleInversionModel(), ("w_", "t"))]:
        for rep in range(chk.pick(10, 60)):
            n = rs.randint(2, 6)
            u = q.SMCUpdater(model, n, q.UniformDistribution([0, 1]))
            locs = rs.choice([0.2, 0.5, 0.75, 1.5], size=(n, 1))
            wt = rs.randint(0, 3, size=n).astype(float)
            if wt.sum() == 0:
                wt[:] = 1
            u.particle_locations, u.particle_weights = locs, wt / wt.sum()
            pos = set(locs[wt > 0, 0])
            np.random.seed(rep)
            o = call(PGH(u, inv_field="w_", t_field="t", maxiters=30))
            case = {"locations": locs.tolist(), "weights": wt.tolist()}
            if len(pos) == 1:
                chk.expect(o.exc == "RuntimeError", "pgh.one_place", case, o.exc + str(o.value))
            elif chk.expect(o.exc in ("", "RuntimeError"), "pgh.real", case, o.exc + o.msg) and o.exc == "":
                e = o.value
                x, t = float(e["w_"][0]), float(e["t"][0])
                chk.expect(e.shape == (1,) and e.dtype == np.dtype(model.expparams_dtype) and x in pos
                           and any(abs(t - 1 / abs(x - y)) < 1e-9 for y in pos if y != x), "pgh.real", case, str(e))


def limits(chk):
    """Optimisers that are stopped early return the best design they have met, within the calls they were allowed."""
    for n in range(chk.pick(24, 200)):
        rs = np.random.RandomState(chk.seed * 97 + n)
        c = {"dim": 1, "c0": 1., "c1": float(rs.choice([0., .5])), "t0": float(rs.choice([-3., 2., 8.]))}
        w = World(c, [])
        seen = []
        risk = w.bayes_risk

        def counted(ep, risk=risk, seen=seen):
            r = risk(ep)
            seen.append(float(r[0]))
            return r
        w.bayes_risk = counted
        des = ExperimentDesigner(w, OptimizationAlgorithms.NELDER_MEAD)
        g = ep_of({"t": [5, 1], "v": [[2, 1], [7, 1]], "k": int(rs.randint(3))})
        field = ["t", "v"][n % 2]
        for kw in ({"maxfun": 4 + n % 5}, {"maxiter": 1 + n % 4}, {"maxfun": 9, "maxiter": 50}, {}):
            for store in (False, True):
                des.new_exp()
                del seen[:]
                o = call(des.design_expparams_field, g, field, store_guess=store, cost_scale_k=0., **kw)
                case = {"c": c, "field": field, "options": kw, "store_guess": store}
                if not chk.expect(o.exc == "", "limits.exception", case, o.exc + o.msg):
                    continue
                e, calls, best = o.value, len(seen), min(seen)
                # (stopped in the middle of an iteration, SciPy's simplex forgets that iteration's evaluations)
                if "maxfun" in kw:
                    chk.expect(float(risk(e)[0]) <= float(risk(g)[0]) and any(abs(float(risk(e)[0]) - v) <= 1e-9 * (1 + abs(v)) for v in seen),
                               "limits.best_met", case, "%s costs %s, met %s" % (e, risk(e), seen))
                else:
                    chk.expect(e.shape == (1,) and abs(float(risk(e)[0]) - best) <= 1e-9 * (1 + abs(best)), "limits.best_met", case, "%s costs %s, met %s" % (e, risk(e), best))
                if "maxfun" in kw:
                    chk.expect(calls <= kw["maxfun"] + 4, "limits.maxfun", case, "%d calls" % calls)
                elif "maxiter" in kw:
                    chk.expect(calls <= 4 + 6 * kw["maxiter"], "limits.maxiter", case, "%d calls" % calls)
                else:
                    chk.expect(calls > 20 and best <= float(risk(g)[0]), "limits.none", case, "%d calls" % calls)


def thin(bs, n):
    return bs[::max(1, len(bs) // n)]


def run(chk):
    q = qinfer
    inv = ["BestIsSeen", "BestIsLeast", "Forgotten", "OthersKept", "SparseGrows", "DistinctOrFail"]
    sim = lambda depth, seed, n: (lambda: chk.emitted("Heuristics", cfg(dict(DEPTH=depth, SIM=True), invariants=inv + ["Emit"]), simulate=n, depth=depth + 2,
                                                      seed=chk.seed * seed, name="Heuristics/sim%d" % depth))
    res = parallel([lambda: chk.model("Heuristics", cfg(dict(DEPTH=2, SIM=False), invariants=inv, properties=["NeverWorse"]), workers=4, name="Heuristics/exhaustive"),
                    sim(8, 141, chk.pick(700, 20000)), sim(16, 143, chk.pick(200, 8000))])
    seen = set()
    for b in thin(res[1], chk.pick(2500, 30000)) + thin(res[2], chk.pick(700, 10000)):
        k = repr(b)
        if k not in seen:
            seen.add(k)
            with np.errstate(all="ignore"):
                replay(chk, q, b, len(seen))
    real(chk, q)
    limits(chk)
    chk.sample({"c": b["c"], "ops": [s["op"] for s in b["steps"]]})
