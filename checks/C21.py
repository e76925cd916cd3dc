"""C21: the one-call estimators (spec/SimpleEst.tla)."""
import io, os, shutil, tempfile
import numpy as np
from scipy.special import comb
from lib.vlib import import_qinfer, parallel, cfg, call, rat

qinfer = import_qinfer()
DTYPE = {"counts": "uint", "t": float, "m": "uint", "n_shots": "uint", "reference": "uint"}


def source(b, folder, n):
    """The data of a case in the form it is given in."""
    c, rows = b["q"], [[rat(v) for v in r] for r in b["table"]]
    f, names = c["form"], c["order"]
    if f in ("list", "tuple"):
        return {"list": list, "tuple": tuple}[f](rows)
    if f in ("dict", "none", "number"):
        return {"dict": {k: [r[j] for r in rows] for j, k in enumerate(names)}, "none": None, "number": 3.5}[f]
    if f == "float":
        a = np.array(rows, float).reshape(len(rows), len(names))
        return a if n % 3 else np.asfortranarray(a)
    if f == "int":
        return np.array(rows, int).reshape(len(rows), len(names))
    if f in ("record", "recarray"):
        dt = [(k, DTYPE[k] if n % 2 else {"t": float, "reference": bool}.get(k, int)) for k in names]
        if c["extra"]:
            dt = [("junk", "U3")] + dt + [("other", float)]
        a = np.zeros(len(rows), dtype=dt)
        for j, k in enumerate(names):
            a[k] = [r[j] for r in rows]
        return a.view(np.recarray) if f == "recarray" else a
    text = "".join(",".join("%g" % v if k in ("t",) else "%d" % v for k, v in zip(names, r)) + "\n" for r in rows)
    if n % 4 == 1:
        text = "# a comment\n" + text.rstrip("\n")
    if f == "text":
        return io.StringIO(text)
    p = os.path.join(folder, "data.csv")
    with open(p, "w") as h:
        h.write(text)
    return p if f == "path" else open(p)


def pr1(est, X, u):
    """Probability of a count, as documented."""
    if est == "prec":
        return np.sin(X[:, 0] * rat(u["x"]) / 2) ** 2
    if est == "rb":
        return X[:, 1] * X[:, 0] ** rat(u["x"]) + X[:, 2]
    base = X[:, 1] if u["ref"] else X[:, 0] * X[:, 1]
    return X[:, 2] * base ** rat(u["x"]) + X[:, 3]


def replay(chk, q, b, folder, n):
    c, want = b["q"], b["ret"]
    if not b["rows"] and c["form"] in ("path", "file", "text"):
        return
    kw = {}
    lo, hi = ("freq_min", "freq_max") if c["est"] == "prec" else ("p_min", "p_max")
    if c["given"] in (1, 3):
        kw[lo] = rat(c["lo"])
    if c["given"] in (2, 3):
        kw[hi] = rat(c["hi"])
    if c["np"]:
        kw["n_particles"] = c["np"]
    if c["all"] or n % 2:
        kw["return_all"] = c["all"]
    if c["est"] == "irb":
        kw["interleaved"] = True
    src = source(b, folder, n)
    before = np.array(src) if isinstance(src, np.ndarray) else None
    np.random.seed(n)
    o = call(q.simple_est_prec if c["est"] == "prec" else q.simple_est_rb, src, **kw)
    if hasattr(src, "close"):
        src.close()
    case = {"estimator": c["est"], "form": c["form"], "columns": c["order"], "options": kw, "table": [[rat(v) for v in r] for r in b["table"]]}
    if want["exc"]:
        chk.expect(o.exc == want["exc"], "rejected", case, o.exc)
        return
    rare = any("Weights" in w.__name__ for w in o.warns)
    # data that no particle makes possible, or hardly so
    if o.exc == "RuntimeError" and "zero" in o.msg and (sum(f["n"] for f in b["fed"]) > 3 or any(f["x"][0] == 0 for f in b["fed"])):
        return
    if not chk.expect(o.exc == "", "failed." + c["form"], case, o.exc + " " + o.msg):
        return
    chk.traces += 1
    if before is not None:
        chk.expect(before.dtype == src.dtype and before.tolist() == np.array(src).tolist(), "data", case)
    if not chk.expect(len(o.value) == want["n"], "returned", case, len(o.value)):
        return
    mean, cov = o.value[0], o.value[1]
    d = len(want["box"])
    chk.expect(np.shape(mean) == (() if want["scalar"] else (d,)) and np.shape(cov) == (() if want["scalar"] else (d, d)), "shape", case, (np.shape(mean), np.shape(cov)))
    if not c["all"]:
        return
    if not chk.expect(isinstance(o.value[2], dict) and isinstance(o.value[2].get("updater"), q.SMCUpdater), "updater", case):
        return
    u = o.value[2]["updater"]
    with np.errstate(all="ignore"):
        chk.expect(np.allclose(np.ravel(u.est_mean()), np.ravel(mean)) and np.allclose(np.ravel(u.est_covariance_mtx()), np.ravel(cov)), "summary", case)
    X, w = u.particle_locations, u.particle_weights
    chk.expect(X.shape == (want["np"], d) and u.n_particles == want["np"], "particles", case, X.shape)
    chk.expect([int(v) for v in u.data_record] == [f["o"] for f in b["fed"]] and len(u.normalization_record) == len(b["fed"]), "record", case, u.data_record)
    # no particle ever leaves the range that the model is told of
    if c["est"] == "prec":
        chk.expect(rare or np.all(X >= rat(c["lo"])), "model.valid", case, X.min())
        below = np.array([[rat(c["lo"]) - .01], [rat(c["lo"]) + .01]])
        chk.expect([bool(v) for v in u.model.are_models_valid(below)] == [False, True], "model.range", case)
    else:
        chk.expect(rare or np.all((X >= 0) & (X <= 1)), "model.valid", case, (X.min(), X.max()))
    if u.resample_count or rare:
        return
    # the particles are still those of the prior
    for j, (l, h) in enumerate(want["box"]):
        chk.expect(X[:, j].min() >= rat(l) and X[:, j].max() <= rat(h), "prior.range", dict(case, parameter=j), (X[:, j].min(), X[:, j].max()))
        if d == 1 or j < d - 2:
            s = (rat(h) - rat(l)) / np.sqrt(12 * len(X))
            chk.expect(abs(X[:, j].mean() - (rat(l) + rat(h)) / 2) <= 6.5 * s, "prior.uniform", dict(case, parameter=j), X[:, j].mean())
            if len(X) >= 80:
                chk.expect(X[:, j].max() - X[:, j].min() > .75 * (rat(h) - rat(l)), "prior.spread", dict(case, parameter=j))
    if d > 1:
        chk.expect(np.all(X[:, -1] + X[:, -2] <= 1 + 1e-9), "prior.valid", case)
        # uniform on the valid half of the unit square: means 1/3, variances 1/18
        for j in (d - 2, d - 1):
            chk.expect(abs(X[:, j].mean() - 1 / 3.) <= 6.5 / np.sqrt(18. * len(X)), "prior.triangle", dict(case, parameter=j), X[:, j].mean())
            if len(X) >= 80:
                chk.expect(X[:, j].max() > .6 and X[:, j].min() < .2, "prior.spread", dict(case, parameter=j))
    else:
        chk.expect(np.all(X >= rat(c["lo"])), "prior.valid", case)
    # every row's likelihood has gone into the weights and into its normalisation
    v = np.ones(len(X)) / len(X)
    for i, f in enumerate(b["fed"]):
        p = np.clip(pr1(c["est"], X, f), 0, 1)
        v = v * comb(f["n"], f["o"]) * p ** f["o"] * (1 - p) ** (f["n"] - f["o"])
        t = v.sum()
        chk.expect(abs(u.normalization_record[i] - t) <= 1e-8 * max(t, 1e-6), "row", dict(case, row=i), "%s for %s" % (u.normalization_record[i], t))
        if not t > 0:
            return
        v = v / t
    chk.expect(np.allclose(w, v, rtol=1e-7, atol=1e-10), "posterior", case)


def run(chk):
    q = qinfer
    inv = ["InOrder", "AllFed", "NoneFed"]
    sim = lambda seed, n: (lambda: chk.emitted("SimpleEst", cfg(dict(SIM=True, MAXROWS=7), invariants=inv + ["Emit"]), simulate=n, depth=14, seed=chk.seed * seed, name="SimpleEst/sim"))
    res = parallel([lambda: chk.model("SimpleEst", cfg(dict(SIM=False, MAXROWS=2), invariants=inv, properties=["Answered"]), workers=2, name="SimpleEst/exhaustive"),
                    sim(171, chk.pick(700, 8000)), sim(173, chk.pick(700, 8000))])
    folder = tempfile.mkdtemp(prefix="verif-se-")
    try:
        seen = set()
        for r in res[1:]:
            for b in r:
                k = repr(b)
                if k not in seen:
                    seen.add(k)
                    with np.errstate(all="ignore"):
                        replay(chk, q, b, folder, len(seen))
    finally:
        shutil.rmtree(folder, ignore_errors=True)
    chk.extra["cases"] = len(seen)
    chk.sample({"estimator": b["q"]["est"], "form": b["q"]["form"], "rows": len(b["rows"])})
