"""Records executions of the real SMCUpdater (library models, priors, resamplers) and has
spec/SMCTrace.tla judge them."""
import numpy as np
from lib.vlib import call, fixed

S = 10000


def fx(a):
    return [int(round(float(x) * S)) if np.isfinite(x) and abs(x) < 1e5 else -10 ** 8 for x in np.ravel(a)]


def scenario(q, rs, i):
    """(model, prior, expparams factory) with known, nontrivial structure."""
    k = i % 6
    if k == 0:
        m = q.SimplePrecessionModel()
        pr = q.UniformDistribution([0, 1])
        ep = lambda: np.array([rs.uniform(0.5, 12)], dtype=m.expparams_dtype)
    elif k == 1:
        m = q.UnknownT2Model()
        pr = q.UniformDistribution([[0, 1], [0.01, 0.2]])
        ep = lambda: np.array([(rs.uniform(0.5, 9),)], dtype=m.expparams_dtype)
    elif k == 2:
        m = q.BinomialModel(q.SimplePrecessionModel())
        pr = q.UniformDistribution([0, 1])
        ep = lambda: np.array([(rs.uniform(0.5, 6), rs.randint(1, 5))], dtype=m.expparams_dtype)
    elif k == 3:
        m = q.RandomizedBenchmarkingModel()
        pr = q.PostselectedDistribution(q.UniformDistribution([[0.8, 1], [0.3, 0.5], [0.45, 0.55]]), m)
        ep = lambda: np.array([(rs.randint(1, 40),)], dtype=m.expparams_dtype)
    elif k == 4:
        basis = q.tomography.pauli_basis(1)
        m = q.tomography.TomographyModel(basis)
        pr = q.tomography.GinibreDistribution(basis)

        def ep():
            v = rs.normal(size=3)
            e = np.zeros((1,), dtype=m.expparams_dtype)
            e['meas'][0, :] = np.concatenate([[1], v / np.linalg.norm(v)]) / np.sqrt(2)
            return e
    else:
        m = q.CoinModel()
        pr = q.BetaDistribution(2, 2) if hasattr(q, "BetaDistribution") else q.UniformDistribution([0, 1])
        ep = lambda: np.zeros((1,), dtype=m.expparams_dtype)
    return m, pr, ep


def proj(up):
    return {"W": fx(up.particle_weights), "nd": len(up.data_record), "nn": len(up.normalization_record),
            "rc": int(up.resample_count), "jr": bool(up.just_resampled),
            "miness": int(round(min(float(up.min_n_ess), 1e5) * 10))}


def record(q, seed, i, steps):
    rs = np.random.RandomState(seed * 7919 + i)
    np.random.seed((seed * 104729 + i) % 2 ** 31)
    m, pr, ep = scenario(q, rs, i)
    npart = [20, 35, 50][i % 3]
    tn, td = [(1, 2), (3, 4), (1, 1), (0, 1), (1, 4)][i % 5]
    kw = dict(zero_weight_policy="ignore", resample_thresh=tn / td)
    if (i // 5) % 2:
        kw["resampler"] = q.LiuWestResampler(a=0.9)
    up = q.SMCUpdater(m, npart, pr, **kw)
    tr = {"conf": {"np": npart, "tn": tn, "td": td, "model": type(m).__name__, "i": i},
          "init": proj(up), "ev": []}
    truth = np.array(up.particle_locations[rs.randint(up.n_particles)])[None, :]
    want = []
    for s in range(steps):
        r = rs.rand()
        op = "update" if r < .72 else "resample" if r < .84 else "reset" if r < .9 else "batch"
        if op == "reset":
            n = npart if rs.rand() < .6 else npart - 5
            o = call(up.reset, n)
            e = {"op": op, "n": n}
        elif op == "resample":
            if up.n_particles != npart and (i // 5) % 2:
                continue        # explicit resamplers keep the current particle number
            o = call(up.resample)
            e = {"op": op, "warned": o.warned("ResamplerWarning")}
        elif op == "batch":
            if up.n_particles != npart:
                continue
            n = rs.randint(1, 7)
            k = int(rs.randint(1, 4))
            eps = np.concatenate([ep() for _ in range(n)])
            outs = []
            for j in range(n):
                outs.append(int(np.ravel(m.simulate_experiment(truth, eps[j:j + 1]))[0]))
            o = call(up.batch_update, np.array(outs), eps, resample_interval=k)
            want += outs
            e = {"op": op, "n": int(n), "interval": k, "dataok": [int(np.ravel(x)[0]) for x in up.data_record] == want}
        else:
            if up.n_particles != npart:
                continue
            x = ep()
            # prefer outcomes that the cloud considers plausible, so the weights stay meaningful
            out = int(np.ravel(m.simulate_experiment(truth, x))[0])
            W0 = np.array(up.particle_weights)
            locs0 = np.array(up.particle_locations)
            L = np.array(m.likelihood(np.array([out]), locs0, x))[0, :, 0]
            check = bool(rs.rand() < .6)
            o = call(up.update, out, x, check_for_resample=check)
            want.append(out)
            e = {"op": op, "check": check, "W0": fx(W0), "L": fx(L),
                 "norm": fx(up.normalization_record[-1])[0] if len(up.normalization_record) else -1,
                 "dataok": [int(np.ravel(v)[0]) for v in up.data_record] == want,
                 "moved": bool(np.shape(up.particle_locations) == locs0.shape and
                               np.allclose(up.particle_locations, locs0))}
        e["exn"] = o.exc
        e["canon"] = bool(np.allclose(m.canonicalize(up.particle_locations.copy()), up.particle_locations, atol=1e-8))
        e["post"] = proj(up)
        tr["ev"].append(e)
        if o.exc:
            break
    return tr


def run(chk, q, pid):
    n = chk.pick(36, 400)
    trs = []
    with np.errstate(all="ignore"):
        for i in range(n):
            trs.append(record(q, chk.seed + (0 if pid == "C01" else 50), i, chk.pick(14, 25)))
    chk.trace_check("SMCTrace", trs, describe=lambda tr, l: {
        "conf": tr["conf"], "step": l, "ops": [e["op"] for e in tr["ev"][:l]]})
    chk.extra.setdefault("traces", {})["events"] = sum(len(t["ev"]) for t in trs)
