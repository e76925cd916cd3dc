"""C06: Liu-West resampling.  spec/LiuWest.tla is explored exhaustively; recorded calls of the
real resampler with decodable noise are judged by spec/LWTrace.tla."""
import numpy as np
from lib.vlib import import_qinfer, cfg, call, parallel

BIG = 10000.0


def decode(x, l, mean, a, hS, ntok, used):
    """<<ancestor, tokens...>> of a location, or <<0>>."""
    x = np.asarray(x, float)
    if not np.any(hS):       # no noise at all
        for j in range(l.shape[0]):
            if np.allclose(x, a * l[j] + (1 - a) * mean, rtol=0, atol=1e-6):
                return [j + 1]
        return [0]
    inv = np.linalg.inv(hS)
    for j in range(l.shape[0]):
        e = inv.dot(x - a * l[j] - (1 - a) * mean)
        k = np.round(e)
        if np.all(np.abs(e - k) < 1e-3) and np.all(k >= 1) and np.all(k <= ntok):
            return [j + 1] + [int(v) for v in k]
    return [0]


class Kernel:
    """Stands in for randn: every element is a fresh integer token."""

    def __init__(self):
        self.k = 0

    def __call__(self, *shape):
        n = int(np.prod(shape)) if shape else 1
        v = np.arange(self.k + 1, self.k + n + 1, dtype=float).reshape(shape)
        self.k += n
        return v


def scenario(q, i, seed):
    rs = np.random.RandomState(seed * 65537 + i)
    d = 1 + (i + i // 8) % 2
    m = rs.randint(1, 6)                       # size of the old cloud
    W = rs.randint(0, 4, size=m)
    if W.sum() == 0:
        W[rs.randint(m)] = 1
    l = np.zeros((m, d))
    l[:, 0] = BIG * (1 + np.arange(m))
    if d == 2:
        l[:, 1] = -BIG * rs.permutation(m)
    post = i % 7 != 3
    maxiter = int(rs.choice([1, 2, 4, 6, 1000]))
    kw = dict(kernel=None, postselect=post, maxiter=maxiter)
    a, h = [(0.6, 0.8), (0.5, None), (0.98, None), (0.8, 0.6), (0.6, 0.25), (0.6, 0.0), (1.0, None), (0.5, 0)][i % 8]
    kw["a"] = a
    hh = np.sqrt(1 - a * a)
    if h is not None and abs(h - hh) > 1e-9 or i % 16 < 8 and h is not None:
        kw["h"] = h
        hh = h
    covs = {1: [[[4.0]], [[0.25]]], 2: [[[25.0, 0], [0, 9.0]], [[5.0, 4.0], [4.0, 5.0]], [[2.0, 0], [0, 8.0]]]}[d]
    cov = np.array(covs[rs.randint(len(covs))])
    roots = {25.0: [[5, 0], [0, 3]], 5.0: [[2, 1], [1, 2]], 2.0: [[2 ** .5, 0], [0, 8 ** .5]], 4.0: [[2]], 0.25: [[.5]]}
    S = np.array(roots[cov[0, 0]], dtype=float)
    mean = np.array([7.0, -3.0])[:d]
    # candidates of ancestor j are invalid while (visits of that ancestor's candidates) < script[j]
    script = rs.randint(0, 4, size=m) if i % 3 else np.zeros(m, int)
    if i % 11 == 5:
        script = script + 2000
        kw['maxiter'] = maxiter = min(maxiter, 12)
    n_req = [None, 1, 3, 6, 9][rs.randint(5)]
    dflt = [None, 4][rs.randint(2)]
    n = n_req if n_req is not None else (dflt if dflt is not None else m)
    # some scenarios estimate mean and covariance from the cloud instead
    own_mean, own_cov = bool(i % 4 == 1), bool(i % 4 == 2)
    return dict(d=d, m=m, W=W, l=l, post=post, maxiter=maxiter, kw=kw, a=a, h=hh, cov=cov, S=S, mean=mean,
                script=script, n_req=n_req, dflt=dflt, n=n, own_mean=own_mean, own_cov=own_cov, rs=rs)


def record(q, i, seed):
    s = scenario(q, i, seed)
    np.random.seed((seed * 9176 + i) % 2 ** 31)
    ker = Kernel()
    rounds = []
    w = s["W"] / s["W"].sum()
    dist = q.ParticleDistribution(particle_locations=s["l"].copy(), particle_weights=w.copy())
    w0, l0 = np.array(dist.particle_weights), np.array(dist.particle_locations)
    mean = s["mean"]
    hS = s["h"] * s["S"]
    if s["own_mean"]:
        mean = (w[:, None] * s["l"]).sum(0)
    if s["own_cov"]:
        mu = (w[:, None] * s["l"]).sum(0)
        cov = ((s["l"] - mu).T * w).dot(s["l"] - mu)
        if np.linalg.norm(cov) == 0 or np.linalg.matrix_rank(cov) < s["d"]:
            s["own_cov"] = False       # singular clouds are not decodable
        else:
            ev, U = np.linalg.eigh(cov)
            hS = s["h"] * (U * np.sqrt(ev)).dot(U.T)
            for j in range(s["m"] if s["h"] else 0):
                for k in range(j):
                    e = np.linalg.solve(hS, s["a"] * (s["l"][j] - s["l"][k]))
                    if np.all(np.abs(e - np.round(e)) < 1e-2):
                        s["own_cov"] = False       # two ancestors whose offsets differ by whole tokens are not decodable
            if not s["own_cov"]:
                hS = s["h"] * s["S"]
    # decoding with noise of the order of the cloud itself needs few tokens
    ntok = 10 ** 6 if s["own_cov"] else 10 ** 4
    visits = {}

    class Model(object):
        n_modelparams = s["d"]

        def are_models_valid(self, mp):
            cs = [decode(x, s["l"], mean, s["a"], hS, ker.k, None) for x in np.array(mp)]
            r = len(rounds)
            ok = [bool(c[0] == 0 or r >= s["script"][c[0] - 1] + (0 if c[-1] % 3 else 1) * (i % 2)) for c in cs]
            rounds.append({"cands": cs, "valid": ok})
            return np.array(ok, dtype=bool)
    kw = dict(s["kw"], kernel=ker)
    if s["dflt"] is not None:
        kw["default_n_particles"] = s["dflt"]
    tr = {"n": s["n"], "weights": [int(x) for x in s["W"]], "maxiter": s["maxiter"], "post": s["post"],
          "stat": False, "counts": [0] * s["m"], "i": i}
    cargs = {}
    if s["n_req"] is not None:
        cargs["n_particles"] = s["n_req"]
    if not s["own_mean"]:
        cargs["precomputed_mean"] = s["mean"].copy()
    if not s["own_cov"]:
        cargs["precomputed_cov"] = s["cov"].copy()
    cc = {k: (v.copy() if hasattr(v, "copy") else v) for k, v in cargs.items()}
    if i % 6 == 4:      # a set through the property
        kw2 = dict(kw)
        kw2["a"] = 0.3
        res = q.LiuWestResampler(**kw2)
        res.a = s["a"]
    else:
        res = q.LiuWestResampler(**kw)
    o = call(res, Model(), dist, **cargs)
    tr["exn"] = o.exc
    tr["msg"] = o.msg
    # decode() for own_cov scenarios: any consistent integer solution within the tokens used
    tr["rounds"] = rounds
    tr["warned"] = o.warned("ResamplerWarning")
    tr["final"], tr["uniform"] = [], False
    if o.exc == "":
        fl = np.array(o.value.particle_locations)
        fw = np.array(o.value.particle_weights)
        tr["final"] = [decode(x, s["l"], mean, s["a"], hS, ker.k, None) for x in fl]
        tr["uniform"] = bool(fw.shape == (len(fl),) and len(fl) and np.allclose(fw, 1.0 / len(fl), rtol=1e-12))
    tr["unchanged"] = bool(np.array_equal(dist.particle_locations, l0) and np.array_equal(dist.particle_weights, w0)
                           and all(np.array_equal(cargs[k], cc[k]) for k in cc))
    return tr


def zero_cov(q, chk):
    """No spread at all: a small covariance is substituted, with a warning."""
    for d in (1, 2):
        for comp in (1e-10, 4.0):
            l = np.ones((4, d)) * 3
            dist = q.ParticleDistribution(particle_locations=l.copy(), particle_weights=np.ones(4) / 4)
            ker = Kernel()

            class M(object):
                def are_models_valid(self, mp):
                    return np.ones(len(mp), bool)
            o = call(q.LiuWestResampler(a=0.6, kernel=ker, zero_cov_comp=comp), M(), dist)
            case = {"dim": d, "zero_cov_comp": comp}
            if chk.expect(o.exc == "" and o.warned("ResamplerWarning"), "zero_covariance", case, o.msg):
                toks = (np.array(o.value.particle_locations) - 3) / (0.8 * comp ** .5)
                chk.expect(sorted(np.round(toks).astype(int).ravel()) == list(range(1, 4 * d + 1))
                           and np.allclose(toks, np.round(toks), atol=1e-4), "zero_covariance", case, str(toks))


def stat(q, i, seed):
    """Many draws without postselection: ancestor frequencies."""
    rs = np.random.RandomState(seed * 31 + i)
    np.random.seed(seed * 77 + i)
    m = 2 + i % 4
    W = rs.randint(0, 5, size=m)
    W[i % m] = 3
    l = (BIG * 10000 * (1 + np.arange(m)))[:, None]
    n = 2000
    ker = Kernel()
    dist = q.ParticleDistribution(particle_locations=l.copy(), particle_weights=W / W.sum())
    o = call(q.LiuWestResampler(a=0.6, kernel=ker, postselect=bool(i % 2)), type("M", (), {
        "are_models_valid": lambda self, mp: np.ones(len(mp), bool)})(), dist, n_particles=n,
        precomputed_mean=np.zeros(1), precomputed_cov=np.eye(1))
    tr = {"n": n, "weights": [int(x) for x in W], "maxiter": 1000, "post": False, "stat": True, "i": -i - 1,
          "rounds": [], "exn": o.exc, "msg": o.msg, "warned": o.warned("ResamplerWarning"), "final": [0],
          "uniform": True, "unchanged": True, "n0": n}
    j = np.zeros(0, int)
    if o.exc == "":
        j = np.round(np.array(o.value.particle_locations)[:, 0] / (0.6 * BIG * 10000)).astype(int)
        if len(j) != n:
            tr["final"], tr["stat"] = [], False
    tr["counts"] = [int((j == k + 1).sum()) for k in range(m)]
    if tr["final"]:
        tr["final"] = [[int(np.argmax(W > 0)) + 1, k] for k in range(3)]
        tr["n"] = 3     # the particle number was compared above; counts are judged against n0
    return tr


def run(chk):
    q = import_qinfer()
    inv = ["AncestorsPositive", "EverySlotFilled", "ValidUnlessWarned", "RoundsBounded"]
    pr = ["AcceptedNeverTouched", "AncestryFixed", "Terminates"]

    def mc(slots, mi, post):
        c = cfg(dict(SLOTS=slots, MAXITER=mi, POST=post), invariants=inv, properties=pr)
        return chk.model("LiuWest", c.replace("CONSTANTS\n", "CONSTANTS\n  WEIGHTS <- WTS\n"), workers=2)
    parallel([lambda s=s, m=m, p=p: mc(s, m, p) for s, m, p in
              [(3, 3, True), (3, 2, False), (chk.pick(3, 5), chk.pick(2, 4), True)]])
    trs = []
    with np.errstate(all="ignore"):
        for i in range(chk.pick(800, 8000)):
            trs.append(record(q, i, chk.seed))
        for i in range(chk.pick(12, 60)):
            t = stat(q, i, chk.seed)
            trs.append(t)
        zero_cov(q, chk)
    chk.trace_check("LWTrace", trs, describe=lambda tr, l: {
        k: tr[k] for k in ("i", "n", "weights", "maxiter", "post", "exn", "msg", "warned")} | {"rounds": tr["rounds"][:4]})
