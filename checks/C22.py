"""C22: tomography: states, effects, diffusion, priors and measurements (spec/Tomo.tla, spec/TomoDraw.tla)."""
import itertools
import numpy as np
from scipy.special import comb
from lib.vlib import import_qinfer, parallel, cfg, call, rat

qinfer = import_qinfer()
try:
    import qutip as qt
    import qinfer.tomography as qtomo
    import qinfer.tomography.expdesign as qexp
    import qinfer.tomography.bases as qbases
except Exception as e:                                   # pragma: no cover
    raise
SIG = [np.eye(2), np.array([[0, 1], [1, 0]]), np.array([[0, -1j], [1j, 0]]), np.diag([1, -1])]


def matrix(r):
    """The operator with the spectrum and the frame of the specification."""
    out = 0
    for v, s in zip(r["f"], r["s"]):
        v = np.array([complex(a, b) for a, b in v])
        out = out + rat(s) * np.outer(v, v.conj()) / np.vdot(v, v).real
    return out


def get_basis(kind, d):
    gm = qtomo.gell_mann_basis
    if kind == "pauli":
        return qtomo.pauli_basis({2: 1, 4: 2}[d])
    if kind == "gm" or kind == "int":
        return gm(d)
    return qtomo.tensor_product_basis(gm(2), gm(d // 2)) if d > 2 else gm(2)


def coords(B, M):
    return np.real(np.einsum("ijk,jk->i", np.conj(B.data), M))


def op(B, p):
    return np.einsum("i,ijk->jk", p, B.data)


def physical(chk, B, p, what, case, sub=False, tol=1e-7):
    M = op(B, p)
    ev = np.linalg.eigvalsh((M + M.conj().T) / 2)
    return chk.expect(ev[0] >= -tol and (sub or abs(ev.sum() - 1) <= tol), what, case, ev.tolist())


def check_basis(chk, kind, d):
    B = get_basis(kind, d)
    case = {"basis": kind, "dim": d}
    D = np.array(B.data)
    chk.expect(D.shape == (d * d, d, d) and B.dim == d and len(B) == d * d and int(np.prod(B.dims)) == d and len(B.labels) == d * d and len(set(B.labels)) == d * d, "basis.shape", case, D.shape)
    chk.expect(np.allclose(np.einsum("iab,jab->ij", D.conj(), D), np.eye(d * d)), "basis.orthonormal", case)
    chk.expect(np.allclose(D, D.conj().transpose(0, 2, 1)), "basis.hermitian", case)
    chk.expect(np.allclose(D[0], np.eye(d) / np.sqrt(d)), "basis.zeroth", case)
    chk.expect([q.full().tolist() for q in B] == [m.tolist() for m in D] and B[1].full().tolist() == D[1].tolist() and [q.full().tolist() for q in B[[2, 0]]] == [D[2].tolist(), D[0].tolist()], "basis.items", case)
    if kind == "pauli":
        n = {2: 1, 4: 2}[d]
        want = [np.eye(1)]
        for _ in range(n):
            want = [np.kron(a, s) for a in want for s in SIG]
        chk.expect(np.allclose(D * np.sqrt(d), want), "basis.pauli", case)
    if kind == "product":
        parts = [qtomo.gell_mann_basis(2).data, qtomo.gell_mann_basis(d // 2).data] if d > 2 else [D]
        want = [np.kron(a, b) for a in parts[0] for b in parts[1]] if d > 2 else D
        chk.expect(np.allclose(D, want), "basis.product", case)
    rs = np.random.RandomState(d)
    A = rs.randn(d * d, d * d)
    C = A @ A.T
    S = B.covariance_mtx_to_superop(C).full()
    chk.expect(np.allclose(S, S.conj().T) and np.allclose(np.linalg.eigvalsh(S), np.linalg.eigvalsh(C)), "basis.superop", case)
    Z = rs.randn(d, d) + 1j * rs.randn(d, d)
    Z = Z @ Z.conj().T
    p = B.state_to_modelparams(qt.Qobj(Z, dims=[B.dims, B.dims]))
    chk.expect(np.shape(p) == (d * d,) and np.allclose(p, coords(B, Z)), "basis.params", case)
    back = B.modelparams_to_state(p)
    chk.expect(np.allclose(back.full(), Z) and back.dims == [list(B.dims)] * 2, "basis.roundtrip", case)
    # the superoperator of a covariance gives the variance of every effect
    eff = rs.randn(d, d) + 1j * rs.randn(d, d)
    eff = eff + eff.conj().T
    e = coords(B, eff)
    v = eff.conj().reshape(-1)
    many = B.modelparams_to_state(np.array([p, e]))
    chk.expect(len(many) == 2 and np.allclose(many[0].full(), Z) and np.allclose(many[1].full(), eff), "basis.states", case)
    chk.expect(np.allclose(np.real(v.conj() @ S.T @ v), e @ C @ e) or np.allclose(np.real(v.conj() @ S @ v), e @ C @ e), "basis.variance", case)


GIVEN = {}


def build_basis(t):
    if t["k"] == "product":
        return qtomo.tensor_product_basis(*[build_basis(x) for x in t["kids"]])
    if t["k"] == "gm":
        return qtomo.gell_mann_basis(t["d"])
    if t["k"] == "pauli":
        return qtomo.pauli_basis(t["d"]) if t["d"] > 1 or len(GIVEN) % 2 else qtomo.pauli_basis()
    d = t["d"]
    if d not in GIVEN:
        # an orthogonal mixture of the traceless elements of a known basis
        D = qtomo.gell_mann_basis(d).data
        Q = np.linalg.qr(np.random.RandomState(d).randn(d * d - 1, d * d - 1))[0]
        GIVEN[d] = np.concatenate([D[:1], np.einsum("ij,jab->iab", Q, D[1:])])
    kw = {"": {}, "list": {"labels": ["op%d" % ((i + 1) ** 2) for i in range(d * d)]}}.get(t["l"], {"labels": t["l"]})
    return qtomo.TomographyBasis(GIVEN[d].copy(), [d], name="mine", **kw)


def bases(chk, b):
    """What a tree of bases is made of (spec/Bases.tla)."""
    c, f = b["c"], b["f"]
    case = {"tree": c["tree"]}
    o = call(build_basis, c["tree"])
    if not chk.expect(o.exc == "", "tree.failed", case, o.exc + " " + o.msg):
        return
    B = o.value
    n, d = len(f["labels"]), int(np.prod(f["dims"]))
    one = qtomo.pauli_basis(1).labels[0]
    want = [s.replace("<one>", one) for s in f["labels"]]
    chk.expect(list(B.labels) == want, "tree.labels", case, list(B.labels)[:8])
    chk.expect(list(B.dims) == list(f["dims"]) and B.dim == d and len(B) == n and B.data.shape == (n, d, d), "tree.dims", case, (B.dims, B.data.shape))
    parts = [build_basis(x).data for x in f["leaves"]]
    elems = []
    for e in f["elements"]:
        M = np.eye(1)
        for P, i in zip(parts, e):
            M = np.kron(M, P[i - 1])
        elems.append(M)
    if not chk.expect(B.data.shape == (n, d, d) and np.allclose(B.data, elems), "tree.elements", case):
        return
    chk.expect(np.shape(B.flat()) == (n, d * d) and np.allclose(B.flat(), np.reshape(elems, (n, -1))), "tree.flat", case)
    it = list(B)
    chk.expect(len(it) == n and all(np.allclose(q.full(), M) and q.dims == [list(f["dims"])] * 2 for q, M in zip(it, elems)), "tree.iteration", case)
    i = c["i"]
    idx = {"int": lambda: i["v"][0], "list": lambda: list(i["v"]), "str": lambda: "x", "none": lambda: None, "float": lambda: 1.}[i["k"]]()
    o = call(lambda: B[idx])
    if f["refused"]:
        chk.expect(o.exc == "TypeError", "tree.index.refused", dict(case, index=repr(idx)), o.exc)
    elif chk.expect(o.exc == "", "tree.index.failed", dict(case, index=idx), o.exc + " " + o.msg):
        got = [o.value] if i["k"] == "int" else o.value
        chk.expect(len(got) == len(f["picked"]) and all(np.allclose(q.full(), elems[k - 1]) and q.dims == [list(f["dims"])] * 2 for q, k in zip(got, f["picked"])), "tree.index", dict(case, index=idx))
    # a state made of parts has the products of its parts' coordinates
    rs = np.random.RandomState(n)
    full, ps = np.eye(1), np.ones(1)
    for x, P in zip(f["leaves"], parts):
        k = P.shape[1]
        M = rs.randn(k, k) + 1j * rs.randn(k, k)
        M = M + M.conj().T
        full = np.kron(full, M)
        ps = np.kron(ps, np.real(np.einsum("ijk,jk->i", P.conj(), M)))
    o = call(B.state_to_modelparams, qt.Qobj(full, dims=[list(f["dims"])] * 2))
    chk.expect(o.exc == "" and np.allclose(o.value, ps), "tree.params", case, o.exc)
    h = call(B._repr_html_)
    chk.expect(h.exc == "" and all(s in h.value for s in want), "tree.display", case, h.exc)
    chk.traces += 1


def replay(chk, b, n):
    w = b["w"]
    d = w["d"]
    B = get_basis(w["basis"], d)
    cls = qtomo.DiffusiveTomographyModel if w["dif"] else qtomo.TomographyModel
    m = cls(B, allow_subnormalized=True) if w["sub"] else cls(B) if n % 2 else cls(B, allow_subnormalized=False)
    np_ = d * d + (1 if w["dif"] else 0)
    case0 = {"dim": d, "basis": w["basis"], "subnormalized": w["sub"], "diffusive": w["dif"]}
    V = np.zeros((4, np_))
    V[:, 0] = 1 / np.sqrt(d)
    if w["dif"]:
        V[:, -1] = [.1, -.1, 0., 1e-9]
    v = call(m.are_models_valid, V)
    chk.expect(v.exc == "" and np.array_equal(v.value, [True, not w["dif"], not w["dif"], True]), "valid", case0, v.exc or v.value)
    chk.expect(m.dim == d and m.basis is B and m.n_modelparams == np_ and len(m.modelparam_names) == np_, "model", case0)

    def table(rows):
        X = np.array([np.concatenate([coords(B, matrix(r)), [rat(r["eps"])] if w["dif"] else []]) for r in rows])
        return X if n % 3 else np.asfortranarray(X)
    for k, h in enumerate(b["hist"]):
        if h["op"] == "canon":
            X = table(h["was"])
            before = X.copy()
            case = dict(case0, spectra=[[rat(s) for s in r["s"]] for r in h["was"]], frame=h["was"][0]["f"])
            o = call(m.canonicalize, X)
            if not chk.expect(o.exc == "" and np.shape(o.value) == X.shape, "canonicalize.failed", case, o.exc + " " + o.msg):
                return
            want = table(h["rows"])
            Y = np.array(o.value)
            chk.expect(np.allclose(Y, want, atol=1e-8), "canonicalize", case, np.abs(Y - want).max())
            chk.expect(np.array_equal(X, before), "canonicalize.argument", case)
            for i in range(len(Y)):
                physical(chk, B, Y[i, :d * d], "physical", dict(case, row=i), sub=w["sub"])
            if w["dif"]:
                chk.expect(np.array_equal(Y[:, -1], X[:, -1]), "canonicalize.eps", case)
            o2 = call(m.canonicalize, Y.copy())
            chk.expect(o2.exc == "" and np.allclose(o2.value, Y, atol=1e-8), "canonicalize.twice", case)
            # no row depends on the others
            one = call(m.canonicalize, before[-1:].copy())
            chk.expect(one.exc == "" and np.allclose(one.value[0], Y[-1], atol=1e-10), "canonicalize.rows", case)
            chk.traces += 1
        elif h["op"] == "measure":
            X = table(h["rows"])
            e = np.zeros((len(h["effects"]),), dtype=m.expparams_dtype)
            e["meas"] = [coords(B, matrix(x)) for x in h["effects"]]
            if w["dif"]:
                e["t"] = 3.0
            pr = np.array([[rat(v) for v in r] for r in h["pr"]])
            case = dict(case0, spectra=[[rat(s) for s in r["s"]] for r in h["rows"]], effects=[[rat(s) for s in x["s"]] for x in h["effects"]])
            for outs in (np.array([0, 1]), np.array([1]), np.array([1, 0, 1])):
                L = call(m.likelihood, outs, X, e)
                want = np.array([pr if x else 1 - pr for x in outs])
                if not chk.expect(L.exc == "" and np.shape(L.value) == want.shape, "likelihood.failed", case, L.exc + L.msg):
                    return
                chk.expect(np.allclose(L.value, want, atol=1e-9), "likelihood", case, (np.array(L.value).tolist(), want.tolist()))
            chk.expect(m.n_outcomes(e) == 2 and m.is_n_outcomes_constant, "outcomes", case)
            chk.traces += 1
        else:
            X = table(h["rows"])
            before = X.copy()
            ts = [rat(t) for t in h["ts"]]
            e = np.zeros((len(ts),), dtype=m.expparams_dtype)
            e["t"] = ts
            case = dict(case0, times=ts, eps=[rat(r["eps"]) for r in h["rows"]], spectra=[[rat(s) for s in r["s"]] for r in h["rows"]])
            np.random.seed(n)
            o = call(m.update_timestep, X, e)
            if not chk.expect(o.exc == "" and np.shape(o.value) == (len(X), np_, len(ts)), "drift.failed", case, o.exc + " " + o.msg):
                return
            Y = np.array(o.value)
            chk.expect(np.array_equal(X, before), "drift.argument", case)
            still = table([dict(r, s=s) for r, s in zip(h["rows"], h["still"])])
            for j, t in enumerate(ts):
                chk.expect(np.array_equal(Y[:, -1, j], X[:, -1]), "drift.eps", dict(case, experiment=j))
                if t == 0:
                    chk.expect(np.allclose(Y[:, :, j], still, atol=1e-8), "drift.still", dict(case, experiment=j))
                for i in range(len(X)):
                    # a step may leave nothing but negative eigenvalues of a subnormalised state: those are not claimed
                    physical(chk, B, Y[i, :-1, j], "drift.physical", dict(case, experiment=j, row=i), sub=w["sub"])
            chk.traces += 1


def wander(chk, d, kind, eps, ts, seed, sub):
    """Scale and independence of the steps of interior states, which no canonicalisation touches."""
    B = get_basis(kind, d)
    m = qtomo.DiffusiveTomographyModel(B, allow_subnormalized=sub)
    n = 600
    X = np.zeros((n, d * d + 1))
    X[:, 0] = 1 / np.sqrt(d)
    X[:, -1] = np.where(np.arange(n) % 2, eps, eps / 2)
    e = np.zeros((len(ts),), dtype=m.expparams_dtype)
    e["t"] = ts
    np.random.seed(seed)
    Y = np.array(m.update_timestep(X, e))
    case = {"dim": d, "basis": kind, "eps": eps, "times": ts}
    k = d * d - 1
    for j, t in enumerate(ts):
        S = Y[:, 1:-1, j]
        chk.expect(np.allclose(Y[:, 0, j], X[:, 0]), "wander.trace", case)
        for half in (0, 1):
            s = S[half::2] / ((eps if half else eps / 2) * np.sqrt(t))
            r = np.sqrt((s ** 2).mean())
            chk.expect(abs(r - 1) <= 6.5 / np.sqrt(2 * s.size), "wander.scale", dict(case, experiment=j), r)
            chk.expect(np.all(np.abs(s.mean(axis=0)) <= 6.5 / np.sqrt(len(s))), "wander.mean", dict(case, experiment=j), s.mean(axis=0).tolist())
            C = s.T @ s / len(s)
            chk.expect(np.all(np.abs(C - np.eye(k)) <= 6.5 * np.sqrt(2) / np.sqrt(len(s))), "wander.independent", dict(case, experiment=j), np.abs(C - np.eye(k)).max())
        # particles move on their own
        chk.expect(len({tuple(np.round(r, 12)) for r in S}) == n, "wander.rows", case)


def build(tree, kind):
    k, d = tree["k"], tree["d"]
    rank = tree["rank"] or None
    if k == "product":
        return qtomo.TensorProductDistribution([build(t, kind) for t in tree["kids"]])
    if k == "gadfli":
        fid = build(tree["kids"][0], kind)
        M = np.diag([v / 16. for v in tree["mean"]])
        B = fid.basis
        mean = qt.Qobj(M, dims=[B.dims, B.dims])
        if B.superrep:
            mean.superrep = B.superrep
            if tree["mean"][0] % 2:
                mean = qt.to_super(mean)
        return qtomo.GADFLIDistribution(fid, mean)
    basis = d if kind == "int" else get_basis(kind if d in (2, 4) else "gm", d)
    if k == "ginibre":
        return qtomo.GinibreDistribution(basis, rank) if rank else qtomo.GinibreDistribution(basis)
    if k == "redit":
        return qtomo.GinibreReditDistribution(basis, rank)
    return qtomo.BCSZChoiDistribution(basis, rank, enforce_tp=k == "bcsz-tp")


def ptrace(M, dims, keep):
    n = len(dims)
    T = M.reshape(list(dims) * 2)
    left = n
    for i in reversed(range(n)):
        if i != keep:
            T = np.trace(T, axis1=i, axis2=i + left)
            left -= 1
    return T


def prior(chk, b, n, deep):
    c, f = b["c"], b["f"]
    case = {"tree": c["tree"], "basis": c["basis"]}
    np.random.seed(n)
    o = call(build, c["tree"], c["basis"])
    if f["exc"]:
        chk.expect(o.exc == f["exc"], "prior.rejected", case, o.exc)
        return
    if not chk.expect(o.exc == "", "prior.failed", case, o.exc + " " + o.msg):
        return
    dist = o.value
    B, d = dist.basis, f["dim"]
    chk.expect(dist.n_rvs == f["rvs"] and dist.dim == d and B.dim == d, "prior.size", case, (dist.n_rvs, dist.dim))
    s = call(dist.sample, c["n"]) if c["n"] != 1 or n % 2 else call(dist.sample)
    if not chk.expect(s.exc == "" and np.shape(s.value) == (c["n"], f["rvs"]), "prior.sample", dict(case, n=c["n"]), s.exc + " " + s.msg):
        return
    S = np.array(s.value)
    if len(S):
        Q = B.modelparams_to_state(S[0])
        # channels are returned as Choi states of their input and output
        chan = f["half"] > 0
        chk.expect(np.allclose(Q.full(), op(B, S[0])) and Q.type == ("super" if chan else "oper") and (not chan or (Q.superrep == "choi" and Q.dims == [[[f["half"]], [f["half"]]]] * 2)), "prior.qobj", case, (Q.type, Q.superrep, Q.dims))
        chk.expect(len({tuple(np.round(r, 12)) for r in S}) == len(S), "prior.distinct", case)
    for p in S:
        M = op(B, p)
        if not physical(chk, B, p, "prior.physical", case):
            break
        chk.expect(np.linalg.matrix_rank(M, tol=1e-9) <= f["rank"], "prior.rank", case, np.linalg.eigvalsh(M).tolist())
        if f["real"]:
            chk.expect(np.abs(M.imag).max() <= 1e-10, "prior.real", case, np.abs(M.imag).max())
        elif d > 1 and c["tree"]["k"] == "ginibre":
            chk.expect(np.abs(M.imag).max() > 1e-8, "prior.complex", case)
        if f["tp"]:
            h = f["half"]
            T = [ptrace(M, [h, h], i) for i in (0, 1)]
            chk.expect(any(np.allclose(t, np.eye(h) / h, atol=1e-8) for t in T), "prior.tp", case)
        if f["parts"]:
            dims = [x["dim"] for x in f["parts"]]
            P = [ptrace(M, dims, i) for i in range(len(dims))]
            full = np.eye(1)
            for t, x in zip(P, f["parts"]):
                full = np.kron(full, t)
                chk.expect(np.linalg.matrix_rank(t, tol=1e-9) <= x["rank"] and (not x["real"] or np.abs(t.imag).max() <= 1e-10), "prior.part", case)
            chk.expect(np.allclose(full, M, atol=1e-8), "prior.product", case)
    chk.traces += 1
    if deep and f["mean"]:
        X = np.array(dist.sample(400))
        want = coords(B, np.diag([rat(v) for v in f["mean"]]))
        sd = X.std(axis=0) / np.sqrt(len(X))
        z = np.abs(X.mean(axis=0) - want) / (sd + 1e-9)
        chk.expect(z.max() <= 6.5, "prior.mean", case, z.tolist())


class Up(object):
    def __init__(self, model, cov=None):
        self.model, self.cov = model, cov

    def est_covariance_mtx(self):
        return self.cov


def is_stab(M, d, tol=1e-7):
    """A rank-one projector on an eigenvector of one of the group's operators."""
    if not (np.allclose(M, M.conj().T, atol=tol) and np.allclose(M @ M, M, atol=tol) and abs(np.trace(M) - 1) < tol):
        return False
    w = np.exp(2j * np.pi / d)
    X, Z = np.roll(np.eye(d), 1, axis=0), np.diag(w ** np.arange(d))
    for i, j in itertools.product(range(d), repeat=2):
        if i or j:
            for x in (X, X.T):
                G = np.linalg.matrix_power(x, i) @ np.linalg.matrix_power(Z, j)
                if np.allclose(G @ M, M @ G, atol=tol):
                    return True
    return False


PAULI = {}


def pauli_index(M, d, tol=1e-7):
    """k such that M is half the identity and half the k-th Pauli operator."""
    P = PAULI.setdefault(d, qtomo.pauli_basis({2: 1, 4: 2, 8: 3}[d]).data * np.sqrt(d))
    t = np.real(np.einsum("iab,ba->i", P, 2 * M - np.eye(d))) / d
    k = int(np.argmax(np.abs(t)))
    return k if k > 0 and np.allclose((np.eye(d) + P[k]) / 2, M, atol=tol) else None


def heuristic(chk, b, n, full=True):
    c, f = b["c"], b["f"]
    case = {k: c[k] for k in ("h", "nq", "d", "other", "own")}
    if c["what"] == "refused" and c["h"] == "gadfli":
        M = np.diag([v / 16. for v in c["mean"]])
        o = call(qtomo.GADFLIDistribution, qtomo.GinibreDistribution(get_basis("gm", c["d"])), qt.Qobj(M))
        chk.expect(o.exc == f["exc"], "prior.refused", dict(case, mean=c["mean"]), o.exc)
        return
    if c["what"] == "refused":
        up = Up(qinfer.BinomialModel(qtomo.TomographyModel(get_basis("gm", c["d"]))))
        o = call(qtomo.RandomPauliHeuristic, up)
        chk.expect(o.exc == f["exc"], "heuristic.refused", case, o.exc)
        return
    other = {"n_meas": c["other"]} if c["other"] else None
    d, cls = c["d"], {"s": qtomo.RandomStabilizerStateHeuristic if hasattr(qtomo, "RandomStabilizerStateHeuristic") else qexp.RandomStabilizerStateHeuristic, "p": qtomo.RandomPauliHeuristic}
    np.random.seed(n)
    product = c["h"].startswith("product")
    if product:
        B1 = get_basis("pauli" if n % 2 else "gm", 2)
        B = qtomo.BCSZChoiDistribution(B1).basis
        up = Up(qinfer.BinomialModel(qtomo.TomographyModel(B)))
        make = lambda: qexp.ProductHeuristic(up, B1, cls[f["kinds"][0]], cls[f["kinds"][1]], other_fields=other)
    else:
        k = int(round(np.log2(d)))
        B = get_basis("pauli" if d in (2, 4) and n % 2 else "gm", d) if c["h"] == "stabilizer" or d == 2 else qtomo.pauli_basis(k) if n % 2 else qtomo.tensor_product_basis(*[get_basis("gm", 2)] * k)
        up = Up(qinfer.BinomialModel(qtomo.TomographyModel(B)))
        kw = {"other_fields": other} if other else {}
        if c["own"]:
            kw["basis"] = B
        make = lambda: cls[f["kinds"][0]](up, **kw)
    o = call(make)
    if not chk.expect(o.exc == "", "heuristic.make", case, o.exc + " " + o.msg):
        return
    seen, draws = set(), 25 if not full or product and n % 3 else 400 if f["n"] > 3 else 220
    for i in range(draws):
        r = call(o.value)
        if not chk.expect(r.exc == "" and np.shape(r.value) == (1,) and r.value.dtype == np.dtype(up.model.expparams_dtype), "heuristic.failed", case, r.exc + " " + r.msg):
            return
        e = r.value
        chk.expect(int(e["n_meas"][0]) == c["other"], "heuristic.fields", case, e["n_meas"].tolist())
        M = op(B, e["meas"][0])
        if product:
            T = M / 2
            P = [ptrace(T, [2, 2], 0), ptrace(T, [2, 2], 1)]
            if not chk.expect(np.allclose(np.kron(*P), T, atol=1e-7) and abs(np.trace(T) - 1) < 1e-7, "heuristic.product", case):
                return
            # one-qubit Pauli effects are stabilizer states as well
            for x in P:
                if not chk.expect(is_stab(x, 2), "heuristic.part", case, x.tolist()):
                    return
            kind = [pauli_index(x, 2) is not None for x in P]
            chk.expect(all(g == "s" or y for g, y in zip(f["kinds"], kind)), "heuristic.pauli", case)
            seen.add(tuple(np.round(np.concatenate([x.ravel() for x in P]), 3)))
        elif f["kinds"] == ["p"]:
            k = pauli_index(M, d)
            if not chk.expect(k is not None, "heuristic.pauli", case, M.tolist()):
                return
            seen.add(k)
        else:
            if not chk.expect(is_stab(M, d), "heuristic.stabilizer", case, M.tolist()):
                return
            seen.add(tuple(np.round(M.ravel() + 0., 3)))
    if draws < 200:
        pass
    elif f["kinds"] == ["p"]:
        chk.expect(len(seen) == f["n"] if f["n"] < 60 else len(seen) >= 50, "heuristic.every", case, sorted(seen))
    elif not product and d == 2:
        chk.expect(len(seen) == 6, "heuristic.every", case, len(seen))
    elif d > 2:
        chk.expect(len(seen) > 2 * d, "heuristic.every", case, len(seen))
    chk.traces += 1


def best(chk, b, n):
    c, f = b["c"], b["f"]
    B = qtomo.pauli_basis(1)
    up = Up(qinfer.BinomialModel(qtomo.TomographyModel(B)), np.array(c["cov"], float))
    queue = []

    def base():
        e = np.zeros((1,), dtype=up.model.expparams_dtype)
        e["meas"][0] = c["cands"][len(queue) % c["k"]]
        e["n_meas"] = 3 + len(queue)
        queue.append(1)
        return e
    case = {"candidates": c["cands"], "covariance": c["cov"]}
    kw = {} if c["k"] == 3 and n % 2 else {"k": c["k"]}
    if c["other"]:
        kw["other_fields"] = {"n_meas": c["other"]}
    o = call(lambda: qtomo.BestOfKMetaheuristic(up, base, **kw)())
    if not chk.expect(o.exc == "" and np.shape(o.value) == (1,), "best.failed", case, o.exc + " " + o.msg):
        return
    got = o.value["meas"][0].tolist()
    chk.expect(len(queue) == c["k"], "best.candidates", case, len(queue))
    allowed = [i for i in f["best"] if c["cands"][i - 1] == got]
    chk.expect(bool(allowed), "best", case, got)
    m = int(o.value["n_meas"][0])
    chk.expect(m == c["other"] if c["other"] else m - 2 in allowed, "best.fields", case, m)
    chk.traces += 1


def learn(chk, b, n):
    """A tomographic updater fed with the effects of a behaviour."""
    w = b["w"]
    d = w["d"]
    effs = [matrix(x) for h in b["hist"] if h["op"] == "measure" for x in h["effects"] if all(0 <= rat(s) <= 1 for s in x["s"])]
    if not effs or d > 4:
        return
    B = get_basis(w["basis"], d)
    base = qtomo.DiffusiveTomographyModel(B) if w["dif"] else qtomo.TomographyModel(B)
    m = qinfer.BinomialModel(base)
    fid = qtomo.GinibreDistribution(B, [None, 1, d][n % 3])
    dist = qinfer.ProductDistribution(fid, qinfer.UniformDistribution([.001, .05])) if w["dif"] else fid
    np.random.seed(n)
    u = qinfer.SMCUpdater(m, 60, dist, resample_thresh=[.5, .8, 0.][n % 3])
    case = {"dim": d, "basis": w["basis"], "diffusive": w["dif"], "effects": [np.round(e, 3).tolist() for e in effs]}
    rs = np.random.RandomState(n)
    W = np.ones(60) / 60
    clean = not w["dif"]
    for i, E in enumerate(effs * 2):
        e = np.zeros((1,), dtype=m.expparams_dtype)
        e["meas"][0] = coords(B, E)
        e["n_meas"] = 8
        if w["dif"]:
            e["t"] = .5
        X = u.particle_locations.copy()
        k = int(np.clip(rs.randint(9), 1, 7)) if 0 < np.trace(E).real < d else 8 if np.trace(E).real > 0 else 0
        p = np.clip(np.real(np.einsum("ij,mji->m", E, np.einsum("mi,ijk->mjk", X[:, :d * d], B.data))), 0, 1)
        before = u.resample_count
        o = call(u.update, k, e)
        if o.exc == "RuntimeError" and "zero" in o.msg.lower():
            return
        if not chk.expect(o.exc == "", "learn.failed", dict(case, step=i), o.exc + " " + o.msg):
            return
        W = W * comb(8, k) * p ** k * (1 - p) ** (8 - k)
        if not W.sum() > 1e-200:
            return
        W = W / W.sum()
        if u.resample_count > before:
            W, clean = np.ones(60) / 60, not w["dif"]
        elif clean:
            chk.expect(np.allclose(u.particle_weights, W, rtol=1e-6, atol=1e-9), "learn.weights", dict(case, step=i), np.abs(u.particle_weights - W).max())
        ev = np.linalg.eigvalsh(np.einsum("mi,ijk->mjk", u.particle_locations[:, :d * d], B.data))
        if not chk.expect(ev.min() >= -1e-7 and np.allclose(ev.sum(axis=1), 1, atol=1e-7), "learn.physical", dict(case, step=i), [ev.min(), ev.sum(axis=1).max()]):
            return
    # the estimate is a state, too
    physical(chk, B, u.est_mean()[:d * d], "learn.estimate", case)
    chk.traces += 1


def run(chk):
    inv = ["Orthogonal", "AfterCanon", "OnceIsEnough", "PhysicalStays", "OrderKept", "BornRule", "Probs"]
    inv2 = ["RankFits", "MeanIsState", "PartsMultiply", "VarPositive"]
    N, M = chk.pick(130, 1500), chk.pick(60, 700)
    sim = lambda k: (lambda: chk.emitted("Tomo", cfg(dict(SIM=True, MAXOPS=3, MAXROWS=4), invariants=inv + ["Emit"], properties=["EpsKept"]), simulate=N, depth=5, seed=chk.seed * k, name="Tomo/sim"))
    res = parallel([lambda: chk.model("Tomo", cfg(dict(SIM=False, MAXOPS=2, MAXROWS=chk.pick(1, 2)), invariants=inv, properties=["EpsKept"]), workers=2, name="Tomo/exhaustive"),
                    lambda: chk.model("TomoDraw", cfg(dict(SIM=False), invariants=inv2), workers=1, name="TomoDraw/exhaustive"),
                    lambda: chk.emitted("TomoDraw", cfg(dict(SIM=True), invariants=inv2 + ["Emit"]), simulate=M, depth=3, seed=chk.seed * 227, name="TomoDraw/sim")] + [sim(k) for k in (181, 191, 193, 197)]
                   + [lambda: chk.emitted("Bases", cfg(dict(SIM=False, MAXDIM=4), invariants=["Sizes", "Apart", "Emit"]), workers=1, name="Bases/exhaustive"),
                      lambda: chk.emitted("Bases", cfg(dict(SIM=True, MAXDIM=12), invariants=["Sizes", "Apart", "Emit"]), simulate=chk.pick(40, 600), depth=3, seed=chk.seed * 239, name="Bases/sim")])
    for r in res[-2:]:
        for b in {repr(x): x for x in r}.values():
            bases(chk, b)
    for kind, d in (("pauli", 2), ("pauli", 4), ("gm", 2), ("gm", 3), ("gm", 4), ("gm", 5), ("product", 4), ("product", 6)):
        check_basis(chk, kind, d)
    n = 0
    seen = set()
    for r in res[3:7]:
        for b in r:
            k = repr(b)
            if k in seen:
                continue
            seen.add(k)
            n += 1
            replay(chk, b, n)
            if n % 9 == 0:
                learn(chk, b, n // 9)
    rs = np.random.RandomState(chk.seed)
    for k in range(chk.pick(6, 60)):
        d = [2, 3, 4][k % 3]
        wander(chk, d, "gm" if d == 3 or k % 2 else "pauli", [.002, .01, .004][k % 3] / (d if d > 2 else 1), [float(t) for t in rs.choice([.25, 1., 4., 9.], 2, replace=False)], chk.seed * 1000 + k, bool(k % 2))
    kinds = {"prior": 0, "heuristic": 0, "best": 0, "refused": 0}
    seen2, done = set(), set()
    for b in res[2]:
        k = repr(b)
        if k in seen2:
            continue
        seen2.add(k)
        t = b["c"]["what"]
        kinds[t] += 1
        if t == "prior":
            prior(chk, b, kinds[t], kinds[t] % 5 == 0)
        elif t in ("heuristic", "refused"):
            key = (b["c"]["h"], b["c"]["d"])
            heuristic(chk, b, kinds[t], key not in done)
            done.add(key)
        else:
            best(chk, b, kinds[t])
    chk.extra["cases"] = dict(kinds, behaviours=n)
    chk.sample({"world": b["c"]["what"], "behaviours": n})
