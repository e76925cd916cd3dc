"""C23: numerical routines on inputs with exactly known answers (spec/Geometry.tla)."""
import numpy as np
from scipy.special import gamma
from lib.vlib import import_qinfer, parallel, cfg, call, rat

qinfer = import_qinfer()
import qinfer.utils as U
from qinfer.finite_difference import FiniteDifference


def mvee(chk, c, f, n):
    d, s = c["d"], float(c["scale"])
    V, I = np.array(c["hull"], float), np.array(c["inside"], float).reshape(-1, d)
    P = np.vstack([V, I]) / s
    rs = np.random.RandomState(n)
    P = P[rs.permutation(len(P))]
    A0 = np.linalg.inv(np.array(f["LLt"], float)) / 4 / f["rad2"] * s * s
    c0 = np.array(f["centre"], float) / s
    case = {"points": P.tolist()}
    tol = [None, 1e-2, 1e-4][n % 3]
    before = P.copy()
    o = call(U.mvee, P, tol) if tol else call(U.mvee, P)
    if not chk.expect(o.exc == "" and len(o.value) == 2 and np.shape(o.value[0]) == (d, d) and np.shape(o.value[1]) == (d,), "mvee.failed", case, o.exc + " " + o.msg):
        return
    A, ctr = np.array(o.value[0]), np.array(o.value[1])
    tol = tol or 1e-3
    slack = 6 * tol * (d + 1)
    y = P - ctr
    r = np.einsum("ij,jk,ik->i", y, A, y)
    chk.expect(np.allclose(A, A.T, rtol=1e-6, atol=1e-9 * np.abs(A).max()) and np.linalg.eigvalsh((A + A.T) / 2)[0] > 0, "mvee.definite", case)
    chk.expect(r.max() <= 1 + slack, "mvee.contains", dict(case, tol=tol), r.max())
    # as small as the smallest, within the tolerance
    v = np.sqrt(np.linalg.det(A0) / np.linalg.det(A))
    chk.expect(1 - 2 * slack * d <= v <= 1 + 2 * slack * d, "mvee.volume", dict(case, tol=tol), v)
    z = c0 - ctr
    chk.expect(z @ A0 @ z <= 4 * slack, "mvee.centre", dict(case, tol=tol), z.tolist())
    chk.expect(np.array_equal(P, before), "mvee.argument", case)
    # the points are inside of the ellipsoid grown by the slack, in the other convention of its matrix
    t = call(U.in_ellipsoid, P, np.linalg.inv(A) * (1 + slack) * (1 + 1e-9), ctr)
    chk.expect(t.exc == "" and bool(np.all(t.value)), "mvee.in_ellipsoid", case)


def inout(chk, c, f, n):
    A, s, X = np.array(c["A"], float), np.array(c["centre"], float), np.array(c["points"], float) / 8
    case = {k: c[k] for k in ("A", "centre", "points")}
    o = call(U.in_ellipsoid, X, A, s)
    if not chk.expect(o.exc == "" and np.shape(o.value) == (len(X),), "in_ellipsoid.failed", case, o.exc + o.msg):
        return
    for k, (x, q) in enumerate(zip(X, f["cmp"])):
        one = call(U.in_ellipsoid, x, A, s)
        chk.expect(one.exc == "" and np.ndim(one.value) == 0, "in_ellipsoid.single", case, one.exc)
        if q == 0 and not np.array_equal(A, np.diag(np.diag(A))):
            continue                            # on the surface, up to rounding
        if q == 0 and np.any(np.log2(np.diag(A)) % 1 != 0):
            continue
        chk.expect(bool(o.value[k]) == (q <= 0), "in_ellipsoid", dict(case, point=k), o.value[k])
        chk.expect(bool(one.value) == (q <= 0), "in_ellipsoid.single", dict(case, point=k), one.value)


def volume(chk, c, f, n):
    d, B = c["d"], np.array(c["invA"], float)
    want = np.pi ** (d / 2.) / gamma(1 + d / 2.) * f["det"]
    case = {"invA": c["invA"]}
    for kw in ({"invA": B}, {"A": np.linalg.inv(B)}):
        o = call(U.ellipsoid_volume, **kw)
        chk.expect(o.exc == "" and np.allclose(o.value, want, rtol=1e-6), "volume", dict(case, given=list(kw)), "%s for %s" % (o.value, want))
    chk.expect(call(U.ellipsoid_volume).exc == "ValueError", "volume.nothing", case)


def root(chk, c, f, n):
    d = c["d"]
    ph = np.array(c["phase"]) if n % 3 else np.zeros(d, int)
    A = np.zeros((d, d), complex)
    want = np.zeros((d, d), complex)
    z = float(c["scale"])
    for v, r, q in zip(c["frame"], c["roots"], f["roots"]):
        v = np.array(v) * 1j ** ph
        P = np.outer(v, v.conj()) / np.vdot(v, v).real
        A += r * abs(r) * z * z * P
        want += q * z * P
    if not np.any(ph) or d == 1:
        A, want = A.real, want.real
    case = {"spectrum": [r * abs(r) * z * z for r in c["roots"]], "frame": c["frame"], "phase": ph.tolist()}
    before = A.copy()
    o = call(U.sqrtm_psd, A)
    if not chk.expect(o.exc == "" and len(o.value) == 2 and np.shape(o.value[0]) == (d, d), "sqrtm_psd.failed", case, o.exc + o.msg):
        return
    S, err = o.value
    tol = 2e-6 * z * (1 + max(map(abs, c["roots"])))
    chk.expect(np.abs(S - want).max() <= tol, "sqrtm_psd", case, np.abs(S - want).max())
    chk.expect(np.allclose(S, np.conj(S.T), atol=tol), "sqrtm_psd.hermitian", case)
    chk.expect(abs(err - np.sqrt(f["lost"]) * z * z) <= 10 * tol * z * 7, "sqrtm_psd.error", case, "%s for %s" % (err, np.sqrt(f["lost"]) * z * z))
    chk.expect(abs(np.linalg.norm(S @ S - A) - err) <= 1e-6 * z * z * 50, "sqrtm_psd.reported", case, err)
    chk.expect(np.array_equal(A, before), "sqrtm_psd.argument", case)
    o = call(U.sqrtm_psd, A, est_error=False)
    chk.expect(o.exc == "" and np.shape(o.value) == (d, d) and np.abs(o.value - want).max() <= tol, "sqrtm_psd.plain", case, o.exc)


def stick(chk, c, f, n):
    K = c["K"]
    Y = np.log(np.array([[rat(v) for v in r] for r in c["odds"]], float))
    X = np.array([[rat(v) for v in r] for r in f["x"]], float)
    shapes = [Y.shape] if len(Y) > 1 else [Y.shape, (K,)]
    if len(Y) == 4:
        shapes.append((2, 2, K))
    for sh in shapes:
        y, x = Y.reshape(sh), X.reshape(sh)
        case = {"odds": c["odds"], "shape": list(sh)}
        a, b = call(U.to_simplex, y.copy()), call(U.from_simplex, x.copy())
        chk.expect(a.exc == "" and np.shape(a.value) == sh and np.allclose(a.value, x, atol=1e-10), "to_simplex", case, a.exc or a.value)
        chk.expect(b.exc == "" and np.shape(b.value) == sh and np.allclose(b.value, y, atol=1e-8), "from_simplex", case, b.exc or b.value)
        if a.exc == "" and b.exc == "":
            a2, b2 = call(U.from_simplex, a.value), call(U.to_simplex, b.value)
            chk.expect(np.allclose(a2.value, y, atol=1e-8) and np.allclose(b2.value, x, atol=1e-10), "simplex.inverse", case)


def diff(chk, c, f, n):
    d, poly = c["d"], c["poly"]

    def func(x):
        x = np.asarray(x, float)
        return sum(m["k"] * np.prod([x[..., j] ** e for j, e in enumerate(m["e"])], axis=0) for m in poly)
    h = [rat(v) for v in c["h"]]
    x = np.array([rat(v) for v in c["x"]], float)
    grad, quot = np.array([rat(v) for v in f["grad"]], float), np.array([rat(v) for v in f["quot"]], float)
    case = {"poly": poly, "x": x.tolist(), "h": h}
    D = FiniteDifference(func, d, h=h[0] if c["same"] else np.array(h))
    before = x.copy()
    for call_it in (D, D.central):
        o = call(call_it, x)
        if not chk.expect(o.exc == "" and np.shape(o.value) == (d,), "difference.failed", case, o.exc + o.msg):
            return
        g = np.array(o.value)
        for j in range(d):
            if f["exact"][j]:
                chk.expect(abs(g[j] - grad[j]) <= 1e-8 * (1 + abs(grad[j])), "difference", dict(case, argument=j), "%s for %s" % (g[j], grad[j]))
            else:
                chk.expect(abs(g[j] - grad[j]) <= abs(quot[j] - grad[j]) * 1.5 + 1e-8 * (1 + abs(grad[j])), "difference.order", dict(case, argument=j), "%s for %s" % (g[j], grad[j]))
    chk.expect(np.array_equal(x, before), "difference.argument", case)
    small = call(FiniteDifference(func, d, 1e-5), x)
    plain = call(FiniteDifference(func, d), x)       # the default step is so small that rounding prevails
    chk.expect(plain.exc == "" and np.allclose(plain.value, grad, rtol=1e-3, atol=2e-4 * (1 + abs(func(x)))), "difference.default", case, plain.exc or "%s for %s" % (plain.value, grad))
    chk.expect(small.exc == "" and np.allclose(small.value, grad, rtol=1e-4, atol=1e-4), "difference.converges", case)


def multi(chk, c, f, n):
    N = np.array(c["ns"]).T
    P = np.array([[rat(v) for v in r] for r in c["ps"]], float).T
    want = np.array([rat(v) for v in f["pr"]], float)
    case = {"n": N.tolist(), "p": P.tolist(), "last_left_out": c["last"]}
    o = call(U.multinomial_pdf, N, P[:-1] if c["last"] else P)
    chk.expect(o.exc == "" and np.shape(o.value) == want.shape and np.allclose(o.value, want, rtol=1e-8, atol=1e-12), "multinomial", case, o.exc or o.value)
    if c["k"] == 2:
        b = call(U.binomial_pdf, N.sum(axis=0), N[0], P[0])
        chk.expect(b.exc == "" and np.allclose(b.value, want, rtol=1e-8, atol=1e-12), "binomial", case, b.exc or b.value)
    if len(want) == 4 and n % 2:                 # more axes
        o = call(U.multinomial_pdf, N.reshape(-1, 2, 2), (P[:-1] if c["last"] else P).reshape(-1, 2, 2))
        chk.expect(o.exc == "" and np.shape(o.value) == (2, 2) and np.allclose(np.ravel(o.value), want, rtol=1e-8, atol=1e-12), "multinomial.shape", case, o.exc)


def draws(chk, c, f, n):
    P = np.array([[rat(v) for v in r] for r in c["ps"]], float).T
    size = c["size"]
    arg = None if not size else size[0] if len(size) == 1 else tuple(size)
    case = {"p": P.tolist(), "N": c["N"], "size": size}
    np.random.seed(n)
    o = call(U.sample_multinomial, c["N"], P, arg) if size or n % 2 else call(U.sample_multinomial, c["N"], P)
    if not chk.expect(o.exc == "" and list(np.shape(o.value)) == f["shape"], "draws.shape", case, o.exc or np.shape(o.value)):
        return
    S = np.array(o.value)
    chk.expect(np.all(S >= 0) and np.all(S.sum(axis=0) == c["N"]), "draws.sum", case)
    for i, j in f["never"]:
        chk.expect(np.all(S[i - 1, j - 1] == 0), "draws.impossible", dict(case, side=i, column=j))
    if c["N"] == 12 and len(size) == 1:
        S = np.array(U.sample_multinomial(12, P, 800))
        sd = np.sqrt(12 * P * (1 - P) / 800)
        chk.expect(np.all(np.abs(S.mean(axis=-1) - 12 * P) <= 6.5 * sd + 1e-9), "draws.mean", case, S.mean(axis=-1).tolist())


def compact(chk, c, f, n):
    o = call(U.compactspace, rat(c["scale"]), c["n"])
    want = rat(c["scale"]) * np.log([a / float(b) for a, b in f["odds"]])
    chk.expect(o.exc == "" and np.shape(o.value) == want.shape and np.allclose(o.value, want, atol=1e-10), "compactspace", dict(c), o.exc or o.value)


def run(chk):
    inv = ["Encloses", "Simplex", "Central", "Probable", "Frame", "Form"]
    N = chk.pick(110, 1400)
    sim = lambda k: (lambda: chk.emitted("Geometry", cfg(dict(SIM=True), invariants=inv + ["Emit"]), simulate=N, depth=3, seed=chk.seed * k, name="Geometry/sim"))
    res = parallel([lambda: chk.model("Geometry", cfg(dict(SIM=False), invariants=inv), workers=2, name="Geometry/exhaustive"), sim(211), sim(223)])
    fn = dict(mvee=mvee, inout=inout, volume=volume, root=root, stick=stick, diff=diff, multi=multi, draws=draws, compact=compact)
    n = {}
    seen = set()
    for r in res[1:]:
        for b in r:
            k = repr(b)
            if k in seen:
                continue
            seen.add(k)
            w = b["c"]["what"]
            n[w] = n.get(w, 0) + 1
            with np.errstate(all="ignore"):
                fn[w](chk, b["c"], b["f"], n[w])
            chk.traces += 1
    # probabilities that rounding leaves just above one in sum
    rs = np.random.RandomState(chk.seed)
    for t in range(chk.pick(1500, 20000)):
        wt = rs.randint(1, 30, rs.randint(3, 9))
        p = wt / float(wt.sum())
        v = call(U.multinomial_pdf, np.append(np.ones(len(p), int), 0)[:, None], p[:, None])
        want = np.prod(p) * np.prod(np.arange(1, len(p) + 1))
        chk.expect(v.exc == "" and np.allclose(v.value, want, rtol=1e-8, atol=0), "multinomial.rounding", {"weights": wt.tolist()}, v.exc or v.value)
    chk.extra["cases"] = n
    chk.sample({"what": w, "cases": n[w]})
