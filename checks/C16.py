"""C16: outcome domains (spec/Domains.tla)."""
import math
from collections import Counter
import numpy as np
from numpy.lib import recfunctions as rf
from lib.vlib import import_qinfer, parallel, cfg, call

TOK = {901: float("nan"), 902: float("inf"), 903: 1 + 1j}


def build(q, d):
    if d["k"] in ("int", "real"):
        kw = {}
        if d["lo"] != -1000:
            if d["k"] != "int" or d["lo"] != 0 or d["hi"] == 2:      # integers start at zero by default
                kw["min"] = d["lo"]
        elif d["k"] == "int" or d["hi"] % 2:
            kw["min"] = -np.inf
        if d["hi"] != 1000:
            kw["max"] = d["hi"]
        return (q.IntegerDomain if d["k"] == "int" else q.RealDomain)(**kw)
    if d["k"] == "mult":
        return q.MultinomialDomain(n_meas=d["n"], **({} if d["m"] == 2 and d["n"] % 2 else {"n_elements": d["m"]}))
    ds = [build(q, x) for x in d["ds"]]
    return q.ProductDomain(ds) if d["form"] == "list" else q.ProductDomain(*ds)


def leaves(d):
    return [k for x in d["ds"] for k in leaves(x)] if d["k"] == "prod" else ["real" if d["k"] == "real" else "int"] * d.get("m", 1)


def flat(a):
    """Components of every entry of a (structured) array as the last axis."""
    a = np.asarray(a)
    if a.dtype.names is None:
        return a[..., None].astype(float)
    out = rf.structured_to_unstructured(np.ascontiguousarray(a), dtype=float)
    return out.reshape(a.shape + (-1,))


def layout(a, how):
    """The same values in another memory layout."""
    if how == "F" and a.ndim:
        return np.asfortranarray(a)
    if how == "strided" and a.ndim:
        big = np.empty((2 * a.shape[0],) + a.shape[1:], dtype=a.dtype)
        big[::2] = a
        big[1::2] = a[:1]
        return big[::2]
    if how == "reversed" and a.ndim:
        return np.ascontiguousarray(a[::-1])[::-1]
    if how == "swapped" and a.ndim > 1:
        return np.ascontiguousarray(a.swapaxes(0, -1)).swapaxes(0, -1)
    return np.ascontiguousarray(a).reshape(a.shape)


def array(dom, d, points, shape):
    """Array of the domain's dtype holding the points (given in halves)."""
    v = [[TOK.get(c, c / 2) for c in p] for p in points]
    if d["k"] in ("int", "real"):
        w = np.array([p[0] for p in v])
        if d["k"] == "int" and not np.iscomplexobj(w) and np.all(np.mod(w, 1) == 0):
            w = w.astype(dom.dtype)
        return w.reshape(shape)
    w = np.array(v, dtype=float).reshape(len(points), -1)
    return rf.unstructured_to_structured(w, dtype=np.dtype(dom.dtype)).reshape(shape)


def replay(chk, q, b):
    d = b["d"]
    o = call(build, q, d)
    if not chk.expect(o.exc == "", "construct", {"domain": d}, o.exc + " " + o.msg + o.tb):
        return
    dom = o.value
    for s in b["steps"]:
        case = {"domain": d, "op": {k: s[k] for k in s if k not in ("members",)}}
        E = lambda cond, clause, detail="": chk.expect(cond, clause, case, detail)
        if s["op"] == "look":
            E(bool(dom.is_finite) == s["finite"], "is_finite", str(dom.is_finite))
            E(bool(dom.is_continuous) == s["continuous"] and bool(dom.is_discrete) != s["continuous"], "is_continuous", str(dom.is_continuous))
            E(dom.n_members == (s["count"] if s["finite"] else np.inf), "n_members", "%s, expected %s" % (dom.n_members, s["count"]))
            o = call(lambda: dom.example_point)
            E(o.exc == "" and np.asarray(o.value).dtype == np.dtype(dom.dtype), "example_point.dtype", "%s %s" % (o.exc, o.value))
            E(o.exc == "" and bool(dom.in_domain(o.value)), "example_point.in_domain", str(o.value))
            o = call(lambda: dom.values)
            if E(o.exc == "" and np.ndim(o.value) == 1, "values", o.exc + o.msg + o.tb):
                got = Counter(tuple(int(c) if c == int(c) else c for c in p) for p in flat(o.value))
                E(np.asarray(o.value).dtype == np.dtype(dom.dtype), "values.dtype", str(np.asarray(o.value).dtype))
                E(bool(dom.in_domain(o.value)), "values.in_domain", str(o.value)[:200])
                if s["finite"]:
                    want = Counter(tuple(p) for p in s["members"])
                    E(got == want, "values.members", "missing %s, extra %s" % (list((want - got).items())[:4], list((got - want).items())[:4]))
        elif s["op"] == "probe":
            a = layout(array(dom, d, s["points"], tuple(s["shape"])), s["layout"])
            keep = a.copy()
            o = call(dom.in_domain, a)
            E(o.exc == "" and bool(np.all(o.value)) == s["in"] and np.ndim(o.value) == 0, "in_domain", "%s %s, expected %s for %s" % (o.exc + o.msg, o.value, s["in"], str(a)[:200]))
            E(keep.tobytes() == a.copy().tobytes(), "inputs_modified")
            if a.ndim == 0 and d["k"] in ("int", "real"):
                o = call(dom.in_domain, a[()])
                E(o.exc == "" and bool(o.value) == s["in"], "in_domain.scalar", "%s %s" % (o.exc + o.msg, o.value))
        elif s["op"] == "alien":
            o = call(dom.in_domain, array(q.MultinomialDomain(n_meas=d["n"], n_elements=s["m2"]), d, s["points"], (len(s["points"]),)))
            E(o.exc == "" and not np.any(o.value), "in_domain.other_length", "%s %s" % (o.exc + o.msg, o.value))
        else:
            shape = tuple(s["shape"])
            v = np.array([[c / 2 for c in p] for p in s["points"]]).reshape(shape + (-1,))
            a = layout(array(dom, d, s["points"], shape), s["layout"])
            if d["k"] == "mult":
                reg = layout(v.astype(int), s["layout2"])
                o = call(dom.from_regular_array, reg)
                E(o.exc == "" and np.asarray(o.value).dtype == np.dtype(dom.dtype) and np.shape(o.value) == shape and np.array_equal(flat(o.value), v), "from_regular_array",
                  "%s shape %s: %s" % (o.exc + o.msg, np.shape(o.value), str(o.value)[:200]))
                o = call(dom.to_regular_array, a)
                E(o.exc == "" and np.shape(o.value) == v.shape and np.array_equal(o.value, v), "to_regular_array", "%s %s: %s" % (o.exc + o.msg, np.shape(o.value), str(o.value)[:200]))
                o = call(lambda: dom.to_regular_array(dom.from_regular_array(reg)))
                E(o.exc == "" and np.array_equal(o.value, v), "round_trip", o.exc + o.msg)
                o = call(dom.from_regular_array, reg + 0.5)
                E(o.exc != "", "from_regular_array.fractions", "fractions become %s" % (o.value,))
                continue
            if not shape:
                shape, a = (1,), a.reshape(1)
                v = v.reshape(1, -1)
            at = np.cumsum([0] + s["split"])
            facs = [build(q, x) for x in d["ds"]]
            parts = [layout(array(f, x, [[2 * c for c in p] for p in v.reshape(-1, v.shape[-1])[:, at[i]:at[i + 1]]], shape), s["layout2"])
                     for i, (f, x) in enumerate(zip(facs, d["ds"]))]
            o = call(dom.to_regular_arrays, a)
            ok = o.exc == "" and len(o.value) == len(parts)
            E(ok and all(np.shape(x) == shape and np.array_equal(flat(x), flat(y)) and x.dtype == y.dtype for x, y in zip(o.value, parts)), "to_regular_arrays",
              "%s %s" % (o.exc + o.msg, None if not ok else [(np.shape(x), str(x)[:80]) for x in o.value]))
            o = call(dom.from_regular_arrays, parts)
            E(o.exc == "" and np.shape(o.value) == shape and o.value.dtype == np.dtype(dom.dtype) and np.array_equal(flat(o.value), v), "from_regular_arrays",
              "%s %s %s" % (o.exc + o.msg, np.shape(o.value), str(o.value)[:200]))
            o = call(q.utils.join_struct_arrays, parts)
            if E(o.exc == "" and np.array_equal(flat(o.value).reshape(-1, v.shape[-1]), v.reshape(-1, v.shape[-1])), "join_struct_arrays", o.exc + o.msg):
                o = call(q.utils.separate_struct_array, o.value, [p.dtype for p in parts])
                E(o.exc == "" and all(np.array_equal(flat(x).reshape(-1, flat(y).shape[-1]), flat(y).reshape(-1, flat(y).shape[-1])) for x, y in zip(o.value, parts)),
                  "separate_struct_array", o.exc + o.msg)
            if set(leaves(d)) == {"int"}:
                o = call(q.utils.separate_struct_array, a, np.dtype(int))
                E(o.exc == "" and len(o.value) == v.shape[-1] and all(np.array_equal(np.ravel(x), np.ravel(v[..., i])) for i, x in enumerate(o.value)),
                  "separate_struct_array.single_dtype", "%s %d arrays for %d fields" % (o.exc + o.msg, len(o.value or ()), v.shape[-1]))
    chk.traces += 1


def larger(chk, q, top):
    """Multinomial domains beyond what the specification enumerates: count and enumeration against the same formula."""
    for n in range(0, top + 1):
        for m in range(1, 7):
            want = math.comb(n + m - 1, m - 1)
            dom = q.MultinomialDomain(n_meas=n, n_elements=m)
            chk.expect(dom.n_members == want, "n_members", {"domain": ["mult", n, m]}, "%s, expected %d" % (dom.n_members, want))
            if want < 3000:
                o = call(lambda: flat(dom.values).astype(int))
                chk.expect(o.exc == "" and len({tuple(p) for p in o.value}) == want == len(o.value) and np.all(o.value >= 0) and np.all(o.value.sum(-1) == n),
                           "values.members", {"domain": ["mult", n, m]}, o.exc + o.msg)


def run(chk):
    q = import_qinfer()
    n = chk.pick(300, 6000)
    res = parallel([lambda i=i: chk.emitted("Domains", cfg(dict(DEPTH=5, BIG=i == 0), invariants=["Consistent", "Emit"]), simulate=n, depth=9,
                                            seed=chk.seed * 107 + i, name="Domains/%d" % i) for i in range(4)])
    with np.errstate(all="ignore"):
        for bs in res:
            for b in bs:
                replay(chk, q, b)
            if bs:
                chk.sample({"domain": bs[0]["d"], "ops": [s["op"] for s in bs[0]["steps"]]})
    larger(chk, q, chk.pick(12, 20))
