"""The definition check shared by the metric properties."""
import numpy as np
from hypothesis import strategies as st

from . import gen as G, metricref as R
from .core import require, fail, same, close


@st.composite
def case(draw, kinds, **kw):
    c = draw(R.query_data(**kw))
    c["metric"] = draw(R.specs(kinds))
    return c


def check(c, note):
    spec = c["metric"]
    m = R.make(spec)
    d = R.mkds(c)
    p = np.array(c["p"], dtype=c["dtype"])
    y = np.array(c["y"], dtype=np.float32)
    out = m.eval(d, p)
    require(isinstance(out, (tuple, list)) and len(out) == 2, "%s: eval returned %r", spec, out)
    mean, det = out
    det = np.asarray(det)
    require(det.shape == (len(c["sizes"]),), "%s: %s values for %d queries", spec, det.shape, len(c["sizes"]))
    skipped = False
    for i, (a, b) in enumerate(R.slices(c)):
        ok = R.acceptable(spec, y[a:b], p[a:b])
        if ok is None:
            skipped = True
            continue
        v = m.eval_per_query(y[a:b], p[a:b])
        require(R.near_any(v, ok, kind=spec["kind"]), "%s: labels %s predictions %s give %r instead of %s", spec, y[a:b].tolist(), p[a:b].tolist(),
                float(v), ok[:5])
        w = [x / len(y) for x in ok] if spec["kind"] == "MSE" else ok
        require(R.near_any(det[i], w, kind=spec["kind"]), "%s: query %d (labels %s predictions %s) is reported as %r instead of %s", spec, i,
                y[a:b].tolist(), p[a:b].tolist(), float(det[i]), w[:5])
    fin = det[~np.isnan(det)].astype(np.float64)
    want = fin.sum() if spec["kind"] == "MSE" else fin.mean() if len(fin) else float("nan")
    require(R.near_any(mean, [want], kind=spec["kind"]), "%s: aggregate %r of the values %s", spec, float(mean), det.tolist())
    same("labels after evaluating", d.y, y)
    same("predictions after evaluating", p, np.array(c["p"], dtype=c["dtype"]))
    note(spec["kind"])
    if "cutoff" in spec["kw"]:
        note("with cutoff")
    if len(set(c["p"])) < len(c["p"]):
        note("tied predictions")
    if skipped:
        note("a query with too many tie orders (skipped)")
    return len(c["y"]) > 2 and len(set(c["y"])) > 1


CUTS = [1, 2, 3, 3, 4, 5, 6, 7, 8, 9, 15, 16, 20, 31, 33, 50, 64, 65, 100, 127, 128, 200, 254, 255, 256, 257, 500, 1000, 1024, 2000]


def grown(kinds):
    def make(pick):
        return dict(c=R.grown_from(pick), metrics=[R.specs_from(pick, kinds, 20, CUTS) for _ in range(pick.int(2, 5))],
                    again=pick(["no", "labels", "labels", "predictions", "both"]))
    return G.picked(make)


def within(v, lo, hi, kind=None):
    v = float(v)
    if lo != lo:
        return v != v
    t = (1e-36 if kind in R.ERRORS else 1e-6) + 2e-5 * max(abs(lo), abs(hi))
    return lo - t <= v <= hi + t


def check_grown(c, note):
    """Larger queries, more queries: value within the bounds of the tied
    orders, also for other labels of the same queries and the same object."""
    slow = any(s["kind"] == "Kendalltau" for s in c["metrics"])
    first = R.grow(c["c"], 1500 if slow else 6000)
    data = [first]
    if c["again"] != "no":
        d2, rs = dict(first), np.random.RandomState(c["c"]["seed"] % 1000)
        if c["again"] != "predictions":
            d2["y"] = [first["y"][i] for i in rs.permutation(len(first["y"]))]
            if c["again"] == "both":
                d2["y"] = [v + 1.0 for v in d2["y"]]
        if c["again"] != "labels":
            d2["p"] = [first["p"][i] for i in rs.permutation(len(first["p"]))]
        data += [d2, first]
    dss = [R.mkds(d) for d in data[:2]]
    dss.append(dss[0])
    for spec in c["metrics"]:
        m = R.make(spec)
        for d, ds in zip(data, dss):
            one_grown(spec, m, d, ds, note)
    return len(first["y"]) > 100 and len(set(first["y"])) > 1


def one_grown(spec, m, d, ds, note):
    p, y = np.array(d["p"], dtype=d["dtype"]), np.array(d["y"], dtype=np.float32)
    p0 = p.copy()
    mean, det = m.eval(ds, p)
    det = np.asarray(det)
    require(det.shape == (len(d["sizes"]),), "%s: %s values for %d queries", spec, det.shape, len(d["sizes"]))
    for i, (a, b) in enumerate(R.slices(d)):
        key = (a, repr(spec))
        if key not in d.setdefault("_bounds", {}):
            d["_bounds"][key] = R.bounds(spec, y[a:b], p[a:b])
        lh = d["_bounds"][key]
        if lh is None:
            continue
        n = len(y) if spec["kind"] == "MSE" else 1.0
        require(within(det[i], lh[0] / n, lh[1] / n, spec["kind"]), "%s: query %d of %d documents is reported as %r instead of %s", spec, i, b - a, float(det[i]),
                (lh[0] / n, lh[1] / n))
        if i % max(1, len(det) // 4) == 0:
            v = m.eval_per_query(y[a:b], p[a:b])
            require(within(v, *lh, kind=spec["kind"]), "%s: %d documents alone give %r instead of %s", spec, b - a, float(v), lh)
    fin = det[~np.isnan(det)].astype(np.float64)
    want = fin.sum() if spec["kind"] == "MSE" else fin.mean() if len(fin) else float("nan")
    require(R.near_any(mean, [want], kind=spec["kind"]), "%s: aggregate %r instead of %r", spec, float(mean), want)
    same("labels after evaluating", ds.y, y)
    same("predictions after evaluating", p, p0)
    note(spec["kind"])
    note("%s queries" % ("1" if len(det) == 1 else "2-100" if len(det) <= 100 else "more than 100"))
    if max(d["sizes"]) > 256:
        note("a query of more than 256 documents")


def vast(kinds):
    """Tens of thousands of documents or queries."""
    def make(pick):
        big = pick([False, True])
        return dict(c=dict(seed=pick.int(0, 2**24), queries=pick([1, 1, 2, 7]) if big else pick([5500, 11000, 20000, 33000]), docs=pick([9000, 17000, 33000, 66000]) if big else pick([1, 2, 3]),
                           labels=pick([[0, 1], [0, 1, 2, 3, 4], [0, 0, 0, 0, 0, 0, 1], [4, 3]]), dtype=pick(["float32", "float64"]), spread=pick.bool(), gap=pick.bool(),
                           order=pick(["up", "any"]), preds=pick(["distinct", "sorted", "reversed", "informed", "negative"])),
                    metrics=[R.specs_from(pick, kinds, 20, CUTS + [4097, 9000, 20000])], again="no")
    return G.picked(make)


def check_vast(c, note):
    cap = 5000 if c["metrics"][0]["kind"] == "Kendalltau" else 66000
    g = c["c"]
    k = min(g["queries"], max(1, cap // 2))
    first = R.grow(dict(g, queries=k, docs=max(1, min(g["docs"], cap // k))), cap)
    one_grown(c["metrics"][0], R.make(c["metrics"][0]), first, R.mkds(first), note)
    return len(first["y"]) > 5000 and len(set(first["y"])) > 1


SCALED = ["DCG", "NDCG", "Precision", "Recall", "MAP", "MRR", "RBP", "MSE", "RMSE", "Kendalltau", "SpearmanRho"]


def scaled(kinds):
    """Labels times a power of two (thresholds, and predictions for the errors,
    too): DCG with linear gains grows as much, the squared error as the square,
    all other values remain."""
    @st.composite
    def make(draw):
        c = draw(R.query_data())
        c["metric"] = draw(R.specs([k for k in kinds if k in SCALED]))
        if "implementation" in R.DEFAULTS.get(c["metric"]["kind"], {}):
            c["metric"]["kw"]["implementation"] = "flat"
        c["bits"] = draw(st.sampled_from([-40, -30, -20, -3, 5, 20, 40]))
        return c
    return make()


def check_scaled(c, note):
    spec, f = c["metric"], 2.0 ** c["bits"]
    kind, kw = spec["kind"], dict(spec["kw"])
    if "threshold" in R.DEFAULTS.get(kind, {}):
        kw["threshold"] = kw.get("threshold", 1) * f
    p = np.array(c["p"], dtype=c["dtype"])
    q = p * np.asarray(f, dtype=p.dtype) if kind in R.ERRORS else p
    d, e = R.mkds(c), R.mkds(dict(c, y=[v * f for v in c["y"]]))
    a, b = R.make(spec).eval(d, p), R.make(dict(kind=kind, kw=kw)).eval(e, q)
    fac = f if kind in ("DCG", "RMSE") else f * f if kind == "MSE" else 1.0
    for i in range(len(c["sizes"])):
        x, z = float(a[1][i]) * fac, float(b[1][i])
        low = abs(float(a[1][i])) * fac
        if kind in R.ERRORS:                   # the squares, in both cases: no underflow in single precision
            low = min(abs(float(a[1][i])), low)
            low = low * low if kind == "RMSE" else low
        if not low < 1e-30:
            require(x != x and z != z or abs(x - z) <= 1e-5 * max(abs(x), abs(z)), "%s: query %d is %r, with labels times %g it is %r", spec, i, float(a[1][i]), f, z)
    note(kind)
    return len(set(c["y"])) > 1
