"""Feature importance against a double-precision recomputation."""
import numpy as np
from hypothesis import strategies as st

from checks import c13, c15
from lib import gen as G, models as M
from lib.core import Check, require, same, close

QUICK = 1                                     # times the numbers of cases below
NEEDS = ("dataset", "scoring", "analysis")


@st.composite
def case(draw, max_trees=5, max_leaves=8, max_docs=6, max_queries=5, inf=True):
    nf = draw(st.integers(1, 4))
    th = draw(st.lists(G.dyadics(4, 4), min_size=1, max_size=4))
    model = draw(G.ensembles(max_trees, max_leaves, nf, th, [1.0, -1.0, 0.5], weights=[1.0, 1.0, 0.5, 0.25, 0.1, 2.0, -1.0, 0.0]))
    pool = G.near(th) + [0.0, 1.0, -9.0, 9.0] + ([float("inf"), float("-inf")] if inf else [])
    sizes, ids = draw(G.grouping(max_queries, max_docs))
    n, w = sum(sizes), nf + draw(st.integers(0, 2))
    rs = np.random.RandomState(draw(st.integers(0, 2**31)))
    lab = draw(st.sampled_from([[0, 1], [0, 1, 2, 3, 4], [0, 1, 2, 3, 4], [2], [0, 0.5, 10]]))
    if draw(st.booleans()):
        pool = draw(st.lists(st.sampled_from(pool), min_size=1, max_size=5))
    ds = dict(X=[[pool[i] for i in rs.randint(len(pool), size=w)] for _ in range(n)], y=[float(lab[i]) for i in rs.randint(len(lab), size=n)],
              sizes=sizes, ids=ids)
    return dict(model=model, ds=ds, fmt=draw(st.sampled_from(["QuickRank", "Jforests", "LightGBM", "ScikitLearn"])),
                metric=draw(st.sampled_from([None, "MSE", "RMSE", "user"])), mname=draw(st.sampled_from([None, None, None, "root", "MSE", "RMSE"])), normalize=draw(st.sampled_from([False, False, True, None])),
                layout=draw(st.sampled_from(c15.LAYOUTS + ["float64"])), ydtype=draw(st.sampled_from(["float32", "float64", "int32"])),
                names=draw(st.booleans()))


def reference(model, weights, ds):
    """(importance, nodes reached by >= 2 documents or root, reached by >= 1
    or root, all split nodes, scale)"""
    X = np.array(ds["X"], dtype=np.float32)
    y = np.array(ds["y"], dtype=np.float64)
    n, w = X.shape
    imp, lo, hi, al = np.zeros(w), np.zeros(w, dtype=int), np.zeros(w, dtype=int), np.zeros(w, dtype=int)
    pred, scale = np.zeros(n), 0.0
    for t, wt in zip(model["trees"], weights):
        target = y - pred
        cur = np.full(n, target.mean())
        scale += (target ** 2).mean() + 1e-30
        stack = [(t, np.arange(n))]
        while stack:
            x, docs = stack.pop()
            if x[0] == "L":
                continue
            f = x[1]
            al[f] += 1
            lo[f] += len(docs) > 1 or x is t
            hi[f] += len(docs) > 0
            left = X[docs, f] <= np.float32(x[2])
            a, b = docs[left], docs[~left]
            before = ((target[docs] - cur[docs]) ** 2).sum()
            for s in (a, b):
                if len(s):
                    cur[s] = target[s].mean()
            imp[f] += (before - ((target[docs] - cur[docs]) ** 2).sum()) / n
            stack += [(x[3], a), (x[4], b)]
        pred = pred + np.float32(wt) * cur
    return imp, lo, hi, al, scale


def metric(kind, name=None):
    from rankeval.metrics import MSE, RMSE, Metric
    if kind == "MSE":
        return MSE() if name is None else MSE(name=name)
    if kind == "RMSE":
        return RMSE() if name is None else RMSE(name=name)

    class MeanSquares(Metric):                # not a subclass of MSE
        def __init__(self):
            Metric.__init__(self, "mean squares")

        def eval(self, dataset, y_pred):
            e = (np.asarray(dataset.y, dtype=np.float64) - np.asarray(y_pred, dtype=np.float64)) ** 2
            return e.mean(), e

        def eval_per_query(self, y, y_pred):
            return ((y - y_pred) ** 2).mean()
    return MeanSquares()


def mkds(c):
    from rankeval.dataset import Dataset
    ds = c["ds"]
    X = np.array(ds["X"], dtype=np.float64) if c["layout"] == "float64" else c15.arrange(ds["X"], c["layout"])
    y = np.array(ds["y"]).astype(c["ydtype"])
    return Dataset(X, y, np.array(G.unroll(ds["sizes"], ds["ids"]), dtype=np.int64))


def check(c, note, eps=2e-5):
    from rankeval.analysis.feature import feature_importance
    m = M.build(c["model"], c["fmt"])
    weights = c["model"]["weights"] if c["fmt"] in ("QuickRank", "Jforests") else [1.0] * len(c["model"]["trees"])
    ds = c["ds"] if c["ydtype"] != "int32" else dict(c["ds"], y=[float(int(v)) for v in c["ds"]["y"]])
    d = mkds(c)
    imp, lo, hi, al, scale = reference(c["model"], weights, ds)
    X0, y0, before = d.X.copy(), d.y.copy(), c13.snapshot(m)
    kw = {}
    if c["metric"]:
        kw["metric"] = metric(c["metric"], c.get("mname"))
    if c["normalize"] is not None:
        kw["normalize"] = c["normalize"]
    for again in range(2):
        r = feature_importance(m, d, **kw)
    same("X after the analysis", d.X, X0)
    same("y after the analysis", d.y, y0)
    after = c13.snapshot(m)
    for a in c13.ARRAYS:
        same("%s after the analysis" % a, after[0][a], before[0][a])
    require(tuple(r.dims) == ("type", "feature") and list(r.coords["type"].values) == ["importance", "count"], "dimensions %s, types %s", r.dims,
            list(r.coords["type"].values))
    w = len(imp)
    same("features", np.asarray(r.coords["feature"].values).astype(int), list(range(w)))
    got = np.asarray(r.sel(type="importance").values, dtype=np.float64)
    cnt = np.asarray(r.sel(type="count").values)
    for f in range(w):
        top = al[f] if c["metric"] == "user" else max(hi[f], lo[f])
        require(lo[f] <= cnt[f] <= top, "feature %d: count %r, %d split nodes on it reached by several documents, %d by any, %d in all", f, cnt[f],
                lo[f], hi[f], al[f])
    require(np.isfinite(got).all(), "importance %s is not defined", got.tolist())
    tol = eps * scale
    want = imp
    if c["normalize"] is not False:
        mx = max(imp)
        if mx < 50 * tol:
            note("nothing to normalise by")
            return False
        require(abs(np.nanmax(got) - 1) < 1e-6, "largest normalised importance %r", got.max())
        if c["metric"] == "RMSE":
            got = got ** 2
        want, tol = imp / mx, 4 * tol / mx
    elif c["metric"] == "RMSE":
        got = got ** 2
    for f in range(w):
        require(abs(got[f] - want[f]) <= tol, "feature %d: importance %s %r instead of %r (all: %s, expected %s)", f,
                "squared" if c["metric"] == "RMSE" else "", got[f], want[f], got.tolist(), want.tolist())
    note("metric %s" % c["metric"])
    note("layout " + c["layout"])
    if (hi < al).any():
        note("nodes reached by no document")
    if any(t[0] == "L" for t in c["model"]["trees"]):
        note("single-leaf tree")
    if len(ds["y"]) == 1:
        note("single row")
    return (imp > 50 * tol).sum() > 0 and len(c["model"]["trees"]) > 1


@st.composite
def large(draw):
    """Counts and feature ids around the limit of 16 bits: a stump repeated
    many times, and a stump on a feature with a large id."""
    return dict(k=draw(st.sampled_from([3, 300, 32767, 32768, 65535, 65536, 70000])),
                f=draw(st.sampled_from([1, 5, 255, 256, 32767, 32768, 65535, 65536, 70000])), metric=draw(st.sampled_from([None, "user"])))


def check_large(c, note):
    from rankeval.analysis.feature import feature_importance
    model = dict(trees=[["S", 0, 0.5, ["L", 1.0], ["L", 2.0]]] * c["k"] + [["S", c["f"], 0.5, ["L", 1.0], ["L", 2.0]]], weights=[0.0] * (c["k"] + 1))
    k = c["k"] if c["metric"] is None else 3
    model = dict(trees=model["trees"][-k - 1:], weights=model["weights"][-k - 1:])
    m = M.build(model)
    X = np.zeros((4, c["f"] + 2), dtype=np.float32)
    X[2:, 0] = 1
    X[1::2, c["f"]] = 1
    d = M.dataset(dict(X=X, y=[0.0, 1.0, 0.0, 4.0], sizes=[4], ids=[1]))
    kw = dict(metric=metric(c["metric"], c.get("mname"))) if c["metric"] else {}
    r = feature_importance(m, d, normalize=False, **kw)
    require(tuple(r.shape) == (2, X.shape[1]), "shape %s for %d features", r.shape, X.shape[1])
    same("features", np.asarray(r.coords["feature"].values).astype(np.int64), np.arange(X.shape[1]))
    cnt = np.asarray(r.sel(type="count").values)
    imp = np.asarray(r.sel(type="importance").values, dtype=np.float64)
    require(cnt[0] == k and cnt[c["f"]] == 1 and cnt.sum() == k + 1, "counts %r and %r (all: %r) instead of %d and 1", cnt[0], cnt[c["f"]], cnt.sum(), k)
    # every tree has weight 0, so that each stump finds the labels as residuals
    sse = 2.6875
    g0, gf = sse - (0.25 + 4.0) / 2, sse - (0.0 + 2.25) / 2
    require(abs(imp[0] - k * g0) <= 1e-4 * k * g0 + 1e-3, "importance %r instead of %r", imp[0], k * g0)
    require(abs(imp[c["f"]] - gf) <= 1e-4, "importance of feature %d: %r instead of %r", c["f"], imp[c["f"]], gf)
    require(abs(imp.sum() - imp[0] - imp[c["f"]]) <= 1e-9, "importance given to other features")
    note("%d splits" % k)
    return k > 32767 or c["f"] > 32767


def grown_from(pick):
    return dict(seed=pick.int(0, 2**24), n=pick([1, 40, 300, 1025, 3000]), m=pick([1, 5, 20, 136, 300]), k=pick([1, 3, 20, 129, 300]), leaves=pick([2, 3, 8, 31, 64, 300]),
                lab=pick([[0, 1, 2, 3, 4], [0, 0, 0, 1]]), w=pick([0.05, 0.1, 0.3]), fmt=pick(["QuickRank", "Jforests"]), metric=pick([None, "MSE", "RMSE", "user"]), mname=pick([None, None, None, "root", "MSE", "RMSE"]),
                normalize=pick([False, True]), layout=pick(["C", "F", "float64"]), ydtype=pick(["float32", "float64", "int32"]), values=pick(["any", "rare", "rare"]))


def check_grown(c, note):
    rs = np.random.RandomState(c["seed"])
    k, leaves, n = c["k"], c["leaves"], c["n"]
    if c["metric"] == "user":                 # evaluated at every node
        k, leaves, n = min(k, 20), min(leaves, 31), min(n, 300)
    while k * leaves > 3000:
        k, leaves = (k + 1) // 2, max(2, leaves // 2)
    th = rs.randint(-20, 20, 20) / 4.0
    model = dict(trees=[c15.grow(rs, leaves, c["m"], th) for _ in range(k)], weights=[c["w"]] * k)
    X = rs.randint(-24, 24, (n, c["m"])) / 4.0
    if c["values"] == "rare":                 # all the rows but a few have the same value
        few = np.where(rs.rand(c["m"]) < .7, rs.randint(0, 5, c["m"]), rs.randint(0, n + 1, c["m"]))
        less = np.argsort(rs.rand(n, c["m"]), axis=0) < few
        X = np.where(less ^ (rs.rand(c["m"]) < .5), -6.0, 6.0)
    ds = dict(X=[[float(v) for v in r] for r in X], y=[float(c["lab"][i]) for i in rs.randint(len(c["lab"]), size=n)],
              sizes=[n], ids=[1])
    note("%d rows" % n)
    note("%d trees" % k)
    check(dict(c, model=model, ds=ds), note, 1e-4)
    return n > 100 and k * leaves > 100


def check_vast(c, note):
    """Tens of thousands of rows, a few small trees."""
    from rankeval.analysis.feature import feature_importance
    rs = np.random.RandomState(c["seed"])
    n = c["n"]
    th = rs.randint(-20, 20, 20) / 4.0
    model = dict(trees=[c15.grow(rs, c["leaves"], c["m"], th) for _ in range(c["k"])], weights=[0.25] * c["k"])
    X = (rs.randint(-24, 24, (n, c["m"])) / 4.0).astype(np.float32)
    y = np.where(X[:, 0] > 0, rs.randint(0, 5, n), rs.randint(0, 2, n)).astype(np.float32)
    m = M.build(model)
    d = M.dataset(dict(X=X, y=y, sizes=[n // 2, n - n // 2], ids=[1, 2]))
    imp, lo, hi, al, scale = reference(model, model["weights"], dict(X=X, y=y))
    r = feature_importance(m, d, normalize=False)
    got, cnt = np.asarray(r.sel(type="importance").values, dtype=np.float64), np.asarray(r.sel(type="count").values)
    require(((lo <= cnt) & (cnt <= np.maximum(hi, lo))).all(), "counts %s instead of %s to %s", cnt.tolist(), lo.tolist(), hi.tolist())
    tol = 1e-3 * scale                        # sums in single precision of as many rows
    require((np.abs(got - imp) <= tol).all(), "%d rows: importance %s instead of %s", n, got.tolist(), imp.tolist())
    note("%d rows" % n)
    return n > 32767 and bool((imp > 20 * tol).any())


R = "two trees or more, and some importance well above the tolerance"
CHECKS = [
    Check("vast", st.fixed_dictionaries(dict(seed=st.integers(0, 2**31 - 1), n=st.sampled_from([9000, 33000, 66001, 140000]), m=st.integers(1, 3), k=st.integers(1, 4), leaves=st.sampled_from([2, 3, 8]))),
          check_vast, "more than 32767 rows, and some importance well above the tolerance", 24, 400, shards=2),
    Check("grown", G.picked(grown_from), check_grown, "more than 100 rows and more than 100 leaves", 100, 3000, shards=2),
    Check("large", large(), check_large, "more than 32767 splits on a feature, or a feature id above 32767", 30, 600, shards=2),
    Check("importance", case(), check, R, 1500, 60000, shards=4),
    Check("threads", case(max_docs=12), check, R, 250, 8000, threads=4),
    Check("asan", case(), check, R, 300, 12000, asan="rankeval.analysis._efficient_feature"),
    Check("deep", case(max_trees=2, max_leaves=30, max_docs=12, inf=False), check, R, 200, 8000),
]
