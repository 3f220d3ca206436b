"""The randomization test against the enumeration of the sign assignments."""
import itertools
import math

import numpy as np
from hypothesis import strategies as st

from lib import gen as G, models as M, metricref as R, world as W
from lib.core import Check, require, same

NEEDS = ("dataset", "scoring")


def exact(a, b):
    """(one-sided, two-sided) over all the sign assignments."""
    a, b = np.asarray(a, dtype=np.float64), np.asarray(b, dtype=np.float64)
    ok = ~(np.isnan(a) | np.isnan(b))
    d = a[ok] - b[ok]
    if not len(d):
        return None
    if d.sum() < 0:
        d = -d
    S = np.array(list(itertools.product([1.0, -1.0], repeat=len(d)))).dot(d)
    eps = 1e-9 * (np.abs(a[ok]).sum() + np.abs(b[ok]).sum())
    return (S >= d.sum() - eps).mean(), (np.abs(S) >= abs(d.sum()) - eps).mean()


def near(what, got, p, n):
    got = float(got)
    tol = 6.5 * math.sqrt(p * (1 - p) / n) + 12.0 / n if 0 < p < 1 else 1e-6
    require(abs(got - p) <= tol, "%s: %r instead of %r (tolerance %.3g, %d permutations)", what, got, p, tol, n)


def selector(values, f):
    """A tree whose output is values[i] for rows with i in feature f."""
    t = ["L", values[-1]]
    for i in range(len(values) - 2, -1, -1):
        t = ["S", f, i + 0.5, ["L", values[i]], t]
    return dict(trees=[t], weights=[1.0])


@st.composite
def vectors(draw):
    """Per-query values taken as they are: one document per query."""
    k = draw(st.integers(1, 9))
    kind = draw(st.sampled_from(["any", "any", "any", "dominated", "identical", "constant", "mirror", "nan"]))
    vals = draw(st.sampled_from([[0.0, 1.0], [0.0, 0.5, 1.0], [i / 8.0 for i in range(9)], [0.1, 0.2, 0.3, 0.7], [1 / 3.0, 2 / 3.0, 1.0, 0.0]]))
    rs = np.random.RandomState(draw(st.integers(0, 2**31)))
    ia, ib = rs.randint(len(vals), size=k).tolist(), rs.randint(len(vals), size=k).tolist()
    if kind == "dominated":
        ia, ib = [max(x) for x in zip(ia, ib)], [min(x) for x in zip(ia, ib)]
    elif kind == "identical":
        ib = list(ia)
    elif kind == "constant":
        ib = [x - 1 if x else 0 for x in ia]
    elif kind == "mirror":
        ib = ia[::-1]
    return dict(kind=kind, vals=[float(np.float32(v)) for v in vals], a=ia, b=ib,
                nan=[bool(x) for x in rs.randint(2, size=k)] if kind == "nan" else [False] * k,
                n_perm=draw(st.sampled_from([1500, 1500, 2500])), seed=draw(st.integers(0, 2**31)), swap=draw(st.booleans()),
                cache=draw(st.booleans()))


def check_vectors(c, note):
    from rankeval.analysis.statistical import statistical_significance
    from rankeval.dataset import Dataset
    from rankeval.metrics import Metric
    nan = c["nan"]

    class First(Metric):
        """The prediction of the first document, undefined on some queries."""
        def __init__(self):
            Metric.__init__(self, "first")

        def eval(self, dataset, y_pred):
            return Metric.eval(self, dataset, y_pred)

        def eval_per_query(self, y, y_pred):
            return np.nan if y[0] else y_pred[0]
    k = len(c["a"])
    X = np.array([c["a"], c["b"]], dtype=np.float32).T
    d = Dataset(X, np.array(nan, dtype=np.float32), np.arange(k))
    A, B = M.build(selector(c["vals"], 0)), M.build(selector(c["vals"], 1))
    va = [np.nan if z else c["vals"][i] for i, z in zip(c["a"], nan)]
    vb = [np.nan if z else c["vals"][i] for i, z in zip(c["b"], nan)]
    p = exact(va, vb)
    if p is None:
        return False
    orders = [(A, B, "")] + ([(B, A, " (systems exchanged)")] if c["swap"] else [])
    for x, y, how in orders:
        np.random.seed(c["seed"] % 2**32)
        m = First()
        r = statistical_significance([d], x, y, [m], n_perm=c["n_perm"], cache=c["cache"])
        W.dims(r, "dataset", "metric", "p-value")
        W.axis(r, "dataset", [d])
        W.axis(r, "metric", [m])
        require(list(r.coords["p-value"].values) == ["one-sided", "two-sided"], "p-values %s", r.coords["p-value"].values)
        p1, p2 = [float(v) for v in r.values[0, 0]]
        what = "a=%s b=%s%s" % (va, vb, how)
        require(0 <= p1 <= 1 and 0 <= p2 <= 1, "%s: p-values %r and %r", what, p1, p2)
        require(p1 <= p2 + 1e-6, "%s: one-sided %r above two-sided %r", what, p1, p2)
        if c["kind"] == "identical":
            require(p1 == 1 and p2 == 1, "%s: p-values %r and %r of identical systems", what, p1, p2)
        near(what + ": one-sided p-value", p1, p[0], c["n_perm"])
        near(what + ": two-sided p-value", p2, p[1], c["n_perm"])
    note(c["kind"])
    note("p < 0.05" if p[1] < 0.05 else "p >= 0.05")
    return p[1] < 1


@st.composite
def systems(draw):
    c = draw(W.worlds(max_datasets=2, max_models=2, max_metrics=2, max_queries=8, kinds=R.RANK + R.ERRORS + R.CORR))
    c["models"] = (c["models"] + c["models"])[:2]
    c["repeat"] = "metrics" if c["repeat"] else None
    c["n_perm"], c["seed"] = 1500, draw(st.integers(0, 2**31))
    return c


def check_systems(c, note):
    from rankeval.analysis.statistical import statistical_significance
    w = W.World(c)
    np.random.seed(c["seed"] % 2**32)
    r = statistical_significance(w.datasets, w.models[0], w.models[1], w.metrics, n_perm=c["n_perm"], cache=c["cache"])
    W.dims(r, "dataset", "metric", "p-value")
    W.axis(r, "dataset", w.datasets)
    W.axis(r, "metric", w.metrics)
    some = False
    for i, d in enumerate(w.datasets):
        for k, s in enumerate(c["metrics"]):
            va, vb = [np.array(R.make(s).eval(d, m.score(d))[1]) for m in w.models]
            p = exact(va, vb)
            if p is None:
                continue
            some = some or p[1] < 1
            for x in (0, 1):
                near("dataset %d, metric %s (%s, %s): %s p-value" % (i, s, va.tolist(), vb.tolist(), ["one-sided", "two-sided"][x]),
                     r.values[i, k, x], p[x], c["n_perm"])
    w.untouched()
    note("%d cells" % (len(w.datasets) * len(w.metrics)))
    return some


def exact_dp(d):
    """(one-sided, two-sided) for whole-number differences, any number of them."""
    d = [int(v) for v in d if v]
    if sum(d) < 0:
        d = [-v for v in d]
    tot, top = sum(d), sum(abs(v) for v in d)
    P = np.zeros(2 * top + 1)
    P[top] = 1.0
    for v in d:
        v = abs(v)
        Q = np.zeros_like(P)
        Q[v:] += P[:len(P) - v] / 2
        Q[:len(P) - v] += P[v:] / 2
        P = Q
    s = np.arange(-top, top + 1)
    return P[s >= tot].sum(), P[np.abs(s) >= abs(tot)].sum()


@st.composite
def grown(draw):
    return dict(seed=draw(st.integers(0, 2**31 - 1)), k=draw(st.sampled_from([12, 16, 30, 64, 100, 128, 129, 300, 1000, 2500])), lift=draw(st.sampled_from([0.0, 0.5, 1.0, 2.0, 3.0])),
                denom=draw(st.sampled_from([1, 4, 8])), sparse=draw(st.sampled_from([0.0, 0.5, 0.97])), swap=draw(st.booleans()), n_perm=draw(st.sampled_from([1000, 2500, 2500])))


def check_grown(c, note):
    """Many queries: the null distribution by dynamic programming."""
    from rankeval.analysis.statistical import statistical_significance
    from rankeval.dataset import Dataset
    rs = np.random.RandomState(c["seed"])
    k = c["k"]
    a = rs.randint(0, c["denom"] + 1, k)
    b = np.where(rs.rand(k) < c["sparse"], a, rs.randint(0, c["denom"] + 1, k))
    # the first system better by about lift standard errors
    need = int(c["lift"] * np.sqrt(((a - b) ** 2).sum()) - (a - b).sum())
    for i in rs.permutation(k):
        if need <= 0:
            break
        up = min(need, c["denom"] - a[i])
        a[i] += up
        need -= up
    p = exact_dp(a - b)
    X = np.stack([a, b], axis=1).astype(np.float32)
    d = Dataset(X, np.zeros(k, dtype=np.float32), np.arange(k))
    vals = [i / float(c["denom"]) for i in range(c["denom"] + 1)]
    A, B = M.build(selector(vals, 0)), M.build(selector(vals, 1))
    np.random.seed(c["seed"])
    from rankeval.metrics import Metric

    class First(Metric):
        def __init__(self):
            Metric.__init__(self, "first")

        def eval(self, dataset, y_pred):
            return Metric.eval(self, dataset, y_pred)

        def eval_per_query(self, y, y_pred):
            return y_pred[0]
    r = statistical_significance([d], *((B, A) if c["swap"] else (A, B)), metrics=[First()], n_perm=c["n_perm"])
    p1, p2 = [float(v) for v in r.values[0, 0]]
    what = "%d queries, %d differ" % (k, (a != b).sum())
    require(0 <= p1 <= p2 + 1e-6 and p2 <= 1, "%s: p-values %r and %r", what, p1, p2)
    near(what + ": one-sided p-value", p1, p[0], c["n_perm"])
    near(what + ": two-sided p-value", p2, p[1], c["n_perm"])
    note("p < 0.05" if p[1] < 0.05 else "p >= 0.05")
    note("%d queries" % k)
    return p[1] < 1


def check_vast(c, note):
    """Tens of thousands of queries, the systems at most one apart: a binomial."""
    from scipy.stats import binom
    from rankeval.analysis.statistical import statistical_significance
    from rankeval.dataset import Dataset
    from rankeval.metrics import Metric
    rs = np.random.RandomState(c["seed"])
    k = c["k"]
    a = rs.randint(0, 2, k)
    b = np.where(rs.rand(k) < c["sparse"], a, 1 - a)
    at = np.nonzero(a != b)[0]
    n = len(at)
    if not n:
        return False
    tot = min(n, int(c["lift"] * np.sqrt(n)))
    up = (n + tot) // 2                       # queries on which the first system is better
    a[at], b[at] = 0, 1
    best = rs.permutation(at)[:up]
    a[best], b[best] = 1, 0
    tot = 2 * up - n
    p1 = float(binom.sf(up - 1, n, 0.5))
    p2 = min(1.0, 2 * p1) if tot else 1.0
    d = Dataset(np.stack([a, b], axis=1).astype(np.float32), np.zeros(k, dtype=np.float32), np.arange(k))
    A, B = M.build(selector([0.0, 1.0], 0)), M.build(selector([0.0, 1.0], 1))
    np.random.seed(c["seed"])

    class First(Metric):
        def __init__(self):
            Metric.__init__(self, "first")

        def eval(self, dataset, y_pred):
            return Metric.eval(self, dataset, y_pred)

        def eval_per_query(self, y, y_pred):
            return y_pred[0]
    r = statistical_significance([d], *((B, A) if c["swap"] and tot > 0 else (A, B)), metrics=[First()], n_perm=1000)
    g1, g2 = [float(v) for v in r.values[0, 0]]
    what = "%d queries, %d differ, in all by %d" % (k, n, tot)
    near(what + ": one-sided p-value", g1, p1, 1000)
    near(what + ": two-sided p-value", g2, p2, 1000)
    note("p < 0.05" if p2 < 0.05 else "p >= 0.05")
    return p2 < 1 and k > 32767


CHECKS = [
    Check("vast", st.fixed_dictionaries(dict(seed=st.integers(0, 2**31 - 1), k=st.sampled_from([5000, 33000, 66001]), lift=st.sampled_from([0.0, 0.5, 1.0, 2.0, 5.0]), swap=st.booleans(),
          sparse=st.sampled_from([0.0, 0.5, 0.97]))), check_vast, "a two-sided p-value below 1, more than 32767 queries", 10, 200, shards=3),
    Check("grown", grown(), check_grown, "a two-sided p-value below 1", 100, 2500, shards=4),
    Check("vectors", vectors(), check_vectors, "a two-sided p-value below 1", 500, 12000, shards=4),
    Check("systems", systems(), check_systems, "a two-sided p-value below 1 in some cell", 240, 6000, shards=3),
]
