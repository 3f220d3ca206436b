"""Query-wise performance, query-class performance, graded relevance."""
import numpy as np
from hypothesis import strategies as st

from lib import gen as G, world as W, metricref as R
from lib.core import Check, require, same, close

NEEDS = ("dataset", "scoring")


@st.composite
def case(draw, **kw):
    c = draw(W.worlds(**kw))
    c["bins"] = draw(st.sampled_from([None, 1, 2, 3, 4, 10, 100]))
    c["start"] = draw(st.sampled_from([None, None, 0.0, 0.25, 2.0]))     # distance below the minimum
    c["end"] = draw(st.sampled_from([None, None, 0.0, 0.5, -0.125, 3.0]))  # distance above the maximum
    return c


def limits(c, values):
    lo, hi = min(values), max(values)
    start = None if c["start"] is None else lo - c["start"]
    end = None if c["end"] is None else hi + c["end"]
    if end is not None and (start if start is not None else lo) >= end:
        end = None
    return start, end, lo, hi


def thresholds(what, t, bins, start, end, lo, hi):
    t = np.asarray(t, dtype=np.float64)
    require(t.shape == (bins,), "%s: %d thresholds instead of %d", what, len(t), bins)
    s, e = (lo if start is None else start), (hi if end is None else end)
    close(what + ": thresholds", t, s + (e - s) * np.arange(1, bins + 1) / bins, rel=1e-6, abs_=1e-6 * max(1, abs(s), abs(e)))
    if end is None:
        require(t[-1] >= hi - 1e-6 * max(1, abs(hi)), "%s: last threshold %r, largest value %r", what, t[-1], hi)
    return t


def cumulative(what, got, t, values):
    v = np.asarray(values, dtype=np.float64)
    got = np.asarray(got, dtype=np.float64)
    require(got.shape == t.shape, "%s: %d values for %d thresholds", what, len(got), len(t))
    if not len(v):
        return
    for i in range(len(t)):
        b = (v <= t[i]).sum() if i == len(t) - 1 else (v < t[i]).sum()
        require(abs(got[i] - b / float(len(v))) < 1e-6, "%s: %r at threshold %r instead of %r (values %s, thresholds %s)", what,
                got[i], t[i], b / float(len(v)), v.tolist(), t.tolist())


def check_querywise(c, note):
    from rankeval.analysis.effectiveness import query_wise_performance
    w = W.World(c)
    vals = [[[np.array(R.make(s).eval(d, m.score(d))[1]) for s in c["metrics"]] for m in w.models] for d in w.datasets]
    every = np.concatenate([x for a in vals for b in a for x in b]).astype(np.float64)
    every = every[~np.isnan(every)]
    if not len(every):
        return False
    start, end, lo, hi = limits(c, every)
    bins = max(len(d["sizes"]) for d in c["datasets"]) if c["bins"] is None else c["bins"]
    r = query_wise_performance(w.datasets, w.models, w.metrics, bins=c["bins"], start=start, end=end, cache=c["cache"])
    W.dims(r, "dataset", "model", "metric", "bin")
    for dim, o in zip(r.dims, (w.datasets, w.models, w.metrics)):
        W.axis(r, dim, o)
    t = thresholds("query-wise performance", r.coords["bin"].values, bins, start, end, lo, hi)
    for i in range(len(w.datasets)):
        for j in range(len(w.models)):
            for k in range(len(w.metrics)):
                what = "dataset %d, model %d, metric %s" % (i, j, c["metrics"][k])
                cumulative(what, r.values[i, j, k], t, vals[i][j][k])
                if end is None and not np.isnan(vals[i][j][k]).any():
                    require(abs(r.values[i, j, k, -1] - 1) < 1e-6, "%s: last value %r", what, r.values[i, j, k, -1])
    w.untouched()
    note("undefined values" if any(np.isnan(x).any() for a in vals for b in a for x in b) else "all values defined")
    if len({len(d["sizes"]) for d in c["datasets"]}) > 1:
        note("datasets with different numbers of queries")
    return len(set(every)) > 2


@st.composite
def classes(draw, **kw):
    c = draw(W.worlds(max_queries=6, **kw))
    pool = draw(st.sampled_from([["nav", "inf"], ["a"], [1, 2, 3], [0, 10], ["x", "long class name", "y"], [2.5, -1.0]]))
    sub = [pool, pool[:1], pool[-1:]]
    c["classes"] = []
    for d in c["datasets"]:
        p = draw(st.sampled_from(sub))
        c["classes"].append(draw(st.lists(st.sampled_from(p), min_size=len(d["sizes"]), max_size=len(d["sizes"]))))
    c["array"] = draw(st.booleans())
    return c


def check_class(c, note):
    from rankeval.analysis.effectiveness import query_class_performance
    w = W.World(c)
    qc = [np.array(x) if c["array"] else list(x) for x in c["classes"]]
    r = query_class_performance(w.datasets, w.models, w.metrics, qc, cache=c["cache"])
    W.dims(r, "dataset", "model", "metric", "classes")
    for dim, o in zip(r.dims, (w.datasets, w.models, w.metrics)):
        W.axis(r, dim, o)
    uniq = sorted({x for d in c["classes"] for x in d})
    got = list(r.coords["classes"].values)
    require(len(got) == len(uniq) and all(g == u for g, u in zip(got, uniq)), "classes %r instead of %r", got, uniq)
    for i, d in enumerate(w.datasets):
        for j, m in enumerate(w.models):
            for k, s in enumerate(c["metrics"]):
                v = np.array(R.make(s).eval(d, m.score(d))[1], dtype=np.float64)
                q = w.query_ranges(s, i, w.pred(j, i))
                for a, u in enumerate(uniq):
                    idx = [x for x in range(len(v)) if c["classes"][i][x] == u]
                    what = "dataset %d, model %d, metric %s, class %r (queries %s of values %s)" % (i, j, s, u, idx, v.tolist())
                    g = float(r.values[i, j, k, a])
                    sel = v[idx][~np.isnan(v[idx])]
                    if not len(idx):
                        require(np.isnan(g), "%s: %r for a class without queries", what, g)
                    elif not len(sel):
                        require(np.isnan(g), "%s: %r", what, g)
                    else:
                        close(what, g, sel.mean(), rel=1e-5, abs_=1e-6)
                        if q is not None:
                            z = [q[x] for x in idx if q[x][0] == q[x][0]]
                            W.inside(what, g, (sum(x[0] for x in z) / len(z), sum(x[1] for x in z) / len(z)))
    w.untouched()
    note("%d classes" % len(uniq))
    if any(set(x) != set(uniq) for x in c["classes"]):
        note("classes missing in a dataset")
    return len(uniq) > 1 and any(len(set(d["y"])) > 1 for d in c["datasets"])


def check_graded(c, note):
    from rankeval.analysis.effectiveness import document_graded_relevance
    w = W.World(c)
    scores = [[w.pred(j, i) for j in range(len(w.models))] for i in range(len(w.datasets))]
    every = np.concatenate([x for a in scores for x in a])
    start, end, lo, hi = limits(c, every)
    bins = max(len(d["sizes"]) for d in c["datasets"]) if c["bins"] is None else c["bins"]
    r = document_graded_relevance(w.datasets, w.models, bins=c["bins"], start=start, end=end, cache=c["cache"])
    W.dims(r, "dataset", "model", "label", "bin")
    for dim, o in zip(r.dims, (w.datasets, w.models)):
        W.axis(r, dim, o)
    labs = sorted({l for d in c["datasets"] for l in d["y"]})
    same("labels", np.asarray(r.coords["label"].values, dtype=np.float64), labs)
    t = thresholds("graded relevance", r.coords["bin"].values, bins, start, end, lo, hi)
    for i in range(len(w.datasets)):
        for j in range(len(w.models)):
            for k, l in enumerate(labs):
                v = [s for s, y in zip(scores[i][j], c["datasets"][i]["y"]) if y == l]
                cumulative("dataset %d, model %d, label %g" % (i, j, l), r.values[i, j, k], t, v)
    w.untouched()
    note("%d labels" % len(labs))
    if c["bins"] is None:
        note("bins=None")
    return len(labs) > 1 and len(set(every)) > 2


def grown_from(pick):
    c = W.grown_from(pick)
    c.update(kind=pick(["query-wise", "query-wise", "query-class", "query-class", "graded", "graded"]), bins=pick([None, 7, 100, 100, 101, 257, 1000]),
             start=pick([None, None, 0.0, 0.25]), end=pick([None, None, 0.0, 0.5]), array=pick.bool(), classes=pick([2, 3, 40, 300]), names=pick.bool(),
             rare=pick([None, "first", "last", "middle"]))
    if c["kind"] == "query-class":             # many queries
        for d in c["data"]:
            d["docs"] = min(d["docs"], 9)
    return c


def check_grown(c, note):
    g = W.grow(c)
    for s in g["metrics"]:
        if s["kind"] == "Kendalltau" and sum(len(d["y"]) for d in g["datasets"]) > 600:
            s["kind"], s["kw"] = "DCG", {}
    rs = np.random.RandomState(c["seed"])
    every = ["class %03d" % i if c["names"] else i for i in range(c["classes"])]
    g.update(bins=c["bins"], start=c["start"], end=c["end"], array=c["array"],
             classes=[[every[i] for i in rs.randint(rs.randint(1, len(every) + 1), size=len(d["sizes"]))] for d in g["datasets"]])
    if c["rare"]:                              # a class of one query
        for x in g["classes"]:
            x[dict(first=0, last=-1, middle=len(x) // 2)[c["rare"]]] = "zz rare" if c["names"] else 1000
    note(c["kind"])
    {"query-wise": check_querywise, "query-class": check_class, "graded": check_graded}[c["kind"]](g, note)
    return max(len(d["y"]) for d in g["datasets"]) > 100


def vast_from(pick):
    c = W.vast_from(pick)
    c.update(kind=pick(["query-wise", "query-class", "graded"]), bins=pick([None, 7, 100, 1000]), start=pick([None, None, 0.0, 0.25]), end=pick([None, None, 0.0, 0.5]),
             classes=pick([2, 40, 3000]), metric=R.specs_from(pick, ["MSE", "MSE", "RMSE", "Precision", "DCG", "MRR"], 100))
    if c["kind"] != "graded":                 # many queries
        c["docs"] = min(c["docs"], 3)
    return c


def check_vast(c, note):
    """Tens of thousands of rows and queries; metric values through the metric itself."""
    from rankeval.analysis import effectiveness as E
    w, s = W.Vast(c), c["metric"]
    cells = [(i, j) for i in range(len(w.datasets)) for j in range(len(w.models))]
    note(c["kind"])
    if c["kind"] == "graded":
        vals = {(i, j, l): w.pred(i, j)[w.datasets[i].y == l].astype(np.float64) for i, j in cells for l in c["labels"]}
    else:
        vals = {(i, j, 0): np.array(R.make(s).eval(w.datasets[i], w.pred(i, j))[1], dtype=np.float64) for i, j in cells}
    if c["kind"] == "query-class":
        rs = np.random.RandomState(c["seed"])
        qc = [rs.randint(c["classes"], size=d.n_queries) for d in w.datasets]
        r = E.query_class_performance(w.datasets, w.models, [R.make(s)], qc, cache=c["cache"])
        same("classes", np.asarray(r.coords["classes"].values), sorted({int(x) for q in qc for x in q}))
        for i, j in cells:
            k, n = np.bincount(qc[i], vals[i, j, 0], c["classes"]), np.bincount(qc[i], minlength=c["classes"])
            for a, u in enumerate(r.coords["classes"].values):
                got = float(r.values[i, j, 0, a])
                require(np.isnan(got) if not n[u] else abs(got - k[u] / n[u]) <= 1e-5 * max(1e-2, abs(k[u] / n[u])), "dataset %d, model %d, metric %s, class %d of %d queries: %r", i, j, s, u, n[u], got)
        return True
    every = np.concatenate(list(vals.values()))
    start, end, lo, hi = limits(c, every)
    bins = max(d.n_queries for d in w.datasets) if c["bins"] is None else c["bins"]
    if c["kind"] == "graded":
        r = E.document_graded_relevance(w.datasets, w.models, bins=c["bins"], start=start, end=end, cache=c["cache"])
    else:
        r = E.query_wise_performance(w.datasets, w.models, [R.make(s)], bins=c["bins"], start=start, end=end, cache=c["cache"])
    t = thresholds(c["kind"], r.coords["bin"].values, bins, start, end, lo, hi)
    for i, j in cells:
        for a, l in enumerate(sorted({float(x) for d in w.datasets for x in d.y}) if c["kind"] == "graded" else [0]):
            v = np.sort(vals[i, j, l])
            if not len(v):
                continue
            n = np.searchsorted(v, t, side="left")
            n[-1] = np.searchsorted(v, t[-1], side="right")
            bad = np.nonzero(np.abs(r.values[i, j, a] - n / float(len(v))) > 1e-6)[0]
            require(not len(bad), "%s, dataset %d of %d rows, model %d, %g: %r at threshold %r", c["kind"], i, w.datasets[i].n_instances, j, l,
                    r.values[i, j, a][bad[:1]], t[bad[:1]])
    w.untouched()
    return True


CHECKS = [
    Check("vast", G.picked(vast_from), check_vast, "always (more than 5000 rows)", 20, 1500, shards=2),
    Check("grown", G.picked(grown_from), check_grown, "a dataset of more than 100 rows", 120, 3000, shards=3),
    Check("query-wise", case(max_queries=7), check_querywise, "metric values of three kinds or more", 700, 30000, shards=2),
    Check("query-class", classes(), check_class, "two classes or more and labels of more than one value", 600, 30000, shards=2),
    Check("graded-relevance", case(max_metrics=1), check_graded, "two labels or more and three different scores or more", 700, 30000, shards=2),
]
