"""Dataset-level metric results over histories of evaluations."""
import numpy as np
from hypothesis import strategies as st

from lib import metricref as R
from lib import gen as G
from lib.core import Check, require, same, close, fail

NEEDS = ("dataset", "scoring")
ALL = R.RANK + R.ERRORS + R.CORR


def fresh_values(spec, c, y, p):
    """Every query alone, each with a metric object of its own."""
    out = []
    for a, b in R.slices(c):
        out.append(float(R.make(spec).eval_per_query(y[a:b].copy(), p[a:b].copy())))
    return np.array(out)


def check_result(what, spec, c, res, want, n):
    mean, det = res
    det = np.asarray(det)
    require(det.shape == want.shape, "%s: %s values for %d queries", what, det.shape, len(want))
    w = want / n if spec["kind"] == "MSE" else want
    close(what + ": per-query values", det, w, rel=1e-6, abs_=1e-7)
    fin = det[~np.isnan(det)].astype(np.float64)
    agg = fin.sum() if spec["kind"] == "MSE" else fin.mean() if len(fin) else float("nan")
    close(what + ": aggregate", float(mean), agg, rel=2e-6, abs_=1e-7)


@st.composite
def history(draw):
    spec = draw(R.specs(ALL))
    k = draw(st.integers(1, 3))
    data = [draw(R.query_data(max_queries=5, max_docs=8)) for _ in range(k)]
    if k > 1 and draw(st.booleans()):      # a dataset that differs in little
        j = draw(st.sampled_from(["labels", "sizes", "ids", "equal"]))
        d = dict(data[0])
        if j == "labels":
            d["y"] = d["y"][::-1]
        elif j == "sizes":
            d["sizes"] = d["sizes"][::-1]
        elif j == "ids":
            d["ids"] = [i + 1000 for i in d["ids"]]
        data[1] = d
    ops = draw(st.lists(st.tuples(st.sampled_from(["eval", "eval", "query", "abort", "perm", "temp"]), st.integers(0, k - 1), st.integers(0, 50)),
                        min_size=2, max_size=8))
    return dict(metric=spec, data=data, ops=ops, samex=draw(st.booleans()))


def check_history(c, note):
    spec = c["metric"]
    m = R.make(spec)
    ds, P, want, kept = [], [], [], []
    for i, d in enumerate(c["data"]):
        ds.append(R.mkds(d, tag=None if c.get("samex") else float(i)))
        P.append(np.array(d["p"], dtype=d["dtype"]))
        want.append(fresh_values(spec, d, np.array(d["y"], dtype=np.float32), P[-1]))
    for step, (op, i, arg) in enumerate(c["ops"]):
        d = c["data"][i]
        what = "%s, step %d (%s on dataset %d)" % (spec, step, op, i)
        y = np.array(d["y"], dtype=np.float32)
        if op == "eval":
            res = m.eval(ds[i], P[i])
            check_result(what, spec, d, res, want[i], len(y))
            kept.append((what, res[1], np.array(res[1])))
        elif op == "temp":                # objects whose memory is used again
            tmp = R.mkds(d, tag=None if c.get("samex") else float(i))
            res = m.eval(tmp, np.array(d["p"], dtype=d["dtype"]))
            del tmp
            check_result(what, spec, d, res, want[i], len(y))
            kept.append((what, res[1], np.array(res[1])))
        elif op == "perm":                # other predictions in between
            r = np.random.RandomState(arg)
            q = P[i][r.permutation(len(y))]
            res = m.eval(ds[i], q)
            check_result(what, spec, d, res, fresh_values(spec, d, y, q), len(y))
        elif op == "query":
            sl = R.slices(d)
            a, b = sl[arg % len(sl)]
            v = float(m.eval_per_query(y[a:b], P[i][a:b]))
            close(what, v, want[i][arg % len(sl)], rel=1e-6, abs_=1e-7)
        else:
            # an evaluation that fails midway (predictions of the wrong length) leaves nothing behind
            try:
                m.eval(ds[i], P[i][:len(y) // 2])
            except Exception:
                note("failed evaluation in between")
        same(what + ": labels", ds[i].y, y)
        same(what + ": predictions", P[i], np.array(d["p"], dtype=d["dtype"]))
        require([tuple(t[1:]) for t in ds[i].query_iterator()] == R.slices(d), "%s: the dataset's queries changed", what)
    for what, arr, copy in kept:
        same(what + ": values returned then, at the end", arr, copy)
    note(spec["kind"])
    if len(c["data"]) > 1:
        note("several datasets")
    return len(c["ops"]) > 2 and any(len(set(d["y"])) > 1 for d in c["data"])


@st.composite
def reorder(draw):
    c = draw(R.query_data(max_queries=6, max_docs=6))
    k = len(c["sizes"])
    c["metric"] = draw(R.specs(ALL))
    c["perm"] = draw(st.permutations(list(range(k))))
    c["ids2"] = draw(G.qids(k, wide=True))
    c["contig"] = draw(st.booleans())
    return c


def check_reorder(c, note):
    """Other query ids; the queries in another order; float32/float64; views."""
    spec = c["metric"]
    base = R.make(spec).eval(R.mkds(c), np.array(c["p"], dtype=c["dtype"]))
    b0, bd = float(base[0]), np.array(base[1])
    d2 = dict(c, ids=c["ids2"])
    o = R.make(spec).eval(R.mkds(d2), np.array(c["p"], dtype=c["dtype"]))
    same("%s: values with query ids %s instead of %s" % (spec, c["ids2"], c["ids"]), o[1], bd)
    close("%s: mean with other query ids" % spec, float(o[0]), b0, rel=1e-6)
    sl = R.slices(c)
    y = sum(([c["y"][i] for i in range(*sl[j])] for j in c["perm"]), [])
    p = sum(([c["p"][i] for i in range(*sl[j])] for j in c["perm"]), [])
    d3 = dict(c, y=y, p=p, sizes=[c["sizes"][j] for j in c["perm"]], ids=[c["ids"][j] for j in c["perm"]])
    P = np.array(p, dtype=c["dtype"])
    if not c["contig"]:                    # a strided view with the same values
        w = np.zeros((len(p), 2), dtype=c["dtype"])
        w[:, 0] = P
        P = w[:, 0]
        note("strided predictions")
    o = R.make(spec).eval(R.mkds(d3), P)
    close("%s: values with the queries in the order %s" % (spec, c["perm"]), o[1], bd[list(c["perm"])], rel=1e-6, abs_=1e-9)
    close("%s: mean with the queries in the order %s" % (spec, c["perm"]), float(o[0]), b0, rel=3e-6, abs_=1e-7)
    note(spec["kind"])
    return len(c["sizes"]) > 1 and len(set(c["y"])) > 1


def grown_from(pick):
    return dict(data=[R.grown_from(pick) for _ in range(pick.int(1, 3))], metric=R.specs_from(pick, ALL, 100), cap=pick([600, 2500, 9000]),
                ops=[[pick(["eval", "eval", "perm", "query", "abort", "temp"]), pick.int(0, 2), pick.int(0, 50)] for _ in range(pick.int(3, 6))], alike=pick.bool())


def check_grown(c, note):
    """Histories on larger datasets."""
    data = [R.grow(d, 600 if c["metric"]["kind"] == "Kendalltau" else c["cap"]) for d in c["data"]]
    if c["alike"] and len(data) > 1:          # labels exchanged deep inside a copy
        y = list(data[0]["y"])
        i = (len(y) * 2) // 3
        y[i:] = y[i:][::-1]
        data[1] = dict(data[0], y=y)
        note("datasets that differ in few labels")
    ops = [(op, i % len(data), a) for op, i, a in c["ops"]]
    check_history(dict(metric=c["metric"], data=data, ops=ops, samex=c["alike"]), note)
    return max(len(d["y"]) for d in data) > 100


def custom_from(pick):
    return dict(data=R.grown_from(pick), cap=pick([40, 400, 3000]), nan=pick([0.0, 0.0, 0.3, 1.0]), fn=pick(["sum", "first", "span", "size"]), cutoff=pick([None, 1, 3]))


def check_custom(c, note):
    """A metric written by the user: called once per query, in order, with that
    query's labels and predictions; the mean leaves the undefined values out."""
    from rankeval.metrics import Metric
    d = R.grow(c["data"], c["cap"])
    y, P = np.array(d["y"], dtype=np.float32), np.array(d["p"], dtype=d["dtype"])
    ds, rs = R.mkds(d), np.random.RandomState(c["data"]["seed"])
    undefined = rs.rand(len(d["sizes"])) < c["nan"]
    calls = []

    class Mine(Metric):
        def __init__(self, cutoff=None):
            Metric.__init__(self, "Mine")
            self.cutoff = cutoff

        def eval(self, dataset, y_pred):
            return Metric.eval(self, dataset, y_pred)

        def eval_per_query(self, y, y_pred):
            calls.append((np.array(y), np.array(y_pred)))
            if undefined[len(calls) - 1]:
                return np.nan
            k = self.cutoff or len(y)
            return {"sum": float(np.sum(y[:k]) / 64 + np.sum(y_pred[:k]) / 64), "first": float(y_pred[0]), "span": float(y.max() - y.min()),
                    "size": float(len(y))}[c["fn"]]
    m = Mine(c["cutoff"])
    mean, det = m.eval(ds, P)
    require(len(calls) == len(d["sizes"]), "%d calls for %d queries", len(calls), len(d["sizes"]))
    want = []
    for i, (a, b) in enumerate(R.slices(d)):
        same("labels given for query %d" % i, calls[i][0], y[a:b])
        same("predictions given for query %d" % i, calls[i][1], P[a:b])
        n = c["cutoff"] or b - a
        want.append(np.nan if undefined[i] else {"sum": y[a:b][:n].sum(dtype=float) / 64 + P[a:b][:n].sum(dtype=float) / 64, "first": P[a], "span": y[a:b].max() - y[a:b].min(),
                                                  "size": b - a}[c["fn"]])
    close("per-query values", det, want, rel=1e-5, abs_=1e-6)
    fin = [v for v in want if v == v]
    close("aggregate", float(mean), float(np.mean(fin)) if fin else float("nan"), rel=1e-5, abs_=1e-6)
    for (qid, qy, qp), i, (a, b) in zip(m.query_iterator(ds, P), d["ids"], R.slices(d)):
        require(int(qid) == i, "query id %s instead of %d", qid, i)
        same("labels of query_iterator", qy, y[a:b])
        same("predictions of query_iterator", qp, P[a:b])
    require(len(list(m.query_iterator(ds, P))) == len(d["sizes"]), "query_iterator does not give every query")
    note("some values undefined" if undefined.any() else "all values defined")
    return len(d["sizes"]) > 1


VASTK = [k for k in ALL if k != "Kendalltau"]


def vast_from(pick):
    return dict(seed=pick.int(0, 2**24), n=pick([5000, 33000, 66001]), per=pick([1, 1, 2]), labels=pick([[0, 1], [0, 1, 2, 3, 4], [0, 0, 1]]), metrics=[R.specs_from(pick, VASTK, 20) for _ in range(2)],
                dtype=pick(["float32", "float64"]), cut=pick([0.3, 0.5, 0.99]), down=pick.bool())


def check_vast(c, note):
    """Tens of thousands of queries: the values of two parts evaluated on their
    own, and the mean of all of them."""
    from rankeval.dataset import Dataset
    rs = np.random.RandomState(c["seed"])
    n, k = c["n"] // c["per"], c["per"]
    rows = n * k
    y, p = np.array(c["labels"], dtype=np.float32)[rs.randint(len(c["labels"]), size=rows)], (rs.permutation(rows) / 8.0).astype(c["dtype"])
    ids = np.arange(n)[::-1] if c["down"] else np.arange(n)
    q, X = np.repeat(ids, k), np.zeros((rows, 1), dtype=np.float32)
    cut = int(n * c["cut"])
    for spec in c["metrics"]:
        m = R.make(spec)
        mean, det = m.eval(Dataset(X, y, q), p)
        det = np.array(det, dtype=np.float64)
        require(det.shape == (n,), "%s: %s values for %d queries", spec, det.shape, n)
        for a, b in ((0, cut), (cut, n)):
            s = slice(a * k, b * k)
            _, part = R.make(spec).eval(Dataset(X[s], y[s], q[s]), p[s])
            f = float(b - a) / n if spec["kind"] == "MSE" else 1.0    # each value is over the number of rows
            close("%s: values of queries %d to %d of %d" % (spec, a, b, n), det[a:b], np.asarray(part, dtype=np.float64) * f, rel=2e-6, abs_=1e-9)
        for i in [0, 1, 32766, 32767, 32768, 65535, 65536, n - 1] + [int(v) for v in rs.randint(n, size=40)]:
            if i < n:
                s = slice(i * k, i * k + k)
                v = float(R.make(spec).eval_per_query(y[s], p[s]))
                close("%s: query %d of %d" % (spec, i, n), det[i], v / rows if spec["kind"] == "MSE" else v, rel=1e-5, abs_=1e-9)
        fin = det[~np.isnan(det)]
        agg = fin.sum() if spec["kind"] == "MSE" else fin.mean() if len(fin) else float("nan")
        close("%s: aggregate of %d queries" % (spec, n), float(mean), agg, rel=1e-4, abs_=1e-6)
        note(spec["kind"])
    note("%d queries" % n)
    return n > 32767


CHECKS = [
    Check("vast", G.picked(vast_from), check_vast, "more than 32767 queries", 8, 300, shards=3),
    Check("custom", G.picked(custom_from), check_custom, "two queries or more", 150, 5000),
    Check("grown", G.picked(grown_from), check_grown, "a dataset of more than 100 rows", 120, 3000, shards=2),
    Check("history", history(), check_history, "three operations or more, labels of more than one value", 1500, 80000, shards=4),
    Check("reorder", reorder(), check_reorder, "two queries or more, labels of more than one value", 1500, 60000, shards=2),
] + [Check("history-" + k.lower(), history().map(lambda c, k=k: dict(c, metric=dict(c["metric"], kind=k, kw={a: b for a, b in c["metric"]["kw"].items()
     if a == "cutoff" and k not in R.CORR}))), check_history, "three operations or more, labels of more than one value", 120, 4000)
     for k in ("NDCG", "MSE", "RMSE", "MAP", "Kendalltau", "Recall")]
