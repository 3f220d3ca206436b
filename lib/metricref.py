"""Reference definitions of the metrics, in double precision, as functions of
the labels in ranked order; with ties in the predictions, the set of values of
all the admissible orders."""
import itertools
import math

import numpy as np
from hypothesis import strategies as st

from . import gen as G

CAP = 4000          # orders examined at most


def make(spec):
    """The library's metric object of a plain-data specification."""
    import rankeval.metrics as R
    kind, kw = spec["kind"], dict(spec["kw"])
    if kind == "PrecisionMax":
        from rankeval.metrics.precision_max import PrecisionMax
        return PrecisionMax(**kw)
    return getattr(R, kind)(**kw)


RANK = ["DCG", "NDCG", "Precision", "Recall", "MAP", "MRR", "PrecisionMax", "ERR", "Pfound", "RBP"]
ERRORS = ["MSE", "RMSE"]
CORR = ["Kendalltau", "SpearmanRho"]
DEFAULTS = dict(DCG=dict(implementation="flat"), NDCG=dict(implementation="exp", no_relevant_results=1.0),
                Precision=dict(threshold=1), Recall=dict(threshold=1, no_relevant_results=0.0),
                MAP=dict(no_relevant_results=1.0), MRR=dict(threshold=1), Pfound=dict(p_abandonment=0.15),
                RBP=dict(threshold=1, p=0.5))


OPTIONS = dict(implementation=["flat", "exp"], no_relevant_results=[0.0, 1.0, 0.5, 0.25], threshold=[1, 2, 3, 4, 0.5, 1.5],
               p_abandonment=[0.15, 0.0, 1.0, 0.5, 0.3], p=[0.5, 0.8, 0.95, 0.0, 0.25, 0.99])


def specs(kinds, max_cut=8, more=()):
    return G.picked(specs_from, kinds, max_cut, more)


def specs_from(pick, kinds, max_cut=8, more=()):
    kind = pick(kinds)
    kw = {}
    if kind not in CORR:
        c = pick([None, None, 1, 2, 3, 5, 10, max_cut] + list(more) + [None] * (len(more) // 3))
        if c is not None:
            kw["cutoff"] = c
    for k in DEFAULTS.get(kind, {}):
        if pick.bool():
            kw[k] = pick(OPTIONS[k])
    if pick([False] * 5 + [True]):               # the name does not tell the metric
        kw["name"] = pick(["quality", "MSE", "NDCG", "RMSE", "P", ""])
    return dict(kind=kind, kw=kw)


def gains(labels, impl):
    return [l if impl == "flat" else 2.0 ** l - 1.0 for l in labels]


def dcg(labels, impl):
    return sum(g / math.log(r + 2, 2) for r, g in enumerate(gains(labels, impl)))


def value(spec, ranked, preds=None):
    """ranked: all the labels of the query by decreasing prediction (preds are
    the predictions in the same order)."""
    kind = spec["kind"]
    o = dict(DEFAULTS.get(kind, {}), **spec["kw"])
    cut = o.get("cutoff")
    k = len(ranked) if cut is None else min(cut, len(ranked))
    top = ranked[:k]
    if kind == "DCG":
        return dcg(top, o["implementation"])
    if kind == "NDCG":
        ideal = dcg(sorted(ranked, reverse=True)[:k], o["implementation"])
        return dcg(top, o["implementation"]) / ideal if ideal else o["no_relevant_results"]
    if kind == "Precision":
        return sum(l >= o["threshold"] for l in top) / float(k)
    if kind == "PrecisionMax":
        return sum(l >= max(ranked) for l in top) / float(k)
    if kind == "Recall":
        rel = sum(l >= o["threshold"] for l in ranked)
        return sum(l >= o["threshold"] for l in top) / float(rel) if rel else o["no_relevant_results"]
    if kind == "MAP":
        rel = sum(l != 0 for l in ranked)
        if not rel:
            return o["no_relevant_results"]
        s, seen = 0.0, 0
        for i, l in enumerate(top):
            if l != 0:
                seen += 1
                s += seen / float(i + 1)
        return s / min(k, rel)
    if kind == "MRR":
        for i, l in enumerate(top):
            if l >= o["threshold"]:
                return 1.0 / (i + 1)
        return 0.0
    if kind in ("ERR", "Pfound"):
        s, look, mx = 0.0, 1.0, max(ranked)
        for i, l in enumerate(top):
            stop = (2.0 ** l - 1) / 2.0 ** mx
            s += look * stop * (1.0 / (i + 1) if kind == "ERR" else 1.0)
            look *= 1 - stop
            if kind == "Pfound":
                look *= 1 - o["p_abandonment"]
        return s
    if kind == "RBP":
        return (1 - o["p"]) * sum(o["p"] ** i for i, l in enumerate(top) if l >= o["threshold"])
    if kind in ERRORS:
        se = sum((l - p) ** 2 for l, p in zip(top, preds))
        return se if kind == "MSE" else math.sqrt(se / k)
    if kind == "Kendalltau":
        return tau_b(ranked, preds)
    if kind == "SpearmanRho":
        return spearman(ranked, preds)
    raise ValueError(kind)


def tau_b(a, b):
    conc = ta = tb = n0 = 0
    for i in range(len(a)):
        for j in range(i):
            n0 += 1
            x = (a[i] > a[j]) - (a[i] < a[j])
            y = (b[i] > b[j]) - (b[i] < b[j])
            conc += x * y
            ta += x == 0
            tb += y == 0
    d = (n0 - ta) * (n0 - tb)
    return conc / math.sqrt(d) if d else float("nan")


def avg_ranks(a):
    return [sum(x < v for x in a) + (sum(x == v for x in a) + 1) / 2.0 for v in a]


def spearman(a, b):
    if len(a) < 2:
        return float("nan")
    x, y = avg_ranks(a), avg_ranks(b)
    mx, my = sum(x) / len(x), sum(y) / len(y)
    sxy = sum((u - mx) * (v - my) for u, v in zip(x, y))
    sxx, syy = sum((u - mx) ** 2 for u in x), sum((v - my) ** 2 for v in y)
    return sxy / math.sqrt(sxx * syy) if sxx * syy else float("nan")


def distinct_perms(labels):
    return sorted(set(itertools.permutations(labels))) if len(labels) <= 7 else None


def acceptable(spec, y, p):
    """Values over all the orders that sort p decreasingly; None if there are
    too many orders to look at."""
    y = [float(v) for v in y]
    p = [float(v) for v in p]
    if spec["kind"] in CORR:
        return [value(spec, y, p)]
    groups = {}
    for l, v in zip(y, p):
        groups.setdefault(v, []).append(l)
    keys = sorted(groups, reverse=True)
    alts, total = [], 1
    for v in keys:
        a = distinct_perms(groups[v]) if len(set(groups[v])) > 1 else [tuple(groups[v])]
        if a is None:
            return None                       # see bounds()
        total *= len(a)
        alts.append(a)
        if total > CAP:
            return None
    preds = [v for v in keys for _ in groups[v]]
    return sorted({value(spec, [l for g in combo for l in g], preds) for combo in itertools.product(*alts)})


def bounds(spec, y, p):
    """(lowest, highest) value over the orders of tied predictions, for queries
    of any size; None where that is not known."""
    y, p = np.asarray(y, dtype=np.float64), np.asarray(p, dtype=np.float64)
    if spec["kind"] in CORR or spec["kind"] in ERRORS and (not spec["kw"].get("cutoff") or spec["kw"]["cutoff"] >= len(y)):
        v = fast_corr(spec["kind"], y, p) if spec["kind"] in CORR else value(spec, y.tolist(), p.tolist())
        return v, v
    lo, hi = np.lexsort((y, -p)), np.lexsort((-y, -p))
    if spec["kind"] in ERRORS:
        return None if (y[lo] != y[hi]).any() else (value(spec, y[lo].tolist(), p[lo].tolist()),) * 2
    a = value(spec, y[lo].tolist(), p[lo].tolist())
    return (a, a) if (y[lo] == y[hi]).all() else (a, value(spec, y[hi].tolist(), p[hi].tolist()))


def fast_corr(kind, a, b):
    if kind == "SpearmanRho":
        if len(a) < 2:
            return float("nan")
        r = []
        for v in (a, b):
            u, inv, cnt = np.unique(v, return_inverse=True, return_counts=True)
            r.append((np.cumsum(cnt) - (cnt - 1) / 2.0)[inv])
        x, y = r[0] - r[0].mean(), r[1] - r[1].mean()
        d = (x * x).sum() * (y * y).sum()
        return float((x * y).sum() / math.sqrt(d)) if d > 0 else float("nan")
    n = len(a)
    conc = ta = tb = 0
    for i in range(1, n):
        x, y = np.sign(a[i] - a[:i]), np.sign(b[i] - b[:i])
        conc += int((x * y).sum())
        ta += int((x == 0).sum())
        tb += int((y == 0).sum())
    n0 = n * (n - 1) // 2
    d = (n0 - ta) * (n0 - tb)
    return conc / math.sqrt(d) if d else float("nan")


WIDE = [[0, 1], [0, 1, 2, 3, 4], [0] * 30 + [1, 1], [0, 0, 1, 2, 30], [0, 1, 0.5, 2.5], [3, 4], [0], [1], [0] * 100 + [1], [0] * 300 + [1, 2, 3], [0] * 2000 + [1, 2, 1], [0, 16, 20, 31],
        [0, 0.5, 1, 2, 3, 4, 5, 0.25], list(range(12))]


def grown():
    return G.picked(grown_from)


def grown_from(pick):
    """Parameters of larger query data, made by grow() from a seed."""
    queries, docs = pick([(1, [33, 70, 130, 260, 600, 1200]), (1, [1200, 2100, 4000]), (2, [9, 70, 260, 1200, 3000]), (10, [2, 17, 70, 260, 600]), (40, [2, 9, 33, 140]),
                          (130, [1, 2, 9, 33]), (300, [1, 2, 9, 17]), (1100, [1, 2, 5]), (5000, [1, 2])])
    labels = pick(WIDE)
    return dict(seed=pick.int(0, 2**24), queries=queries, docs=pick(docs), labels=labels, dtype=pick(["float32", "float64"]), spread=pick.bool(), gap=pick.bool(), order=pick(["up", "up", "any", "down", "dip"]),
                preds=pick(["informed", "misinformed", "distinct"] if len(labels) > 20 else ["distinct", "distinct", "close", "double", "ties", "negative", "sorted", "reversed", "informed", "informed", "misinformed", "misinformed"]))


def grow(c, cap=6000):
    rs = np.random.RandomState(c["seed"])
    k, docs = c["queries"], c["docs"]
    while k * docs > cap:
        if k > 1 and rs.rand() < .5:
            k = (k + 1) // 2
        elif docs > 1:
            docs = (docs + 1) // 2
        else:
            k //= 2
    sizes = [int(v) for v in (rs.randint(1, docs + 1, k) if c["spread"] else np.full(k, docs))]
    n = sum(sizes)
    y = np.array(c["labels"], dtype=np.float64)[rs.randint(len(c["labels"]), size=n)]
    p = rs.permutation(n) / 8.0
    if c["preds"] == "close":
        p = 1.0 + rs.permutation(n) * 2.0 ** -22
    elif c["preds"] == "double":
        p = 1.0 + p * 2.0 ** -36
    elif c["preds"] == "ties":
        p = rs.randint(max(2, n // 3), size=n) / 4.0
    elif c["preds"] == "negative":
        p = -1.0 - p
    elif c["preds"] == "sorted":
        p = np.sort(p)
    elif c["preds"] in ("informed", "misinformed"):       # follow the labels
        p = ((np.sign(y) if rs.rand() < .5 else y) * (1 if c["preds"] == "informed" else -1) * n * rs.choice([1.0, 0.3], n) + rs.permutation(n)) / 8.0
    elif c["preds"] == "reversed":
        p = np.sort(p)[::-1]
    ids = np.cumsum(rs.randint(1, 9 if c["gap"] else 2, k))
    if c.get("order") == "any":
        ids = rs.permutation(ids)
    elif c.get("order") == "down":
        ids = ids[::-1]
    elif c.get("order") == "dip":             # increasing but for the last one
        ids[-1] = 0
    return dict(sizes=sizes, ids=[int(v) for v in ids], y=[float(v) for v in y], p=[float(v) for v in p.astype(c["dtype"])], dtype=c["dtype"])


@st.composite
def query_data(draw, max_queries=5, max_docs=9, labels=None, min_docs=1):
    """Several queries with predictions: {sizes, ids, y, p, dtype}."""
    k = draw(st.integers(1, max_queries))
    sizes = [min_docs + x % (max_docs - min_docs + 1) for x in draw(st.binary(min_size=k, max_size=k))]
    ids = draw(G.qids(k, wide=True))
    n = sum(sizes)
    lab = labels if labels is not None else draw(st.sampled_from(
        [[0, 1], [0, 1, 2, 3, 4], [0, 0, 0, 1], [0], [1], [4, 3], [0, 10], [0, 2, 5, 9], [0, 0.5, 1, 2.5]]))
    dtype = draw(st.sampled_from(["float32", "float32", "float64"]))
    pool = draw(st.sampled_from(["distinct", "ties", "tight", "wide", "double", "near"]))
    rs = np.random.RandomState(draw(st.integers(0, 2**31)))
    y = [float(lab[i]) for i in rs.randint(len(lab), size=n)]
    if pool == "distinct":
        p = (rs.permutation(n) - n // 2) / 4.0
    elif pool == "ties":
        vals = draw(st.lists(st.one_of(G.f32s(-1e3, 1e3, odd=False), st.sampled_from([0.0, -0.0])), min_size=1, max_size=4))
        p = np.array(vals)[rs.randint(len(vals), size=n)]
    elif pool == "tight":                      # neighbouring numbers
        b, p = np.float32(draw(st.sampled_from([1.0, -1.0, 0.125, 100.0]))), []
        steps = rs.permutation(n)
        ladder = [b]
        for _ in range(n):
            ladder.append(np.nextafter(ladder[-1], np.float32(np.inf)))
        p = np.array([ladder[i] for i in steps])
    elif pool == "double":                     # equal in single precision
        p = draw(st.sampled_from([1.0, -3.0, 1e5])) * (1 + rs.permutation(n) * 2.0 ** -40)
    elif pool == "near":                       # close to the labels
        p = np.array(y) * (1 + rs.permutation(n) * 10.0 ** -draw(st.sampled_from([3, 6, 9]))) + 10.0 ** -draw(st.sampled_from([4, 8]))
    else:
        p = rs.randn(n) * 10.0 ** rs.randint(-3, 4, size=n)
    p = [float(v) for v in np.asarray(p).astype(dtype)]
    return dict(sizes=sizes, ids=ids, y=y, p=p, dtype=dtype)


def mkds(c, name=None, tag=None):
    from rankeval.dataset import Dataset
    n = len(c["y"])
    # one feature that makes datasets with other labels or sizes differ
    X = np.arange(n, dtype=np.float32).reshape(n, 1) if tag is None else np.full((n, 1), tag, dtype=np.float32)
    return Dataset(X, np.array(c["y"], dtype=np.float32), np.array(G.unroll(c["sizes"], c["ids"]), dtype=np.int64), name=name)


def slices(c):
    off = np.cumsum([0] + c["sizes"])
    return [(int(a), int(b)) for a, b in zip(off, off[1:])]


def near_any(v, vals, rel=1e-5, abs_=1e-6, kind=None):
    if kind in ERRORS:                        # sums of squares
        rel, abs_ = 2e-5, 1e-36
    v = float(v)
    for w in vals:
        if math.isnan(w) and math.isnan(v):
            return True
        if abs(v - w) <= abs_ + rel * max(abs(v), abs(w)):
            return True
    return False
