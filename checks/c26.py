"""The rank confusion matrix against the enumeration of the pairs."""
import numpy as np
from hypothesis import strategies as st

from lib import gen as G, models as M, world as W
from lib.core import Check, require, same

NEEDS = ("dataset", "scoring")


@st.composite
def case(draw, **kw):
    c = draw(W.worlds(labels=draw(st.sampled_from([[0, 1], [0, 1, 2, 3, 4], [0, 2, 7], [3], [5, 1], [0, 100], [-1, 0, 1], [31, 0]])),
                      max_metrics=0, min_metrics=0, **kw))
    c["skip"] = draw(st.sampled_from([False, False, True]))
    c["seed"] = draw(st.integers(0, 2**31))
    return c


def reference(d, p, labs):
    """(strict counts, ties counts) over label positions."""
    n = len(labs)
    S, T = np.zeros((n, n), dtype=int), np.zeros((n, n), dtype=int)
    a = 0
    for s in d["sizes"]:
        for i in range(a, a + s):
            for j in range(a, a + s):
                if i == j:
                    continue
                u, v = labs.index(d["y"][i]), labs.index(d["y"][j])
                if p[i] < p[j]:
                    S[u, v] += 1
                elif p[i] == p[j] and i < j:
                    T[u, v] += 1
                    T[v, u] += u != v
        a += s
    return S, T


def check(c, note):
    from rankeval.analysis.effectiveness import rank_confusion_matrix
    w = W.World(c)
    kw = dict(skip_same_label=True) if c["skip"] else {}
    r = rank_confusion_matrix(w.datasets, w.models, cache=c["cache"], **kw)
    W.dims(r, "dataset", "model", "label_i", "label_j")
    W.axis(r, "dataset", w.datasets)
    W.axis(r, "model", w.models)
    labs = sorted({l for d in c["datasets"] for l in d["y"]})
    for k in ("label_i", "label_j"):
        same("labels", np.asarray(r.coords[k].values, dtype=np.float64), labs)
    ties = False
    for i, d in enumerate(c["datasets"]):
        for j in range(len(w.models)):
            S, T = reference(d, w.pred(j, i), labs)
            ties = ties or T.any()
            got = r.values[i, j]
            require(got.shape == S.shape, "shape %s for %d labels", got.shape, len(labs))
            for a in range(len(labs)):
                for b in range(len(labs)):
                    what = "dataset %d, model %d, labels %g below %g" % (i, j, labs[a], labs[b])
                    if a == b:
                        require(got[a, a] == (0 if c["skip"] else S[a, a] + T[a, a]), "%s: %d pairs with the same label instead of %d", what,
                                got[a, a], 0 if c["skip"] else S[a, a] + T[a, a])
                        continue
                    require(S[a, b] <= got[a, b] <= S[a, b] + T[a, b], "%s: %d pairs instead of %d (and %d ties)", what, got[a, b], S[a, b],
                            T[a, b])
                    require(got[a, b] + got[b, a] == S[a, b] + S[b, a] + T[a, b], "%s: %d and %d do not add up to %d pairs", what,
                            got[a, b], got[b, a], S[a, b] + S[b, a] + T[a, b])
    w.untouched()
    if ties:
        note("tied scores")
    else:
        # reordered queries, reordered documents
        rs = np.random.RandomState(c["seed"])
        d2 = []
        for d in c["datasets"]:
            off = np.cumsum([0] + d["sizes"])
            order, sizes, ids = [], [], []
            for q in rs.permutation(len(d["sizes"])):
                order += list(off[q] + rs.permutation(d["sizes"][q]))
                sizes.append(d["sizes"][q])
                ids.append(d["ids"][q])
            d2.append(dict(X=[d["X"][i] for i in order], y=[d["y"][i] for i in order], sizes=sizes, ids=ids))
        w2 = W.World(dict(c, datasets=d2))
        same("matrix after reordering", rank_confusion_matrix(w2.datasets, w2.models, **kw).values, r.values)
        note("no ties: reordered too")
    if labs != list(range(len(labs))):
        note("labels other than 0..n-1")
    if c["skip"]:
        note("same labels skipped")
    if len({len(d["y"]) for d in c["datasets"]}) > 1:
        note("datasets of different size")
    return len(labs) > 1 and any(s > 1 for d in c["datasets"] for s in d["sizes"])


def grown_from(pick):
    c = W.grown_from(pick, max_metrics=0, min_metrics=0, rows=1200)
    labs = pick([[0, 1, 2], [0, 1, 2, 3, 4], list(range(40)), [0, 300, 70000], [-5, 0, 7]])
    for d in c["data"]:
        d["labels"], d["docs"] = labs, min(d["docs"], 600)
    c["trees"] = [min(k, 31) for k in c["trees"]]
    c["skip"] = pick.bool()
    return c


def check_grown(c, note):
    """Larger queries, counted by sorting the label pairs with numpy."""
    from rankeval.analysis.effectiveness import rank_confusion_matrix
    g = W.grow(c)
    for d in g["datasets"]:                   # the labels stay whole numbers
        d["y"] = [float(int(v)) for v in d["y"]]
    w = W.World(g)
    r = rank_confusion_matrix(w.datasets, w.models, skip_same_label=c["skip"], cache=c["cache"])
    labs = np.unique(np.concatenate([d["y"] for d in g["datasets"]]))
    same("labels", np.asarray(r.coords["label_i"].values, dtype=np.float64), labs)
    n, big = len(labs), 0
    require(r.shape == (len(w.datasets), len(w.models), n, n), "shape %s", r.shape)
    for i, d in enumerate(g["datasets"]):
        at = np.searchsorted(labs, np.array(d["y"]))
        for j in range(len(w.models)):
            p = w.pred(j, i)
            S, T = np.zeros(n * n, dtype=np.int64), np.zeros(n * n, dtype=np.int64)
            for a, b in w.slices(i):
                key = at[a:b, None] * n + at[None, a:b]
                S += np.bincount(key[p[a:b, None] < p[None, a:b]], minlength=n * n)
                t = p[a:b, None] == p[None, a:b]
                np.fill_diagonal(t, False)
                T += np.bincount(key[t], minlength=n * n)
            S, T = S.reshape(n, n), T.reshape(n, n)
            got = r.values[i, j].astype(np.int64)
            off = ~np.eye(n, dtype=bool)
            bad = off & ((got < S) | (got > S + T)) | off & (got + got.T != S + S.T + T)
            require(not bad.any(), "dataset %d, model %d: labels %s: %s pairs instead of %s (and %s ties)", i, j, np.argwhere(bad)[:1].tolist(),
                    got[bad][:1].tolist(), S[bad][:1].tolist(), T[bad][:1].tolist())
            dg = np.zeros(n, dtype=np.int64) if c["skip"] else np.diag(S) + np.diag(T) // 2
            same("dataset %d, model %d: pairs with the same label" % (i, j), np.diag(got), dg)
            big = max(big, int(got.max()))
    w.untouched()
    if big > 32767:
        note("a count above 32767")
    return big > 255


def vast_from(pick):
    return dict(seed=pick.int(0, 2**24), sizes=pick([[2100], [1100, 1, 1300], [2] * 9000, [3, 40] * 400, [1] * 33000]), labels=pick([[0, 1], [0, 1, 2, 3, 4], [0, 300]]), step=pick([0.25, 4.0]),
                skip=pick.bool(), cache=pick.bool(), leaves=pick([3, 40]))


def check_vast(c, note):
    """Very long queries, and very many."""
    from rankeval.analysis.effectiveness import rank_confusion_matrix
    rs = np.random.RandomState(c["seed"])
    n = sum(c["sizes"])
    th = np.arange(c["leaves"]) * 0.5 - c["leaves"] / 4.0
    t = ["L", float(rs.randint(-64, 64)) / 8]
    for v in th[::-1][:c["leaves"] - 1]:
        t = ["S", 0, float(v), ["L", float(rs.randint(-64, 64)) / 8], t]
    X = (rs.randint(-4 * c["leaves"], 4 * c["leaves"], (n, 1)) / 8.0).astype(np.float32)
    y = [float(c["labels"][i]) for i in rs.randint(len(c["labels"]), size=n)]
    d = M.dataset(dict(X=X, y=y, sizes=c["sizes"], ids=list(range(len(c["sizes"])))))
    model = dict(trees=[t], weights=[1.0])
    m = M.build(model)
    r = rank_confusion_matrix([d], [m], skip_same_label=c["skip"], cache=c["cache"])
    p = M.contributions(model, X).sum(axis=1)
    labs = np.unique(np.array(y))
    k, at, a = len(labs), np.searchsorted(labs, np.array(y)), 0
    S, T = np.zeros(k * k, dtype=np.int64), np.zeros(k * k, dtype=np.int64)
    for s in c["sizes"]:
        b = a + s
        if s > 1:
            key = at[a:b, None] * k + at[None, a:b]
            S += np.bincount(key[p[a:b, None] < p[None, a:b]], minlength=k * k)
            tie = p[a:b, None] == p[None, a:b]
            np.fill_diagonal(tie, False)
            T += np.bincount(key[tie], minlength=k * k)
        a = b
    S, T, got = S.reshape(k, k), T.reshape(k, k), r.values[0, 0].astype(np.int64)
    off = ~np.eye(k, dtype=bool)
    require(not (off & ((got < S) | (got > S + T)) | off & (got + got.T != S + S.T + T)).any(), "%s pairs instead of %s (and %s ties)", got.tolist(), S.tolist(), T.tolist())
    same("pairs with the same label", np.diag(got), np.zeros(k, dtype=np.int64) if c["skip"] else np.diag(S) + np.diag(T) // 2)
    note("longest query %d, %d queries" % (max(c["sizes"]), len(c["sizes"])))
    return k > 1


CHECKS = [
    Check("vast", G.picked(vast_from), check_vast, "two labels or more", 5, 120, shards=3),
    Check("grown", G.picked(grown_from), check_grown, "more than 255 pairs in a cell", 60, 2000, shards=2),
    Check("pairs", case(), check, "two labels or more and a query of two documents or more", 900, 40000, shards=4),
    Check("pairs-long", case(max_models=1, max_datasets=2, max_queries=2, max_docs=16), check, "two labels or more and a query of two documents or more", 300,
          10000, shards=2),
]
