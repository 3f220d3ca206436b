"""K-fold splitting."""
from hypothesis import strategies as st

from lib import gen as G
from lib.core import Check, require, same, fail
from checks import c04
import numpy as np

NEEDS = ("dataset",)


@st.composite
def case(draw, max_queries=16):
    ds = draw(G.datasets(max_queries, 3, max_features=2, min_queries=2, wide=True))
    return dict(ds=ds, k=draw(st.integers(2, min(len(ds["ids"]), 8))), shuffle=draw(st.booleans()),
                seed=draw(st.integers(0, 2**32 - 1)))


def check(c, note):
    ds, k = c["ds"], c["k"]
    ids, n = ds["ids"], len(c["ds"]["ids"])
    q = G.unroll(ds["sizes"], ids)
    X, y = np.array(ds["X"], dtype=np.float32), np.array(ds["y"], dtype=np.float32)
    d = c04.mk(ds)
    np.random.seed(c["seed"])
    folds = list(d.kfold(n_folds=k, qids_only=True, shuffle=c["shuffle"]))
    require(len(folds) == k, "%d folds instead of %d", len(folds), k)
    folds = [[[int(v) for v in p] for p in f] for f in folds]
    for i, f in enumerate(folds):
        require(len(f) == 3, "fold %d has %d parts", i, len(f))
        require(sorted(f[0] + f[1] + f[2]) == sorted(ids), "fold %d: train %s, validation %s and test %s do not partition %s",
                i, f[0], f[1], f[2], ids)
    for w, part in ((1, "validation"), (2, "test")):
        allq = [v for f in folds for v in f[w]]
        require(sorted(allq) == sorted(ids), "the %s parts %s do not partition %s", part, [f[w] for f in folds], ids)
        sizes = sorted(len(f[w]) for f in folds)
        base = n // k
        require(sizes == [base] * (k - 1) + [base + n % k], "the %s parts have sizes %s (%d queries in %d folds)", part, sizes,
                n, k)
    # the test folds and the validation folds are the same folds
    require(sorted(tuple(sorted(f[1])) for f in folds) == sorted(tuple(sorted(f[2])) for f in folds),
            "validation parts %s, test parts %s", [f[1] for f in folds], [f[2] for f in folds])
    if not c["shuffle"]:
        at = {v: i for i, v in enumerate(ids)}
        for i, f in enumerate(folds):
            for p in (f[1], f[2]):
                pos = [at[v] for v in p]
                require(pos == list(range(pos[0], pos[0] + len(pos))), "fold %d: %s does not follow the order of the dataset %s",
                        i, p, ids)
            pos = [at[v] for v in f[0]]
            require(all((b - a) % n == 1 for a, b in zip(pos, pos[1:])), "fold %d: the training part %s does not follow the "
                    "order of the dataset %s", i, f[0], ids)
    # with data
    np.random.seed(c["seed"])
    data = list(d.kfold(n_folds=k, shuffle=c["shuffle"]))
    require(len(data) == k, "%d folds instead of %d", len(data), k)
    for i, (f, parts) in enumerate(zip(folds, data)):
        for name, ids_, p in zip(("train", "validation", "test"), f, parts):
            chosen = set(ids_)
            keep = [j for j, v in enumerate(q) if v in chosen]
            c04.verify("fold %d: %s" % (i, name), p, X[keep], y[keep], [q[j] for j in keep])
    c04.verify("dataset after splitting", d, X, y, q)
    note("shuffled" if c["shuffle"] else "in order")
    note("with remainder" if n % k else "even")
    return n > k


def check_default(c, note):
    """Defaults: five folds, shuffled by the global generator."""
    n = c["n"]
    ds = dict(X=[[float(i)] for i in range(n)], y=[0.0] * n, sizes=[1] * n, ids=list(range(n)))
    d = c04.mk(ds)
    np.random.seed(c["seed"])
    orders = []
    for _ in range(8):
        folds = list(d.kfold(qids_only=True))
        require(len(folds) == 5, "%d folds by default", len(folds))
        orders.append(tuple(tuple(sorted(int(v) for v in f[2])) for f in folds))
    # eight shuffles of ten queries or more: all equal with probability below 1e-30
    require(len(set(orders)) > 1, "eight shuffled splits are all the same: %s", orders[0])
    same("query ids after shuffling", d.query_ids, ds["ids"])
    return True


@st.composite
def large(draw):
    g = draw(G.grown(300, 6, 5))
    g["q"] = max(g["q"], 2)
    return dict(g=g, k=draw(st.integers(2, min(g["q"], 30))), shuffle=draw(st.booleans()), seed=draw(st.integers(0, 2**32 - 1)))


@st.composite
def vast(draw):
    return dict(n=draw(st.sampled_from([5000, 33000, 66001, 132000])), k=draw(st.sampled_from([2, 3, 4, 5, 10, 129, 260])), shuffle=draw(st.booleans()),
                seed=draw(st.integers(0, 2**32 - 1)), down=draw(st.booleans()), gap=draw(st.sampled_from([1, 7, 16000])))


def check_vast(c, note):
    """Many queries of one row, the query ids alone."""
    from rankeval.dataset import Dataset
    n, k = c["n"], c["k"]
    q = np.arange(n, dtype=np.int64) * c["gap"]
    q = q[::-1] if c["down"] else q
    d = Dataset(np.zeros((n, 1), dtype=np.float32), np.zeros(n, dtype=np.float32), q)
    np.random.seed(c["seed"])
    seen = [np.zeros(n, dtype=int) for _ in range(3)]
    folds = 0
    for tr, va, te in d.kfold(n_folds=k, qids_only=True, shuffle=c["shuffle"]):
        at = [np.searchsorted(q[::-1] if c["down"] else q, np.asarray(p, dtype=np.int64)) for p in (tr, va, te)]
        one = np.zeros(n, dtype=int)
        for s, p, g in zip(seen, at, (tr, va, te)):
            np.add.at(s, p, 1)
            np.add.at(one, p, 1)
            require((np.diff(p) % n == (n - 1 if c["down"] else 1)).all() or c["shuffle"], "fold %d does not follow the order of the dataset", folds)
        require((one == 1).all(), "fold %d: %d queries in no part or in several", folds, (one != 1).sum())
        require(len(va) in (n // k, n // k + n % k) and len(te) in (n // k, n // k + n % k), "fold %d of %d queries: sizes %d, %d, %d", folds, n, len(tr), len(va), len(te))
        folds += 1
    require(folds == k, "%d folds instead of %d", folds, k)
    require((seen[1] == 1).all() and (seen[2] == 1).all(), "the test parts or the validation parts do not partition the queries")
    same("query ids after splitting", d.query_ids, q)
    note("%d queries" % n)
    return n > 32767


CHECKS = [
    Check("vast", vast(), check_vast, "more than 32767 queries", 15, 400, shards=2),
    Check("large", large(), lambda c, note: check(dict(c, ds=G.grow(c["g"])), note) and c["g"]["q"] > 20, "more than twenty queries, more than folds", 25, 1000,
          shards=2),
    Check("kfold", case(), check, "more queries than folds", 1200, 50000),
    Check("default", st.builds(lambda n, s: dict(n=n, seed=s), st.integers(10, 30), st.integers(0, 10**6)), check_default,
          "always (shuffled, ten queries or more)", 40, 1000),
]
