"""Cases of the analyses: several models, datasets and metrics, with values
for which scores are exact in single precision."""
import numpy as np
from hypothesis import strategies as st

from . import gen as G, models as M, metricref as R
from .core import require, fail

REPEAT = [None] * 8 + ["models", "metrics", "both"]
KINDS = R.RANK + R.ERRORS + R.CORR


@st.composite
def worlds(draw, max_models=3, max_datasets=3, max_metrics=3, kinds=None, labels=None, max_trees=7, min_trees=1, max_queries=4,
           max_docs=5, min_metrics=1):
    nf = draw(st.integers(1, 3))
    th = draw(st.lists(G.dyadics(4, 4), min_size=1, max_size=4))
    out = draw(st.sampled_from([[1.0, -1.0, 0.5, 2.0, 0.25, 3.5], [0.0, 1.0], [2.0]]))
    out = out + draw(st.lists(G.dyadics(16, 8), max_size=3))
    scale = 2.0 ** draw(st.sampled_from([0, 0, 0, 0, -24, 10]))
    out = [v * scale for v in out]
    models = []
    for _ in range(draw(st.integers(1, max_models))):
        m = draw(G.ensembles(max_trees, 6, nf, th, out, min_trees, weights=[1.0, 0.5, 0.25, 2.0, 1.0]))
        m["base"] = draw(st.sampled_from([None, None, 0.5 * scale, -2.0 * scale]))
        m["lr"] = draw(st.sampled_from([1, 1, 0.5, 0.25]))
        models.append(m)
    pool = G.near(th) + [0.0, 1.0, -5.0, 5.0]
    labs = labels if labels is not None else draw(st.sampled_from([[0, 1], [0, 1, 2, 3, 4], [0, 0, 1], [0], [3], [0, 2, 5]]))
    dss = []
    for _ in range(draw(st.integers(1, max_datasets))):
        sizes, ids = draw(G.grouping(max_queries, max_docs))
        n, w = sum(sizes), nf + draw(st.integers(0, 2))
        rs = np.random.RandomState(draw(st.integers(0, 2**31)))
        dss.append(dict(X=[[pool[i] for i in rs.randint(len(pool), size=w)] for _ in range(n)],
                        y=[float(labs[i]) for i in rs.randint(len(labs), size=n)], sizes=sizes, ids=ids))
    metrics = draw(st.lists(R.specs(kinds or KINDS), min_size=min_metrics, max_size=max_metrics))
    return dict(models=models, datasets=dss, metrics=metrics, cache=draw(st.booleans()), repeat=draw(st.sampled_from(REPEAT)))


def grown(*a, **k):
    return G.picked(grown_from, *a, **k)


def grown_from(pick, kinds=None, max_metrics=2, rows=2500, min_metrics=1):
    """Parameters of larger cases, made by grow() from a seed."""
    return dict(seed=pick.int(0, 2**24), m=pick.int(1, 40), rows=rows,
                trees=pick.list([1, 2, 9, 10, 11, 31, 64, 99, 100, 101, 130, 257, 300, 520], 1, pick([1, 2, 3, 12])),
                leaves=pick([2, 3, 8, 30]), data=[R.grown_from(pick) for _ in range(pick.int(1, pick([1, 2, 3, 9])))],
                bits=pick([3, 8, 10, 10, 30, -3]), metrics=[R.specs_from(pick, kinds or KINDS, 100) for _ in range(pick.int(min_metrics, max_metrics))],
                weights=pick([[1.0], [1.0, 0.5, -1.0]]), base=pick([None, None, 1]), lr=pick([1, 1, 0.5]), cache=pick.bool(), repeat=pick(REPEAT))


def grow(c):
    """Sums of the outputs are exact in single precision."""
    rs = np.random.RandomState(c["seed"])
    th = np.unique(rs.randint(-40, 40, 30)) / 4.0
    q = 2.0 ** c["bits"]                      # outputs are multiples of 1 / q
    span = 4 * 2 ** min(max(c["bits"], 3), 10)
    nt, left = [], 1200                       # trees in all
    for k in c["trees"]:
        nt.append(max(1, min(k, left)))
        left -= nt[-1]
    leaves = c["leaves"] if sum(nt) < 400 else min(c["leaves"], 8)

    def tree(n):
        root = ["L", float(rs.randint(-span, span)) / q]
        ls = [root]
        while len(ls) < n:
            x = ls.pop(rs.randint(len(ls)))
            l, r = ["L", float(rs.randint(-span, span)) / q], ["L", float(rs.randint(-span, span)) / q]
            x[:] = ["S", int(rs.randint(c["m"])), float(rs.choice(th)), l, r]
            ls += [l, r]
        return root
    models = [dict(trees=[tree(leaves if rs.rand() < .95 else 1) for _ in range(k)], weights=[float(v) for v in rs.choice(c["weights"], k)],
                   base=c["base"] and c["base"] / q, lr=c["lr"]) for k in nt]
    data, rows = [], c["rows"]
    for d in c["data"]:
        g = R.grow(d, max(1, min(rows, int(8e5 / max(1, sum(nt))))))
        rows = max(1, rows - len(g["y"]))
        X = rs.randint(-44, 44, (len(g["y"]), c["m"])) / 4.0
        data.append(dict(X=[[float(v) for v in r] for r in X], y=g["y"], sizes=g["sizes"], ids=g["ids"]))
    return dict(models=models, datasets=data, metrics=c["metrics"], cache=c["cache"], repeat=c["repeat"])


class World(object):
    def __init__(self, c):
        self.c, self.parts = c, {}
        self.models = [M.build(m, base_score=m["base"], learning_rate=m["lr"], name="model %d" % i) for i, m in enumerate(c["models"])]
        self.datasets = [M.dataset(d, name="dataset %d" % i) for i, d in enumerate(c["datasets"])]
        self.metrics = [R.make(s) for s in c.get("metrics", [])]
        if c.get("repeat"):                   # the same object listed twice
            for what, mine in (("models", self.models), ("metrics", self.metrics)):
                if c["repeat"] in (what, "both") and mine:
                    c[what] = list(c[what]) + c[what][:1]
                    mine.append(mine[0])
            c["repeat"] = None
        self.before = [(d.X.copy(), d.y.copy()) for d in self.datasets]

    def pred(self, im, id_, k=None):
        """Reference scores of the first k trees."""
        m = self.c["models"][im]
        if len(self.c["datasets"][id_]["X"]) * len(m["trees"]) > 2000:
            if (im, id_) not in self.parts:
                self.parts[im, id_] = np.cumsum(M.contributions(m, self.c["datasets"][id_]["X"]), axis=1)
            return (m["base"] or 0.0) + m["lr"] * self.parts[im, id_][:, (k or len(m["trees"])) - 1]
        part = dict(trees=m["trees"][:k], weights=m["weights"][:k])
        return np.array(M.score(part, self.c["datasets"][id_]["X"], base=m["base"] or 0.0, lr=m["lr"])[0])

    def partial(self, im, id_, t):
        m = self.c["models"][im]
        p = np.array(M.score(dict(trees=[m["trees"][t]], weights=[m["weights"][t]]), self.c["datasets"][id_]["X"], lr=m["lr"])[0])
        return p

    def slices(self, id_):
        return R.slices(self.c["datasets"][id_])

    def query_ranges(self, spec, id_, p):
        """(lowest, highest) admissible metric value of each query, or None."""
        y = self.c["datasets"][id_]["y"]
        out = []
        for a, b in self.slices(id_):
            v = R.acceptable(spec, y[a:b], p[a:b]) if b - a < 8 else R.bounds(spec, y[a:b], p[a:b])
            if v is None:
                v = R.bounds(spec, y[a:b], p[a:b])
            if v is None:
                return None
            w = len(y) if spec["kind"] == "MSE" else 1.0
            out.append((min(v) / w, max(v) / w))
        return out

    def range(self, spec, id_, p):
        q = self.query_ranges(spec, id_, p)
        if q is None:
            return None
        q = [x for x in q if x[0] == x[0]]
        if not q:
            return float("nan"), float("nan")
        n = 1 if spec["kind"] == "MSE" else len(q)
        return sum(x[0] for x in q) / n, sum(x[1] for x in q) / n

    def untouched(self):
        for d, (X, y) in zip(self.datasets, self.before):
            require(np.array_equal(d.X, X) and np.array_equal(d.y, y), "the analysis modified the dataset %s", d.name)


def inside(what, v, rng, tol=2e-5):
    v = float(v)
    if rng is None:
        return
    lo, hi = rng
    if lo != lo:
        require(v != v, "%s: %r instead of an undefined value", what, v)
        return
    t = tol * max(1.0, abs(lo), abs(hi))
    require(lo - t <= v <= hi + t, "%s: %r instead of %s", what, v, lo if lo == hi else "a value in %r" % ((lo, hi),))


def axis(da, dim, objects):
    got = list(da.coords[dim].values)
    require(len(got) == len(objects) and all(g is o for g, o in zip(got, objects)), "coordinate %r is %r instead of %r", dim, got, objects)


def dims(da, *want):
    require(tuple(da.dims) == want, "dimensions %s instead of %s", da.dims, want)


def vast_from(pick, labels=([0, 1], [0, 1, 2, 3, 4], [0, 0, 0, 0, 0, 0, 1])):
    """Parameters of a few trees and tens of thousands of rows, made by vast()."""
    return dict(seed=pick.int(0, 2**24), n=[pick([5500, 11000, 33000, 66000]), pick([1, 60, 5500])][:pick([1, 1, 2])], docs=pick([1, 3, 40, 10**6]), trees=pick([[1], [3], [2, 4]]), leaves=pick([2, 3, 8]), m=pick([1, 2, 3]),
                labels=pick(labels), base=pick([None, 0.5]), lr=pick([1, 1, 0.5]), cache=pick.bool())


class Vast(object):
    """Models, datasets, and contributions[dataset][model] (rows x trees, exact)."""
    def __init__(self, c):
        rs = np.random.RandomState(c["seed"])
        th = np.unique(rs.randint(-40, 40, 30)) / 4.0

        def tree(n):
            root = ["L", float(rs.randint(-64, 65)) / 8]
            ls = [root]
            while len(ls) < n:
                x = ls.pop(rs.randint(len(ls)))
                l, r = ["L", float(rs.randint(-64, 65)) / 8], ["L", float(rs.randint(-64, 65)) / 8]
                x[:] = ["S", int(rs.randint(c["m"])), float(rs.choice(th)), l, r]
                ls += [l, r]
            return root
        self.specs = [dict(trees=[tree(c["leaves"]) for _ in range(k)], weights=[1.0] * k, base=c["base"], lr=c["lr"]) for k in c["trees"]]
        self.models = [M.build(m, base_score=m["base"], learning_rate=m["lr"], name="model %d" % i) for i, m in enumerate(self.specs)]
        self.datasets, self.parts, self.sizes = [], [], []
        from rankeval.dataset import Dataset
        for i, n in enumerate(c["n"]):
            X = (rs.randint(-44, 44, (n, c["m"])) / 4.0).astype(np.float32)
            if rs.rand() < .5:                # sorted by the first feature
                X = X[np.argsort(X[:, 0], kind="stable")]
            y = np.array(c["labels"], dtype=np.float32)[rs.randint(len(c["labels"]), size=n)]
            q = np.arange(n) // c["docs"] + 1
            if rs.rand() < .5:
                q = q.max() + 1 - q
            self.datasets.append(Dataset(X, y, q.astype(np.int32), name="dataset %d" % i))
            self.parts.append([m["lr"] * M.contributions(m, X) for m in self.specs])
        self.before = [(d.X.copy(), d.y.copy()) for d in self.datasets]

    def pred(self, i, j, k=None):
        """Scores on dataset i of the first k trees of model j."""
        return ((self.specs[j]["base"] or 0.0) + self.parts[i][j][:, :k].sum(axis=1)).astype(np.float32)

    untouched = World.untouched
