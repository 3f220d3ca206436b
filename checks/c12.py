"""Scikit-learn gradient boosting: export, load, compare with the regressor."""
import os
import warnings

from hypothesis import strategies as st

from lib import gen as G, models as M, modelcheck as MC
from lib.core import Check, require, same, close, fail
import numpy as np

NEEDS = ("dataset", "scoring")


@st.composite
def case(draw):
    m, n = draw(st.integers(1, 4)), draw(st.one_of(st.integers(3, 40), st.integers(20, 40)))
    pool = draw(st.lists(G.dyadics(20, 4), min_size=2, max_size=12, unique=True))
    if draw(st.sampled_from([0, 0, 1])):                         # single precision values next to each other
        v = np.float32(pool[0] * draw(st.sampled_from([1.0, 1.1, 0.3, 1e-6, 1e6])))
        pool = [float(v)]
        for _ in range(draw(st.integers(1, 7))):
            v = np.nextafter(v, np.float32(np.inf))
            pool.append(float(v))
    ys = draw(st.lists(st.one_of(st.integers(0, 4).map(float), G.dyadics(100, 8), st.sampled_from([1e-4, 3e4, -2.5e3])),
                       min_size=2, max_size=6, unique=True))
    times = draw(st.sampled_from([1.0, 1.0, 1.0, 1e-4, 1e-10, 1e6]))
    ys = [v * times for v in ys]
    rs = np.random.RandomState(draw(st.integers(0, 2**31)))      # evenly spread values, unlike a draw of bytes
    X = [pool[i] for i in rs.randint(len(pool), size=n * m)]
    extra = draw(G.from_pool(6 * m, pool + [0.0, 100.0, -100.0]))
    return dict(X=X, m=m, y=[ys[i] for i in rs.randint(len(ys), size=n)], extra=extra, trees=draw(st.sampled_from([3, 2, 5, 1, 8])),
                depth=draw(st.sampled_from([3, 2, 1, 5, None])), lr=draw(st.one_of(st.sampled_from([0.1, 1.0, 0.5, 0.01, 0.3]), st.floats(1e-4, 1.0))),
                init=draw(st.sampled_from([None, None, None, None, None, "mean", "median", "quantile", "constant", "zero", "linear", "quantreg", "tree"])),
                loss=draw(st.sampled_from(["squared_error", "squared_error", "absolute_error", "huber", "quantile"])),
                leaves=draw(st.sampled_from([None, None, 3, 6])), seed=draw(st.integers(0, 1000)),
                subsample=draw(st.sampled_from([1.0, 1.0, 0.5])), limit=draw(st.sampled_from([None, None, 1, 2])))


def down(t):
    """The greatest single precision number that is not above t."""
    f = np.float32(t)
    return float(f if float(f) <= t else np.nextafter(f, np.float32(-np.inf)))


def sk_tree(t, k=0):
    l, r = int(t.children_left[k]), int(t.children_right[k])
    if l == -1:
        return ["L", float(np.float32(t.value[k].ravel()[0]))]
    return ["S", int(t.feature[k]), down(float(t.threshold[k])), sk_tree(t, l), sk_tree(t, r)]


def check(c, note):
    from sklearn.ensemble import GradientBoostingRegressor
    from rankeval.model import ProxyScikitLearn, RTEnsemble
    X = np.array(c["X"], dtype=np.float32).reshape(-1, c["m"])
    y = np.array(c["y"])
    given = None
    if c["init"] in ("mean", "median", "quantile", "constant"):
        from sklearn.dummy import DummyRegressor
        given = DummyRegressor(strategy=c["init"], quantile=0.3, constant=1.75)
    elif c["init"] == "zero":
        given = "zero"
    elif c["init"]:
        from sklearn.linear_model import LinearRegression, QuantileRegressor
        from sklearn.tree import DecisionTreeRegressor
        given = dict(linear=LinearRegression(), quantreg=QuantileRegressor(quantile=0.25, alpha=0.0), tree=DecisionTreeRegressor(max_depth=1))[c["init"]]
    g = GradientBoostingRegressor(init=given, n_estimators=c["trees"], max_depth=c["depth"], learning_rate=c["lr"], loss=c["loss"],
                                  max_leaf_nodes=c["leaves"], random_state=c["seed"], subsample=c["subsample"])
    g.fit(X, y)
    p = M.tmpname(".txt")
    try:
        try:
            ProxyScikitLearn.export_scikit_model(g, p)
        except Exception:
            if given is None or c["init"] in ("mean", "median", "quantile", "constant"):
                raise
            note("refused: start " + c["init"])           # no initial score that is the same for every instance
            return False
        m = RTEnsemble(p, format="ScikitLearn", n_trees=c["limit"])
    finally:
        if os.path.exists(p):
            os.unlink(p)
    ests = [e[0].tree_ for e in g.estimators_][:c["limit"]]
    require(int(m.n_trees) == len(ests), "%s trees instead of %d", m.n_trees, len(ests))
    got = M.extract(m)
    for i, (a, t) in enumerate(zip(got["trees"], ests)):
        require(a == sk_tree(t), "tree %d: loaded %s, fitted %s", i, a, sk_tree(t))
    require(got["weights"] == [1.0] * len(ests), "weights %s", got["weights"])
    close("learning rate", m.learning_rate, c["lr"], 1e-6)
    P = np.vstack([X, np.array(c["extra"], dtype=np.float32).reshape(-1, c["m"])])
    base = 0.0 if c["init"] == "zero" else g.init_.predict(P[:1])[0]
    if c["init"]:
        note("start " + c["init"])
    close("initial score", m.base_score if m.base_score is not None else 0.0, base, 1e-6, 1e-37)
    from rankeval.dataset import Dataset
    d = Dataset(P, np.zeros(len(P), dtype=np.float32), np.zeros(len(P), dtype=np.int32))
    s = np.asarray(m.score(d), dtype=np.float64)
    staged = list(g.staged_predict(P))
    want = staged[len(ests) - 1]
    scale = abs(base) + c["lr"] * sum(np.abs(t.value).max() for t in ests) + 1e-30
    bad = np.abs(s - want) > 2e-6 * (len(ests) + 2) * scale
    require(not bad.any(), "scores %s, predictions of the regressor %s", s.tolist(), want.tolist())
    s2, part, _ = m.score(d, detailed=True)
    bad = np.abs(np.asarray(s2, dtype=np.float64) - want) > 2e-6 * (len(ests) + 2) * scale
    require(not bad.any(), "detailed scores %s, predictions of the regressor %s", np.asarray(s2).tolist(), want.tolist())
    if any(t.node_count == 1 for t in ests):
        note("single-leaf tree")
    note("loss " + c["loss"])
    if any(l >= 0 and down(float(v)) != float(np.float32(v)) for t in ests for l, v in zip(t.children_left, t.threshold)):
        note("threshold between neighbouring numbers, rounded down")
    if any(abs(a) < 1e-4 and a for t in ests for a in t.value.ravel()):
        note("tiny outputs")
    return len(ests) > 1 and any(t.node_count > 3 for t in ests)


@st.composite
def text_case(draw):
    """Files of the exporter's format written independently."""
    c = draw(G.scored_case())
    c.update(style=draw(st.sampled_from([0, 2])), base=draw(st.sampled_from([0.0, 0.5, -3.25])),
             lr=draw(st.sampled_from([1.0, 0.5, 0.25])))
    return c


def check_text(c, note):
    text = "base_score=%r\nlearning_rate=%r\n" % (c["base"], c["lr"]) + M.booster(c["model"], "<=", c["style"], "pre")
    m = M.load(text, "ScikitLearn")
    MC.compare_structure("ScikitLearn", m, c["model"], weights=False)
    MC.compare_scoring("ScikitLearn", m, c["model"], c["ds"], base=c["base"], lr=c["lr"], weights=False)
    return MC.labels(c, note)


CHECKS = [
    Check("files", MC.files_of(["ScikitLearn"]), MC.check_files, "a file name used again", 60, 3000),
    Check("large", MC.grown(["ScikitLearn"]), MC.check_grown, "more than 255 nodes", 40, 1500, shards=2),
    Check("regressor", case(), check, "two trees or more, one with two splits or more", 500, 15000, shards=2),
    Check("text", text_case(), check_text, "at least two trees, one of them with a split", 600, 20000),
]
