"""Scoring semantics: against a reference evaluator, and under changes of row
order, subsets of rows, threads, memory layout."""
from hypothesis import strategies as st

from lib import gen as G, models as M, modelcheck as MC
from lib.core import Check, require, same, fail
import numpy as np

NEEDS = ("dataset", "scoring")
LAYOUTS = ["C", "F", "rows", "cols", "T", "neg", "slice"]


@st.composite
def case(draw, **kw):
    c = draw(G.scored_case(inf=True, **kw))
    c.update(base=draw(st.sampled_from([None, 0.0, 0.5, -3.25])), lr=draw(st.sampled_from([1, 1.0, 0.5, 0.25, 2, 0, -1.0])),
             fmt=draw(st.sampled_from(["QuickRank", "Jforests"])), layout=draw(st.sampled_from(LAYOUTS)),
             calls=draw(st.lists(st.sampled_from(["scores", "partial", "leaves", "detailed", "basic"]), min_size=1, max_size=5)))
    return c


def arrange(X, layout):
    X = np.array(X, dtype=np.float32)
    n, m = X.shape
    if layout == "F":
        return np.asfortranarray(X)
    if layout == "rows":
        b = np.full((3 * n, m), np.nan, dtype=np.float32)
        b[1::3] = X
        return b[1::3]
    if layout == "cols":
        b = np.full((n, 2 * m + 1), np.nan, dtype=np.float32)
        b[:, 1::2] = X
        return b[:, 1::2]
    if layout == "T":
        return np.array(X.T, order="C").T
    if layout == "neg":
        return np.array(X[::-1, ::-1], order="C")[::-1, ::-1]
    if layout == "slice":
        b = np.full((n + 2, m + 3), np.nan, dtype=np.float32)
        b[1:-1, 2:-1] = X
        return b[1:-1, 2:-1]
    return X


def mkds(X, ds):
    from rankeval.dataset import Dataset
    q = np.array([i for s, i in zip(ds["sizes"], ds["ids"]) for _ in range(s)], dtype=np.int64)
    return Dataset(X, np.array(ds["y"], dtype=np.float32), q)


def all_results(m, d):
    y = np.array(m.score(d))
    y2, p, l = m.score(d, detailed=True)
    return y, np.array(y2), np.array(p), np.array(l)


def check(c, note):
    m = M.build(c["model"], c["fmt"], base_score=c["base"], learning_rate=c["lr"])
    base, lr = c["base"] or 0.0, float(c["lr"])
    MC.compare_scoring("score", m, c["model"], c["ds"], base=base, lr=lr)
    X = c["ds"]["X"]
    n = len(X)
    d = mkds(np.array(X, dtype=np.float32), c["ds"])
    ref = all_results(m, d)
    if lr == 1 and not base:
        same("rows of contributions add up", ref[2].astype(np.float64).sum(axis=1), ref[0].astype(np.float64))
    # memory layout
    A = arrange(X, c["layout"])
    for w, a, b in zip(("scores", "detailed scores", "contributions", "leaves"), all_results(m, mkds(A, c["ds"])), ref):
        same("%s with layout %s" % (w, c["layout"]), a, b)
    # order of the rows, and rows alone
    one = dict(sizes=[1], ids=[5], y=[0.0])
    flat = dict(sizes=[n], ids=[3], y=c["ds"]["y"])
    perm = list(range(n))[::-1]
    for w, a, b in zip(("scores", "detailed scores", "contributions", "leaves"),
                       all_results(m, mkds(np.array([X[i] for i in perm], dtype=np.float32), flat)), ref):
        same("%s with the rows reversed" % w, a, b[perm])
    for i in range(min(n, 4)):
        for w, a, b in zip(("scores", "detailed scores", "contributions", "leaves"),
                           all_results(m, mkds(np.array([X[i]], dtype=np.float32), one)), ref):
            same("%s of row %d alone" % (w, i), a[0], b[i])
    # additional features are not looked at
    B = np.hstack([np.array(X, dtype=np.float32), np.full((n, 2), 7e7, dtype=np.float32)])
    same("scores with additional features", all_results(m, mkds(B, c["ds"]))[0], ref[0])
    # the class the model delegates to
    from rankeval.scoring import Scorer
    part = M.score(c["model"], X)[1]
    want = dict(scores=part.sum(axis=1), partial=part, leaves=ref[3], detailed=part.sum(axis=1), basic=part.sum(axis=1))
    call = dict(scores=lambda s: s.get_predicted_scores(), partial=lambda s: s.get_partial_predicted_scores(),
                leaves=lambda s: s.get_predicted_leaves(), detailed=lambda s: s.score(True), basic=lambda s: s.score(detailed=False))
    for calls in (c.get("calls") or ["leaves"], ["scores", "partial", "leaves"]):
        s = Scorer(m, d)
        for i, k in enumerate(calls):
            same("Scorer: call %d of %s" % (i + 1, calls), np.asarray(call[k](s), dtype=np.float64), np.asarray(want[k], dtype=np.float64))
    note("layout " + c["layout"])
    return MC.labels(c, note)


@st.composite
def real(draw):
    """Arbitrary outputs: equality up to single-precision rounding."""
    nf = draw(st.integers(1, 5))
    th = draw(st.lists(G.f32s(), min_size=1, max_size=5))
    outs = draw(st.lists(G.f32s(), min_size=1, max_size=6))
    model = draw(G.ensembles(12, 8, nf, th, outs, weights=[1.0, G.f32(0.1), G.f32(-1 / 3.0), 0.5]))
    ds = draw(G.datasets(4, 5, nf, nf + 1, G.near(th) + [0.0]))
    return dict(model=model, ds=ds, base=draw(G.f32s(-100, 100)), lr=draw(st.sampled_from([1.0, 0.1, 0.3])))


def check_real(c, note):
    m = M.build(c["model"], base_score=c["base"], learning_rate=c["lr"])
    MC.compare_scoring("score", m, c["model"], c["ds"], base=c["base"], lr=c["lr"], exact=False, tol=3e-6)
    return MC.labels(c, note)


@st.composite
def wide(draw):
    return dict(seed=draw(st.integers(0, 2**31 - 1)), n=draw(st.sampled_from([1, 7, 64, 500, 3000])),
                k=draw(st.sampled_from([1, 3, 30, 100])), leaves=draw(st.sampled_from([2, 8, 32])), m=draw(st.integers(1, 40)))


def grow(rs, leaves, m, th):
    root = ["L", float(rs.randint(-64, 64)) / 8]
    ls = [root]
    while len(ls) < leaves:
        i = rs.randint(len(ls))
        node = ls[i]
        l, r = ["L", float(rs.randint(-64, 64)) / 8], ["L", float(rs.randint(-64, 64)) / 8]
        node[:] = ["S", int(rs.randint(m)), float(rs.choice(th)), l, r]
        ls[i:i + 1] = [l, r]
    return root


def vector_scores(model, X):
    part = np.zeros((len(X), len(model["trees"])))
    path = np.empty(part.shape, dtype=object)
    for k, (t, w) in enumerate(zip(model["trees"], model["weights"])):
        stack = [(t, np.arange(len(X)), "")]
        while stack:
            x, rows, p = stack.pop()
            if x[0] == "L":
                part[rows, k] = x[1] * w
                path[rows, k] = p
            else:
                left = X[rows, x[1]] <= np.float32(x[2])
                stack += [(x[3], rows[left], p + "L"), (x[4], rows[~left], p + "R")]
    return part, path


def check_threads(c, note):
    """Run with four threads: many rows and trees."""
    rs = np.random.RandomState(c["seed"])
    th = rs.randint(-20, 20, 8) / 4.0
    model = dict(trees=[grow(rs, c["leaves"] if rs.rand() < .9 else 1, c["m"], th) for _ in range(c["k"])],
                 weights=[1.0] * c["k"])
    X = (rs.randint(-24, 24, (c["n"], c["m"])) / 4.0).astype(np.float32)
    m = M.build(model, "LightGBM" if c["seed"] % 2 else "QuickRank")
    part, path = vector_scores(model, X)
    from rankeval.dataset import Dataset
    d = Dataset(X, np.zeros(c["n"], dtype=np.float32), np.sort(rs.randint(0, 50, c["n"])))
    for rep in range(2):
        y = m.score(d)
        y2, p2, l2 = m.score(d, detailed=True)
        same("scores", np.asarray(y, dtype=np.float64), part.sum(axis=1))
        same("detailed scores", np.asarray(y2, dtype=np.float64), part.sum(axis=1))
        same("contributions", np.asarray(p2, dtype=np.float64), part)
        for k in range(min(c["k"], 10)):
            paths = MC.model_leaf_paths(m, k)
            got = [paths.get(int(v)) for v in np.asarray(l2)[:200, k]]
            require(got == path[:200, k].tolist(), "leaves of tree %d", k)
    note("%d rows" % c["n"])
    note("%d trees" % c["k"])
    return c["n"] > 1 and c["k"] > 1


IDS = [0, 1, 255, 256, 32767, 32768, 40000, 65535, 65536, 70000]
ALL = ["QuickRank", "LightGBM", "XGBoost", "ScikitLearn", "Jforests", "CatBoost"]


@st.composite
def big_ids(draw):
    """Feature ids around the limits of 8 and 16 bits, a wide and sparse dataset."""
    ids = draw(st.lists(st.sampled_from(IDS[:1] + IDS[4:]), min_size=1, max_size=3, unique=True)) + draw(st.lists(st.sampled_from(IDS), max_size=2, unique=True))
    model = draw(G.ensembles(3, 6, len(ids), [0.5, 1.5, -1.0], [1.0, 2.0, 4.0, 8.0, -16.0], weights=[1.0]))
    for t in model["trees"]:
        for x in M.nodes(t):
            if x[0] == "S":
                x[1] = ids[x[1]]
    n = draw(st.integers(2, 4))
    vals = [draw(G.from_pool(len(IDS), [0.0, 1.0, 2.0, -2.0])) for _ in range(n)]
    return dict(model=model, vals=vals, fmt=draw(st.sampled_from(ALL)))


def check_big_ids(c, note):
    from checks import c13
    m = c13.load(dict(c, base=0.0, lr=1.0))
    strict = c["fmt"] == "XGBoost"
    MC.compare_structure(c["fmt"], m, c["model"], thresholds=not strict)
    X = np.zeros((len(c["vals"]), max(IDS) + 1), dtype=np.float32)
    X[:, IDS] = c["vals"]
    ds = dict(X=X, y=[0.0] * len(X), sizes=[len(X)], ids=[1])
    MC.compare_scoring("score", m, c["model"], ds, strict=strict)
    note(c["fmt"])
    return M.max_feature(c["model"]) > 32767


def bulk():
    return st.fixed_dictionaries(dict(seed=st.integers(0, 2**31 - 1), n=st.sampled_from([1025, 2050, 4100, 9000]), k=st.sampled_from([70, 260, 1030, 2100]),
                                      leaves=st.sampled_from([2, 3, 5])))


def check_bulk(c, note):
    """Many rows and many trees, one result array compared as a whole."""
    rs = np.random.RandomState(c["seed"])
    th = rs.randint(-20, 20, 8 if c["leaves"] < 9 else 40) / 4.0
    model = dict(trees=[grow(rs, c["leaves"], 6, th) for _ in range(c["k"])], weights=[float(v) for v in rs.choice([1.0, -0.5, 2.0], c["k"])])
    X = (rs.randint(-24, 24, (c["n"], 6)) / 4.0).astype(np.float32)
    m = M.build(model)
    part, leaf = np.zeros((c["n"], c["k"])), np.zeros((c["n"], c["k"]), dtype=np.int64)
    base = 0
    for k, (t, w) in enumerate(zip(model["trees"], model["weights"])):
        # leaf numbers through the loaded model's own arrays, checked against the
        # outputs: contributions come from the plain-data tree
        stack = [(t, np.arange(c["n"]), int(m.trees_root[k]))]
        while stack:
            x, rows, node = stack.pop()
            if x[0] == "L":
                part[rows, k], leaf[rows, k] = x[1] * w, node
            else:
                left = X[rows, x[1]] <= np.float32(x[2])
                stack += [(x[3], rows[left], int(m.trees_left_child[node])), (x[4], rows[~left], int(m.trees_right_child[node]))]
    from rankeval.dataset import Dataset
    d = Dataset(X, np.zeros(c["n"], dtype=np.float32), np.sort(rs.randint(0, 50, c["n"])))
    same("scores", np.asarray(m.score(d), dtype=np.float64), part.sum(axis=1))
    y, p, l = m.score(d, detailed=True)
    same("detailed scores", np.asarray(y, dtype=np.float64), part.sum(axis=1))
    for nm, a, b in (("contributions", np.asarray(p, dtype=np.float64), part), ("leaves", np.asarray(l).astype(np.int64), leaf)):
        bad = np.argwhere(a != b)
        require(not len(bad), "%s: %d of %d differ, first row %s", nm, len(bad), a.size, bad[:1].tolist())
    note("%d rows" % c["n"])
    note("%d trees" % c["k"])
    return c["n"] > 1024 and c["k"] > 1024 or c["k"] < 4 and c["n"] > 4095 or c["k"] * (2 * c["leaves"] - 1) > 65535


def edges():
    """Row counts next to powers of two, few trees."""
    return st.fixed_dictionaries(dict(seed=st.integers(0, 2**31 - 1), n=st.sampled_from([(1 << j) + d for j in (8, 10, 12, 13, 14, 15, 16, 16, 17) for d in (-1, 0, 1, 1)] + [10001, 50001, 100001, 200001]),
                                      k=st.sampled_from([1, 2, 3]), leaves=st.sampled_from([2, 3, 5])))


def huge():
    return st.fixed_dictionaries(dict(seed=st.integers(0, 2**31 - 1), n=st.sampled_from([1, 40, 300]), k=st.just(1), leaves=st.just(40000)) ) | \
        st.fixed_dictionaries(dict(seed=st.integers(0, 2**31 - 1), n=st.sampled_from([40, 300]), k=st.sampled_from([3, 40]), leaves=st.just(12000)))\
        .map(lambda c: dict(c, leaves=c["leaves"] * 3 // c["k"]))


@st.composite
def infinite(draw):
    """Infinite thresholds and values: x <= t holds for equal infinities."""
    inf = float("inf")
    nf = draw(st.integers(1, 3))
    big = [inf, -inf, 3.4e38, -3.4e38, 0.0, 1.0]
    big = [G.f32(v) for v in big]
    model = draw(G.ensembles(4, 6, nf, big, weights=[1.0, 0.5]))
    return dict(model=model, ds=draw(G.datasets(3, 3, nf, nf + 1, big)), threads=draw(st.booleans()))


def check_infinite(c, note):
    # formats are read through different number parsers: fill the arrays
    m = M.build(dict(c["model"], trees=[finite(t) for t in c["model"]["trees"]]))
    for i, t in enumerate(c["model"]["trees"]):
        stack = [(t, int(m.trees_root[i]))]
        while stack:
            x, k = stack.pop()
            if x[0] == "S":
                m.trees_nodes_value[k] = x[2]
                stack += [(x[3], int(m.trees_left_child[k])), (x[4], int(m.trees_right_child[k]))]
    MC.compare_scoring("infinite", m, c["model"], c["ds"])
    eq = {v for r in c["ds"]["X"] for v in r if np.isinf(v)} & {x[2] for t in c["model"]["trees"] for x in M.nodes(t) if x[0] == "S"}
    if eq:
        note("an infinite value equal to a threshold")
    return bool(eq)


def finite(t):
    return t if t[0] == "L" else ["S", t[1], 0.0, finite(t[3]), finite(t[4])]


CHECKS = [
    Check("bulk", bulk(), check_bulk, "more than 1024 rows and more than 1024 trees", 16, 300, threads=4),
    Check("edges", edges(), check_bulk, "more than 4095 rows", 16, 600, threads=4),
    Check("huge", huge(), check_bulk, "more than 65535 nodes", 3, 60),
    Check("infinite", infinite(), check_infinite, "an infinite feature value equals the threshold of a split", 300, 8000),
    Check("feature-ids", big_ids(), check_big_ids, "the model splits on a feature whose id is above 32767", 120, 3000),
    Check("semantics", case(), check, "at least two trees, one of them with a split", 1500, 30000, shards=2),
    Check("one-tree", case(max_trees=1), lambda c, note: check(c, note) or c["model"]["trees"][0][0] == "S",
          "the tree has a split", 300, 6000),
    Check("rounding", real(), check_real, "at least two trees, one of them with a split", 800, 15000),
    Check("threads", wide(), check_threads, "two rows and two trees or more", 120, 2500, threads=4),
]
