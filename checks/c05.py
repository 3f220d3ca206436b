"""Train/validation/test split."""
from fractions import Fraction

from hypothesis import strategies as st

from lib import gen as G
from lib.core import Check, require, same, fail, raises
from checks import c04
import numpy as np

NEEDS = ("dataset",)


def rounded(share, n):
    """Integers nearest to share * n (both at a tie, floats being inexact)."""
    x = Fraction(share) * n
    lo = int(x // 1)
    d = x - lo
    eps = Fraction(1, 10**9)
    if abs(d - Fraction(1, 2)) < eps:
        return {lo, lo + 1}
    return {lo if d < Fraction(1, 2) else lo + 1}


SHARES = [0.0, 1.0, 0.5, 0.25, 0.1, 0.2, 0.3, 0.6, 0.7, 0.8, 0.05, 0.9, 1 / 3.0, 2 / 3.0]


@st.composite
def case(draw, max_queries=14):
    ds = draw(G.datasets(max_queries, 4, max_features=2, wide=True))
    n = len(ds["ids"])
    sh = st.one_of(st.sampled_from(SHARES), st.floats(0, 1), st.integers(0, n).map(lambda k: k / float(n)))
    train = draw(sh)
    vali = draw(st.one_of(st.just(0), sh, st.sampled_from([0.0, 1.0 - train])))
    if train + vali > 1:
        vali = 1.0 - train
        if train + vali > 1:
            vali = 0
    return dict(ds=ds, train=train, vali=vali, seed=draw(st.integers(0, 2**32 - 1)),
                how=draw(st.sampled_from(["int", "npint", "state", "global", "module"])), order=draw(st.sampled_from("CF")))


def split(d, c, how=None):
    how = how or c["how"]
    rs = c["seed"]
    if how == "npint":
        rs = [np.uint32, np.int64, np.uint64][rs % 3](rs)
    elif how == "state":
        rs = np.random.RandomState(rs)
    elif how in ("global", "module"):
        np.random.seed(rs)
        rs = None if how == "global" else np.random
    parts = d.split(c["train"], c["vali"], random_state=rs)
    require(isinstance(parts, (tuple, list)), "split returned %s", type(parts))
    require(len(parts) == (3 if c["vali"] else 2), "split returned %d parts (vali_size=%r)", len(parts), c["vali"])
    return list(parts) if c["vali"] else [parts[0], None, parts[1]]


def verify(what, d, parts, ds, sizes):
    q = G.unroll(ds["sizes"], ds["ids"])
    X, y = np.array(ds["X"], dtype=np.float32), np.array(ds["y"], dtype=np.float32)
    seen = []
    for name, p in zip(("train", "vali", "test"), parts):
        if p is None:
            continue
        mine = [int(i) for i in p.query_ids]
        require(len(set(mine)) == len(mine), "%s: %s has queries %s", what, name, mine)
        require(set(mine) <= set(ds["ids"]), "%s: %s has the unknown queries %s", what, name, sorted(set(mine) - set(ds["ids"])))
        chosen = set(mine)
        keep = [i for i, v in enumerate(q) if v in chosen]
        c04.verify("%s: %s" % (what, name), p, X[keep], y[keep], [q[i] for i in keep])
        seen += mine
    require(sorted(seen) == sorted(ds["ids"]), "%s: queries assigned %s, of the dataset %s", what, sorted(seen),
            sorted(ds["ids"]))
    t, v = sizes
    n = len(ds["ids"])
    got = [0 if p is None else int(p.n_queries) for p in parts]
    require(got[0] in t, "%s: %d of %d training queries, expected %s", what, got[0], n, sorted(t))
    if parts[1] is not None:
        ok = {min(k, n - got[0]) for k in v}
        require(got[1] in ok, "%s: %d of %d validation queries, expected %s", what, got[1], n, sorted(ok))
    require(got[2] == n - got[0] - got[1], "%s: %s queries in test", what, got[2])
    return got


def check(c, note):
    ds = c["ds"]
    d = c04.mk(ds, order=c["order"])
    sizes = (rounded(c["train"], len(ds["ids"])), rounded(c["vali"], len(ds["ids"])))
    parts = split(d, c)
    got = verify("split", d, parts, ds, sizes)
    again = split(d, c)
    for a, b, w in zip(parts, again, ("train", "vali", "test")):
        if a is not None:
            require(a.query_ids.tolist() == b.query_ids.tolist(), "the same random state gives another %s part", w)
    other = split(d, c, "state" if c["how"] in ("int", "npint") else c["how"])
    for a, b, w in zip(parts, other, ("train", "vali", "test")):
        if a is not None:
            require(a.query_ids.tolist() == b.query_ids.tolist(), "an integer seed and its RandomState give another %s part", w)
    X, y, q = np.array(ds["X"], dtype=np.float32), ds["y"], G.unroll(ds["sizes"], ds["ids"])
    c04.verify("dataset after splitting", d, X, y, q)
    note("random state: " + c["how"])
    note("empty test" if got[2] == 0 else "with test")
    note("with validation" if parts[1] is not None else "without validation")
    return len(ds["ids"]) > 2 and 0 < got[0] < len(ds["ids"])


def check_random(c, note):
    """The assignment follows the random state: over many seeds every query
    lands in every part that has room."""
    k = c["k"]
    ds = dict(X=[[float(i)] for i in range(k)], y=[0.0] * k, sizes=[1] * k, ids=list(range(10, 10 + k)))
    d = c04.mk(ds)
    seen = set()
    for s in range(60):
        tr, va, te = d.split(c["train"], c["vali"], random_state=c["seed"] + s)
        seen.add(tuple(sorted(tr.query_ids.tolist())))
    n_tr = int(tr.n_queries)
    if 0 < n_tr < k:
        # 60 uniform draws among at least k choices: fewer than 2 distinct has probability below k^-59
        require(len(seen) > 1, "60 seeds give the same training queries %s", seen)
        return True
    return False


@st.composite
def invalid(draw):
    ds = draw(G.datasets(4, 2, max_features=1))
    kind = draw(st.sampled_from(["neg", "big", "sum", "sum", "vali"]))
    if kind == "neg":
        t, v = -draw(st.floats(1e-6, 2)), 0
    elif kind == "vali":
        t, v = draw(st.floats(0, 1)), -draw(st.floats(1e-6, 2))
    elif kind == "big":
        t, v = 1 + draw(st.floats(1e-6, 5)), 0
    else:
        t = draw(st.floats(0.05, 1))
        v = 1 - t + draw(st.floats(1e-3, 1))
    return dict(ds=ds, train=t, vali=v, seed=draw(st.integers(0, 1000)))


def check_invalid(c, note):
    d = c04.mk(c["ds"])
    raises("split(%r, %r)" % (c["train"], c["vali"]), Exception, d.split, c["train"], c["vali"], c["seed"])
    return True


@st.composite
def large(draw):
    sh = st.one_of(st.sampled_from(SHARES), st.floats(0, 1))
    t = draw(sh)
    v = draw(st.sampled_from([0, 0.1, 0.2, (1 - t) / 2, (1 - t) / 3]))
    return dict(g=draw(G.grown(300, 8, 5)), train=t, vali=v if t + v <= 1 else 0, seed=draw(st.integers(0, 2**32 - 1)),
                how=draw(st.sampled_from(["int", "npint", "state", "global", "module"])), order=draw(st.sampled_from("CF")))


@st.composite
def vast(draw):
    t = draw(st.sampled_from(SHARES + [0.001, 0.999]))
    v = draw(st.sampled_from([0, 0, 0.1, 0.5]))
    return dict(n=draw(st.sampled_from([5000, 33000, 66001])), per=draw(st.sampled_from([1, 1, 2])), train=t, vali=v if t + v <= 1 else 0, seed=draw(st.integers(0, 2**32 - 1)),
                how=draw(st.sampled_from(["int", "npint", "state", "global", "module"])), down=draw(st.booleans()), gap=draw(st.sampled_from([1, 7, 30000])))


def check_vast(c, note):
    """Many queries of one or two rows."""
    from rankeval.dataset import Dataset
    n, k = c["n"], c["per"]
    ids = np.arange(n, dtype=np.int64) * c["gap"]
    ids = ids[::-1] if c["down"] else ids
    q, X = np.repeat(ids, k), np.arange(n * k, dtype=np.float32)[:, None]
    y = (np.arange(n * k) % 5).astype(np.float32)
    d = Dataset(X.copy(), y.copy(), q)
    parts, again = split(d, c), split(d, c)
    seen, got = np.zeros(n * k, dtype=int), []
    for name, p, o in zip(("train", "vali", "test"), parts, again):
        if p is None:
            got.append(0)
            continue
        at = p.X[:, 0].astype(np.int64)
        require((np.diff(at) > 0).all(), "the rows of %s are not in the order of the dataset", name)
        np.add.at(seen, at, 1)
        same("labels of " + name, p.y, y[at])
        require(len(at) % k == 0 and np.array_equal(np.repeat(p.query_ids, np.diff(p.query_offsets)), q[at]), "%s: the rows do not belong to its queries", name)
        require(len(p.query_ids) == len(at) // k == p.n_queries, "%s: %d queries of %d rows", name, p.n_queries, len(at))
        require(np.array_equal(p.query_ids, o.query_ids), "the same random state gives another %s part", name)
        got.append(int(p.n_queries))
    require((seen == 1).all(), "%d rows in no part or in several", (seen != 1).sum())
    require(got[0] in rounded(c["train"], n), "%d of %d training queries", got[0], n)
    if parts[1] is not None:
        require(got[1] in {min(j, n - got[0]) for j in rounded(c["vali"], n)}, "%d of %d validation queries", got[1], n)
    if 0 < got[0] < n:                        # shuffled: equal to the first ones with a probability below 2e-4
        require(got[0] in (1, n - 1) or sorted(parts[0].query_ids.tolist()) != sorted(ids[:got[0]].tolist()), "the training part is made of the first queries")
    same("features after splitting", d.X, X)
    same("query ids after splitting", d.query_ids, ids)
    note("%d queries" % n)
    return n > 32767


CHECKS = [
    Check("vast", vast(), check_vast, "more than 32767 queries", 12, 300, shards=2),
    Check("large", large(), lambda c, note: check(dict(c, ds=G.grow(c["g"])), note) and c["g"]["q"] > 20,
          "more than twenty queries, training part neither empty nor full", 60, 2500, shards=2),
    Check("split", case(), check, "three queries or more, training part neither empty nor full", 1500, 60000),
    Check("random", st.builds(lambda k, t, s: dict(k=k, train=t, vali=round(1 - t, 1) / 2, seed=s), st.integers(4, 9),
                              st.sampled_from([0.3, 0.4, 0.5, 0.6]), st.integers(0, 10**6)), check_random,
          "training part neither empty nor full", 30, 500),
    Check("invalid", invalid(), check_invalid, "always", 150, 3000),
]
