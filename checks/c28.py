"""Topological analysis against positions counted on the plain-data trees."""
import numpy as np
from hypothesis import strategies as st

from checks import c13
from lib import gen as G, models as M, modelcheck as MC
from lib.core import Check, require, same, close

NEEDS = ("dataset", "scoring", "analysis")


@st.composite
def case(draw, max_trees=7, max_leaves=12, formats=c13.FORMATS):
    return dict(model=draw(G.ensembles(max_trees, max_leaves, 3)), fmt=draw(st.sampled_from(formats)), base=None, lr=1,
                leaves=draw(st.sampled_from([True, False, None])), seed=draw(st.integers(0, 2**31)), k=draw(st.integers(1, 8)))


@st.composite
def deep(draw):
    """Chains of up to 62 levels, in one direction or zigzag."""
    ts = []
    for _ in range(draw(st.integers(1, 3))):
        d = draw(st.sampled_from([0, 1, 7, 15, 16, 17, 30, 31, 32, 33, 40, 52, 53, 54, 61, 62]))
        side = draw(st.sampled_from(["L", "R", "alt", "mix"]))
        rs = np.random.RandomState(draw(st.integers(0, 2**31)))
        t = ["L", 1.0]
        for i in range(d):
            s = {"L": 0, "R": 1, "alt": i % 2, "mix": int(rs.randint(2))}[side]
            t = ["S", 0, float(i), t, ["L", 2.0]] if s == 0 else ["S", 0, float(i), ["L", 2.0], t]
        ts.append(t)
    return dict(model=dict(trees=ts, weights=[1.0] * len(ts)), fmt="QuickRank", base=None, lr=1, leaves=draw(st.sampled_from([True, False, None])),
                seed=draw(st.integers(0, 2**31)), k=draw(st.integers(1, 4)))


def expected(ts, leaves):
    count = {(0, 0): len(ts)}
    for t in ts:
        for p, leaf in M.positions(t).items():
            if p != (0, 0) and (leaves or not leaf):
                count[p] = count.get(p, 0) + 1
    return count


def renumber(m, seed):
    """Another order of the nodes of each tree, parents still first."""
    rs = np.random.RandomState(seed)
    n = len(m.trees_nodes_value)
    roots = list(m.trees_root) + [n]
    new = np.zeros(n, dtype=np.int64)
    for r, e in zip(roots, roots[1:]):
        nxt, ready = r, [r]
        while ready:
            x = int(ready.pop(rs.randint(len(ready))))
            new[x] = nxt
            nxt += 1
            if m.trees_left_child[x] != -1:
                ready += [m.trees_left_child[x], m.trees_right_child[x]]
        if nxt != e:
            return False
    for a in ("trees_nodes_value", "trees_nodes_feature", "trees_left_child", "trees_right_child"):
        old = getattr(m, a).copy()
        if a.endswith("child"):
            old = np.where(old == -1, -1, new[old]).astype(old.dtype)
        getattr(m, a)[new] = old
    return True


def verify(what, m, ts, leaves):
    from rankeval.analysis.topological import topological_analysis
    r = topological_analysis(m) if leaves is None else topological_analysis(m, include_leaves=leaves)
    leaves = leaves is None or leaves
    n = len(ts)
    cnt = expected(ts, leaves)
    got = {(int(a), int(b)): float(v) for a, b, v in zip(*[x.tolist() for x in (lambda c: (c.row, c.col, c.data))(r.topology.tocoo())])}
    require(got == {k: float(v) for k, v in cnt.items()}, "%s (leaves %s): nodes present %s instead of %s", what, leaves, sorted(got.items()),
            sorted(cnt.items()))
    shp = r.avg_tree_shape()
    c = shp.tocoo()
    frac = {(int(a), int(b)): float(v) for a, b, v in zip(c.row.tolist(), c.col.tolist(), c.data.tolist())}
    require(set(frac) == set(cnt), "%s: positions of the average shape", what)
    for k in cnt:
        require(abs(frac[k] - cnt[k] / float(n)) < 1e-6, "%s: position %s in a fraction %r of the trees instead of %d/%d", what, k, frac[k],
                cnt[k], n)
    hs = [M.height(t) for t in ts]
    same("%s: heights" % what, np.asarray(r.height_trees).astype(np.int64), hs)
    d = r.describe_tree_height()
    require(int(d.nobs) == n, "%s: %s trees described", what, d.nobs)
    same("%s: minimum and maximum height" % what, np.array([int(x) for x in d.minmax]), [min(hs), max(hs)])
    mu = sum(hs) / float(n)
    close("%s: mean height" % what, d.mean, mu)
    if n > 1:
        var = sum((h - mu) ** 2 for h in hs) / (n - 1.0)
        close("%s: variance of the height" % what, d.variance, var, rel=1e-6, abs_=1e-9)
        if var > 0:
            s2 = var * (n - 1) / n
            close("%s: skewness" % what, d.skewness, sum((h - mu) ** 3 for h in hs) / n / s2 ** 1.5, rel=1e-6, abs_=1e-6)
            close("%s: kurtosis" % what, d.kurtosis, sum((h - mu) ** 4 for h in hs) / n / s2 ** 2 - 3, rel=1e-6, abs_=1e-6)
    f = np.asarray(r.fullness_per_level())
    lev = {}
    for (a, b), v in cnt.items():
        lev.setdefault(a, []).append(v / float(n))
    close("%s: fullness per level" % what, f, [sum(lev[a]) / len(lev[a]) for a in range(max(lev) + 1)], rel=1e-6)


def check(c, note):
    m = c13.load(c)
    ts = c["model"]["trees"]
    before = c13.snapshot(m)
    for leaves in (c["leaves"], not (c["leaves"] is None or c["leaves"])):
        verify("model", m, ts, leaves)
    after = c13.snapshot(m)
    for a in c13.ARRAYS:
        same("%s after the analysis" % a, after[0][a], before[0][a])
    verify("first %d trees" % c["k"], m.copy(n_trees=c["k"]), ts[:c["k"]], c["leaves"])
    if renumber(m, c["seed"]):
        verify("renumbered nodes", m, ts, c["leaves"])
        note("renumbered")
    note("format " + c["fmt"])
    note("leaves " + str(c["leaves"]))
    if any(t[0] == "L" for t in ts):
        note("single-leaf tree")
    h = max(M.height(t) for t in ts)
    note("height " + ("0-1" if h < 2 else "2-7" if h < 8 else "8-31" if h < 32 else "32 or more"))
    return len(ts) > 1 and h > 1


def grown():
    return st.fixed_dictionaries(dict(c=MC.grown(c13.FORMATS), leaves=st.sampled_from([True, False, None]), cut=st.integers(1, 300)))


def check_grown(c, note):
    """Larger models: many trees, many leaves."""
    p = dict(c["c"], cap=min(c["c"]["cap"], 3000) if c["c"]["fmt"] in ("CatBoost", "XGBoost") else c["c"]["cap"])
    m, spec, ds, how = MC.load_grown(p)
    verify("model", m, spec["trees"], c["leaves"])
    k = min(c["cut"], len(spec["trees"]))
    verify("first %d trees" % k, m.copy(n_trees=k), spec["trees"][:k], c["leaves"])
    note(p["fmt"])
    return sum(len(M.nodes(t)) for t in spec["trees"]) > 255


def check_vast(c, note):
    """Tens of thousands of trees of a few shapes."""
    L = ["L", 1.0]
    shapes = [L, ["S", 0, 0.5, L, L], ["S", 0, 0.5, L, ["S", 0, 1.5, L, L]], ["S", 0, 0.5, ["S", 0, -1.5, L, L], L], ["S", 0, 0.5, ["S", 0, -1.5, L, L], ["S", 0, 1.5, L, L]]]
    rs = np.random.RandomState(c["seed"])
    mine = [shapes[int(i)] for i in rs.permutation(len(shapes))[:c["kinds"]]]
    ts = [mine[int(i)] for i in rs.randint(len(mine), size=c["n"])]
    m = M.build(dict(trees=ts, weights=[1.0] * len(ts)))
    verify("model", m, ts, c["leaves"])
    note("%d trees" % c["n"])
    return c["n"] > 32767


CHECKS = [
    Check("vast", st.fixed_dictionaries(dict(seed=st.integers(0, 2**31 - 1), n=st.sampled_from([300, 33000, 66001, 70000]), kinds=st.integers(1, 3), leaves=st.sampled_from([True, False, None]))),
          check_vast, "more than 32767 trees", 4, 300, shards=2),
    Check("grown", grown(), check_grown, "more than 255 nodes", 60, 2000, env=dict(OMP_NUM_THREADS="4"), threads=4),
    Check("shapes", case(), check, "two trees or more, one of them of height two or more", 900, 40000, shards=3),
    Check("threads", case(max_trees=20), check, "two trees or more, one of them of height two or more", 200, 8000, env=dict(OMP_NUM_THREADS="4"), threads=4),
    Check("deep", deep(), check, "two trees or more, one of them of height two or more", 200, 6000),
]
