"""Pruned copies, loading limits and the structure statistics."""
from hypothesis import strategies as st

from lib import gen as G, models as M, modelcheck as MC
from lib.core import Check, require, same, fail
from checks import c13
import numpy as np

QUICK = 1                                     # times the numbers of cases below
NEEDS = ("dataset", "scoring")


@st.composite
def case(draw):
    c = draw(G.scored_case(max_trees=7, min_trees=2, extreme=False))
    n = len(c["model"]["trees"])
    c.update(fmt=draw(st.sampled_from(c13.FORMATS)), base=draw(st.sampled_from([None, 0.5])), lr=draw(st.sampled_from([1, 0.5])),
             k=draw(st.sampled_from([max(1, n // 2), max(1, n - 1), 1, n, n + 2])), k2=draw(st.integers(1, n + 2)), cached=draw(st.booleans()))
    return c


def stats(what, m, spec):
    ts = spec["trees"]
    require(int(m.n_trees) == len(ts), "%s: n_trees is %s instead of %d", what, m.n_trees, len(ts))
    nn = [len(M.nodes(t)) for t in ts]
    nl = [M.n_leaves(t) for t in ts]
    require(int(m.n_nodes) == sum(nn), "%s: n_nodes is %s instead of %d", what, m.n_nodes, sum(nn))
    same(what + ": num_nodes", m.num_nodes(), nn)
    same(what + ": num_leaves", m.num_leaves(), nl)
    require(int(m.max_leaves()) == max(nl), "%s: max_leaves is %s instead of %d", what, m.max_leaves(), max(nl))
    same(what + ": height_trees", m.height_trees(), [M.height(t) for t in ts])
    leaves = [bool(m.is_leaf_node(i)) for i in range(int(m.n_nodes))]
    require(sum(leaves) == sum(nl), "%s: %d leaf nodes instead of %d", what, sum(leaves), sum(nl))
    for i in range(len(ts)):
        paths = MC.model_leaf_paths(m, i)
        want, stack = set(), [(ts[i], "")]
        while stack:
            x, p = stack.pop()
            if x[0] == "L":
                want.add(p)
            else:
                stack += [(x[3], p + "L"), (x[4], p + "R")]
        require(set(paths.values()) == want and len(paths) == len(want), "%s: leaves of tree %d", what, i)
    for a, n in (("trees_root", len(ts)), ("trees_weight", len(ts)), ("trees_left_child", sum(nn)),
                 ("trees_right_child", sum(nn)), ("trees_nodes_value", sum(nn)), ("trees_nodes_feature", sum(nn))):
        require(len(getattr(m, a)) == n, "%s: %s has %d entries instead of %d", what, a, len(getattr(m, a)), n)


def check(c, note):
    spec, n = c["model"], len(c["model"]["trees"])
    fmt = c["fmt"]
    weights = fmt in ("QuickRank", "Jforests")
    strict = fmt == "XGBoost"
    m = c13.load(c)
    base = m.base_score or 0.0
    if fmt == "XGBoost" and c["base"] is None:
        require(base == 0.5, "base score %r", base)
    pre = lambda k: dict(trees=spec["trees"][:k], weights=spec["weights"][:k])

    def verify(what, x, k):
        k = min(k, n)
        MC.compare_structure(what, x, pre(k), weights=weights, thresholds=not strict)
        stats(what, x, pre(k))
        MC.compare_scoring(what, x, pre(k), c["ds"], strict=strict, base=base, lr=c["lr"], weights=weights)
    verify("model", m, n)
    if c["cached"]:
        m.score(M.dataset(c["ds"]), detailed=True, cache=True)
    before = c13.snapshot(m)
    k, k2 = c["k"], c["k2"]
    p = m.copy(n_trees=k)
    verify("copy(%d)" % k, p, k)
    q = p.copy(n_trees=k2)
    verify("copy(%d) of copy(%d)" % (k2, k), q, min(k, k2))
    f = m.copy()
    verify("copy()", f, n)
    verify("model after the copies", m, n)
    after = c13.snapshot(m)
    for a in c13.ARRAYS:
        same("%s after the copies" % a, after[0][a], before[0][a])
    require(before[1] == after[1], "copying changed %s to %s", before[1], after[1])
    # independence, both ways
    for x in (p, f):
        x.trees_nodes_value[:] = 99
        x.trees_weight[:] = -7
        x.trees_left_child[:] = -1
    m.clear_cache()
    verify("model after changing its copies", m, n)
    g = m.copy(n_trees=k)
    m.trees_nodes_value[:] = 55
    m.trees_weight[:] = 3
    verify("copy after changing the original", g, k)
    # limit at load time
    text = {"QuickRank": M.quickrank, "LightGBM": M.lightgbm, "Jforests": M.jforests}.get(fmt)
    kw = dict(base_score=c["base"], learning_rate=c["lr"], n_trees=k)
    if text:
        x = M.load(text(spec, 2), fmt, **kw)
    elif fmt == "XGBoost":
        x = M.load(M.booster(spec, "<", 2), fmt, **kw)
    elif fmt == "ScikitLearn":
        x = M.load("base_score=%r\nlearning_rate=%r\n" % (c["base"] or 0.0, c["lr"]) + M.booster(spec, "<=", 2, "pre"), fmt,
                   n_trees=k)
    else:
        x = M.load(M.catboost(spec).SerializeToString(), fmt, **kw)
    verify("loaded with n_trees=%d" % k, x, k)
    note("format " + fmt)
    note("proper prefix" if k < n else "no pruning")
    return k < n and any(t[0] == "S" for t in spec["trees"])


def check_large(c, note):
    m, spec, ds, how = MC.load_grown(c)
    n = len(spec["trees"])
    rs = np.random.RandomState(c["seed"])
    stats("model", m, spec)
    before, scal = c13.snapshot(m)
    for k in sorted({1, n, max(1, n - 1), int(rs.randint(1, n + 1))}):
        pre = dict(trees=spec["trees"][:k], weights=spec["weights"][:k])
        p = m.copy(n_trees=k)
        stats("copy(%d) of %d" % (k, n), p, pre)
        MC.compare_structure("copy(%d) of %d" % (k, n), p, pre, weights=how["weights"], thresholds=not how["strict"])
        MC.compare_scoring("copy(%d) of %d" % (k, n), p, pre, ds, strict=how["strict"], weights=how["weights"])
        p.trees_nodes_value[:] = -1e9
    after, scal2 = c13.snapshot(m)
    for a in c13.ARRAYS:
        same("%s after copying" % a, after[a], before[a])
    return n > 1 and int(m.n_nodes) > 255


CHECKS = [Check("large", MC.grown(c13.FORMATS), check_large, "two trees or more, more than 255 nodes", 40, 1200, shards=3),
          Check("prefixes", case(), check, "a proper prefix of a model with a split", 1200, 25000, shards=4)]
