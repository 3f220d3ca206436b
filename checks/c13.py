"""Saving as QuickRank XML and reloading."""
import os
import warnings

from hypothesis import strategies as st

from lib import gen as G, models as M, modelcheck as MC
from lib.core import Check, require, same, fail
import numpy as np

NEEDS = ("dataset", "scoring")
FORMATS = ["QuickRank", "LightGBM", "XGBoost", "ScikitLearn", "Jforests", "CatBoost"]


@st.composite
def case(draw, max_leaves=10):
    c = draw(G.scored_case(max_leaves=max_leaves, weights=None))
    if draw(st.booleans()):                    # outputs and weights of every magnitude
        vals = draw(st.lists(G.f32s(-3e38, 3e38), min_size=1, max_size=5))
        for t in c["model"]["trees"]:
            for x in M.nodes(t):
                if x[0] == "L" and draw(st.booleans()):
                    x[1] = draw(st.sampled_from(vals))
        c["model"]["weights"] = draw(G.from_pool(len(c["model"]["trees"]), [G.f32(v) for v in (0.1, 1e-30, 7e20, 1 / 3.0, 1.0)]))
    c.update(fmt=draw(st.sampled_from(FORMATS)), base=draw(st.sampled_from([None, 0.25, -1.5])),
             lr=draw(st.sampled_from([1, 0.1, 0.5])), fmt_arg=draw(st.booleans()), old=draw(st.booleans()))
    return c


def text_of(c):
    """The file, and the other arguments of the constructor."""
    f, model = c["fmt"], c["model"]
    kw = dict(base_score=c["base"], learning_rate=c["lr"])
    if f == "QuickRank":
        return M.quickrank(model, 2), kw
    if f == "LightGBM":
        return M.lightgbm(model, 2, "bfs"), kw
    if f == "XGBoost":
        return M.booster(model, "<", 2), kw
    if f == "ScikitLearn":
        return "base_score=%r\nlearning_rate=%r\n" % (c["base"] or 0.0, c["lr"]) + M.booster(model, "<=", 2, "pre"), {}
    if f == "Jforests":
        return M.jforests(model, 2, "bfs"), kw
    return M.catboost(model).SerializeToString(), kw


def load(c):
    text, kw = text_of(c)
    return M.load(text, c["fmt"], **kw)


ARRAYS = ["trees_root", "trees_weight", "trees_left_child", "trees_right_child", "trees_nodes_value", "trees_nodes_feature"]


def snapshot(m):
    return {a: np.array(getattr(m, a)) for a in ARRAYS}, (m.n_trees, m.n_nodes, m.base_score, m.learning_rate, m.name)


def check(c, note):
    from rankeval.model import RTEnsemble
    m = load(c)
    before, scal = snapshot(m)
    p = M.tmpname(".xml")
    with np.errstate(all="ignore"):
        d = M.dataset(c["ds"])
        s0 = np.asarray(m.score(d)).copy()
        if c["old"]:                           # a longer file is there already
            with open(p, "w") as fh:
                fh.write("<ranker>\n" * 9000)
        try:
            r = m.save(p, format="QuickRank") if c["fmt_arg"] else m.save(p)
            require(r is True or (isinstance(r, (bool, np.bool_)) and bool(r)), "save returned %r", r)
            after, scal2 = snapshot(m)
            for a in ARRAYS:
                same("%s after saving" % a, after[a], before[a])
            require(scal == scal2, "saving changed %s to %s", scal, scal2)
            m2 = RTEnsemble(p, base_score=m.base_score, learning_rate=m.learning_rate)
        finally:
            if os.path.exists(p):
                os.unlink(p)
        a, b = M.extract(m), M.extract(m2)
        require(int(m2.n_trees) == int(m.n_trees), "%s trees instead of %s", m2.n_trees, m.n_trees)
        require(int(m2.n_nodes) == int(m.n_nodes), "%s nodes instead of %s", m2.n_nodes, m.n_nodes)
        for i, (x, y) in enumerate(zip(a["trees"], b["trees"])):
            require(x == y, "tree %d: saved %s, reloaded %s", i, x, y)
        require(a["weights"] == b["weights"], "weights saved %s, reloaded %s", a["weights"], b["weights"])
        same("scores of the reloaded model", m2.score(d), s0)
        _, p1, _ = m.score(d, detailed=True)
        _, p2, _ = m2.score(d, detailed=True)
        same("contributions of the reloaded model", p2, p1)
        same("scores after saving", m.score(d), s0)
    note("from " + c["fmt"])
    return MC.labels(c, note)


@st.composite
def deep(draw):
    return dict(h=draw(st.integers(20, 120)), side=draw(st.integers(0, 2**30)), fid=draw(st.sampled_from([0, 1, 200, 5000, 32000])))


def check_deep(c, note):
    from rankeval.model import RTEnsemble
    t = ["L", 0.5]
    for i in range(c["h"]):
        leaf = ["L", float(i)]
        t = ["S", c["fid"], float(i) - 7.25, t, leaf] if c["side"] >> (i % 30) & 1 else ["S", c["fid"], float(-i), leaf, t]
    m = M.load(M.quickrank(dict(trees=[t, ["L", 3.0]], weights=[0.1, 1.0])), "QuickRank")
    p = M.tmpname(".xml")
    require(m.save(p) is True, "save failed")
    m2 = RTEnsemble(p)
    os.unlink(p)
    for a in ARRAYS:
        same("deep tree: " + a, getattr(m2, a), getattr(m, a))
    require(M.extract(m2) == M.extract(m), "the reloaded deep tree differs")
    return True


def check_large(c, note):
    from rankeval.model import RTEnsemble
    m, spec, ds, how = MC.load_grown(c)
    before, scal = snapshot(m)
    p = M.tmpname(".xml")
    require(bool(m.save(p)) is True, "save failed")
    m2 = RTEnsemble(p)
    os.unlink(p)
    after, scal2 = snapshot(m)
    for a in ARRAYS:
        same("%s after saving" % a, after[a], before[a])
    require(scal == scal2, "saving changed %s to %s", scal, scal2)
    require(int(m2.n_trees) == int(m.n_trees) and int(m2.n_nodes) == int(m.n_nodes), "%s trees and %s nodes instead of %s and %s", m2.n_trees, m2.n_nodes,
            m.n_trees, m.n_nodes)
    require(M.extract(m2) == M.extract(m), "the reloaded model differs")
    same("scores of the reloaded model", m2.score(M.dataset(ds)), m.score(M.dataset(ds)))
    return int(m.n_nodes) > 255


CHECKS = [
    Check("large", MC.grown(FORMATS), check_large, "more than 255 nodes", 40, 1500, shards=2),
    Check("formats", case(), check, "at least two trees, one of them with a split", 1500, 50000, shards=2),
    Check("deep", deep(), check_deep, "always (20 to 120 levels)", 60, 1500),
]
