"""Unsupported formats and constructs are refused."""
import copy
import io
import os
import re

from hypothesis import strategies as st

from lib import gen as G, models as M, modelcheck as MC
from lib.core import Check, require, same, fail, raises
from checks import c13
import numpy as np

NEEDS = ("dataset", "scoring")
FORMATS = c13.FORMATS
ERR = Exception


def load_text(text, fmt):
    return M.load(text, fmt)


VARIANTS = {"lower": str.lower, "upper": str.upper, "swap": str.swapcase, "title": str.title, "binary": lambda s: s + "Binary", "space": lambda s: s + " ",
            "indent": lambda s: " " + s, "2": lambda s: s + "2", "short": lambda s: s[:-1], "half": lambda s: s[:4], "tail": lambda s: s[1:], "gz": lambda s: s + ".gz",
            "twice": lambda s: s + s, "x": lambda s: "x" + s, "newline": lambda s: s + "\n"}


@st.composite
def fmtcase(draw):
    name = draw(st.one_of(st.sampled_from(["", "quickrank", "QUICKRANK", "XGboost", "lightgbm", "sklearn", "Scikit-Learn",
                                           "catboost", "jforest", "Jforests ", "pmml", "onnx", "json", "csv", "libsvm", "Svmlight",
                                           "SVMLIGHT", "svmlight ", "None"]), st.text(max_size=12),
                            st.tuples(st.sampled_from(FORMATS + ["svmlight"]), st.sampled_from(sorted(VARIANTS))).map(lambda v: VARIANTS[v[1]](v[0]))))
    return dict(name=name, model=draw(G.ensembles(2, 4)), ds=draw(G.datasets(2, 2)))


def check_format(c, note):
    from rankeval.dataset import Dataset
    f = c["name"]
    if f not in FORMATS:
        p = M.write(M.quickrank(c["model"]))
        from rankeval.model import RTEnsemble
        raises("loading a model as %r" % f, ERR, RTEnsemble, p, format=f)
        m = RTEnsemble(p)
        out = M.tmpname(".out")
        raises("saving a model as %r" % f, ERR, m.save, out, format=f)
        os.unlink(p)
        note("unknown model format")
    if f != "svmlight":
        d = M.dataset(c["ds"])
        out = M.tmpname(".txt")
        d.dump(out)
        raises("loading a dataset as %r" % f, ERR, Dataset.load, out, format=f)
        raises("dumping a dataset as %r" % f, ERR, d.dump, M.tmpname(".txt"), format=f)
        os.unlink(out)
        note("unknown dataset format")
    for w in ("LightGBM", "XGBoost", "ScikitLearn", "Jforests", "CatBoost"):
        m = M.build(c["model"])
        raises("saving as %s" % w, ERR, m.save, M.tmpname(".out"), format=w)
    return True


# ---------------------------------------------------------------- LightGBM
@st.composite
def lgb(draw):
    c = draw(G.ensembles(4, 6))
    splits = [i for i, t in enumerate(c["trees"]) if t[0] == "S"]
    if not splits:
        c["trees"][0] = ["S", 0, 0.5, ["L", 1.0], ["L", 2.0]]
        splits = [0]
    i = draw(st.sampled_from(splits))
    k = draw(st.integers(0, M.n_leaves(c["trees"][i]) - 2))
    # bit 0: categorical, bit 1: default left, bits 2-3: missing type
    return dict(model=c, tree=i, node=k, kind=draw(st.sampled_from(["decision", "decision", "default", "categorical", "linear", "average", "none"])), v3=draw(st.booleans()),
                value=draw(st.sampled_from([0, 1, 3, 4, 6, 8, 9, 10, 11])),
                default=draw(st.sampled_from(["1", "-1", "0.5", "1e-3"])))


def check_lgb(c, note):
    text = M.lightgbm(c["model"], default_value=c["kind"] == "default", v3=c["v3"] or c["kind"] == "linear")
    blocks = re.split(r"(?=^Tree=)", text, flags=re.M)
    b = blocks[1 + c["tree"]]

    def edit(key, value):
        m = re.search(r"^%s=(.*)$" % key, b, re.M)
        v = m.group(1).split()
        v[c["node"]] = str(value)
        return b[:m.start(1)] + " ".join(v) + b[m.end(1):]
    if c["kind"] == "decision":
        b = edit("decision_type", c["value"])
    elif c["kind"] == "default":
        b = edit("default_value", c["default"])
    elif c["kind"] == "categorical":
        b = b.replace("num_cat=0", "num_cat=1\nhas_categorical=1")
    elif c["kind"] == "linear":                # regressions in the leaves of one tree
        n = M.n_leaves(c["model"]["trees"][c["tree"]])
        b = b.replace("is_linear=0", "is_linear=1\nleaf_const=%s\nnum_features=%s\nleaf_features=%s\nleaf_coeff=%s" % (
            " ".join(["0.25"] * n), " ".join(["1"] * n), "  ".join(["0"] * n), "  ".join(["0.5"] * n)))
    elif c["kind"] == "average":               # a random forest: the mean of the trees, not their sum
        blocks[0] = blocks[0].replace("objective=", "average_output\nobjective=")
    else:
        b = b.replace("num_cat=0", "num_cat=0\nhas_categorical=0")
    blocks[1 + c["tree"]] = b
    text = "".join(blocks)
    if c["kind"] == "none":
        m = M.load(text, "LightGBM")
        from lib import modelcheck as MC
        MC.compare_structure("LightGBM", m, c["model"], weights=False)
    else:
        raises("LightGBM model with %s %s in tree %d, split %d" % (
            c["kind"], c["value"] if c["kind"] == "decision" else c["default"] if c["kind"] == "default" else "flag",
            c["tree"], c["node"]), ERR, M.load, text, "LightGBM")
    note(c["kind"] + (" %d" % c["value"] if c["kind"] == "decision" else ""))
    return c["kind"] != "none"


# ---------------------------------------------------------------- XGBoost
@st.composite
def xgb(draw):
    c = draw(lgb())
    return dict(model=c["model"], tree=c["tree"], node=c["node"], numbering=draw(st.sampled_from(["bfs", "pre", "heap"])), stats=draw(st.booleans()),
                text=draw(st.sampled_from(["age<2.5", "BM25<0.5", "f_1<3", "x<0.5", "ind", "f0", "query length<7", "f0:{1,2,5}", "kind:{3}", None])))


def check_xgb(c, note):
    """One split on a named feature, an indicator or a set of categories."""
    text = M.booster(c["model"], "<", 0, c["numbering"], c["stats"])
    blocks = re.split(r"(?=^booster)", text, flags=re.M)
    b = blocks[1 + c["tree"]]
    m = list(re.finditer(r"\[(f\d+<[^\]]*)\]", b))[c["node"]]
    if c["text"] is not None:
        blocks[1 + c["tree"]] = b[:m.start(1)] + c["text"] + b[m.end(1):]
    text = "".join(blocks)
    if c["text"] is None:
        MC.compare_structure("XGBoost", M.load(text, "XGBoost"), c["model"], weights=False, thresholds=False)
    else:
        raises("XGBoost dump with the split [%s] in tree %d" % (c["text"], c["tree"]), ERR, M.load, text, "XGBoost")
    note("split %s" % c["text"])
    return c["text"] is not None


# ---------------------------------------------------------------- CatBoost
@st.composite
def cat(draw):
    c = draw(G.ensembles(3, 6))
    n = [len([x for x in M.nodes(t) if x[0] == "S"]) for t in c["trees"]]
    if not sum(n):
        c["trees"][0] = ["S", 0, 0.5, ["L", 1.0], ["L", 2.0]]
        n[0] = 1
    i = draw(st.sampled_from([i for i, k in enumerate(n) if k]))
    # 0 <=, 1 <, 2 >=, 3 >, 4 ==, 5 !=
    return dict(model=c, tree=i, node=draw(st.integers(0, n[i] - 1)), op=draw(st.sampled_from([1, 2, 4, 5])))


def check_cat(c, note):
    pb = M.catboost(c["model"])
    k = 0
    for nd in pb.treeEnsembleRegressor.treeEnsemble.nodes:
        if nd.treeId == c["tree"] and nd.nodeBehavior != 6:
            if k == c["node"]:
                nd.nodeBehavior = c["op"]
            k += 1
    try:
        m = M.load(pb.SerializeToString(), "CatBoost")
    except Exception:
        note("refused operator %d" % c["op"])
        return True
    fail("CatBoost model with comparison %d in tree %d accepted as %s", c["op"], c["tree"], M.extract(m))


# ---------------------------------------------------------------- scikit-learn
KINDS = ["LinearRegression", "DecisionTreeRegressor", "RandomForestRegressor", "GradientBoostingClassifier", "Ridge",
         "ExtraTreesRegressor", "AdaBoostRegressor", "BaggingRegressor", "KNeighborsRegressor", "RandomForestClassifier",
         "HistGradientBoostingRegressor", "DummyRegressor", "object"]


@st.composite
def skl(draw):
    n = draw(st.integers(6, 20))
    return dict(kind=draw(st.sampled_from(KINDS)), y=draw(G.from_pool(n, [0.0, 1.0, 1.0, 0.0, 1.0])), seed=draw(st.integers(0, 99)))


def check_skl(c, note):
    import sklearn.ensemble as E
    import sklearn.linear_model as L
    import sklearn.tree as T
    import sklearn.neighbors as N
    import sklearn.dummy as D
    from rankeval.model import ProxyScikitLearn, RTEnsemble
    y = list(c["y"])
    y[0], y[1] = 0.0, 1.0
    X = np.random.RandomState(c["seed"]).rand(len(y), 3)
    k = c["kind"]
    if k == "object":
        g = object()
    else:
        for mod in (E, L, T, N, D):
            if hasattr(mod, k):
                cls = getattr(mod, k)
        kw = dict(n_estimators=3) if mod is E or hasattr(E, k) and "Hist" not in k else {}
        g = cls(**kw)
        g.fit(X, np.array(y).astype(int) if "Classifier" in k else y)
    p = M.tmpname(".txt")
    raises("exporting a %s" % k, ERR, ProxyScikitLearn.export_scikit_model, g, p)
    note(k)
    return True


# ---------------------------------------------------------------- features
@st.composite
def feats(draw):
    model = draw(G.ensembles(3, 5, n_features=draw(st.integers(1, 7))))
    ds = draw(G.datasets(3, 3, 1, 8))
    return dict(model=model, ds=ds, detailed=draw(st.booleans()), cache=draw(st.booleans()), cut=draw(st.integers(1, 3)), first=draw(st.booleans()))


def check_feats(c, note):
    m = M.build(c["model"])
    d = M.dataset(c["ds"])
    need, have = M.max_feature(c["model"]) + 1, len(c["ds"]["X"][0])
    if need > have:
        for det in (c["detailed"], not c["detailed"]):
            raises("scoring a dataset of %d features, the model needing %d" % (have, need), ERR, m.score, d, detailed=det,
                   cache=c["cache"])
        note("refused")
    else:
        want, _ = M.score(c["model"], c["ds"]["X"])
        r = m.score(d, detailed=c["detailed"], cache=c["cache"])
        same("scores", np.asarray(r[0] if c["detailed"] else r, dtype=np.float64), want)
        note("accepted, as many features" if need == have else "accepted, more features")
    # a copy with fewer trees, made after the model has been used: its own needs count
    k = min(c["cut"], len(c["model"]["trees"]))
    if c["first"]:
        try:
            m.score(M.dataset(dict(c["ds"], X=[r + [0.0] * 8 for r in c["ds"]["X"]])), cache=c["cache"])
        except Exception as e:
            fail("a dataset with all the features is refused: %r", e)
    part = dict(trees=c["model"]["trees"][:k], weights=c["model"]["weights"][:k])
    p = m.copy(n_trees=k)
    if M.max_feature(part) + 1 > have:
        raises("scoring a dataset of %d features with a copy of %d trees" % (have, k), ERR, p.score, d, cache=c["cache"])
    else:
        r = p.score(d, detailed=c["detailed"])
        same("scores of a copy of %d trees" % k, np.asarray(r[0] if c["detailed"] else r, dtype=np.float64), M.score(part, c["ds"]["X"])[0])
        if need > have:
            note("a copy needs fewer features")
    return True


# ---------------------------------------------------------------- larger models
def one_bad():
    return MC.grown(["LightGBM", "LightGBM", "CatBoost"]).flatmap(lambda c: st.fixed_dictionaries(dict(
        c=st.just(dict(c, cap=min(c["cap"], 12000 if c["fmt"] == "LightGBM" else 1500))), at=st.sampled_from([0.0, 0.5, 0.999999, None]),
        seed=st.integers(0, 2**31 - 1), bad=st.sampled_from([0, 1, 6, 10]))))


def check_one_bad(c, note):
    """One unsupported split anywhere in a larger model."""
    spec, ds = MC.grow(c["c"])
    rs = np.random.RandomState(c["seed"])
    where = [i for i, t in enumerate(spec["trees"]) if t[0] == "S"]
    if not where:
        return False
    at = [rs.rand() if c["at"] is None else c["at"] for _ in range(2)]
    tree = where[int(at[0] * len(where))]
    k = M.n_leaves(spec["trees"][tree]) - 1
    node = int(at[1] * k)
    if c["c"]["fmt"] == "LightGBM":
        text = M.lightgbm(spec)
        blocks = re.split(r"(?=^Tree=)", text, flags=re.M)
        m = re.search(r"^decision_type=(.*)$", blocks[1 + tree], re.M)
        v = m.group(1).split()
        v[node] = str(c["bad"])
        blocks[1 + tree] = blocks[1 + tree][:m.start(1)] + " ".join(v) + blocks[1 + tree][m.end(1):]
        data = "".join(blocks)
    else:
        pb = M.catboost(spec)
        nds = [n for n in pb.treeEnsembleRegressor.treeEnsemble.nodes if n.treeId == tree and n.nodeBehavior != 6]
        nds[node].nodeBehavior = {0: 1, 1: 2, 6: 4, 10: 5}[c["bad"]]
        data = pb.SerializeToString()
    raises("a %s model with an unsupported split: %d of %d in tree %d of %d" % (c["c"]["fmt"], node, k, tree, len(spec["trees"])),
           ERR, M.load, data, c["c"]["fmt"])
    note(c["c"]["fmt"])
    return k > 64 or tree > 64


def late_feature():
    return st.fixed_dictionaries(dict(c=MC.grown(["QuickRank", "LightGBM", "XGBoost", "ScikitLearn", "Jforests"]), at=st.sampled_from([0.0, 0.5, 0.999999, None]),
                                      seed=st.integers(0, 2**31 - 1), extra=st.sampled_from([1, 1, 2, 900])))


def check_late(c, note):
    """One split anywhere in a larger model needs a feature the dataset lacks."""
    spec, ds = MC.grow(c["c"])
    rs = np.random.RandomState(c["seed"])
    where = [x for t in spec["trees"] for x in M.nodes(t) if x[0] == "S"]
    if not where:
        return False
    where[int((rs.rand() if c["at"] is None else c["at"]) * len(where))][1] = len(ds["X"][0]) - 1 + c["extra"]
    m = c13.load(dict(model=spec, fmt=c["c"]["fmt"], base=0.0, lr=1.0))
    d = M.dataset(ds)
    for det in (False, True):
        raises("scoring a dataset lacking the feature of one split", ERR, m.score, d, detailed=det)
    full = M.dataset(dict(ds, X=[r + [0.0] * c["extra"] for r in ds["X"]]))
    m.score(full, cache=bool(c["seed"] % 2))
    raises("scoring a dataset lacking a feature, after one that has it", ERR, m.score, d)
    # the first trees, up to the one with that split
    k = min(len(spec["trees"]), 1 + next(i for i, t in enumerate(spec["trees"]) for x in M.nodes(t) if x[0] == "S" and x[1] >= len(ds["X"][0])))
    raises("scoring with a copy that keeps the split", ERR, m.copy(n_trees=k).score, d)
    if k > 1:
        p = m.copy(n_trees=k - 1)
        want = M.contributions(dict(trees=spec["trees"][:k - 1], weights=spec["weights"][:k - 1] if c["c"]["fmt"] in ("QuickRank", "Jforests") else [1.0] * k), ds["X"]).sum(axis=1)
        if c["c"]["fmt"] != "XGBoost":
            same("scores of the trees before the split", np.asarray(p.score(d), dtype=np.float64), want)
        else:
            p.score(d)
        note("trees before the split scored")
    note(c["c"]["fmt"])
    return len(where) > 255


CHECKS = [
    Check("large", one_bad(), check_one_bad, "the split, or its tree, comes after the 64th", 40, 1500, shards=2),
    Check("late-feature", late_feature(), check_late, "more than 255 splits", 40, 1500, shards=2),
    Check("formats", fmtcase(), check_format, "always", 200, 4000),
    Check("lightgbm", lgb(), check_lgb, "an unsupported construct is present", 500, 15000),
    Check("xgboost", xgb(), check_xgb, "an unsupported construct is present", 300, 10000),
    Check("catboost", cat(), check_cat, "always (one comparison is neither > nor <=)", 200, 5000),
    Check("scikit", skl(), check_skl, "always", 60, 600),
    Check("features", feats(), check_feats, "always", 600, 20000),
]
