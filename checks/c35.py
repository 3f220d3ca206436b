"""Every cell of an analysis against the same analysis run on one dataset, one
model and one metric, built afresh; histories of analyses on shared objects."""
import warnings

import numpy as np

from lib import gen as G, models as M, metricref as R, world as W
from lib.core import Check, require, same, close

NEEDS = ("dataset", "scoring", "analysis")
KINDS = ["performance", "treewise", "contribution", "querywise", "classes", "graded", "confusion"]
SINGLE = ["importance", "topology"]


def run(kind, c, ds, ms, mets, q):
    """The result of an analysis, with explicit ranges."""
    from rankeval.analysis import effectiveness as E
    kw = dict(cache=c["cache"])
    if kind == "performance":
        return E.model_performance(ds, ms, mets, **kw)
    if kind == "treewise":
        return E.tree_wise_performance(ds, ms, mets, step=c["step"], **kw)
    if kind == "contribution":
        return E.tree_wise_average_contribution(ds, ms, **kw)
    if kind == "querywise":
        return E.query_wise_performance(ds, ms, mets, bins=c["bins"], start=c["lo"], end=c["hi"], **kw)
    if kind == "classes":
        return E.query_class_performance(ds, ms, mets, q, **kw)
    if kind == "graded":
        return E.document_graded_relevance(ds, ms, bins=c["bins"], start=c["lo"] * 8, end=c["hi"] * 8, **kw)
    return E.rank_confusion_matrix(ds, ms, skip_same_label=c["skip"], **kw)


HAS_METRIC = ("performance", "treewise", "querywise", "classes")


def classes(c, g):
    rs = np.random.RandomState(c["seed"] % 999)
    pool = [["a", "b", "c"], ["x"], [3, 1, 2], list(range(20))][c["seed"] % 4]
    return [[pool[i] for i in rs.randint(len(pool), size=len(d["sizes"]))] for d in g["datasets"]]


class Objects(object):
    def __init__(self, g):
        self.models = [M.build(m, base_score=m["base"], learning_rate=m["lr"], name="model") for m in g["models"]]
        self.datasets = [M.dataset(d, name="dataset") for d in g["datasets"]]
        self.metrics = [R.make(s) for s in g["metrics"]]
        self.before = self.state()

    def state(self):
        return ([(d.X.copy(), d.y.copy(), np.array(d.query_ids), np.array(d.query_offsets), d.name) for d in self.datasets] +
                [(m.trees_root.copy(), m.trees_left_child.copy(), m.trees_right_child.copy(), m.trees_nodes_value.copy(), m.trees_nodes_feature.copy(),
                  m.trees_weight.copy(), m.n_trees, m.n_nodes, m.learning_rate, m.base_score, m.name) for m in self.models])

    def untouched(self, what):
        for n, (a, b) in enumerate(zip(self.before, self.state())):
            for x, y in zip(a, b):
                require(np.array_equal(np.asarray(x), np.asarray(y)), "%s: a %s was modified", what, "dataset" if n < len(self.datasets) else "model")


def cell(kind, c, r, i, j, k, nt, coords):
    """Values of the joint result that belong to one dataset, model, metric, in
    the coordinates of the result for them alone."""
    v = r.values
    if kind == "performance":
        return v[i, j, k]
    if kind == "treewise":
        out = []
        ks = list(r.coords["k"].values)
        for t in coords:                      # first reported size that has t trees of this model
            out.append(v[i, j, [n for n, x in enumerate(ks) if x >= t][0], k])
        return out
    if kind == "contribution":
        return v[i, j, :nt]
    if kind == "querywise":
        return v[i, j, k]
    if kind == "classes":
        at = list(r.coords["classes"].values)
        return [v[i, j, k, at.index(x)] for x in coords]
    if kind == "graded":
        at = [float(x) for x in r.coords["label"].values]
        return [v[i, j, at.index(float(x))] for x in coords]
    at = [float(x) for x in r.coords["label_i"].values]
    rows = [at.index(float(x)) for x in coords]
    return v[i, j][np.ix_(rows, rows)]


AXIS = dict(treewise="k", classes="classes", graded="label", confusion="label_i")
DIMS = dict(performance=("dataset", "model", "metric"), treewise=("dataset", "model", "k", "metric"), contribution=("dataset", "model", "trees"),
            querywise=("dataset", "model", "metric", "bin"), classes=("dataset", "model", "metric", "classes"), graded=("dataset", "model", "label", "bin"),
            confusion=("dataset", "model", "label_i", "label_j"))


def compare(what, a, b):
    close(what, a, b, rel=2e-6, abs_=1e-7)


def joint_from(pick):
    g = W.grown_from(pick, R.RANK + R.ERRORS + ["SpearmanRho"], 3, rows=pick([20, 80, 400, 1500]))
    g["trees"] = [pick([1, 2, 3, 5, 9, 10, 11, 20, 31, 100]) for _ in range(pick.int(1, 4))]
    g["data"] = g["data"][:4]
    for d in g["data"]:
        if pick.bool():
            d.update(queries=pick.int(1, 9), docs=pick.int(1, 12))
    g["m"], g["leaves"], g["repeat"] = pick.int(1, 8), pick([2, 3, 8]), None
    return dict(world=g, kind=pick(KINDS), seed=pick.int(0, 2**20), step=pick([1, 2, 3, 5, 10, 64]), bins=pick([1, 2, 7, 50, 100, 1000]), lo=pick([0.0, -1.0, 0.25]), hi=pick([1.0, 2.0, 10.0]),
                skip=pick.bool(), cache=pick.bool(), order=pick(["same", "reversed", "shuffled", "shuffled"]), again=pick.bool())


def axes(what, kind, r, o, ds, ms, mets):
    W.dims(r, *DIMS[kind])
    W.axis(r, "dataset", ds)
    W.axis(r, "model", ms)
    if kind in HAS_METRIC:
        W.axis(r, "metric", mets)


def arranged(c, n, salt):
    if c["order"] == "reversed":
        return list(range(n))[::-1]
    if c["order"] == "shuffled":
        return [int(v) for v in np.random.RandomState(c["seed"] + salt).permutation(n)]
    return list(range(n))


def check_joint(c, note):
    g = W.grow(c["world"])
    kind = c["kind"]
    q = classes(c, g)
    if kind == "confusion":
        for d in g["datasets"]:
            d["y"] = [float(int(v)) for v in d["y"]]
    o = Objects(g)
    nt = [len(m["trees"]) for m in g["models"]]
    results = []
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for rep in range(2 if c["again"] else 1):
            pd, pm, pk = ([list(range(len(x))) for x in (o.datasets, o.models, o.metrics)] if rep == 0 and c["order"] != "same" else
                          (arranged(c, len(o.datasets), 1), arranged(c, len(o.models), 2), arranged(c, len(o.metrics), 3)))
            ds, ms, mets = [o.datasets[i] for i in pd], [o.models[i] for i in pm], [o.metrics[i] for i in pk]
            r = run(kind, c, ds, ms, mets, [q[i] for i in pd])
            axes(kind, kind, r, o, ds, ms, mets)
            results.append((r, pd, pm, pk))
            o.untouched(kind)
        cells = [(i, j, k) for i in range(len(o.datasets)) for j in range(len(o.models)) for k in range(len(o.metrics) if kind in HAS_METRIC else 1)]
        rs = np.random.RandomState(c["seed"])
        for n in rs.permutation(len(cells))[:10]:
            i, j, k = cells[n]
            f = Objects(dict(models=[g["models"][j]], datasets=[g["datasets"][i]], metrics=[g["metrics"][k]]))
            one = run(kind, dict(c, cache=False), f.datasets, f.models, f.metrics, [q[i]])
            coords = list(one.coords[AXIS[kind]].values) if kind in AXIS else None
            alone = cell(kind, c, one, 0, 0, 0, nt[j], coords)
            for r, pd, pm, pk in results:
                got = cell(kind, c, r, pd.index(i), pm.index(j), pk.index(k) if kind in HAS_METRIC else 0, nt[j], coords)
                compare("%s: dataset %d of %d, model %d of %d, metric %s, together and alone" % (kind, i, len(o.datasets), j, len(o.models), g["metrics"][k]), got, alone)
    note(kind)
    note("%d models" % len(o.models))
    return len(cells) > 1


def history_from(pick):
    c = joint_from(pick)
    c["world"]["rows"] = pick([20, 60, 200])
    c["world"]["trees"] = [pick([1, 2, 3, 11, 20]) for _ in range(pick.int(1, 3))]
    c["world"]["data"] = c["world"]["data"][:3]
    c["calls"] = [dict(kind=pick(KINDS + KINDS + SINGLE + ["score", "eval"]), a=pick.int(0, 2**16), cache=pick.bool(), step=pick([1, 2, 3, 10]), bins=pick([1, 5, 20]), skip=pick.bool(),
                       lo=0.0, hi=pick([1.0, 3.0]), fresh=pick([0, 0, 0, 1, 2, 4, 3])) for _ in range(pick.int(3, 9))]
    return c


def single(kind, call, o, a):
    i, j, k = a % len(o.datasets), a // 5 % len(o.models), a // 31 % len(o.metrics)
    d, m, t = o.datasets[i], o.models[j], o.metrics[k]
    if kind == "importance":
        from rankeval.analysis.feature import feature_importance
        r = feature_importance(m, d, normalize=call["skip"])
        return [np.asarray(x.values) for x in (r if isinstance(r, (tuple, list)) else [r])]
    if kind == "topology":
        from rankeval.analysis.topological import topological_analysis
        r = topological_analysis(m, include_leaves=call["skip"])
        return [np.asarray(r.height_trees), r.topology.toarray() if r.topology.shape[1] < 5000 else r.topology.tocsr().sum(axis=1)]
    y = m.score(d, detailed=False, cache=call["cache"])
    if kind == "score":
        return [np.array(y)]
    if kind == "eval":
        v, det = t.eval(d, y)
        return [np.asarray(v), np.asarray(det)]


def subset(a, n, salt):
    """A sublist of range(n), in any order."""
    rs = np.random.RandomState(a * 7 + salt)
    return [int(v) for v in rs.permutation(n)[:rs.randint(1, n + 1)]]


def check_history(c, note):
    g = W.grow(c["world"])
    for d in g["datasets"]:
        d["y"] = [float(int(v)) for v in d["y"]]
    q = classes(c, g)
    o = Objects(g)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for step, call in enumerate(c["calls"]):
            kind, a = call["kind"], call["a"]
            f = Objects(g)
            what = "call %d (%s)" % (step, kind)
            if kind in KINDS:
                pd, pm, pk = subset(a, len(o.datasets), 1), subset(a, len(o.models), 2), subset(a, len(o.metrics), 3)
                got, want = [run(kind, dict(call, cache=call["cache"] and x is o), [x.datasets[i] for i in pd], [x.models[i] for i in pm], [x.metrics[i] for i in pk], [q[i] for i in pd])
                             for x in (o, f)]
                for dim in got.dims:
                    if dim not in ("dataset", "model", "metric"):
                        require([str(v) for v in got.coords[dim].values] == [str(v) for v in want.coords[dim].values], "%s: coordinates %r differ from those for fresh objects", what, dim)
                compare(what + ", on objects used before and on fresh ones", got.values, want.values)
            else:
                for x, y in zip(single(kind, call, o, a), single(kind, call, f, a)):
                    compare(what + ", on objects used before and on fresh ones", x, y)
            o.untouched(what)
            if call.get("fresh"):              # later objects may take the memory of these
                k = call["fresh"]
                if k & 1:
                    o.datasets = f.datasets
                if k & 2:
                    o.models = f.models
                if k & 4:
                    o.metrics = f.metrics
                o.before = o.state()
                note("objects replaced")
            del f
            note(kind)
    return len(c["calls"]) > 3


def notebook():
    """Pretends that the process is a notebook, with stand-ins of the widgets."""
    import sys
    import types

    class ZMQInteractiveShell(object):
        pass

    class IntProgress(object):
        def __init__(self, value=0, min=0, max=100, step=1, description="", bar_style="", orientation="horizontal", **kw):
            self.value, self.min, self.max, self.description, self.bar_style = value, min, max, description, bar_style

        def close(self):
            pass
    ip, disp, wid = types.ModuleType("IPython"), types.ModuleType("IPython.display"), types.ModuleType("ipywidgets")
    ip.get_ipython = lambda: ZMQInteractiveShell()
    disp.display = lambda *a, **k: None
    disp.HTML = disp.clear_output = lambda *a, **k: None
    wid.IntProgress = wid.FloatProgress = IntProgress
    wid.HTML = wid.VBox = wid.HBox = wid.Label = lambda *a, **k: IntProgress()
    ip.display = disp
    sys.modules.update({"IPython": ip, "IPython.display": disp, "ipywidgets": wid})


def check_notebook(c, note):
    """The same histories, and the randomised analyses, in a notebook."""
    import rankeval
    require(rankeval.is_notebook() is True, "a notebook is not recognised")
    some = check_history(c, note)
    from rankeval.analysis.statistical import statistical_significance, bias_variance
    o = Objects(W.grow(c["world"]))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        a, b = o.models[0], o.models[-1]
        r = statistical_significance(o.datasets, a, b, o.metrics, n_perm=[10, 15, 20, 37][c["seed"] % 4], cache=c["cache"]).values
        ok = ~np.isnan(r[..., 0])
        require((r[ok] >= 0).all() and (r[ok] <= 1).all() and (r[ok][:, 0] <= r[ok][:, 1] + 1e-6).all(), "p-values %s in a notebook", r.tolist())
        if a is b:
            require((r[ok] == 1).all(), "p-values %s of identical systems in a notebook", r.tolist())
        from rankeval.metrics import MSE
        ds = o.datasets[0]
        if ds.n_queries > 1:
            v = bias_variance([ds], [lambda tX, ty, tq, sX: np.full(len(sX), 1.0, dtype=np.float32)], [MSE()], L=2, k=2).values[0, 0, 0]
            want = ((np.asarray(ds.y, dtype=np.float64) - 1) ** 2).mean()
            close("error, bias, variance of a constant in a notebook", v, [want, want, 0.0], rel=1e-4, abs_=1e-4)
    o.untouched("notebook")
    return some


CHECKS = [
    Check("notebook", G.picked(history_from), check_notebook, "four calls or more", 60, 2500, shards=2, setup=notebook),
    Check("joint", G.picked(joint_from), check_joint, "two cells or more", 400, 20000, shards=4),
    Check("history", G.picked(history_from), check_history, "four calls or more", 150, 10000, shards=4),
]
