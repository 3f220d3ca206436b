"""Model performance, tree-wise performance, tree-wise average contribution."""
import numpy as np
from hypothesis import strategies as st

from lib import gen as G, world as W, metricref as R
from lib.core import Check, require, same, close

QUICK = 1                                     # times the numbers of cases below
NEEDS = ("dataset", "scoring")


def warm(c, w):
    """Scores cached (or not) before the analysis."""
    if c.get("warm"):
        for m in w.models:
            for d in w.datasets:
                m.score(d, detailed=c["warm"] == "detailed", cache=True)


@st.composite
def case(draw, **kw):
    c = draw(W.worlds(**kw))
    c["warm"] = draw(st.sampled_from([None, None, "basic", "detailed"]))
    c["step"] = draw(st.sampled_from([1, 1, 2, 3, 4, 5, 7, 10, None]))
    return c


def check_performance(c, note):
    from rankeval.analysis.effectiveness import model_performance
    w = W.World(c)
    warm(c, w)
    for again in range(2):
        r = model_performance(w.datasets, w.models, w.metrics, cache=c["cache"])
        W.dims(r, "dataset", "model", "metric")
        for dim, o in zip(r.dims, (w.datasets, w.models, w.metrics)):
            W.axis(r, dim, o)
        v = r.values
        for i, d in enumerate(w.datasets):
            for j, m in enumerate(w.models):
                p = m.score(d)
                for k, s in enumerate(c["metrics"]):
                    what = "dataset %d, model %d, metric %s" % (i, j, s)
                    close(what, v[i, j, k], R.make(s).eval(d, p)[0], rel=1e-6)
                    W.inside(what, v[i, j, k], w.range(s, i, w.pred(j, i)))
    w.untouched()
    note("%d models" % len(w.models))
    return len(w.models) * len(w.datasets) > 1 and any(len(set(d["y"])) > 1 for d in c["datasets"])


def check_treewise(c, note):
    from rankeval.analysis.effectiveness import tree_wise_performance
    w = W.World(c)
    warm(c, w)
    step, kw = c["step"] or 10, dict(step=c["step"]) if c["step"] else {}
    nt = [len(m["trees"]) for m in c["models"]]
    ks = list(range(step, max(nt) + 1, step))
    if not ks or ks[-1] != max(nt):
        ks.append(max(nt))
    for again in range(2 if c["cache"] else 1):
        r = tree_wise_performance(w.datasets, w.models, w.metrics, cache=c["cache"], **kw)
        W.dims(r, "dataset", "model", "k", "metric")
        for dim, o in zip(("dataset", "model", "metric"), (w.datasets, w.models, w.metrics)):
            W.axis(r, dim, o)
        same("reported numbers of trees (step %d, models of %s trees)" % (step, nt), r.coords["k"].values, ks)
        v = r.values
        for j in range(len(nt)):
            covered = False
            for a, k in enumerate(ks):
                for i in range(len(w.datasets)):
                    for b, s in enumerate(c["metrics"]):
                        what = "dataset %d, model %d of %d trees, step %d, %d trees, metric %s" % (i, j, nt[j], step, k, s)
                        if covered:
                            require(np.isnan(v[i, j, a, b]) or len(w.models) > 1, "%s: %r beyond the model", what, v[i, j, a, b])
                            if np.isnan(v[i, j, a, b]):
                                continue
                        W.inside(what, v[i, j, a, b], w.range(s, i, w.pred(j, i, min(k, nt[j]))))
                covered = covered or k >= nt[j]
        # the last value of a model is that of the whole model
    w.untouched()
    note("step above the size of a model" if step > min(nt) else "step within every model")
    if len(set(nt)) > 1:
        note("models of different size")
    return len(ks) > 1 and any(len(set(d["y"])) > 1 for d in c["datasets"])


def check_contribution(c, note):
    from rankeval.analysis.effectiveness import tree_wise_average_contribution
    w = W.World(c)
    warm(c, w)
    nt = [len(m["trees"]) for m in c["models"]]
    for again in range(2 if c["cache"] else 1):
        r = tree_wise_average_contribution(w.datasets, w.models, cache=c["cache"])
        W.dims(r, "dataset", "model", "trees")
        for dim, o in zip(r.dims, (w.datasets, w.models)):
            W.axis(r, dim, o)
        same("trees", r.coords["trees"].values, list(range(max(nt))))
        for i in range(len(w.datasets)):
            for j in range(len(w.models)):
                base = c["models"][j]["base"] or 0.0
                want = [np.abs(w.partial(j, i, t) + (base if t == 0 else 0.0)).mean() if t < nt[j] else np.nan for t in range(max(nt))]
                got = r.values[i, j]
                first = np.abs(w.partial(j, i, 0)).mean()
                if base and abs(float(got[0]) - first) < 1e-6 * max(abs(base), first):
                    want[0] = first             # the base score belongs to no tree
                close("average contributions, dataset %d, model %d" % (i, j), got, want, rel=1e-6, abs_=1e-7 * max([abs(base)] + [x for x in want if x == x]))
    w.untouched()
    if len(set(nt)) > 1:
        note("models of different size")
    return max(nt) > 1


def grown_from(pick):
    return dict(W.grown_from(pick), kind=pick(["performance", "treewise", "contribution"]), warm=pick([None, None, "basic", "detailed"]),
                step=pick([1, 3, 10, 10, 25, 64, 100]))


def check_grown(c, note):
    g = W.grow(c)
    n = sum(len(m["trees"]) for m in g["models"])
    # number of evaluations of the reference
    step = max(c["step"], -(-n * sum(len(d["y"]) for d in g["datasets"]) // 30000))
    if c["kind"] == "treewise":
        for s in g["metrics"]:
            if s["kind"] == "Kendalltau":
                s["kind"], s["kw"] = "DCG", {}
    g.update(warm=c["warm"], step=step)
    note(c["kind"])
    dict(performance=check_performance, treewise=check_treewise, contribution=check_contribution)[c["kind"]](g, note)
    return n > 40 or max(len(d["y"]) for d in g["datasets"]) > 300


def vast_from(pick):
    return dict(W.vast_from(pick), kind=pick(["performance", "treewise", "contribution", "contribution"]), step=pick([1, 2, 10]),
                metric=R.specs_from(pick, ["MSE", "MSE", "RMSE", "Precision", "DCG", "MRR"], 100))


def check_vast(c, note):
    """Tens of thousands of rows; metric values through the metric itself."""
    from rankeval.analysis.effectiveness import model_performance, tree_wise_performance, tree_wise_average_contribution
    w, s = W.Vast(c), c["metric"]
    for i in range(len(w.datasets)):
        for j in range(len(w.models)):
            same("scores of model %d, dataset %d" % (j, i), np.asarray(w.models[j].score(w.datasets[i], cache=c["cache"]), dtype=np.float64), w.pred(i, j).astype(np.float64))
    nt = c["trees"]
    ks = list(range(c["step"], max(nt) + 1, c["step"]))
    ks += [max(nt)] if not ks or ks[-1] != max(nt) else []
    if c["kind"] == "performance":
        v = model_performance(w.datasets, w.models, [R.make(s)], cache=c["cache"]).values
    elif c["kind"] == "treewise":
        v = tree_wise_performance(w.datasets, w.models, [R.make(s)], step=c["step"], cache=c["cache"]).values
    else:
        v = tree_wise_average_contribution(w.datasets, w.models, cache=c["cache"]).values
    for i, d in enumerate(w.datasets):
        for j in range(len(w.models)):
            what = "dataset %d of %d rows, model %d, metric %s" % (i, len(d.y), j, s)
            if c["kind"] == "performance":
                close(what, v[i, j, 0], R.make(s).eval(d, w.pred(i, j))[0], rel=1e-5, abs_=1e-7)
            elif c["kind"] == "treewise":
                for a, k in enumerate(ks):
                    if a and ks[a - 1] >= nt[j]:
                        break
                    close("%s, %d trees" % (what, k), v[i, j, a, 0], R.make(s).eval(d, w.pred(i, j, k))[0], rel=1e-5, abs_=1e-7)
            else:
                got, base = v[i, j], w.specs[j]["base"] or 0.0
                first = [np.abs(w.parts[i][j][:, 0] + z).mean() for z in (base, 0.0)]
                require(min(abs(got[0] - x) for x in first) <= 1e-5 * max(first), "%s: average contribution %r instead of %r", what, got[0], first)
                close(what + ": average contributions", got[1:nt[j]], np.abs(w.parts[i][j]).mean(axis=0)[1:], rel=1e-5, abs_=1e-7)
    w.untouched()
    note(c["kind"])
    return True


CHECKS = [
    Check("vast", G.picked(vast_from), check_vast, "always (more than 5000 rows)", 60, 1500, shards=3),
    Check("grown", G.picked(grown_from), check_grown, "more than 40 trees or a dataset of more than 300 rows", 120, 3000, shards=3),
    Check("performance", case(), check_performance, "two (dataset, model) cells or more and labels of more than one value", 400, 20000, shards=2),
    Check("treewise", case(max_metrics=2), check_treewise, "two reported sizes or more and labels of more than one value", 800, 40000, shards=4),
    Check("contribution", case(max_metrics=1), check_contribution, "two trees or more", 400, 20000, shards=2),
]
