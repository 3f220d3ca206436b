"""Histories of scoring calls over several models and datasets, against fresh
models that never cache."""
from hypothesis import strategies as st

from lib import gen as G, models as M
from lib.core import Check, require, same, fail
import numpy as np

NEEDS = ("dataset", "scoring")


@st.composite
def case(draw):
    nf = draw(st.integers(1, 3))
    th = draw(st.lists(G.dyadics(4, 2), min_size=1, max_size=3))
    pool = G.near(th)[::3] + [0.0, 1.0, -1.0]
    models = [dict(spec=draw(G.ensembles(4, 5, nf, th)), lr=draw(st.sampled_from([1, 0.5, 0.25, 2])),
                   base=draw(st.sampled_from([None, 0.5, -1.0]))) for _ in range(draw(st.integers(1, 2)))]
    data = []
    base = draw(G.datasets(3, 3, 1, nf + 1, pool))
    for _ in range(draw(st.integers(2, 4))):
        kind = draw(st.sampled_from(["new", "same", "near", "reshape"]))
        d = draw(G.datasets(3, 3, 1, nf + 1, pool)) if kind in ("new",) or not data else dict(base)
        if kind == "near":
            d = dict(d, X=[list(r) for r in d["X"]])
            d["X"][-1][-1] += 1.0
        if kind == "reshape" and len(d["X"]) % 2 == 0:
            flat = [v for r in d["X"] for v in r]
            w = 2 * len(d["X"][0])
            d = dict(X=[flat[i:i + w] for i in range(0, len(flat), w)], y=d["y"][:len(flat) // w],
                     sizes=[1] * (len(flat) // w), ids=list(range(len(flat) // w)))
        data.append(dict(d, name=draw(st.sampled_from([None, "a", "a", "b"]))))
    ops = draw(st.lists(st.one_of(
        st.tuples(st.sampled_from(["score"] * 6), st.integers(0, 2), st.integers(0, len(data) - 1), st.booleans(),
                  st.sampled_from([True, True, True, False])),
        st.tuples(st.sampled_from(["temp", "temp", "double"]), st.integers(0, 2), st.integers(0, len(data) - 1), st.booleans(), st.sampled_from([True, True, True, False])),
        st.tuples(st.sampled_from(["clear", "copy", "prune", "copyprune", "perf", "setlr"]), st.integers(0, 7),
                  st.integers(0, 5), st.booleans(), st.booleans())), min_size=4, max_size=20))
    return dict(models=models, data=data, ops=[list(o) for o in ops])


def expected(st_, ds, detailed):
    """None when the scoring must fail."""
    spec = dict(trees=st_["spec"]["trees"][:st_["n"]], weights=st_["spec"]["weights"][:st_["n"]])
    if M.max_feature(spec) + 1 > len(ds["X"][0]):
        return None
    want, part = M.score(spec, ds["X"], False, st_["base"] or 0.0, st_["lr"])
    part = st_["lr"] * part
    part[:, :1] += st_["base"] or 0.0
    return want, part


def check(c, note):
    data = [M.dataset(d, name=d["name"]) for d in c["data"]]
    live = []
    for s in c["models"]:
        live.append([M.build(s["spec"], base_score=s["base"], learning_rate=s["lr"]),
                     dict(s, n=len(s["spec"]["trees"]))])
    held = []                                # results handed out earlier
    scored = failed = hits = 0
    cached = set()
    for step, (op, i, j, a, b) in enumerate(c["ops"]):
        m, s = live[i % len(live)]
        if op in ("score", "temp"):
            want = expected(s, c["data"][j], a)
            what = "step %d: score(%sdataset %d, detailed=%s, cache=%s)" % (step, "a new instance of " * (op == "temp"), j, a, b)
            # a temporary dataset: its memory is free to be used again by the next one
            d = data[j] if op == "score" else M.dataset(c["data"][j], name=c["data"][j]["name"])
            if want is None:
                try:
                    m.score(d, detailed=a, cache=b)
                except Exception:
                    failed += 1
                    continue
                fail("%s: accepted a dataset with too few features", what)
            r = m.score(d, detailed=a, cache=b)
            del d
            scored += 1
            hits += (id(m), j) in cached
            if b:
                cached.add((id(m), j))
            if a:
                require(isinstance(r, tuple) and len(r) == 3, "%s: not three results", what)
                y, p, l = r
                same(what + ": contributions", np.asarray(p, dtype=np.float64), want[1])
                l = np.asarray(l)
                leaf = np.asarray(m.trees_nodes_value)[l] * np.asarray(m.trees_weight)[None, :]
                same(what + ": leaves", leaf.astype(np.float64), M.score(
                    dict(trees=s["spec"]["trees"][:s["n"]], weights=s["spec"]["weights"][:s["n"]]), c["data"][j]["X"])[1])
                held += [(p, np.array(p), what), (l, np.array(l), what)]
            else:
                require(not isinstance(r, tuple), "%s: several results", what)
                y = r
            same(what, np.asarray(y, dtype=np.float64), want[0])
            held.append((y, np.array(y), what))
        elif op == "double":
            # an equal dataset of double precision: it may be refused
            want = expected(s, c["data"][j], a)
            try:
                r = m.score(M.dataset(c["data"][j], dtype=np.float64), detailed=a, cache=b)
            except Exception:
                failed += 1
                continue
            require(want is not None, "step %d: accepted a dataset with too few features", step)
            same("step %d: dataset of double precision" % step, np.asarray(r[0] if a else r, dtype=np.float64), want[0])
        elif op == "clear":
            m.clear_cache()
        elif op == "setlr":                    # what was cached before the change is cleared
            s["lr"], s["base"] = [1, 0.5, 0.25, 2][i % 4], [None, 0.5, -1.0, 0.0][j % 4]
            m.learning_rate, m.base_score = s["lr"], s["base"]
            m.clear_cache()
            note("learning rate or base score set")
        elif op == "copy":
            if len(live) < 6:
                live.append([m.copy(), dict(s)])
        elif op == "copyprune":
            if len(live) < 6 and j >= 1:
                live.append([m.copy(n_trees=j), dict(s, n=min(j, s["n"]))])
        elif op == "prune":
            # as tree-wise analyses do: the copy replaces the model
            if j >= 1:
                live[i % len(live)] = [m.copy(n_trees=j), dict(s, n=min(j, s["n"]))]
        elif op == "perf":
            # an analysis that scores with caching on
            from rankeval.metrics import MSE
            from rankeval.analysis.effectiveness import model_performance
            want = expected(s, c["data"][j % len(data)], False)
            if want is not None:
                model_performance([data[j % len(data)]], [m], [MSE()], cache=a)
        for arr, copy_, w in held:
            require(np.array_equal(np.asarray(arr), copy_), "step %d (%s): what %s returned has changed", step, op, w)
    if failed:
        note("a failing call")
    if hits:
        note("a call that could use the cache")
    return scored > 1 and hits > 0


CHECKS = [Check("history", case(), check, "two scoring calls or more, one on a dataset cached before", 1600, 60000, shards=3)]
