"""Bias-variance decomposition: recorded training calls, recomputed numbers."""
import numpy as np
from hypothesis import strategies as st

from lib import gen as G, metricref as R, world as W
from lib.core import Check, require, same, close

NEEDS = ("dataset", "scoring")
KINDS = [k for k in R.RANK if k != "DCG"] + ["MSE", "MSE", "MSE"]
ALGOS = ["mean", "constant", "oracle", "nearest", "sizes", "hash"]


@st.composite
def case(draw):
    sizes, ids = draw(G.grouping(7, 4))
    n = sum(sizes)
    rs = np.random.RandomState(draw(st.integers(0, 2**31)))
    lab = draw(st.sampled_from([[0, 1], [0, 1, 2, 3, 4], [0, 0, 0, 2]]))
    return dict(sizes=sizes, ids=ids, y=[float(lab[i]) for i in rs.randint(len(lab), size=n)], f=rs.randint(0, 9, size=n).tolist(),
                rows=rs.permutation(n).tolist(), k=draw(st.sampled_from([2, 2, 3, 4, 5, 8])), L=draw(st.sampled_from([2, 3, 5])),
                algos=draw(st.lists(st.sampled_from(ALGOS), min_size=1, max_size=3, unique=True)),
                metrics=draw(st.lists(R.specs(KINDS), min_size=1, max_size=2)), seed=draw(st.integers(0, 2**31)), two=draw(st.booleans()),
                default=draw(st.booleans()), layout=draw(st.sampled_from(["C", "F"])))


def learner(kind, c, calls):
    """A deterministic training function that records its arguments; the first
    feature of each row tells which one it is."""
    truth = {}
    for r, v in zip(c["rows"], c["y"]):
        truth[r] = v

    def train(tX, ty, tq, sX):
        tX, ty, tq, sX = np.array(tX), np.array(ty), np.array(tq), np.array(sX)
        n = len(sX)
        tie = sX[:, 0] / 1024.0
        if kind == "constant":
            out = np.full(n, 1.5)
        elif kind == "oracle":
            out = np.array([truth[int(round(float(r)))] for r in sX[:, 0]])
        elif kind == "mean":
            out = (ty.mean() if len(ty) else 0.0) + tie
        elif kind == "nearest":
            out = np.array([ty[np.argmin(np.abs(tX[:, 1] - x))] if len(ty) else 0.0 for x in sX[:, 1]]) + tie
        elif kind == "sizes":
            out = tq.sum() / 4.0 + len(tq) + tie * (-1) ** len(tq)
        else:
            h = int(sum((i + 1) * 7 * int(v) for i, v in enumerate(tX[:, 0]))) % 13
            out = np.array([((int(r) * (h + 1)) % 17) / 4.0 for r in sX[:, 0]]) + tie
        out = out.astype(np.float32)
        calls.append(dict(tX=tX, ty=ty, tq=tq, sX=sX, out=out.copy()))
        return out
    train.__name__ = kind
    return train


def repetitions(what, calls, c, X, y, k):
    """Splits the calls in complete repetitions, checking each; the scores."""
    n = len(y)
    off = np.cumsum([0] + c["sizes"]).tolist()
    starts = {v: q for q, v in enumerate(off[:-1])}
    pos = {int(r): i for i, r in enumerate(X[:, 0])}
    out, cur, seen, folds = [], np.full(n, np.nan), set(), 0
    for t, call in enumerate(calls):
        w = "%s, call %d" % (what, t)
        rows = [pos[int(round(float(r)))] for r in call["sX"][:, 0]]
        require(len(rows) > 0, "%s: no row to score", w)
        require(len(set(rows)) == len(rows), "%s: a row is scored twice: %s", w, rows)
        chosen = set(rows)
        qs = [q for q in range(len(c["sizes"])) if off[q] in chosen]
        require(sorted(rows) == [i for q in qs for i in range(off[q], off[q + 1])], "%s: rows to score %s are not whole queries", w, rows)
        same(w + ": rows to score", call["sX"], X[rows])
        # a set of rows: ascending in the dataset, or any order by whole query
        require(not (seen & set(rows)), "%s: rows %s are scored more than once in a repetition", w, sorted(seen & set(rows)))
        scored = set(qs)
        rest = [q for q in range(len(c["sizes"])) if q not in scored]
        tr = [pos[int(round(float(r)))] for r in call["tX"][:, 0]]
        want = [i for q in rest for i in range(off[q], off[q + 1])]
        require(sorted(tr) == want, "%s: trained on rows %s, scoring queries %s (expected training rows %s)", w, tr, qs, want)
        same(w + ": training features", call["tX"], X[tr])
        same(w + ": training labels", call["ty"], y[tr])
        tq = [int(v) for v in call["tq"]]
        a, order = 0, []
        require(sum(tq) == len(tr) and len(tq) == len(rest), "%s: query sizes %s for training rows %s", w, tq, tr)
        for s in tq:
            q = starts.get(tr[a])
            require(q is not None and q not in scored and tr[a:a + s] == list(range(off[q], off[q + 1])), "%s: query sizes %s do not match training rows %s", w, tq, tr)
            a += s
        cur[rows] = call["out"]
        seen |= set(rows)
        folds += 1
        if len(seen) == n:
            require(folds <= k, "%s: %d folds instead of at most %d", w, folds, k)
            out.append(cur.astype(np.float32))
            cur, seen, folds = np.full(n, np.nan), set(), 0
    require(not seen, "%s: the last repetition scored only rows %s", what, sorted(seen))
    return out


def decompose(spec, S, c, y):
    """(error, bias, variance) of scores S (rows x repetitions)."""
    if spec["kind"] == "MSE":
        V, ideal = S.astype(np.float64), y.astype(np.float64)[:, None]
    else:
        V = np.array([[float(R.make(spec).eval_per_query(y[a:b], np.ascontiguousarray(S[a:b, l]))) for l in range(S.shape[1])]
                      for a, b in R.slices(c)], dtype=np.float64)
        ideal = 1.0
    m = V.mean(axis=1, keepdims=True)
    return ((V - ideal) ** 2).mean(), ((m - ideal) ** 2).mean(), ((V - m) ** 2).mean()


def check(c, note):
    from rankeval.analysis.statistical import bias_variance
    from rankeval.dataset import Dataset
    n = len(c["y"])
    X = np.array([c["rows"], c["f"]], dtype=np.float32).T
    y = np.array(c["y"], dtype=np.float32)
    q = np.array(G.unroll(c["sizes"], c["ids"]), dtype=np.int64)
    data = [Dataset(np.array(X, order=c["layout"]), y.copy(), q)]
    if c["two"]:
        data.append(Dataset(X + np.float32(0) * X, y.copy(), q + 1))
    metrics = [R.make(s) for s in c["metrics"]]
    calls = {a: [] for a in c["algos"]}
    algos = [learner(a, c, calls[a]) for a in c["algos"]]
    np.random.seed(c["seed"] % 2**32)
    kw = dict(k=c["k"], L=c["L"])
    L, k = c["L"], c["k"]
    if c["default"]:
        kw, L, k = {}, 10, 2
    r = bias_variance(data, algos, metrics, **kw)
    W.dims(r, "dataset", "metric", "algo", "error")
    W.axis(r, "dataset", data)
    W.axis(r, "metric", metrics)
    require(list(r.coords["algo"].values) == c["algos"], "algorithms %s", r.coords["algo"].values)
    require(list(r.coords["error"].values) == ["Error", "Bias", "Variance"], "errors %s", r.coords["error"].values)
    varies = False
    for ia, a in enumerate(c["algos"]):
        reps = repetitions(a, calls[a], c, X, y, k)
        require(len(reps) % (L * len(data)) == 0, "%s: %d repetitions over %d datasets and %d metrics, L=%d", a, len(reps), len(data),
                len(metrics), L)
        per = len(reps) // len(data)
        require(per >= L, "%s: %d repetitions instead of %d", a, per, L)
        for id_ in range(len(data)):
            groups = [np.array(reps[g:g + L]).T for g in range(id_ * per, (id_ + 1) * per, L)]
            for im, s in enumerate(c["metrics"]):
                what = "dataset %d, metric %s, algorithm %s" % (id_, s, a)
                e, b, v = [float(x) for x in r.values[id_, im, ia]]
                scale = max(1.0, abs(e))
                require(b >= 0 and v >= 0, "%s: bias %r, variance %r", what, b, v)
                require(abs(e - b - v) <= 5e-5 * scale, "%s: error %r is not bias %r plus variance %r", what, e, b, v)
                cand = groups if len(groups) != len(metrics) else [groups[im]]
                wants = [decompose(s, g, c, y) for g in cand]
                require(any(max(abs(e - w[0]), abs(b - w[1]), abs(v - w[2])) <= 5e-5 * max(1.0, abs(w[0])) for w in wants),
                        "%s: error, bias and variance %s instead of %s", what, (e, b, v), wants)
                if a == "constant":
                    require(v <= 1e-9, "%s: variance %r of a constant prediction", what, v)
                if a == "oracle" and s["kind"] == "MSE":
                    require(b <= 1e-9 and e <= 1e-9, "%s: bias %r of an oracle", what, b)
                varies = varies or v > 1e-6
                note("metric " + s["kind"])
        note("algorithm " + a)
    for d in data:
        same("X after the analysis", d.X, X)
        same("y after the analysis", d.y, y)
    if k > len(c["sizes"]):
        note("more folds than queries")
    if len(c["sizes"]) % k:
        note("folds of uneven size")
    return varies and len(c["sizes"]) > 2


@st.composite
def grown(draw):
    """More queries, more folds, more repetitions."""
    k = draw(st.sampled_from([8, 20, 33, 64, 129, 300]))
    rs = np.random.RandomState(draw(st.integers(0, 2**31)))
    sizes = [int(v) for v in rs.randint(1, draw(st.sampled_from([2, 4, 12])), k)]
    n = sum(sizes)
    lab = draw(st.sampled_from([[0, 1], [0, 1, 2, 3, 4], [0, 0, 0, 2]]))
    c = dict(sizes=sizes, ids=[int(v) for v in np.cumsum(rs.randint(1, 4, k))], y=[float(lab[i]) for i in rs.randint(len(lab), size=n)], f=rs.randint(0, 9, size=n).tolist(),
             rows=rs.permutation(n).tolist(), k=draw(st.sampled_from([2, 3, 5, 10, 16, 50, 130])), L=draw(st.sampled_from([2, 3, 10, 12, 20])),
             algos=draw(st.lists(st.sampled_from(ALGOS), min_size=1, max_size=2, unique=True)),
             metrics=draw(st.lists(R.specs(KINDS), min_size=1, max_size=2)), seed=draw(st.integers(0, 2**31)), two=draw(st.booleans()),
             default=draw(st.booleans()), layout=draw(st.sampled_from(["C", "F"])))
    while c["k"] * c["L"] > 300:
        c["k"], c["L"] = max(2, c["k"] // 2), max(2, c["L"] // 2)
    return c


@st.composite
def vast(draw):
    """Tens of thousands of rows."""
    rs = np.random.RandomState(draw(st.integers(0, 2**31)))
    k, per = draw(st.sampled_from([(33000, 1), (17000, 2), (66001, 1), (40, 1700), (3, 22000)]))
    n = k * per
    return dict(seed=draw(st.integers(0, 2**31)), queries=k, per=per, k=draw(st.sampled_from([2, 3])), algo=draw(st.sampled_from(["constant", "oracle", "hash", "mean"])),
                metric=draw(R.specs(KINDS, max_cut=10)))


def check_vast(c, note):
    rs = np.random.RandomState(c["seed"] % 2**32)
    n = c["queries"] * c["per"]
    y = [float(v) for v in rs.randint(0, 3, n)]
    full = dict(sizes=[c["per"]] * c["queries"], ids=list(range(c["queries"])), y=y, f=rs.randint(0, 9, n).tolist(), rows=rs.permutation(n).tolist(), k=c["k"], L=2, algos=[c["algo"]],
                metrics=[c["metric"]], seed=c["seed"], two=False, default=False, layout="C")
    check(full, note)
    return n > 32767


CHECKS = [Check("vast", vast(), check_vast, "more than 32767 rows", 4, 100, shards=3),
          Check("grown", grown(), check, "three queries or more, and some variance above zero", 60, 1500, shards=4),
          Check("decomposition", case(), check, "three queries or more, and some variance above zero", 900, 40000, shards=6)]
