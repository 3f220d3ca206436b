"""Metamorphic laws of the rank metrics."""
import numpy as np
from hypothesis import strategies as st

from lib import metricref as R
from lib.core import Check, require

NEEDS = ("dataset", "scoring")
TOL = 2e-6


@st.composite
def query(draw, max_docs=12, kinds=R.RANK):
    n = draw(st.sampled_from([1, 2, 3, 4, 5, 6, 8, max_docs]))
    lab = draw(st.sampled_from([[0, 1], [0, 1, 2, 3, 4], [0, 0, 0, 1], [0], [1], [4, 3], [0, 10], [0, 0.5, 1, 2.5]]))
    rs = np.random.RandomState(draw(st.integers(0, 2**31)))
    return dict(y=[float(lab[i]) for i in rs.randint(len(lab), size=n)], metric=draw(R.specs(kinds, max_cut=12)),
                seed=draw(st.integers(0, 2**31)), dtype=draw(st.sampled_from(["float32", "float64"])))


def ev(m, y, p, dtype="float64"):
    return float(m.eval_per_query(np.array(y, dtype=np.float32), np.array(p, dtype=dtype)))


def ranked(m, labels, dtype="float64"):
    """Value of labels given in ranked order."""
    return ev(m, labels, -np.arange(len(labels), dtype=np.float64), dtype)


def eq(a, b):
    return abs(a - b) <= TOL * max(1.0, abs(a), abs(b))


FAR = np.r_[-10.0 ** np.arange(35, -38, -3), 10.0 ** np.arange(-37, 38, 3)]
TRANSFORMS = [("2^k scaling", lambda p, r: p * 2.0 ** r.randint(-20, 20)),
              ("shift", lambda p, r: p + float(r.randint(-1000, 1000))),
              ("cube", lambda p, r: p ** 3),
              ("exponential", lambda p, r: np.exp2(p / 4.0)),
              ("own ranks", lambda p, r: np.argsort(np.argsort(p)).astype(np.float64)),
              ("negative range", lambda p, r: -1.0 / (p - p.min() + 1.0)),
              ("uneven gaps", lambda p, r: np.cumsum(r.randint(1, 50, size=len(p)))[np.argsort(np.argsort(p))] - 300.0),
              ("values far apart", lambda p, r: np.sort(r.permutation(FAR)[:len(p)])[np.argsort(np.argsort(p))]),
              ("adjacent floats", lambda p, r: (np.float32(1.0) + np.arange(len(p)) * np.float32(2.0 ** -23))[np.argsort(np.argsort(p))])]


def check_invariance(c, note):
    m = R.make(c["metric"])
    r = np.random.RandomState(c["seed"])
    y = np.array(c["y"])
    n = len(y)
    p = (r.permutation(n) - n // 2).astype(np.float64)
    base = ev(m, y, p, c["dtype"])
    for name, t in TRANSFORMS:
        q = np.asarray(t(p, r))
        got = ev(m, y, q, c["dtype"])
        require(eq(got, base), "%s: labels %s: %r with predictions %s, %r with their %s %s", c["metric"], y.tolist(), base, p.tolist(),
                got, name, q.tolist())
    for _ in range(3):
        perm = r.permutation(n)
        got = ev(m, y[perm], p[perm], c["dtype"])
        require(eq(got, base), "%s: labels %s predictions %s: %r, after the permutation %s of the documents %r", c["metric"], y.tolist(),
                p.tolist(), base, perm.tolist(), got)
    note(c["metric"]["kind"])
    return n > 2 and len(set(c["y"])) > 1


def known(spec, y, k):
    """The value of the ideal ranking, where there is a simple formula."""
    thr = dict(R.DEFAULTS.get(spec["kind"], {}), **spec["kw"]).get("threshold")
    best = None
    if spec["kind"] in ("NDCG", "MAP"):
        best = 1.0 if max(y) > 0 else spec["kw"].get("no_relevant_results", 1.0)
    if spec["kind"] == "MRR":
        best = 1.0 if max(y) >= thr else 0.0
    if spec["kind"] == "PrecisionMax":
        best = min(1.0, sum(y == max(y)) / float(k))
    if spec["kind"] == "Precision":
        best = min(1.0, sum(y >= thr) / float(k))
    if spec["kind"] == "Recall" and sum(y >= thr):
        best = min(1.0, k / float(sum(y >= thr)))
    return best


def check_order(c, note):
    """Bounds, ideal ranking, swaps and cutoff."""
    spec = c["metric"]
    m = R.make(spec)
    r = np.random.RandomState(c["seed"])
    y = np.array(c["y"])[r.permutation(len(c["y"]))]
    n = len(y)
    base = ranked(m, y, c["dtype"])
    ideal = ranked(m, sorted(y, reverse=True), c["dtype"])
    worst = ranked(m, sorted(y), c["dtype"])
    require(-TOL <= worst and worst <= base + TOL * max(1, base) and base <= ideal + TOL * max(1, ideal),
            "%s: ranked labels %s give %r, the ideal ranking %r, the reversed one %r", spec, y.tolist(), base, ideal, worst)
    if spec["kind"] != "DCG":
        require(ideal <= 1 + TOL, "%s: labels %s give %r, above 1", spec, sorted(y, reverse=True), ideal)
    k = min(n, spec["kw"].get("cutoff") or n)
    best = known(spec, y, k)
    if best is not None:
        require(eq(ideal, best), "%s: the ideal ranking %s gives %r instead of %r", spec, sorted(y, reverse=True), ideal, best)
        note("known maximum")
    for i in range(n - 1):
        if y[i] != y[i + 1]:
            z = y.copy()
            z[i], z[i + 1] = z[i + 1], z[i]
            s = ranked(m, z, c["dtype"])
            up, down = (s, base) if z[i] > z[i + 1] else (base, s)
            require(up >= down - TOL * max(1, abs(down)), "%s: %s gives %r and, with positions %d and %d swapped, %r", spec, y.tolist(),
                    base, i + 1, i + 2, s)
            if i >= k:
                require(eq(s, base), "%s: a swap below the cutoff changed %r to %r (%s)", spec, base, s, y.tolist())
    if k < n:
        note("documents below the cutoff")
        z = np.concatenate([y[:k], y[k:][r.permutation(n - k)]])
        s = ranked(m, z, c["dtype"])
        require(eq(s, base), "%s: reordering below the cutoff changed %r to %r (%s, %s)", spec, base, s, y.tolist(), z.tolist())
    note(spec["kind"])
    return n > 2 and len(set(c["y"])) > 1


def grown():
    return st.fixed_dictionaries(dict(seed=st.integers(0, 2**31 - 1), n=st.sampled_from([16, 17, 20, 64, 100, 129, 256, 257, 700, 1500, 4000, 4000, 9000]),
                                      lab=st.sampled_from([[0, 1], [0, 1, 2, 3, 4], [0] * 20 + [1], [0] * 200 + [2, 1], [0, 0.5, 1, 2.5], [1, 2]]),
                                      metric=st.sampled_from([8, 20, 100, 500, 1000, 1500, 3000]).flatmap(lambda k: R.specs(R.RANK, max_cut=k, more=[k] * 6)),
                                      dtype=st.sampled_from(["float32", "float64"])))


def check_grown(c, note):
    """The same laws on longer queries, with swaps at sampled positions."""
    spec = c["metric"]
    m = R.make(spec)
    r = np.random.RandomState(c["seed"])
    n = c["n"]
    y = np.array(c["lab"], dtype=np.float64)[r.randint(len(c["lab"]), size=n)]
    base, ideal, worst = ranked(m, y, c["dtype"]), ranked(m, -np.sort(-y), c["dtype"]), ranked(m, np.sort(y), c["dtype"])
    require(-TOL <= worst <= base + TOL * max(1, base) and base <= ideal + TOL * max(1, ideal), "%s: %d documents ranked in some way give %r, in the ideal "
            "way %r, in the reversed one %r", spec, n, base, ideal, worst)
    if spec["kind"] != "DCG":
        require(ideal <= 1 + TOL, "%s: %d documents give %r, above 1", spec, n, ideal)
    k = min(n, spec["kw"].get("cutoff") or n)
    best = known(spec, y, k)
    if best is not None:
        require(eq(ideal, best), "%s: the ideal ranking of %d documents gives %r instead of %r", spec, n, ideal, best)
        note("known maximum")
    at = [i for i in range(n - 1) if y[i] != y[i + 1]]
    pick = sorted(set(at[:2] + at[-2:] + [i for i in at if abs(i - k) < 3] + [at[i] for i in r.randint(len(at), size=12)])) if at else []
    for i in pick:
        z = y.copy()
        z[i], z[i + 1] = z[i + 1], z[i]
        s = ranked(m, z, c["dtype"])
        up, down = (s, base) if z[i] > z[i + 1] else (base, s)
        require(up >= down - TOL * max(1, abs(down)), "%s: %d documents: %r and, with positions %d and %d swapped (labels %g and %g), %r", spec, n, base, i + 1,
                i + 2, y[i], y[i + 1], s)
        if i >= k:
            require(eq(s, base), "%s: a swap below the cutoff changed %r to %r (%d documents)", spec, base, s, n)
    if k < n:
        s = ranked(m, np.concatenate([y[:k], y[k:][r.permutation(n - k)]]), c["dtype"])
        require(eq(s, base), "%s: reordering below the cutoff changed %r to %r (%d documents)", spec, base, s, n)
        note("documents below the cutoff")
    p = (r.permutation(n) - n // 2).astype(np.float64)
    base = ev(m, y, p, c["dtype"])
    for name, t in TRANSFORMS:
        if name in ("exponential", "negative range", "cube") and n > 250 or name == "values far apart" and n > len(FAR):
            continue                          # not strictly increasing in single precision
        got = ev(m, y, np.asarray(t(p, r)), c["dtype"])
        require(eq(got, base), "%s: %d documents: %r, after the transformation of the predictions by %s %r", spec, n, base, name, got)
    perm = r.permutation(n)
    got = ev(m, y[perm], p[perm], c["dtype"])
    require(eq(got, base), "%s: %d documents: %r, in another order %r", spec, n, base, got)
    note(spec["kind"])
    return len(pick) > 2


RULE = "three documents or more with different labels"
CHECKS = [
    Check("grown", grown(), check_grown, "three swaps or more", 1200, 16000, shards=4),
    Check("invariance", query(), check_invariance, RULE, 1200, 60000, shards=2),
    Check("order", query(), check_order, RULE, 2400, 100000, shards=4),
    Check("order-large", query(max_docs=40), check_order, RULE, 400, 10000, shards=1),
    Check("order-cascade", query(kinds=["ERR", "Pfound", "RBP"]), check_order, RULE, 600, 30000),
]
