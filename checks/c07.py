"""Equality and hash of datasets."""
import copy

from hypothesis import strategies as st

from lib import gen as G
from lib.core import Check, require, fail
import numpy as np

NEEDS = ("dataset",)
LAYOUTS = ["C", "F", "strided", "copy"]


def mk(ds, layout="C", qdtype="int64", name=None):
    from rankeval.dataset import Dataset
    X = np.array(ds["X"], dtype=np.float32).reshape(len(ds["y"]), ds["m"])
    if layout == "F":
        X = np.asfortranarray(X)
    elif layout == "strided":
        b = np.full((2 * X.shape[0], 2 * X.shape[1]), 5, dtype=np.float32)
        b[::2, 1::2] = X
        X = b[::2, 1::2]
    y = np.array(ds["y"], dtype=np.float32)
    if layout == "strided":
        b = np.zeros(2 * len(y), dtype=np.float32)
        b[::2] = y
        y = b[::2]
    return Dataset(X, y, np.array(G.unroll(ds["sizes"], ds["ids"]), dtype=qdtype), name=name)


MUTATIONS = ["none", "none", "X", "y", "qid", "boundary", "merge", "swap", "column", "row", "reshape", "transpose", "order",
             "xy", "ulp", "yulp", "negzero"]


@st.composite
def case(draw):
    ds = draw(G.datasets(5, 4, max_features=4, labels=(0, 1, 2), wide=True))
    ds["m"] = len(ds["X"][0])
    if draw(st.sampled_from([0, 0, 1])):       # infinite values, the same in both
        for v in draw(st.lists(st.sampled_from([float("inf"), float("-inf")]), min_size=1, max_size=2)):
            ds["X"][draw(st.integers(0, len(ds["y"]) - 1))][draw(st.integers(0, ds["m"] - 1))] = v
    other = copy.deepcopy(ds)
    kind = draw(st.sampled_from(MUTATIONS))
    n, m = len(ds["y"]), ds["m"]
    i, j = draw(st.integers(0, n - 1)), draw(st.integers(0, m - 1))
    if kind == "X":
        other["X"][i][j] = draw(G.f32s())
    elif kind == "ulp":
        other["X"][i][j] = float(np.nextafter(np.float32(ds["X"][i][j]), np.float32(np.inf)))
    elif kind == "yulp":
        other["y"][i] = float(np.nextafter(np.float32(ds["y"][i]), np.float32(np.inf)))
    elif kind == "negzero":
        ds["X"][i][j], other["X"][i][j] = 0.0, -0.0
    elif kind == "y":
        other["y"][i] = draw(st.sampled_from([0.0, 1.0, 2.0, 3.0]))
    elif kind == "qid":
        k = draw(st.integers(0, len(ds["ids"]) - 1))
        v = draw(st.one_of(st.integers(0, 50), st.sampled_from([2**31, 2**32, 2**33, 2**40]).map(lambda b: (ds["ids"][k] + b) % 2**63)))
        if v not in ds["ids"]:
            other["ids"][k] = v
    elif kind == "boundary":
        k = draw(st.integers(0, len(ds["ids"]) - 1))
        if len(ds["sizes"]) > 1 and ds["sizes"][k] > 1:
            other["sizes"][k] -= 1
            other["sizes"][(k + 1) % len(ds["sizes"])] += 1
    elif kind == "merge":
        if len(ds["sizes"]) > 1:
            other["sizes"] = [ds["sizes"][0] + ds["sizes"][1]] + ds["sizes"][2:]
            other["ids"] = [ds["ids"][0]] + ds["ids"][2:]
    elif kind == "order":
        other["ids"] = list(reversed(ds["ids"]))
        other["sizes"] = list(reversed(ds["sizes"])) if draw(st.booleans()) else ds["sizes"]
    elif kind == "swap":
        k = draw(st.integers(0, n - 1))
        for w in ("X", "y"):
            other[w][i], other[w][k] = other[w][k], other[w][i]
    elif kind == "column":
        other["X"] = [r[:-1] for r in ds["X"]] if m > 1 else [r + [0.0] for r in ds["X"]]
        other["m"] = m - 1 if m > 1 else 2
    elif kind == "row":
        other["X"], other["y"] = ds["X"] + [ds["X"][-1]], ds["y"] + [ds["y"][-1]]
        other["sizes"] = ds["sizes"][:-1] + [ds["sizes"][-1] + 1]
    elif kind == "reshape" and n % 2 == 0 and all(s % 2 == 0 for s in ds["sizes"]):
        flat = [v for r in ds["X"] for v in r]
        other["m"] = 2 * m
        other["X"] = [flat[a * 2 * m:(a + 1) * 2 * m] for a in range(n // 2)]
        other["y"] = ds["y"][:n // 2]
        other["sizes"] = [s // 2 for s in ds["sizes"]]
    elif kind == "transpose" and n == m:
        other["X"] = [list(r) for r in zip(*ds["X"])]
    elif kind == "xy" and n > 1:
        other["X"][i][j], other["y"][i] = other["y"][i], 1.0
    ts = [["int32", "int64"] if max(o["ids"]) < 2**31 else ["int64"] for o in (ds, other)]
    return dict(a=ds, b=other, kind=kind, la=draw(st.sampled_from(LAYOUTS)), lb=draw(st.sampled_from(LAYOUTS)),
                qa=draw(st.sampled_from(ts[0])), qb=draw(st.sampled_from(ts[1])),
                na=draw(st.sampled_from([None, "a"])), nb=draw(st.sampled_from([None, "b"])))


def content(ds):
    X = np.array(ds["X"], dtype=np.float32)
    return (ds["m"], [[float(v) for v in r] for r in X], [float(v) for v in ds["y"]], G.unroll(ds["sizes"], ds["ids"]))


def check(c, note):
    a, b = mk(c["a"], c["la"], c["qa"], c["na"]), mk(c["b"], c["lb"], c["qb"], c["nb"])
    want = content(c["a"]) == content(c["b"])
    for x, y, w in ((a, b, "a == b"), (b, a, "b == a")):
        r = x == y
        require(isinstance(r, (bool, np.bool_)), "%s is %r", w, r)
        require(bool(r) == want, "%s is %s but the contents are %s (%s)", w, r, "the same" if want else "different", c["kind"])
        require(bool(x != y) == (not want), "%s: != is not the negation of ==", w)
    require(a == a and b == b and not (a != a), "a dataset is not equal to itself")
    ha, hb = hash(a), hash(b)
    require(hash(a) == ha, "the hash is not stable")
    if want:
        require(ha == hb, "equal datasets with different hashes (layouts %s and %s, ids %s and %s)", c["la"], c["lb"], c["qa"],
                c["qb"])
    d = {a: 1}
    require((b in d) == want, "dictionary lookup says %s, contents are %s", b in d, "the same" if want else "different")
    require(len({a, b}) == (1 if want else 2), "a set of the two has %d members", len({a, b}))
    for o in (None, 3, "x", [1], (a,), object()):
        require(not (a == o) and a != o, "equal to %r", o)
    note(c["kind"] + (" (equal)" if want else " (different)"))
    return c["kind"] != "none" or c["la"] != c["lb"]


@st.composite
def history(draw):
    """Insertions and lookups over a small universe of datasets."""
    base = draw(G.datasets(3, 2, max_features=2, labels=(0, 1), pool=[0.0, 1.0]))
    base["m"] = len(base["X"][0])
    uni = [base]
    for _ in range(draw(st.integers(1, 4))):
        o = copy.deepcopy(draw(st.sampled_from(uni)))
        k = draw(st.integers(0, 2))
        i = draw(st.integers(0, len(o["y"]) - 1))
        if k == 0:
            o["X"][i][draw(st.integers(0, o["m"] - 1))] = draw(st.sampled_from([0.0, 1.0]))
        elif k == 1:
            o["y"][i] = draw(st.sampled_from([0.0, 1.0]))
        elif len(o["ids"]) > 1:
            o["ids"] = o["ids"][::-1]
        uni.append(o)
    ops = draw(st.lists(st.tuples(st.sampled_from(["set", "get", "del"]), st.integers(0, len(uni) - 1),
                                  st.sampled_from(LAYOUTS)), min_size=1, max_size=14))
    return dict(uni=uni, ops=[list(o) for o in ops])


def check_history(c, note):
    d, ref = {}, {}
    for step, (op, i, layout) in enumerate(c["ops"]):
        x, k = mk(c["uni"][i], layout), repr(content(c["uni"][i]))
        if op == "set":
            d[x] = ref[k] = step
        elif op == "get":
            require(d.get(x) == ref.get(k), "step %d: lookup gives %s instead of %s", step, d.get(x), ref.get(k))
        else:
            require(d.pop(x, None) == ref.pop(k, None), "step %d: removal differs", step)
        require(len(d) == len(ref), "step %d: %d entries instead of %d", step, len(d), len(ref))
    return len(c["ops"]) > 3


@st.composite
def large(draw):
    return dict(g=draw(G.grown(300, 20, 30, rows=3000)), kind=draw(st.sampled_from(["none", "X", "ulp", "y", "yulp", "qid", "boundary", "swap", "column"])),
                at=draw(st.sampled_from(["first", "last", "any"])), seed=draw(st.integers(0, 2**31 - 1)), la=draw(st.sampled_from(LAYOUTS)),
                lb=draw(st.sampled_from(LAYOUTS)))


def check_large(c, note):
    a = G.grow(c["g"])
    a["m"] = c["g"]["m"]
    b = copy.deepcopy(a)
    rs = np.random.RandomState(c["seed"])

    def pos(n):
        return {"first": 0, "last": n - 1}.get(c["at"], rs.randint(n))
    n, k = len(a["y"]), len(a["ids"])
    i, j = pos(n), pos(a["m"])
    if c["kind"] == "X":
        b["X"][i][j] += 1
    elif c["kind"] == "ulp":
        b["X"][i][j] = float(np.nextafter(np.float32(a["X"][i][j]), np.float32(np.inf)))
    elif c["kind"] == "y":
        b["y"][i] += 1
    elif c["kind"] == "yulp":
        b["y"][i] = float(np.nextafter(np.float32(a["y"][i]), np.float32(np.inf)))
    elif c["kind"] == "qid":
        b["ids"][pos(k)] = 2**31 - 1
    elif c["kind"] == "boundary" and k > 1 and b["sizes"][pos(k - 1)] > 1:
        i = pos(k - 1)
        b["sizes"][i] -= 1
        b["sizes"][i + 1] += 1
    elif c["kind"] == "swap":
        o = rs.randint(n)
        b["X"][i], b["X"][o] = b["X"][o], b["X"][i]
    elif c["kind"] == "column":
        b["X"] = [r + [0.0] for r in b["X"]]
        b["m"] += 1
    check(dict(a=a, b=b, kind=c["kind"], la=c["la"], lb=c["lb"], qa="int64", qb="int32", na=None, nb="b"), note)
    return n > 100


@st.composite
def vast(draw):
    return dict(n=draw(st.sampled_from([17000, 33000, 66001, 140000])), m=draw(st.sampled_from([1, 2, 17])), seed=draw(st.integers(0, 2**31 - 1)), per=draw(st.sampled_from([1, 3, 200])),
                kind=draw(st.sampled_from(["none", "X", "ulp", "y", "qid", "boundary", "column"])), at=draw(st.sampled_from([0.0, 0.3, 0.5, 0.6, 0.99, 1.0])))


def check_vast(c, note):
    """Tens of thousands of rows, one of them different."""
    from rankeval.dataset import Dataset
    rs = np.random.RandomState(c["seed"])
    n = c["n"]
    X = rs.randint(0, 9, (n, c["m"])).astype(np.float32)
    y, q = rs.randint(0, 5, n).astype(np.float32), np.arange(n) // c["per"]
    a = Dataset(X.copy(), y.copy(), q.copy())
    i = int(c["at"] * (n - 1))
    if c["kind"] == "X":
        X[i, rs.randint(c["m"])] += 1
    elif c["kind"] == "ulp":
        X[i, -1] = np.nextafter(X[i, -1], np.float32(100))
    elif c["kind"] == "y":
        y[i] += 1
    elif c["kind"] == "qid":
        q[q == q[i]] = n + 7
    elif c["kind"] == "boundary":
        q[i] = q[min(n - 1, i + 1)]           # of one query to the next, when at the end of one
    elif c["kind"] == "column":
        X = np.concatenate([X, np.zeros((n, 1), dtype=np.float32)], axis=1)
    ok = np.array_equal(np.sort(np.unique(q)), np.unique(q)) and (np.diff(q) != 0).sum() + 1 == len(np.unique(q))
    if not ok:
        return False
    b = Dataset(np.asfortranarray(X), y, q)
    want = X.shape == a.X.shape and np.array_equal(X, a.X) and np.array_equal(y, a.y) and np.array_equal(q, np.arange(n) // c["per"])
    require((a == b) == want and (b == a) == want and (a != b) == (not want), "compared as %s, the contents are %s (%s)", a == b, "the same" if want else "different", c["kind"])
    require(not want or hash(a) == hash(b), "equal datasets with different hashes")
    require((b in {a: 1}) == want, "dictionary lookup")
    note(c["kind"])
    return not want


CHECKS = [
    Check("vast", vast(), check_vast, "the contents differ", 40, 1000, shards=2),
    Check("large", large(), check_large, "more than 100 rows", 100, 4000, shards=2),
    Check("pairs", case(), check, "the contents or the layouts differ", 2500, 100000),
    Check("dictionary", history(), check_history, "four operations or more", 600, 20000),
]
