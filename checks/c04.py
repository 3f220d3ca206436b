"""Query structure and subsets of a dataset, against plain lists."""
from hypothesis import strategies as st

from lib import gen as G, models as M
from lib.core import Check, require, same, fail, raises
import numpy as np

NEEDS = ("dataset",)


def mk(ds, qdtype="int64", order="C"):
    from rankeval.dataset import Dataset
    X = np.array(ds["X"], dtype=np.float32, order=order)
    return Dataset(X, np.array(ds["y"], dtype=np.float32),
                   np.array(G.unroll(ds["sizes"], ds["ids"]), dtype=qdtype), name="N")


def verify(what, d, X, y, qrows):
    """d holds exactly these rows."""
    X, y = np.array(X, dtype=np.float32), np.array(y, dtype=np.float32)
    same(what + ": features", d.X, X.reshape(len(y), -1) if len(y) else np.zeros((0, d.X.shape[1])))
    same(what + ": labels", d.y, y)
    order, starts = [], []
    for i, q in enumerate(qrows):
        if not order or order[-1] != q:
            order.append(q)
            starts.append(i)
    bounds = starts + [len(qrows)]
    same(what + ": query ids", d.query_ids, order) if order else require(len(d.query_ids) == 0, "%s: query ids %s", what,
                                                                       d.query_ids)
    same(what + ": query offsets", d.query_offsets, bounds)
    require(int(d.n_queries) == len(order), "%s: %s queries instead of %d", what, d.n_queries, len(order))
    require(int(d.n_instances) == len(y), "%s: %s instances instead of %d", what, d.n_instances, len(y))
    require(int(d.n_features) == d.X.shape[1], "%s: %s features", what, d.n_features)
    it = [tuple(int(v) for v in t) for t in d.query_iterator()]
    want = [(order[i], bounds[i], bounds[i + 1]) for i in range(len(order))]
    require(it == want, "%s: query iterator gives %s instead of %s", what, it, want)
    same(what + ": query sizes", np.asarray(d.get_query_sizes()).reshape(-1), np.diff(bounds))
    for t in ("int16", "float64", "int64", "uint8", "int32"):
        if t in ("int16", "uint8", "int32"):           # too small for some ids: what numpy makes of those is not specified
            try:
                g = d.get_qids_dataset(dtype=t)
            except OverflowError:
                continue
            small = np.array([v <= np.iinfo(t).max for v in qrows], dtype=bool)
        elif t == "float64":
            g = d.get_qids_dataset(dtype=t)
            small = np.array([v < 2**53 for v in qrows], dtype=bool)
        else:
            g = d.get_qids_dataset(dtype=t)
            small = np.ones(len(qrows), dtype=bool)
        require(g.shape == (len(qrows),) and g.dtype == np.dtype(t) and np.array_equal(g[small], np.array(qrows)[small]), "%s: ids per row as %s: %s instead of %s",
                what, t, g.tolist(), qrows)
    g = np.asarray(d.get_qids_dataset())
    require(g.shape == (len(qrows),) and g.tolist() == list(qrows), "%s: ids per row %s instead of %s", what, g.tolist(), qrows)
    for q, a, b in want:
        o = d.get_query_offsets(q)
        require(all(np.ndim(v) == 0 for v in o), "%s: offsets of query %d are %r", what, q, o)
        o = tuple(int(v) for v in o)
        require(o == (a, b), "%s: offsets of query %d are %s instead of %s", what, q, o, (a, b))


@st.composite
def case(draw):
    ds = draw(G.datasets(8, 5, wide=True))
    k = len(ds["ids"])
    big = max(ds["ids"]) >= 2**31
    # known ids (possibly repeated, in any order) and absent ones
    pick = draw(st.lists(st.integers(0, k - 1), max_size=k + 2))
    absent = draw(st.lists(st.integers(0, 2**31 - 1).filter(lambda q: q not in ds["ids"]), max_size=3))
    nf = len(ds["X"][0])
    feats = draw(st.lists(st.integers(0, nf - 1), min_size=1, max_size=nf + 2))
    return dict(ds=ds, pick=[ds["ids"][i] for i in pick], absent=absent, feats=feats,
                container=draw(st.sampled_from(["list", "int32", "int64"] if not big else ["list", "int64"])), order=draw(st.sampled_from("CF")),
                qdtype=draw(st.sampled_from(["int32", "int64"] if not big else ["int64"])), near=draw(st.booleans()))


def check(c, note):
    ds = c["ds"]
    q = G.unroll(ds["sizes"], ds["ids"])
    d = mk(ds, c["qdtype"], c["order"])
    X, y = np.array(ds["X"], dtype=np.float32), np.array(ds["y"], dtype=np.float32)
    verify("dataset", d, X, y, q)
    absent = list(c["absent"])
    if c["near"]:
        top = 2**31 if c["container"] == "int32" else 2**63
        absent += [i + s for i in ds["ids"] for s in (-1, 1, 2**31, 2**32, -2**31, -2**32) if i + s not in ds["ids"] and 0 <= i + s < top]
    for a in absent + [len(y) + 2**30 + 7 if len(y) + 2**30 + 7 not in ds["ids"] else 2**30]:
        if a not in ds["ids"]:
            raises("offsets of absent query %d" % a, LookupError, d.get_query_offsets, a)
    sel = c["pick"] + absent
    arg = sel if c["container"] == "list" else np.array(sel, dtype=c["container"])
    s = d.subset(arg, name="S")
    chosen = set(c["pick"])
    keep = [i for i, v in enumerate(q) if v in chosen]
    verify("subset %s" % sel, s, [X[i] for i in keep], [y[i] for i in keep], [q[i] for i in keep])
    require(s.n_features == X.shape[1], "the subset has %s features", s.n_features)
    fs = c["feats"] if c["container"] == "list" else np.array(c["feats"], dtype=c["container"])
    f = d.subset_features(fs)
    verify("subset of features %s" % c["feats"], f, X[:, c["feats"]], y, q)
    require((d.name, s.name, f.name) == ("N", "S", "N"), "the names are %r, %r and %r", d.name, s.name, f.name)
    # query ids that are not as many as the rows
    from rankeval.dataset import Dataset
    for ids in (q[:-1], q + q[-1:]):
        raises("a dataset of %d rows with %d query ids" % (len(y), len(ids)), Exception, Dataset, X, y, np.array(ids, dtype=np.int64))
    # subsets of subsets
    if keep:
        g = s.subset_features(fs)
        verify("features of the subset", g, X[keep][:, c["feats"]], y[keep], [q[i] for i in keep])
        one = [q[keep[-1]]]
        h = g.subset(one)
        k2 = [i for i in keep if q[i] == one[0]]
        verify("subset of the features of the subset", h, X[k2][:, c["feats"]], y[k2], [q[i] for i in k2])
    # what the subsets contain is theirs
    f.X[:] = -77
    if s.X.size:
        s.X[:] = -78
        s.y[:] = -79
    if d.X.size:
        verify("dataset after subsetting", d, X, y, q)
    if ds["ids"] != sorted(ds["ids"]):
        note("ids not in increasing order")
    note("subset of some" if 0 < len(set(c["pick"])) < len(ds["ids"]) else "subset of none" if not c["pick"] else "all")
    return len(ds["ids"]) > 1 and 0 < len(set(c["pick"])) < len(ds["ids"])


@st.composite
def big(draw):
    return dict(seed=draw(st.integers(0, 2**31 - 1)), n=draw(st.integers(20, 400)),
                kind=draw(st.sampled_from(["desc", "any", "seq"])))


def check_grown(c, note):
    ds = G.grow(c["g"])
    rs = np.random.RandomState(c["g"]["seed"])
    k, m = len(ds["ids"]), c["g"]["m"]
    pick = [ds["ids"][i] for i in rs.choice(k, rs.randint(0, k + 1), replace=False)]
    check(dict(ds=ds, pick=pick, absent=[2**31 - 1] if 2**31 - 1 not in ds["ids"] else [], feats=[int(f) for f in rs.permutation(m)[:rs.randint(1, m + 1)]],
               container="int64", order="C", qdtype="int64", near=False), note)
    return k > 20


def check_big(c, note):
    rs = np.random.RandomState(c["seed"])
    k = c["n"]
    ids = rs.permutation(np.unique(rs.randint(0, 2**31 - 1, 2 * k)))[:k] if c["kind"] == "any" else \
        np.arange(k)[::-1] if c["kind"] == "desc" else np.arange(k)
    k = len(ids)
    sizes = rs.randint(1, 9, k)
    ds = dict(sizes=sizes.tolist(), ids=[int(i) for i in ids], y=rs.randint(0, 5, sizes.sum()).tolist(),
              X=rs.rand(sizes.sum(), 3).tolist())
    d = mk(ds)
    q = G.unroll(ds["sizes"], ds["ids"])
    verify("large dataset", d, ds["X"], ds["y"], q)
    pick = set(rs.choice(ids, k // 3, replace=False).tolist())
    keep = [i for i, v in enumerate(q) if v in pick]
    s = d.subset(np.array(sorted(pick)))
    verify("subset of a large dataset", s, [ds["X"][i] for i in keep], [ds["y"][i] for i in keep], [q[i] for i in keep])
    return True


CHECKS = [
    Check("structure", case(), check, "two queries or more, a proper subset of them taken", 1500, 60000),
    Check("grown", st.fixed_dictionaries(dict(g=G.grown(600, 30, 30, rows=9000))), check_grown, "more than 20 queries", 40, 1500, shards=2),
    Check("large", big(), check_big, "always (20 to 400 queries)", 60, 2000),
]
