"""Dump: the text is read by an independent reader and by the loader."""
import bz2
import gzip
import io
import os

from hypothesis import strategies as st

from lib import gen as G, models as M
from lib.core import Check, require, same, fail
import numpy as np

NEEDS = ("dataset",)
DESTS = ["path", "gz", "bz2", "fd", "stringio", "file"]
LAYOUTS = ["C", "F", "strided", "T", "reversed", "list"]
BIG = [65535.0, 65536.0, 16777215.0, 2.0**31, 2.0**31 + 256, -2.0**31 - 256, 2.0**32 + 512, 2.0**33 + 3072, 2.0**63, 1e15, -2.0**24 + 1]


@st.composite
def case(draw, max_queries=5, max_docs=4):
    ints = draw(st.booleans())
    if ints:
        pool = draw(st.lists(st.integers(-2**24, 2**24).map(float), min_size=1, max_size=5)) + [0.0]
    else:
        pool = draw(st.lists(G.f32s(-3.4e38, 3.4e38), min_size=1, max_size=6)) + [0.0]
    labels = draw(st.lists(st.one_of(st.integers(0, 4).map(float), G.f32s(-1e3, 1e3), G.f32s(-3.4e38, 3.4e38), st.sampled_from(BIG)), min_size=1, max_size=4))
    ds = draw(G.datasets(max_queries, max_docs, 1, 6, pool, labels))
    return dict(ds=ds, dest=draw(st.sampled_from(DESTS)), layout=draw(st.sampled_from(LAYOUTS)),
                dtype=draw(st.sampled_from(["float32", "float64"] + (["int64", "int32"] if ints else []))),
                ydtype=draw(st.sampled_from(["float32", "float64"])), zero_based=draw(st.booleans()),
                qid=draw(st.sampled_from(["int32", "int64", "list", "none"])), old=draw(st.booleans()))


def arrange(X, layout, dtype):
    a = np.array(X, dtype=dtype)
    if layout == "F":
        return np.asfortranarray(a)
    if layout == "strided":
        b = np.full((a.shape[0] * 2, a.shape[1] * 2), 77, dtype=dtype)
        b[::2, ::2] = a
        return b[::2, ::2]
    if layout == "T":
        return np.ascontiguousarray(a.T).T
    if layout == "reversed":
        return np.ascontiguousarray(a[::-1])[::-1]
    if layout == "list":
        return a.tolist()
    return a


def produce(dest, fn, old=False):
    """Calls fn with a destination and returns the text produced."""
    if dest == "stringio":
        f = io.StringIO()
        fn(f)
        require(not f.closed, "the given object was closed")
        return f.getvalue()
    p = M.tmpname({"gz": ".gz", "bz2": ".bz2"}.get(dest, ".txt"))
    if old and dest in ("path", "gz", "bz2"):   # a longer file is there already
        with open(p, "wb") as fh:
            fh.write(b"1 qid:1 1:1\n" * 9000)
    try:
        if dest == "fd":
            fd = os.open(p, os.O_RDWR | os.O_CREAT)
            try:
                fn(fd)
                os.fstat(fd)
            finally:
                os.close(fd)
        elif dest == "file":
            with open(p, "w") as f:
                fn(f)
                require(not f.closed, "the given file was closed")
        else:
            fn(p)
        with open(p, "rb") as fh:
            b = fh.read()
        return (gzip.decompress(b) if dest == "gz" else bz2.decompress(b) if dest == "bz2" else b).decode("ascii")
    finally:
        os.unlink(p)


def read(text, base):
    """An independent reader of the format (strict)."""
    X, y, q = [], [], []
    require(text.endswith("\n"), "the last line is not terminated")
    for line in text.split("\n")[:-1]:
        toks = line.split("#")[0].split()
        require(len(toks) > 0, "an empty line was written")
        y.append(float(toks[0]))
        toks = toks[1:]
        if toks and toks[0].startswith("qid:"):
            q.append(int(toks[0][4:]))
            toks = toks[1:]
        else:
            q.append(None)
        row, last = {}, base - 1
        for t in toks:
            a, b = t.split(":")
            require(int(a) > last, "feature id %s after %d", a, last)
            last = int(a)
            row[last - base] = float(b)
        X.append(row)
    return X, y, q


def verify(what, text, base, ds, with_qid=True):
    X, y, q = read(text, base)
    n, m = len(ds["y"]), len(ds["X"][0])
    require(len(y) == n, "%s: %d rows instead of %d", what, len(y), n)
    A = np.zeros((n, m))
    for i, r in enumerate(X):
        for j, v in r.items():
            require(j < m, "%s: feature %d of %d", what, j, m)
            A[i, j] = v
    same(what + ": features in the text", A.astype(np.float32), np.array(ds["X"], dtype=np.float32))
    same(what + ": labels in the text", np.array(y, dtype=np.float32), np.array(ds["y"], dtype=np.float32))
    want = G.unroll(ds["sizes"], ds["ids"]) if with_qid else [None] * n
    require(q == want, "%s: query ids %s instead of %s", what, q, want)


def reload(text, ds, with_qid=True):
    from rankeval.dataset.svmlight_format import load_svmlight_file
    r = load_svmlight_file(io.BytesIO(text.encode()), query_id=with_qid)
    same("loaded features", r[0], np.array(ds["X"], dtype=np.float32))
    same("loaded labels", r[1], np.array(ds["y"], dtype=np.float32))
    if with_qid:
        same("loaded query ids", np.asarray(r[2]).astype(np.int64), G.unroll(ds["sizes"], ds["ids"]))


def note_case(c, note):
    note("destination " + c["dest"])
    note("layout " + c["layout"])
    if len(c["ds"]["y"]) == 1:
        note("single row")
    return len(c["ds"]["y"]) > 1 and len(c["ds"]["X"][0]) > 1


def check_arrays(c, note):
    from rankeval.dataset.svmlight_format import dump_svmlight_file
    ds = c["ds"]
    X = arrange(ds["X"], c["layout"], c["dtype"])
    y = np.array(ds["y"], dtype=c["ydtype"])
    q = G.unroll(ds["sizes"], ds["ids"])
    q = None if c["qid"] == "none" else q if c["qid"] == "list" else np.array(q, dtype=c["qid"])
    keep = (np.array(X), y.copy(), None if q is None else np.array(q))
    text = produce(c["dest"], lambda f: dump_svmlight_file(X, y, f, query_id=q, zero_based=c["zero_based"]), c.get("old"))
    same("features after dumping", np.array(X), keep[0])
    same("labels after dumping", y, keep[1])
    if q is not None:
        same("query ids after dumping", np.array(q), keep[2])
    verify("dump", text, 0 if c["zero_based"] else 1, ds, q is not None)
    if not c["zero_based"]:
        reload(text, ds, q is not None)
    else:
        note("zero based")
    return note_case(c, note)


def check_dataset(c, note):
    from rankeval.dataset import Dataset
    ds = c["ds"]
    X = arrange(ds["X"], c["layout"] if c["layout"] != "list" else "C", c["dtype"])
    d = Dataset(X, np.array(ds["y"], dtype=c["ydtype"]), np.array(G.unroll(ds["sizes"], ds["ids"]), dtype=np.int64), name="z")
    keep = (np.array(d.X), d.y.copy(), d.query_ids.copy(), d.query_offsets.copy())
    text = produce(c["dest"], lambda f: d.dump(f), c.get("old"))
    for a, b, w in zip(keep, (d.X, d.y, d.query_ids, d.query_offsets), ("features", "labels", "query ids", "offsets")):
        same(w + " after dumping", np.array(b), a)
    verify("dump", text, 1, ds)
    e = Dataset.load(io.BytesIO(text.encode()))
    same("features of the reloaded dataset", e.X, np.array(ds["X"], dtype=np.float32))
    same("labels of the reloaded dataset", e.y, np.array(ds["y"], dtype=np.float32))
    same("query ids of the reloaded dataset", e.query_ids, ds["ids"])
    same("query offsets of the reloaded dataset", e.query_offsets, np.cumsum([0] + ds["sizes"]))
    if c["dtype"] in ("float32",) and c["ydtype"] == "float32":
        require(e == d, "the reloaded dataset is not equal to the dumped one")
    # again, through a file of the library's choosing
    ext = {"gz": ".gz", "bz2": ".bz2"}.get(c["dest"], ".txt")
    p = M.tmpname(ext)
    e.dump(p)
    g = Dataset.load(p)
    os.unlink(p)
    require(g == e, "a second round trip changed the dataset")
    return note_case(c, note)


@st.composite
def large(draw):
    return dict(g=draw(G.grown(80, 10, 60, rows=500)), dest=draw(st.sampled_from(DESTS)), layout=draw(st.sampled_from(LAYOUTS)), dtype="float32",
                ydtype="float32", zero_based=draw(st.booleans()), qid="int64", dataset=draw(st.booleans()), old=draw(st.booleans()))


def check_large(c, note):
    ds = G.grow(c["g"])
    r = (check_dataset if c["dataset"] else check_arrays)(dict(c, ds=ds), note)
    return r and len(ds["y"]) > 64


def check_tall(c, note):
    """Tens of thousands of short rows."""
    from rankeval.dataset import Dataset
    rs = np.random.RandomState(c["seed"])
    n, m = c["n"], c["m"]
    X = np.where(rs.rand(n, m) < c["density"], rs.randint(1, 9000, (n, m)) / 8.0, 0.0).astype(np.float32)
    X[-1, -1] = 3.0
    y, q = rs.randint(0, 5, n).astype(np.float32), np.arange(n) // c["per"] * c["gap"]
    d = Dataset(X.copy(), y.copy(), q.copy())
    text = produce(c["dest"], lambda f: d.dump(f))
    lines = text.split("\n")
    require(len(lines) == n + 1 and not lines[-1], "%d lines instead of %d", len(lines) - 1, n)
    A, ly, lq = np.zeros((n, m), dtype=np.float32), np.zeros(n), np.zeros(n, dtype=np.int64)
    for i, l in enumerate(lines[:-1]):
        t = l.split()
        ly[i], lq[i] = float(t[0]), int(t[1][4:])
        for v in t[2:]:
            j, v = v.split(":")
            A[i, int(j) - 1] = float(v)
    same("%d rows: features in the text" % n, A, X)
    same("%d rows: labels in the text" % n, ly, y.astype(np.float64))
    same("%d rows: query ids in the text" % n, lq, q)
    e = Dataset.load(io.BytesIO(text.encode()))
    require(e == d, "the reloaded dataset is not equal to the dumped one (%d rows)", n)
    note("%d rows" % n)
    return n > 32767


def check_refused(c, note):
    """Ids the format of the loader has no room for are refused, not replaced."""
    from rankeval.dataset import Dataset
    from rankeval.dataset.svmlight_format import dump_svmlight_file
    n = len(c["ids"])
    X, y, q = np.arange(n, dtype=np.float32).reshape(n, 1) + 1, np.zeros(n, dtype=np.float32), np.array(c["ids"], dtype=np.int64)
    for how in ("arrays", "dataset"):
        f = (lambda o: dump_svmlight_file(X, y, o, q)) if how == "arrays" else (lambda o: Dataset(X, y, q).dump(o))
        o = io.StringIO()
        try:
            f(o)
        except Exception:
            require(not o.getvalue(), "%s: refused after writing %r", how, o.getvalue()[:60])
            continue
        ids = read(o.getvalue(), 1)[2]
        require(ids == c["ids"], "%s: query ids %s were written as %s", how, c["ids"], ids)
    return any(not -2**31 <= v < 2**31 for v in c["ids"])


CHECKS = [
    Check("refused", G.qids_wide(), check_refused, "an id does not fit in 32 bits", 60, 2000),
    Check("tall", st.fixed_dictionaries(dict(seed=st.integers(0, 2**31 - 1), n=st.sampled_from([9000, 33000, 66001, 132000, 257, 513, 1025, 4097, 8193]), m=st.integers(1, 3), density=st.sampled_from([0.1, 0.6, 1.0]),
          per=st.sampled_from([1, 1, 20]), gap=st.sampled_from([1, 10000]), dest=st.sampled_from(["path", "gz", "fd", "stringio"]))), check_tall, "more than 32767 rows", 20, 300, shards=2),
    Check("large", large(), check_large, "more than 64 rows", 60, 2500, shards=2),
    Check("arrays", case(), check_arrays, "two rows and two features or more", 1500, 60000),
    Check("dataset", case(), check_dataset, "two rows and two features or more", 1000, 40000),
]
