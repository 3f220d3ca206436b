"""Loading SVMlight files: the rows are rendered in every notation the format
allows and read back through every kind of source."""
import bz2
import gzip
import io
import os
from fractions import Fraction

from hypothesis import strategies as st

from lib import gen as G, models as M
from lib.core import Check, require, same, fail
import numpy as np

QUICK = 1                                     # times the numbers of cases below
NEEDS = ("dataset",)

VAL_STYLES = 6


def render(v, style):
    """A decimal text; returns it (its meaning is computed from the text)."""
    if abs(v) == float("inf"):
        return repr(float(v))
    if style == 1:
        return "%.9g" % v
    if style == 2:
        return "%.17g" % v
    if style == 3:
        return "%.12E" % v
    if style == 4 and v == int(v) and abs(v) < 2**31:
        return "%d" % v
    if style == 5 and abs(v) < 1e6:
        return "%+.20f" % v
    return repr(float(v))


@st.composite
def rows(draw, max_rows=9, max_feat=12, wide=False):
    n = draw(st.integers(1, max_rows))
    nf = draw(st.integers(1, max_feat))
    pool = draw(st.lists(st.one_of(G.f32s(-3.4e38, 3.4e38), st.floats(-1e30, 1e30), st.integers(-1000, 100000).map(float)),
                         min_size=1, max_size=6)) + [0.0, 1.0]
    if draw(st.integers(0, 5)) == 0:
        pool += [float("inf"), float("-inf"), 1e300, 1e-300, -3.9e38]
    labels = draw(st.lists(st.one_of(st.integers(0, 4).map(float), st.integers(-2, 31).map(float), G.f32s(-1e4, 1e4)),
                           min_size=1, max_size=4))
    shape = draw(st.sampled_from(["dense", "sparse", "sparse", "growing", "shrinking", "lonely", "empty-first", "empty"]))
    sizes, ids = draw(G.grouping(n, 3))
    qid = G.unroll(sizes, ids)[:n]
    n = len(qid)
    out = []
    for i in range(n):
        b = draw(st.binary(min_size=nf + 2, max_size=nf + 2))
        if shape == "dense":
            cols = list(range(nf))
        elif shape == "growing":
            cols = [j for j in range(nf) if j <= i * nf // n and b[j] & 1 or j == i * nf // n]
        elif shape == "shrinking":
            cols = [j for j in range(nf) if j < nf - i * nf // n and (b[j] & 1 or j == nf - i * nf // n - 1)]
        elif shape == "lonely":
            cols = [b[-1] % nf]
        elif shape == "empty":
            cols = []
        elif shape == "empty-first" and i < n // 2 + 1 and i < n - 1:
            cols = []
        else:
            cols = [j for j in range(nf) if b[j] % 3 == 0]
        out.append(dict(y=render(labels[b[-2] % len(labels)], b[-1] % VAL_STYLES), q=qid[i],
                        f=[[j + 1, render(pool[b[j] // 3 % len(pool)], b[j] % VAL_STYLES)] for j in cols]))
    return out


@st.composite
def case(draw, **kw):
    fmt = dict(sep=draw(st.sampled_from([" ", "  ", "\t", " \t "])), nl=draw(st.sampled_from(["\n", "\r\n"])),
               trail=draw(st.sampled_from(["", " ", "\t "])), lead=draw(st.sampled_from(["", "", " "])),
               last=draw(st.booleans()), head=draw(st.sampled_from([[], [], ["# a comment 1:2 qid:9"], ["#", "# x"]])),
               mid=draw(st.sampled_from([0, 0, 2, 3])),
               tail=draw(st.sampled_from(["", "", " # doc 12:7 qid:3", "# GX-01 = 0.5", " #", " #docid = GX000 inc = 1"])))
    return dict(rows=draw(rows(**kw)), fmt=fmt, src=draw(st.sampled_from(SOURCES)))


def text(c):
    f, out = c["fmt"], list(c["fmt"]["head"])
    for i, r in enumerate(c["rows"]):
        line = f["lead"] + f["sep"].join([r["y"], "qid:%d" % r["q"]] + ["%d:%s" % tuple(p) for p in r["f"]])
        t = f["tail"] if f["tail"] and (i % 2 == 0 or len(f["tail"]) % 2) else ""
        out.append(line + (t or f["trail"]))
        if f["mid"] and i % f["mid"] == 1:
            out.append("# between 3:4")
    return (f["nl"].join(out) + (f["nl"] if f["last"] else "")).encode()


def nearest(tok):
    """Acceptable single-precision values of a decimal text: the nearest one,
    and the nearest to the nearest double (they differ only at ties)."""
    with np.errstate(over="ignore"):
        a = np.float32(float(tok))
    if np.isinf(a):                            # infinity is documented to become the largest number
        return {float("-inf")} if a < 0 else {float("inf"), float(np.finfo(np.float32).max)}
    x = Fraction(tok)
    best = min((abs(Fraction(float(v)) - x), float(v)) for v in
               (np.nextafter(a, np.float32(-np.inf)), a, np.nextafter(a, np.float32(np.inf))) if np.isfinite(v))
    return {float(a), best[1]}


def expected(rs):
    m = max([j for r in rs for j, _ in r["f"]] or [0])
    X = np.zeros((len(rs), m), dtype=np.float32)
    alt = []
    for i, r in enumerate(rs):
        for j, t in r["f"]:
            v = nearest(t)
            X[i, j - 1] = v.pop()
            if v:
                alt.append((i, j - 1, v.pop()))
    y = np.array([float(np.float32(float(r["y"]))) for r in rs], dtype=np.float32)
    return X, y, np.array([r["q"] for r in rs], dtype=np.int64), alt


def compare(what, got, rs):
    X, y, q = got
    wX, wy, wq, alt = expected(rs)
    require(isinstance(X, np.ndarray) and X.dtype == np.float32, "%s: X is %s", what, type(X))
    require(X.shape == wX.shape, "%s: matrix of shape %s instead of %s", what, X.shape, wX.shape)
    for i, j, v in alt:
        if float(X[i, j]) == v:
            wX[i, j] = v
    same(what + ": X", X, wX)
    same(what + ": y", y, wy)
    if q is not None:
        same(what + ": query ids", np.asarray(q).astype(np.int64), wq)


SOURCES = ["path", "gz", "bz2", "fd", "bytesio", "file", "gzfile", "offset", "noqid", "gz-parts", "bz2-parts"]


def load(src, data, query_id=True):
    from rankeval.dataset.svmlight_format import load_svmlight_file as L
    p = M.tmpname({"gz": ".txt.gz", "bz2": ".txt.bz2"}.get(src, ".txt"))
    if src == "bytesio":
        f = io.BytesIO(data)
        r = L(f, query_id=query_id)
        require(not f.closed, "bytesio: the given object was closed")
        return r
    if src.endswith("-parts"):                 # a compressed file may be several, one after the other
        src = src[:-6]
        k = [0, len(data) // 3, len(data) // 3, len(data) // 2, len(data)]
        blob = b"".join((gzip if src == "gz" else bz2).compress(data[a:b]) for a, b in zip(k, k[1:]))
        p = M.tmpname("." + src)
    else:
        blob = gzip.compress(data) if src in ("gz", "gzfile") else \
            bz2.compress(data) if src == "bz2" else data
    junk = b"7 qid:77 9:9\n" if src == "offset" else b""
    with open(p, "wb") as fh:
        fh.write(junk + blob)
    try:
        if src in ("fd", "offset"):
            fd = os.open(p, os.O_RDONLY)
            try:
                os.lseek(fd, len(junk), 0)
                r = L(fd, query_id=query_id)
                os.fstat(fd)
                return r
            finally:
                os.close(fd)
        if src in ("file", "gzfile"):
            with (gzip.open(p, "rb") if src == "gzfile" else open(p, "rb")) as fh:
                r = L(fh, query_id=query_id)
                require(not fh.closed, "file: the given file was closed")
                return r
        return L(p, query_id=query_id)
    finally:
        os.unlink(p)


def check(c, note):
    data = text(c)
    if c["src"] == "noqid":
        r = load("path", data, query_id=False)
        require(len(r) == 2, "query ids returned though not asked for")
        compare("without query ids", (r[0], r[1], None), c["rows"])
    else:
        compare(c["src"], load(c["src"], data), c["rows"])
    note("source " + c["src"])
    per = [max([j for j, _ in r["f"]] or [0]) for r in c["rows"]]
    if per[0] == 0:
        note("first row without features")
    if any(a < b for a, b in zip(per, per[1:])):
        note("later row adds features")
    if c["fmt"]["tail"] or c["fmt"]["head"] or c["fmt"]["mid"]:
        note("comments")
    if c["fmt"]["nl"] != "\n":
        note("CRLF")
    return len(c["rows"]) > 1 and len(set(per)) > 1


def check_dataset(c, note):
    """Dataset.load: rows grouped by query."""
    from rankeval.dataset import Dataset
    data = text(c)
    p = M.tmpname(".txt")
    open(p, "wb").write(data)
    d = Dataset.load(p, name="n")
    os.unlink(p)
    compare("Dataset.load", (d.X, d.y, d.get_qids_dataset()), c["rows"])
    require(d.name == "n", "name is %r", d.name)
    require(d.n_instances == len(c["rows"]) and d.n_features == d.X.shape[1], "sizes of the dataset are wrong")
    require(d.n_queries == len({r["q"] for r in c["rows"]}), "%d queries", d.n_queries)
    return len(c["rows"]) > 1


def check_files(cs, note):
    from rankeval.dataset.svmlight_format import load_svmlight_files
    ps = []
    for c in cs["files"]:
        p = M.tmpname({"gz": ".gz", "bz2": ".bz2"}.get(c["src"], ".txt"))
        d = text(c)
        open(p, "wb").write(gzip.compress(d) if c["src"] == "gz" else bz2.compress(d) if c["src"] == "bz2" else d)
        ps.append(p)
    for q in (True, False):
        r = load_svmlight_files(ps, query_id=q)
        k = 3 if q else 2
        require(len(r) == k * len(ps), "%d arrays for %d files", len(r), len(ps))
        for i, c in enumerate(cs["files"]):
            part = list(r[i * k:(i + 1) * k]) + ([] if q else [None])
            compare("file %d of %d" % (i, len(ps)), part, c["rows"])
    for p in ps:
        os.unlink(p)
    return len(ps) > 1


@st.composite
def big(draw):
    return dict(seed=draw(st.integers(0, 2**31 - 1)), n=draw(st.one_of(st.integers(50, 700), st.integers(700, 6000))), m=draw(st.one_of(st.integers(5, 120), st.integers(100, 700), st.sampled_from([300, 3000, 9000, 17000, 40000]))),
                late=draw(st.sampled_from([0, 0, 3, 20])),
                density=draw(st.sampled_from([0.02, 0.2, 0.9])), src=draw(st.sampled_from(["path", "gz", "bytesio", "fd"])))


def check_big(c, note):
    rs = np.random.RandomState(c["seed"])
    rows, q = [], 0
    c = dict(c, n=min(c["n"], 200000 // c["m"]))
    for i in range(c["n"]):
        q += rs.rand() < 0.1
        cols = np.nonzero(rs.rand(c["m"]) < c["density"] * (0 if rs.rand() < .1 else 1))[0]
        if c["late"] and i == c["n"] - 2:      # a feature not seen before, in the last but one row
            cols = np.append(cols, c["m"] + c["late"] - 1)
        rows.append(dict(y="%d" % rs.randint(5), q=int(q), f=[[int(j) + 1, "%.6g" % rs.randn()] for j in cols]))
    fmt = dict(sep=" ", nl="\n", trail="", lead="", last=True, head=[], mid=0, tail="")
    data = text(dict(rows=rows, fmt=fmt))
    compare("large file", load(c["src"], data), rows)
    note("over 8 KiB" if len(data) > 8192 else "small")
    return True


@st.composite
def rewrites(draw):
    cs = draw(st.lists(case(max_rows=4, max_feat=6), min_size=2, max_size=3))
    if draw(st.booleans()):                  # as long as the first, one digit changed
        c = draw(st.sampled_from(cs))
        cs.append(dict(c, bump=True))
    return dict(files=cs, how=[draw(st.sampled_from(["load", "dataset", "fd", "files", "object"])) for _ in cs])


def check_rewrites(c, note):
    """What a file holds when it is loaded is what counts, whatever was loaded
    before under its name, its descriptor or from the same object."""
    import copy
    from rankeval.dataset.svmlight_format import load_svmlight_file as L, load_svmlight_files as LS
    from rankeval.dataset import Dataset
    kept, buf = [], io.BytesIO()
    p = "again.txt"
    for f, how in zip(c["files"], c["how"]):
        f = copy.deepcopy(f)
        if f.get("bump"):
            f["rows"][-1]["q"] = f["rows"][-1]["q"] ^ 1
        data = text(f)
        with open(p, "wb") as fh:
            fh.write(data)
        if how == "load":
            r = L(p, query_id=True)
        elif how == "dataset":
            d = Dataset.load(p)
            r = d.X, d.y, d.get_qids_dataset() if len({x["q"] for x in f["rows"]}) == sum(a["q"] != b["q"] for a, b in zip(f["rows"], f["rows"][1:])) + 1 else None
        elif how == "fd":
            fd = os.open(p, os.O_RDONLY)
            r = L(fd, query_id=True)
            os.close(fd)
        elif how == "files":
            r = LS([p, p], query_id=True)[3:]
        else:
            buf.seek(0)
            buf.truncate()
            buf.write(data)
            buf.seek(0)
            r = L(buf, query_id=True)
        compare("rewritten file, " + how, r, f["rows"])
        kept.append((how, r, f["rows"]))
    for how, r, rows in kept:
        compare("what was loaded before, " + how, r, rows)
    os.unlink(p)
    return True


def check_tall(c, note):
    """Tens of thousands of short rows."""
    rs = np.random.RandomState(c["seed"])
    n, m = c["n"], c["m"]
    X = np.where(rs.rand(n, m) < c["density"], rs.randint(1, 9000, (n, m)) / 8.0, 0.0)
    if c["late"] is not None:                 # a feature first seen far down
        X = np.concatenate([X, np.zeros((n, 1))], axis=1)
        X[int(c["late"] * (n - 1)), m] = 5.0
    y, q = rs.randint(0, 5, n), np.arange(n) // c["per"]
    lines = []
    for i in range(n):
        lines.append("%d qid:%d%s" % (y[i], q[i], "".join(" %d:%r" % (j + 1, float(X[i, j])) for j in range(X.shape[1]) if X[i, j])))
    gX, gy, gq = load(c["src"], ("\n".join(lines) + "\n").encode())
    while X.shape[1] and not X[:, -1].any():
        X = X[:, :-1]
    same("%d rows: X" % n, gX, X.astype(np.float32))
    same("%d rows: y" % n, gy, y.astype(np.float32))
    same("%d rows: query ids" % n, np.asarray(gq).astype(np.int64), q)
    note("%d rows" % n)
    return n > 32767


CHECKS = [
    Check("tall", st.fixed_dictionaries(dict(seed=st.integers(0, 2**31 - 1), n=st.sampled_from([9000, 33000, 66001, 132000]), m=st.integers(1, 4), density=st.sampled_from([0.1, 0.6, 1.0]),
          late=st.sampled_from([None, 0.1, 0.5, 0.9, 1.0]), per=st.sampled_from([1, 1, 20]), src=st.sampled_from(["path", "gz", "fd", "bytesio"]))), check_tall, "more than 32767 rows", 20, 400, shards=2),
    Check("rewritten", rewrites(), check_rewrites, "always", 150, 5000),
    Check("sources", case(), check, "two rows or more that end at different features", 1500, 60000),
    Check("wide", case(max_rows=4, max_feat=90), check, "two rows or more that end at different features", 300, 10000),
    Check("dataset", case(), check_dataset, "two rows or more", 500, 15000),
    Check("files", st.lists(case(max_rows=4, max_feat=6), min_size=1, max_size=3).map(lambda l: dict(files=l)), check_files,
          "two files or more", 250, 6000),
    Check("large", big(), check_big, "always (50 to 6000 rows, or up to 40000 features)", 40, 1500, shards=2),
]
