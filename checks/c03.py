"""Robustness of the SVMlight loader: arbitrary bytes, failing sources, leaks."""
import bz2
import gzip
import io
import os
import re

from hypothesis import strategies as st

from lib import gen as G, models as M
from lib.core import Check, require, same, fail, raises, b64, unb64
from checks import c01
import numpy as np

NEEDS = ("dataset",)
ASAN = "rankeval.dataset._svmlight_format"

WS = b" \t\n\v\f\r"
NUM = rb"[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?"
ODDNUM = re.compile(rb"[+-]?(inf(inity)?|nan(\(\w*\))?|0x[0-9a-f.p+-]*)", re.I)
STRICT_LABEL = re.compile(rb"[+-]?\d{1,9}(\.\d{1,9})?")
STRICT_FEAT = re.compile(rb"([1-9]\d{0,3}):[+-]?\d{1,9}(\.\d{1,9})?([eE][+-]?[0-9])?")
STRICT_QID = re.compile(rb"qid:\d{1,10}")
HUGE = [b"2147483648", b"4294967295", b"4294967297", b"9223372036854775809", b"18446744073709551618"]


def fits(i):
    return -2**31 <= int(i) < 2**31


def classify(data):
    """(verdict, rows): 'reject' when some line must be refused, 'accept' when
    all are plainly well-formed, 'any' otherwise."""
    strict, rows, n = True, [], 0
    for line in data.split(b"\n"):
        if line == b"":
            # blank lines: unspecified from here on
            if line == b"" and data.endswith(b"\n") and n == data.count(b"\n"):
                break
            return "any", None
        n += 1
        if line[:1] == b"#":
            continue
        toks = [t for t in re.split(rb"[ \t\v\f\r]+", line.split(b"#")[0]) if t]
        if not toks:
            return ("reject" if strict else "any"), None
        if not re.fullmatch(NUM, toks[0]):
            if ODDNUM.match(toks[0]) or not strict:
                return "any", None
            return "reject", None
        if not STRICT_LABEL.fullmatch(toks[0]):
            strict = False
        q, feats, last = None, [], -1
        for k, t in enumerate(toks[1:]):
            if k == 0 and STRICT_QID.fullmatch(t):
                q = int(t[4:])
                if not fits(q):
                    return "reject", None
                continue
            a, _, b = t.partition(b":")
            if not re.fullmatch(rb"[+-]?\d+", a) or not _ or not re.fullmatch(NUM, b):
                if k == 0 and a == b"qid" and re.fullmatch(rb"[+-]?\d+", b):
                    if not fits(b):
                        return "reject", None
                    strict = False
                    continue
                if ODDNUM.match(b):
                    strict = False
                    continue
                return "reject", None
            if not fits(a) or int(a) <= last:  # also negative, or not increasing
                return "reject", None
            last = int(a)
            if not STRICT_FEAT.fullmatch(t):
                strict = False
                continue
            feats.append([last, b.decode()])
        if q is None:
            strict = False
        rows.append(dict(y=toks[0].decode(), q=q, f=feats))
    if not rows:
        return "any", None
    return ("accept", rows) if strict else ("any", None)


def outcome(fn):
    try:
        return fn(), None
    except Exception as e:
        return None, e


def consistent(what, r):
    X, y, q = r
    require(isinstance(X, np.ndarray) and X.ndim == 2 and X.dtype == np.float32, "%s: X is not a float32 matrix", what)
    require(y.ndim == 1 and len(y) == len(X), "%s: %d labels for %d rows", what, len(y), len(X))
    require(q.ndim == 1 and len(q) <= len(X), "%s: %d query ids for %d rows", what, len(q), len(X))
    # reads every element (memory errors show up here)
    float(np.nansum(X.astype(np.float64))) + float(np.nansum(y)) + int(q.sum())


TOKENS = [b"1", b"0", b"-1", b"2.5", b"abc", b"", b"1:", b":1", b":", b"1:a", b"x:1", b"1:1", b"2:0.5", b"3:-7e3", b"5:1",
          b"17:2", b"300:1", b"2:1", b"qid:1", b"qid:2", b"qid:", b"qid:x", b"qid:-3", b"qid:1:2", b"QID:1", b"1:2:3", b"#",
          b"# c 1:2", b"1:1x", b"1:1,2:2", b"0:5", b"-1:4", b"4294967295:1", b"4294967297:1", b"2147483648:1", b"9223372036854775809:1", b"qid:2147483647", b"qid:2147483648", b"qid:4294967301", b"qid:18446744073709551618", b"1:1e999", b"1:nan",
          b"1:inf", b"nan", b"inf", b"1e999", b"1x", b"1+2:3", b"1.5.2", b"0x10", b"1:0x10", b"\xff\xfe", b"1 :2", b"1: 2",
          b"99:1", b"\0", b"1:\0", b"\xc3\xa9", b"1" * 300, b"1:" + b"9" * 400, b"9:" + b"0" * 2000]


@st.composite
def lines(draw):
    out = []
    for _ in range(draw(st.one_of(st.integers(1, 6), st.integers(1, 14)))):
        kind = draw(st.sampled_from(["good", "good", "good", "good", "tokens", "onebad", "insert", "raw"]))
        if kind == "raw":
            out.append(draw(st.binary(max_size=12)))
            continue
        if kind == "tokens":
            out.append(b" ".join(draw(st.lists(st.sampled_from(TOKENS), max_size=6))))
            continue
        b = draw(st.binary(min_size=6, max_size=6))
        good = [b"%d" % (b[0] % 5), b"qid:%d" % (b[1] % 7)] + [b"%d:%d.5" % (j + 1, x) for j, x in enumerate(b[2:])
                                                            if x % 3]
        if kind == "insert":                   # anywhere, a token of likely characters
            t = bytes(b"-+.:eExqid0123456789a#_"[x % 23] for x in draw(st.binary(min_size=1, max_size=6)))
            good.insert(draw(st.integers(0, len(good))), draw(st.sampled_from([t, t, b"-3:x", b"-:1", b"+1", b"1:-", b"1:+", b"1:.", b"-x", b"1:e5"])))
        if kind == "onebad":
            good[draw(st.integers(0, len(good) - 1))] = draw(st.sampled_from(TOKENS))
        out.append(b" ".join(good))
    return out


@st.composite
def blob(draw):
    data = draw(st.sampled_from([b"\n", b"\n", b"\r\n"])).join(draw(lines()))
    if draw(st.booleans()):
        data += b"\n"
    for _ in range(draw(st.sampled_from([0, 0, 0, 1, 2, 4]))):
        if not data:
            break
        i = draw(st.integers(0, len(data) - 1))
        op = draw(st.integers(0, 3))
        x = bytes([draw(st.sampled_from(list(b"0123456789:.# \t\n\r\0qid-+eE") + [255]))])
        data = data[:i] + [x + data[i + 1:], x + data[i:], data[i + 1:], b""][op] if op < 3 else data[:i]
    # ids of 10^5 and more would only measure how much memory a dense matrix takes
    data = re.sub(rb"\d{5,}(?=:)", lambda m: m.group() if m.group() in HUGE else m.group()[:4], data)
    return dict(data=b64(data), src=draw(st.sampled_from(["bytesio", "bytesio", "path", "gz"])))


def check_bytes(c, note):
    data = unb64(c["data"])
    verdict, rows = classify(data)
    r, e = outcome(lambda: c01.load(c["src"], data))
    note("verdict " + verdict)
    note("raised" if e is not None else "loaded")
    if e is None:
        consistent("loaded data", r)
        require(verdict != "reject", "accepted malformed input %r as %s %s", data, r[0].tolist(), r[1].tolist())
    if verdict == "accept":
        require(e is None, "well-formed input %r refused: %r", data, e)
        c01.compare("loaded data", r, rows)
    # the same bytes as a Dataset
    from rankeval.dataset import Dataset
    d, e2 = outcome(lambda: Dataset.load(io.BytesIO(data)))
    if e2 is None:
        require(verdict != "reject", "Dataset.load accepted malformed input %r", data)
        require(d.X.shape == (d.n_instances, d.n_features) and len(d.y) == d.n_instances, "inconsistent dataset")
        require(int(d.query_offsets[-1]) == d.n_instances and len(d.query_ids) == d.n_queries, "inconsistent queries")
        require(len(d.get_qids_dataset()) == d.n_instances, "inconsistent query ids")
    return verdict == "reject" or (verdict == "accept" and len(rows) > 1)


BAD = [b"-3:x", b"-:1", b"+1", b"1:-", b"1:+", b"1:.", b"-x", b"x", b"1", b"1:", b":1", b":", b"x:1", b"1:a", b"1:1x", b"1x:1", b"1.5:2", b"1:2:3", b"qid:x", b"-1",
       b"1:1,2:2", b"1:1;", b"1:--1", b"1:1e", b"1-1", b"1 :2", b"1: 2", b"1:2 =3", b"=", b"\0", b"1:1\0", b"1\0:1", b"\xff", b"99:1_0", b"0x", b"e5", b"1:1\0 2:2", b"1:5", b"2:1", b"3:3", b"-1:5", b"-7:2", b"24:1", b"1:0", b"0:1"]


@st.composite
def mutant(draw):
    """A plainly well-formed file with one bad token, anywhere."""
    n, w = draw(st.one_of(st.integers(1, 8), st.integers(1, 80))), draw(st.integers(1, 24))
    t = bytes(b"-+.:#eExqid0123456789a_"[x % 23] for x in draw(st.binary(min_size=1, max_size=6)))
    return dict(n=n, w=w, line=draw(st.integers(0, n - 1)), pos=draw(st.integers(0, w + 2)), bad=b64(draw(st.sampled_from(BAD + [t] * 12))),
                op=draw(st.sampled_from(["insert", "insert", "replace", "append", "prepend"])), last=draw(st.booleans()),
                src=draw(st.sampled_from(["bytesio", "path", "gz"])))


def check_mutant(c, note):
    ls = [l[:-1] for l in good_lines(c["n"], c["w"])]
    toks, bad = ls[c["line"]].split(b" "), unb64(c["bad"])
    i = min(c["pos"], len(toks) - 1)
    if c["op"] == "insert":
        toks.insert(c["pos"], bad)
    elif c["op"] == "replace":
        toks[i] = bad
    else:
        toks[i] = toks[i] + bad if c["op"] == "append" else bad + toks[i]
    ls[c["line"]] = b" ".join(toks)
    data = b"\n".join(ls) + (b"" if c["last"] else b"\n")
    check_bytes(dict(data=b64(data), src=c["src"]), lambda *a: None)
    v = classify(data)[0]
    note("verdict " + v)
    return v == "reject"


# ---------------------------------------------------------------- sources
class Flaky(object):
    def __init__(self, ls, fault):
        self.ls, self.i, self.fault, self.closed = ls, 0, fault, False

    def read(self, n=-1):
        return b""

    def readline(self, *a):
        if self.i >= len(self.ls):
            f = self.fault
            if f == "oserror":
                raise OSError(5, "read error")
            if f == "valueerror":
                raise ValueError("I/O operation on closed file")
            if f == "custom":
                raise RuntimeError("boom")
            if f == "eof":
                raise EOFError("truncated")
            return {"str": "1 qid:1 1:1\n", "int": 3, "none": None, "list": [b"1 qid:1 1:1\n"], "bytearray":
                    bytearray(b"1 qid:1 1:1\n")}[f]
        self.i += 1
        return self.ls[self.i - 1]

    def close(self):
        self.closed = True


FAULTS = ["oserror", "valueerror", "custom", "eof", "str", "int", "none", "list", "bytearray"]


@st.composite
def source(draw):
    kind = draw(st.sampled_from(["flaky", "flaky", "gz", "bz2", "flip", "badfd", "missing", "directory", "text", "stringio",
                                 "none", "noreadline", "badtoken"]))
    n = draw(st.integers(1, 60))
    return dict(kind=kind, n=n, at=draw(st.integers(0, n)), fault=draw(st.sampled_from(FAULTS)),
                cut=draw(st.integers(0, 5000)), bit=draw(st.integers(0, 7)), width=draw(st.integers(1, 30)))


def open_fds():
    return sorted(os.listdir("/proc/self/fd"))


def good_lines(n, width):
    return [b"%d qid:%d " % (i % 5, i // 3) + b" ".join(b"%d:%d.25" % (j + 1, i * j) for j in range(width)) + b"\n"
            for i in range(n)]


def check_source(c, note):
    from rankeval.dataset.svmlight_format import load_svmlight_file as L
    from rankeval.dataset import Dataset
    ls = good_lines(c["n"], c["width"])
    data = b"".join(ls)
    k = c["kind"]
    must, keep, path, fd = True, None, None, None
    before = open_fds()
    calls = [lambda f: L(f, query_id=True), lambda f: Dataset.load(f)]
    for call in calls:
        if k == "flaky":
            arg = keep = Flaky(ls[:c["at"]], c["fault"])
        elif k in ("gz", "bz2"):
            z = gzip.compress(data, mtime=0) if k == "gz" else bz2.compress(data)
            cut = c["cut"] % len(z)
            arg = path = M.tmpname("." + k)
            open(path, "wb").write(z[:cut])
        elif k == "flip":
            z = bytearray(gzip.compress(data, mtime=0))
            i = c["cut"] % len(z)
            z[i] ^= 1 << c["bit"]
            must = i >= 10 and i != len(z) - 9   # not the header, nor the padding bits
            arg = path = M.tmpname(".gz")
            open(path, "wb").write(bytes(z))
        elif k == "badtoken":
            b = list(ls)
            b[c["at"] % len(b)] = b"1 qid:1 1:2 oops\n"
            arg = path = M.tmpname(".txt")
            open(path, "wb").write(b"".join(b))
        elif k == "badfd":
            r, w = os.pipe()
            os.close(r)
            arg = w                   # not readable
            fd = w
        elif k == "missing":
            arg = M.tmpname(".nothing")
        elif k == "directory":
            arg = "."
        elif k == "text":
            path = M.tmpname(".txt")
            open(path, "wb").write(data)
            arg = keep = open(path, "r")
        elif k == "stringio":
            arg = keep = io.StringIO(data.decode())
        elif k == "none":
            arg = None
        elif k == "noreadline":
            arg = type("R", (), {"read": lambda self, n=-1: b""})()
        r, e = outcome(lambda: call(arg))
        if must:
            require(e is not None, "%s: the failure of the source was ignored and %r was loaded", k, r)
        elif e is None and isinstance(r, tuple):
            consistent(k, r)
        # an exception the source raises is the one reported
        if k == "flaky" and c["fault"] in ("oserror", "valueerror", "custom", "eof"):
            want = dict(oserror=OSError, valueerror=ValueError, custom=RuntimeError, eof=EOFError)[c["fault"]]
            require(isinstance(e, want), "the source raised %s and the loader %r", want.__name__, e)
        if keep is not None:
            require(not keep.closed, "%s: the object given was closed", k)
        if k == "text":
            keep.close()
        if fd is not None:
            os.fstat(fd)
            os.close(fd)
        del r, e
        if path:
            os.unlink(path)
    after = open_fds()
    require(len(before) == len(after), "%s: open descriptors before %s, after %s", k, before, after)
    note(k + (" " + c["fault"] if k == "flaky" else ""))
    return c["at"] > 0 or k != "flaky"


@st.composite
def pathcase(draw):
    return dict(kind=draw(st.sampled_from(["path", "gz", "bz2", "fd", "fileobj", "bytesio"])),
                bad=draw(st.sampled_from([None, 0, 1, 5])), n=draw(st.integers(1, 12)))


def check_handles(c, note):
    """What the loader opened is closed, what it was given is not, whether or
    not the load succeeds."""
    from rankeval.dataset import Dataset
    ls = good_lines(c["n"], 3)
    if c["bad"] is not None:
        ls.insert(min(c["bad"], len(ls)), b"junk\n")
    data = b"".join(ls)
    k = c["kind"]
    p = M.tmpname({"gz": ".gz", "bz2": ".bz2"}.get(k, ".txt"))
    open(p, "wb").write(gzip.compress(data) if k == "gz" else bz2.compress(data) if k == "bz2" else data)
    fd = os.open(p, os.O_RDONLY) if k == "fd" else None
    obj = open(p, "rb") if k == "fileobj" else io.BytesIO(data) if k == "bytesio" else None
    before = open_fds()
    arg = fd if fd is not None else obj if obj is not None else p
    r, e = outcome(lambda: Dataset.load(arg))
    held = str(e)
    after = open_fds()
    require(before == after, "%s: open descriptors before %s, after %s", k, before, after)
    require((e is None) == (c["bad"] is None), "%s: outcome %r", k, e)
    if fd is not None:
        os.fstat(fd)
        os.close(fd)
    if obj is not None:
        require(not obj.closed, "the object given was closed")
        obj.close()
    os.unlink(p)
    note(k + (" failing" if c["bad"] is not None else ""))
    return True


# ---------------------------------------------------------------- memory
def rss():
    with open("/proc/self/statm") as fh:
        return int(fh.read().split()[1]) * 4096


@st.composite
def leakcase(draw):
    return dict(how=draw(st.sampled_from(["valid", "badtoken", "oserror", "gz", "sparse", "narrow", "narrow"])), seed=draw(st.integers(0, 9)))


def check_leak(c, note):
    from rankeval.dataset.svmlight_format import load_svmlight_file as L
    n, width = (120000, 1) if c["how"] == "narrow" else (3000, 120)
    line = b" ".join(b"%d:%d.25" % (j + 1, j + c["seed"]) for j in range(width))
    ls = [b"%d qid:%d " % (i % 5, i // 9) + (line if c["how"] != "sparse" or i % 100 == 0 else line[:40].rsplit(b" ", 1)[0]) +
          b"\n" for i in range(n)]
    if c["how"] == "badtoken":
        ls[-1] = b"1 qid:1 1:1 oops\n"
    data = b"".join(ls)
    unit = max(len(data), 4 * n * width)
    p = None
    if c["how"] == "gz":
        p = M.tmpname(".gz")
        open(p, "wb").write(gzip.compress(data, 1))
    f = io.BytesIO(data)
    marks = []
    for i in range(14):
        f.seek(0)
        r, e = outcome(lambda: L(p if p else Flaky(ls, "oserror") if c["how"] == "oserror" else f, query_id=True))
        require((e is None) == (c["how"] in ("valid", "gz", "sparse", "narrow")), "outcome %r", e)
        del r, e
        marks.append(rss())
    grown = marks[-1] - marks[3]
    # ten more loads: a leak of the lines or of the matrix is ten units
    if c["how"] == "narrow":                     # labels and ids count as well: 4 bytes a row, ten times
        unit = 4 * n / 3 * 2
    require(grown < 3 * unit, "%s: resident memory grew by %d bytes in 10 loads of %d bytes of text (matrix %d)", c["how"],
            grown, len(data), 4 * n * width)
    if p:
        os.unlink(p)
    note(c["how"])
    return True


CHECKS = [
    Check("bytes", blob(), check_bytes, "must-be-refused input, or well-formed input with two rows", 1500, 80000, shards=2),
    Check("one-bad-token", mutant(), check_mutant, "the file has to be refused", 1500, 60000, shards=2),
    Check("bytes-asan", blob(), check_bytes, "must-be-refused input, or well-formed input with two rows", 1000, 40000,
          asan=ASAN),
    Check("sources", source(), check_source, "a fault after at least one good line, or a bad kind of source", 700, 20000),
    Check("sources-asan", source(), check_source, "a fault after at least one good line, or a bad kind of source", 250, 5000,
          asan=ASAN),
    Check("rows-asan", c01.case(), c01.check, "two rows or more that end at different features", 600, 20000, asan=ASAN),
    Check("handles", pathcase(), check_handles, "always", 150, 1000),
    Check("memory", leakcase(), check_leak, "always (14 loads of 3000 or 120000 lines)", 14, 100),
]
