"""Histories of dataset requests against a simulated server whose content
changes at every step, with faults in the network, the archives and the disk,
and crashes, at every point. Everything happens inside a scratch folder: an
audit hook refuses any change of files outside it."""
import contextlib
import errno
import gzip
import io
import json
import os
import resource
import shutil
import sys
import tarfile
import tempfile

import numpy as np
from hypothesis import strategies as st

from lib.core import Check, require, fail

NEEDS = ("dataset",)

CHANGES = {"os.remove": 1, "os.rename": 2, "os.rmdir": 1, "os.mkdir": 1, "os.symlink": 1, "os.link": 2, "os.truncate": 1, "os.chmod": 1,
           "os.chown": 1, "os.utime": 1, "shutil.rmtree": 1, "shutil.move": 2, "shutil.chown": 1}
REMOVALS = ("os.remove", "os.rmdir", "shutil.rmtree")
COUNTED = ("os.remove", "os.rename", "os.rmdir", "os.mkdir", "shutil.rmtree", "open")


class Guard(object):
    installed = active = False
    root = None
    escapes = []
    on_change = None

    @classmethod
    def hook(cls, event, args):
        if not cls.active:
            return
        if event == "open":
            path, mode, flags = args[:3]
            if not isinstance(path, (str, bytes)):
                return
            write = any(x in mode for x in "wax+") if isinstance(mode, str) else bool((flags or 0) & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC))
            if not write:
                return
            paths = [path]
        elif event in CHANGES:
            paths = list(args[:CHANGES[event]])
            if event in ("os.symlink", "os.link"):
                paths = [args[1]]
        else:
            return
        cls.active = False
        try:
            dirfd = [a for a in args[CHANGES.get(event, 3):] if isinstance(a, int) and a > 2] if event in ("os.remove", "os.rmdir", "os.mkdir") else []
            for p in paths:
                p = os.fsdecode(p) if not isinstance(p, int) else "/proc/self/fd/%d" % p
                if dirfd and not os.path.isabs(p):
                    p = os.path.join(os.readlink("/proc/self/fd/%d" % dirfd[-1]), p)
                p = os.path.join(os.path.realpath(os.path.dirname(os.path.abspath(p))), os.path.basename(p))
                if not (p + "/").startswith(cls.root + "/") and not p.startswith("/dev/"):
                    cls.escapes.append("%s %s" % (event, p))
                    raise PermissionError("%s outside the scratch folder: %s" % (event, p))
            if cls.on_change is not None and event in COUNTED:
                cls.on_change(event, paths)
        finally:
            cls.active = True

    @classmethod
    @contextlib.contextmanager
    def on(cls, root, on_change=None):
        if not cls.installed:
            sys.addaudithook(cls.hook)
            cls.installed = True
        cls.root, cls.escapes, cls.on_change = os.path.realpath(root), [], on_change
        cls.active = True
        try:
            yield cls
        finally:
            cls.active = False


REAL = []


def setup():
    """The catalogue the library's own script writes."""
    import rankeval.dataset
    script = os.path.join(os.path.dirname(rankeval.dataset.__file__), "write_json_dataset_catalogue.py")
    import runpy
    here = os.getcwd()
    d = tempfile.mkdtemp(dir=here)
    os.chdir(d)
    try:
        with Guard.on(d), contextlib.redirect_stdout(io.StringIO()):
            runpy.run_path(script, run_name="__main__")
        with open("dataset_dictionary.json") as fh:
            cat = json.load(fh)
    finally:
        os.chdir(here)
        shutil.rmtree(os.path.abspath(d))
    REAL.extend(cat[k] for k in sorted(cat))
    assert REAL


def entry(name, spec):
    e = dict(DATASET_NAME=name, DATASET_DESCRIPTION="A dataset", DATASET_FORMAT="svmlight", TRAIN_FILE=spec["sub"] + "train.txt",
             TEST_FILE=spec["sub"] + "test.txt", DATASET_ARCHIVE_NAME=spec["archive"], MODELS_ARCHIVE_NAME=spec["archive"].replace("data", "models"),
             DATASET_URL="http://server/%s/data.tar.gz" % name, MODELS_URL="http://server/%s/models.tar.gz" % name, BLOG_POST_URL="http://blog/" + name)
    if spec["vali"]:
        e["VALIDATION_FILE"] = spec["sub"] + "vali.txt"
    if spec["license"]:
        e["LICENSE_FILE"] = "license.txt"
    if spec["folds"]:
        e["COMMON_SUBFOLDER_NAME"] = spec["folds"]
    return e


def rows(version, which, fold):
    rs = np.random.RandomState([version, which, fold])
    n = rs.randint(1, 6)
    q = np.cumsum(rs.randint(0, 2, n)) + version
    return rs.randint(0, 5, n).astype(float), q, np.column_stack([np.full(n, version), np.full(n, which), np.full(n, fold), rs.randint(1, 9, n)]).astype(float) + 1


FOLDS = [1, 2, 3, 10, 12]


def content(e, version):
    """{file: bytes} of the dataset archive and of the models archive."""
    data, models = {}, {}
    folds = FOLDS if "COMMON_SUBFOLDER_NAME" in e else [None]
    for f in folds:
        d = "" if f is None else "%s%d/" % (e["COMMON_SUBFOLDER_NAME"], f)
        for i, k in enumerate(("TRAIN_FILE", "TEST_FILE", "VALIDATION_FILE")):
            if k in e and f is not None and e.get("STRAY"):      # outside of the folders of the folds
                data[e[k]] = b"1 qid:77 1:7\n"
            if k in e:
                y, q, X = rows(version, i, f or 0)
                data[d + e[k]] = "".join("%d qid:%d %s\n" % (y[r], q[r], " ".join("%d:%d" % (j + 1, v) for j, v in enumerate(X[r])))
                                         for r in range(len(y))).encode()
        for m in ["m.xml", "lgbm/model-%d.txt" % (version % 2), "deep/er/x"][:1 + (version % 3)]:
            models[d + m] = ("model %s of version %d %s\n" % (m, version, d)).encode()
    if "LICENSE_FILE" in e:
        data[e["LICENSE_FILE"]] = ("Terms,\nversion %d\n" % version).encode()
    return data, models


def tar(files, dots, dirs):
    b = io.BytesIO()
    with gzip.GzipFile(fileobj=b, mode="wb", mtime=0) as gz:
        with tarfile.open(fileobj=gz, mode="w") as t:
            seen = set()
            for n in sorted(files):
                parts = n.split("/")[:-1]
                for i in range(len(parts)):
                    d = "/".join(parts[:i + 1])
                    if dirs and d not in seen:
                        seen.add(d)
                        ti = tarfile.TarInfo(("./" if dots else "") + d)
                        ti.type, ti.mode = tarfile.DIRTYPE, 0o755
                        t.addfile(ti)
                ti = tarfile.TarInfo(("./" if dots else "") + n)
                ti.size, ti.mode = len(files[n]), 0o644
                t.addfile(ti, io.BytesIO(files[n]))
    return b.getvalue()


class Response(io.BytesIO):
    code = status = 200

    def __init__(self, data, fault=None):
        io.BytesIO.__init__(self, data)
        self.fault = fault

    def _check(self):
        if self.fault and (self.tell() >= self.fault[0] or self.fault[0] == 0):
            raise self.fault[1]

    def read(self, n=-1):
        if not self.fault:
            return io.BytesIO.read(self, n)
        k = self.fault[0] - self.tell()
        if n is None or n < 0 or n > k:
            raise self.fault[1]
        return io.BytesIO.read(self, n)

    read1 = read

    def readinto(self, b):
        d = self.read(len(b))
        b[:len(d)] = d
        return len(d)

    def info(self):
        return {}

    def getcode(self):
        return 200


def an_exception(kind):
    import http.client
    import urllib.error
    return {"url": urllib.error.URLError("no route"), "http": urllib.error.HTTPError("http://server", 503, "unavailable", {}, None),
            "incomplete": http.client.IncompleteRead(b"abc", 100), "reset": ConnectionResetError("reset"), "timeout": TimeoutError("timed out"),
            "nospace": OSError(errno.ENOSPC, "no space left"), "denied": PermissionError(errno.EACCES, "denied"), "interrupt": KeyboardInterrupt(),
            "memory": MemoryError()}[kind]


class Server(object):
    def __init__(self, catalogue, c):
        self.catalogue, self.c = catalogue, c
        self.version, self.fault, self.requests, self.fired = 0, None, [], False

    def open(self, url, *a, **k):
        url = url if isinstance(url, str) else url.full_url
        f = self.fault or ["none"]
        if url.endswith(".json"):
            if f[0] == "catalogue":
                self.fired = True
                raise an_exception(f[2])
            return Response(json.dumps(self.catalogue).encode())
        self.requests.append(url)
        for e in self.catalogue.values():
            for i, k in enumerate(("DATASET_URL", "MODELS_URL")):
                if e[k] == url:
                    data = tar(content(e, self.version)[i], self.c["dots"], self.c["dirs"])
                    if f[0] in ("open", "read", "truncate", "garbage") and f[1] % 2 == i:
                        self.fired = True
                        if f[0] == "open":
                            raise an_exception(f[2])
                        if f[0] == "read":
                            return Response(data, ((f[1] // 2) * len(data) // 60, an_exception(f[2])))
                        if f[0] == "truncate":
                            return Response(data[:(f[1] // 2) * len(data) // 60])
                        return Response([b"", b"<html>not found</html>", b"\x1f\x8b" + b"x" * 50, gzip.compress(b"hello"), data[20:]][f[1] // 2 % 5])
                    return Response(data)
        raise an_exception("url")


def matches(e, version, fold, r, with_models, home):
    """Why the container is not the content of (dataset version, models version), or None."""
    dv, mv = version
    data, models = content(e, dv)[0], content(e, mv)[1] if with_models else None
    for i, (k, a) in enumerate((("TRAIN_FILE", "train_dataset"), ("TEST_FILE", "test_dataset"), ("VALIDATION_FILE", "validation_dataset"))):
        d = getattr(r, a)
        if k not in e:
            if d is not None:
                return "%s for a dataset without that part" % a
            continue
        if d is None:
            return "no " + a
        y, q, X = rows(dv, i, fold or 0)
        if not (np.array_equal(d.X, X.astype(np.float32)) and np.array_equal(d.y, y) and np.array_equal(d.get_qids_dataset(), q)):
            return "%s holds %s with labels %s instead of %s, %s" % (a, d.X.tolist(), d.y.tolist(), X.tolist(), y.tolist())
    if "LICENSE_FILE" in e:
        if r.license_agreement != data[e["LICENSE_FILE"]].decode():
            return "license %r" % r.license_agreement
    elif e["BLOG_POST_URL"] not in r.license_agreement:
        return "license %r" % r.license_agreement
    if with_models:
        pre = "" if fold is None else "%s%d/" % (e["COMMON_SUBFOLDER_NAME"], fold)
        want = sorted(v for k, v in models.items() if k.startswith(pre))
        got = []
        for p in r.model_filenames:
            if not os.path.realpath(p).startswith(os.path.realpath(os.path.join(home, e["DATASET_NAME"])) + "/"):
                return "model file %s" % p
            with open(p, "rb") as fh:
                got.append(fh.read())
        if sorted(got) != want:
            return "models %s holding %s instead of %s" % (r.model_filenames, sorted(got), want)
        base = sorted(os.path.basename(k) for k in models if k.startswith(pre))
        if sorted(os.path.basename(p) for p in r.model_filenames) != base:
            return "models %s instead of %s" % (r.model_filenames, base)
    elif r.model_filenames is not None:
        return "models %s without asking" % r.model_filenames
    return None


def tree(root):
    out = {}
    for d, ds, fs in os.walk(root):
        for n in ds:
            out[os.path.join(d, n)] = None
        for n in fs:
            with open(os.path.join(d, n), "rb") as fh:
                out[os.path.join(d, n)] = fh.read()
    return out


def check(c, note):
    import rankeval.dataset.datasets_fetcher as F
    names = ["letor", "letor-2"]
    entries = []
    for i, s in enumerate(c["entries"]):
        entries.append(dict(REAL[s["real"] % len(REAL)]) if s["real"] is not None else entry(names[i], s))
    if c["stray"]:
        entries = [dict(e, STRAY=True) for e in entries]
    cat = {e["DATASET_NAME"]: e for e in entries}
    root = tempfile.mkdtemp(prefix="fetch", dir=os.getcwd())
    work, crash = os.path.join(root, "work"), os.path.join(root, "crash")
    os.makedirs(os.path.join(work, "tmp"))
    with open(os.path.join(work, "precious.txt"), "w") as fh:
        fh.write("do not touch")
    env = {"env": os.path.join(work, "data"), "space": os.path.join(work, "my data", "l'été"), "nested": os.path.join(work, "some", "where"), "tilde": "~/here", "none": None}[c["home"]]
    home = os.path.join(work, {"env": "data", "space": "my data/l'été", "nested": "some/where", "tilde": "here", "none": "rankeval_data"}[c["home"]])
    if c["exists"]:
        os.makedirs(os.path.join(home, "neighbour"))
        with open(os.path.join(home, "neighbour", "x"), "w") as fh:
            fh.write("y")
    old_env = {k: os.environ.get(k) for k in ("HOME", "RANKEVAL_DATA")}
    old_open, old_tmp = F.urlopen, tempfile.tempdir
    server = Server(cat, c)
    F.urlopen = server.open
    state = {n: [{None}, {None}] for n in cat}     # possible versions on disk
    failed = cached = 0
    try:
        os.environ["HOME"] = work
        tempfile.tempdir = os.path.join(work, "tmp")
        if env is None:
            os.environ.pop("RANKEVAL_DATA", None)
        else:
            os.environ["RANKEVAL_DATA"] = env
        for step, (which, fold, missing, force, wm, fault) in enumerate(c["steps"]):
            version = step + 1
            if which == 9:
                name, e = "unknown", None
            else:
                e = entries[which % len(entries)]
                name = e["DATASET_NAME"]
                folded = "COMMON_SUBFOLDER_NAME" in e
                fold = (fold or 1) if folded else (fold if fold == 3 else None)
            what = "step %d: load_dataset(%r, fold=%r, download_if_missing=%s, force_download=%s, with_models=%s) with %s" % (step, name, fold, missing, force, wm, fault)
            server.version, server.fault, server.requests, server.fired = version, fault, [], False
            if os.path.isdir(crash):           # of a step that did not go on from there
                shutil.rmtree(os.path.abspath(crash))
            before = tree(work)
            count = [0, False]

            def change(event, paths):
                if event in REMOVALS and not server.requests and force:
                    return                          # the old copy is being removed
                count[0] += 1
                if fault and fault[0] in ("disk", "crash") and count[0] == fault[1] + 1 and not count[1]:
                    count[1] = server.fired = True
                    if fault[0] == "disk":
                        raise an_exception(fault[2])
                    shutil.copytree(work, crash)

            err = r = None
            limit = resource.getrlimit(resource.RLIMIT_FSIZE)
            with Guard.on(work, change) as g, contextlib.redirect_stdout(io.StringIO()):
                try:
                    if fault and fault[0] == "full":
                        resource.setrlimit(resource.RLIMIT_FSIZE, (fault[1] * 12, limit[1]))
                    r = F.load_dataset(name, fold=fold, download_if_missing=missing, force_download=force, with_models=wm)
                except (Exception, KeyboardInterrupt) as x:
                    err = x
                finally:
                    resource.setrlimit(resource.RLIMIT_FSIZE, limit)
            esc = list(g.escapes)
            require(not esc, "%s: changed files elsewhere: %s", what, esc)
            faulty = server.fired or (fault and fault[0] == "full")
            after = tree(work)
            mine = os.path.join(home, name)
            for p in set(before) | set(after):
                if (p + "/").startswith(mine + "/") or (p + "/").startswith(os.path.join(work, "tmp") + "/") or (home + "/").startswith(p + "/"):
                    continue
                require(before.get(p, 0) == after.get(p, 0), "%s: touched %s", what, p)
            if e is None:
                require(r is None and (err is None or faulty), "%s: gave %r, %r for an unknown dataset", what, r, err)
                continue
            if fold == 3 and not folded:
                require(err is not None and not server.requests, "%s: accepted a fold of a dataset without folds (downloaded %s)", what, server.requests)
                require({k: v for k, v in after.items() if v is not None} == {k: v for k, v in before.items() if v is not None}, "%s: failed, but changed the files", what)
                continue
            if fault and fault[0] == "catalogue":
                require(err is not None and not server.requests, "%s: no catalogue, but %r", what, r)
                continue
            ds, ms = state[name]
            urls = [e["DATASET_URL"], e["MODELS_URL"]]
            if err is not None and (isinstance(err, OSError) or faulty) and not missing and not server.requests and (None in ds or (wm and None in ms)):
                note("missing, not downloaded")
                require(before == after or (home + "/").startswith(tuple(set(after) - set(before))), "%s: changed the files", what)
                continue
            if not missing:
                require(ds != {None} and (not wm or ms != {None}), "%s: the data is missing, but it gave %r, %r, downloading %s", what, r, err, server.requests)
            require(len(server.requests) == len(set(server.requests)) and set(server.requests) <= set(urls), "%s: downloaded %s", what, server.requests)
            got = [u in server.requests for u in urls]
            if err is not None:
                require(faulty, "%s: failed: %r", what, err)
                failed += 1
                note("failed on: " + fault[0])
            # which archives had to be, and could not have been, downloaded
            for i, s in enumerate((ds, ms)):
                if i == 1 and not wm:
                    require(not got[1], "%s: downloaded the models", what)
                    continue
                if err is None:
                    if s == {None} or force:
                        require(got[i], "%s: did not download %s (on disk: version %s)", what, urls[i], sorted(s, key=str))
                    elif None not in s:
                        require(not got[i], "%s: downloaded %s again (on disk: version %s)", what, urls[i], sorted(s, key=str))
                        cached += 1
                elif None not in s and not force:
                    require(not got[i], "%s: downloaded %s again (on disk: version %s)", what, urls[i], sorted(s, key=str))
            if err is None:
                dvs = {version} if got[0] else ds - {None}
                mvs = ({version} if got[1] else ms - {None}) if wm else {None}
                why = []
                for dv in sorted(dvs):
                    for mv in mvs:
                        x = matches(e, (dv, mv), fold, r, wm, home)
                        if x is None:
                            break
                        why.append(x)
                    else:
                        continue
                    break
                else:
                    fail("%s: %s (downloaded %s)", what, " or ".join(why), server.requests)
                new_m = {mv} if wm else ({None} if force else ms)
                state[name] = [{dv}, new_m]
            else:
                # the archive that failed is as never requested; one that was
                # complete before stays; with force the old one may be gone
                new = []
                for i, s in enumerate((ds, ms)):
                    n = set(s)
                    if force:
                        n |= {None}
                    if i == 0 and got[1]:
                        n = {version} if got[0] else n      # the failure came later
                    elif got[i]:
                        n = ({None} if not (force and s != {None}) else s | {None}) | ({version} if faulty and fault[0] in ("disk", "full") else set())
                    new.append(n)
                state[name] = new
            if fault and fault[0] == "crash" and os.path.isdir(crash):
                # go on from the files as they were when the process died
                note("crashed")
                new = []
                for i, s in enumerate((ds, ms)):
                    n = set(s)
                    if force:
                        n |= {None}
                    if got[i]:
                        n |= {None, version}
                    new.append(n)
                state[name] = new
                shutil.rmtree(os.path.join(root, "work"))
                os.rename(crash, work)
    finally:
        F.urlopen, tempfile.tempdir = old_open, old_tmp
        for k, v in old_env.items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v
        shutil.rmtree(os.path.abspath(root))
    if cached:
        note("used the local copy")
    return failed + cached > 0


ERRORS = ["url", "http", "incomplete", "reset", "timeout", "nospace", "denied", "interrupt", "memory"]
FAULTS = st.one_of(
    st.none(),
    st.tuples(st.sampled_from(["open", "read", "read"]), st.integers(0, 125), st.sampled_from(ERRORS)),
    st.tuples(st.sampled_from(["truncate", "garbage"]), st.integers(0, 121), st.just("")),
    st.tuples(st.just("disk"), st.integers(0, 30), st.sampled_from(["nospace", "denied", "interrupt", "memory"])),
    st.tuples(st.just("full"), st.integers(0, 40), st.just("")),
    st.tuples(st.just("crash"), st.integers(0, 30), st.just("")),
    st.tuples(st.just("catalogue"), st.just(0), st.sampled_from(ERRORS[:5])))


@st.composite
def case(draw, real=False, faults=True, max_steps=6):
    ents = []
    for _ in range(draw(st.integers(1, 2))):
        ents.append(dict(real=draw(st.integers(0, 9)) if real else None, sub=draw(st.sampled_from(["", "", "full/", "a/b/"])), vali=draw(st.booleans()),
                         license=draw(st.booleans()), folds=draw(st.sampled_from(["", "", "Fold", "S"])),
                         archive=draw(st.sampled_from(["data.tar.gz", "data.tgz", "letor data.tar.gz"]))))
    steps = []
    f = FAULTS if faults else st.none()
    for _ in range(draw(st.integers(2, max_steps))):
        x = draw(st.one_of(st.none(), f))
        steps.append([draw(st.sampled_from([0, 0, 0, 1, 1, 9])), draw(st.sampled_from([None, 1, 2, 3, 3, 10, 12])), draw(st.sampled_from([True, True, True, False])),
                      draw(st.sampled_from([False, False, True])), draw(st.sampled_from([True, True, False])), list(x) if x else None])
    return dict(entries=ents, steps=steps, dots=draw(st.booleans()), dirs=draw(st.booleans()), home=draw(st.sampled_from(["env", "nested", "tilde", "none", "space"])),
                exists=draw(st.booleans()), stray=draw(st.booleans()))


def escaping(c, which, work, home, name):
    """A well-formed archive with members placed elsewhere."""
    e = entry(name, c["entry"])
    files = content(e, 1)[which]
    b = io.BytesIO()
    with tarfile.open(fileobj=b, mode="w:gz") as t:
        def put(n, data=b"evil", **kw):
            ti = tarfile.TarInfo(n)
            ti.size, ti.mode = (0 if kw else len(data)), 0o644
            for k, v in kw.items():
                setattr(ti, k, v)
            t.addfile(ti, None if kw else io.BytesIO(data))
        members = [lambda n=n: put(n, files[n]) for n in sorted(files)]
        target = os.path.join(home, "neighbour") if c["target"] == "neighbour" else work
        up = os.path.relpath(target, os.path.join(home, name, "dataset"))
        new = "x" if c["overwrite"] else "new"
        bad = []
        if c["kind"] == "dots":
            bad.append(lambda: put("../" * c["ups"] + "evil" if c["ups"] else up + "/" + new))
        elif c["kind"] == "absolute":
            bad.append(lambda: put(target + "/" + new))
        elif c["kind"] == "inner dots":
            bad.append(lambda: put("some/../" + up + "/" + new))
        elif c["kind"] in ("symlink", "symlink up"):
            bad.append(lambda: put("link", type=tarfile.SYMTYPE, linkname=target if c["kind"] == "symlink" else up))
            bad.append(lambda: put("link/" + new))
        elif c["kind"] == "file symlink":
            bad.append(lambda: put("link", type=tarfile.SYMTYPE, linkname=target + "/" + new))
            bad.append(lambda: put("link"))
        elif c["kind"] == "hard link":
            bad.append(lambda: put("link", type=tarfile.LNKTYPE, linkname=up + "/x"))
            bad.append(lambda: put("link"))
        k = c["at"] % (len(members) + 1)
        for m in members[:k] + bad + members[k:]:
            m()
    return b.getvalue()


def check_escape(c, note):
    """An archive with members placed outside of the folder of the dataset."""
    import rankeval.dataset.datasets_fetcher as F
    name = "letor"
    e = entry(name, c["entry"])
    root = tempfile.mkdtemp(prefix="fetch", dir=os.getcwd())
    work = os.path.join(root, "a", "b", "work")
    home = os.path.join(work, "data")
    os.makedirs(os.path.join(work, "tmp"))
    os.makedirs(os.path.join(home, "neighbour"))
    for p in (os.path.join(home, "neighbour", "x"), os.path.join(work, "x")):
        with open(p, "w") as fh:
            fh.write("precious")
    state = {"bad": c["which"]}

    def urlopen(url, *a, **k):
        url = url if isinstance(url, str) else url.full_url
        if url.endswith(".json"):
            return Response(json.dumps({name: e}).encode())
        i = [e["DATASET_URL"], e["MODELS_URL"]].index(url)
        if state["bad"] == i:
            return Response(escaping(c, i, work, home, name))
        return Response(tar(content(e, 1)[i], False, False))
    old_env = os.environ.get("RANKEVAL_DATA")
    old_open, old_tmp = F.urlopen, tempfile.tempdir
    F.urlopen = urlopen
    fold = 1 if "COMMON_SUBFOLDER_NAME" in e else None
    try:
        tempfile.tempdir = os.path.join(work, "tmp")
        os.environ["RANKEVAL_DATA"] = home
        before = tree(work)
        for step in range(2):
            err = r = None
            with Guard.on(root) as g, contextlib.redirect_stdout(io.StringIO()):
                try:
                    r = F.load_dataset(name, fold=fold)
                except Exception as x:
                    err = x
            what = "an archive with a member outside (%s) gave %r" % (c["kind"], err) if step == 0 else "the next request"
            require(not g.escapes, "%s and touched %s", what, g.escapes)
            after = tree(root)
            for p in set(after) | {p for p in before}:
                if p in (work, os.path.dirname(work), os.path.dirname(os.path.dirname(work))) or (p + "/").startswith((os.path.join(home, name) + "/", tempfile.tempdir + "/")):
                    continue
                require(before.get(p, 0) == after.get(p, 0), "%s and touched %s", what, p)
            if step == 0 and err is None:
                note("accepted")
            if step == 1:
                require(err is None, "%s failed: %r", what, err)
            if err is None and (step == 1 or c["kind"] != "hard link"):
                x = matches(e, (1, 1), fold, r, True, home)
                if step == 0 and x and x.startswith("models"):
                    break                           # the additional members are listed
                require(x is None, "%s: %s", what, x)
            if err is None:
                break
            note("refused")
            state["bad"] = None
    finally:
        F.urlopen, tempfile.tempdir = old_open, old_tmp
        if old_env is None:
            os.environ.pop("RANKEVAL_DATA", None)
        else:
            os.environ["RANKEVAL_DATA"] = old_env
        shutil.rmtree(os.path.abspath(root))
    return True


@st.composite
def escape_case(draw):
    ent = dict(real=None, sub=draw(st.sampled_from(["", "full/"])), vali=draw(st.booleans()), license=draw(st.booleans()),
               folds=draw(st.sampled_from(["", "Fold"])), archive="data.tar.gz")
    return dict(entry=ent, which=draw(st.integers(0, 1)), at=draw(st.integers(0, 9)), target=draw(st.sampled_from(["neighbour", "work"])), overwrite=draw(st.booleans()),
                kind=draw(st.sampled_from(["dots", "dots", "absolute", "inner dots", "symlink", "symlink up", "file symlink", "hard link"])),
                ups=draw(st.sampled_from([0, 0, 2, 3, 4])))


RULE = "a request failed, or used the local copy"
CHECKS = [
    Check("escape", escape_case(), check_escape, "the archive has a member outside", 100, 3000, setup=setup),
    Check("histories", case(faults=False), check, RULE, 300, 8000, setup=setup, shards=2),
    Check("faults", case(), check, RULE, 800, 30000, setup=setup, shards=4),
    Check("catalogued", case(real=True), check, RULE, 150, 4000, setup=setup),
]
