"""Writes and validates planted bugs (never run by a check).

usage: plant.py SPECS.py [ID...]      write seeded/ID from the specs and validate
       plant.py --validate [ID...]    validate what is in seeded/
       plant.py --check-only [ID...]  only run the check of the property

A spec file calls bug(id, property, {file: [(old, new), ...]}, needs, breaks, demo).
"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(ROOT, "seeded")
BASE = "58f0f3b"
DEMO = '''#!/bin/bash
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=1
exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
'''
HELP = '''"""%s"""
import os, sys, tempfile, io
import numpy as np
assert os.path.dirname(os.path.dirname(os.path.abspath(__import__("rankeval").__file__))) == os.getcwd()


def leaf(v):
    return ("L", v)


def split(f, t, l, r):
    return ("S", f, t, l, r)


def quickrank(trees, weights=None):
    def node(t, pos):
        p = ' pos="%%s"' %% pos if pos else ""
        if t[0] == "L":
            return "<split%%s><output>%%r</output></split>" %% (p, t[1])
        return "<split%%s><feature>%%d</feature><threshold>%%r</threshold>%%s%%s</split>" %% (p, t[1] + 1, t[2], node(t[3], "left"), node(t[4], "right"))
    out = "<ranker><info><type>LAMBDAMART</type><trees>%%d</trees><leaves>10</leaves><shrinkage>0.1</shrinkage></info><ensemble>" %% len(trees)
    for i, t in enumerate(trees):
        out += '<tree id="%%d" weight="%%r">%%s</tree>' %% (i + 1, (weights or [1.0] * len(trees))[i], node(t, ""))
    return out + "</ensemble></ranker>"


def model(trees, weights=None, name="model", text=None, format="QuickRank", **k):
    from rankeval.model import RTEnsemble
    fd, p = tempfile.mkstemp(suffix=".txt")
    os.write(fd, (text or quickrank(trees, weights)).encode())
    os.close(fd)
    try:
        return RTEnsemble(p, name=name, format=format, **k)
    finally:
        os.remove(p)


def dataset(X, y, q, name="dataset"):
    from rankeval.dataset import Dataset
    return Dataset(np.array(X, dtype=np.float32), np.array(y, dtype=np.float32), np.array(q, dtype=np.int32), name=name)


def check(ok, *what):
    if not ok:
        print("BROKEN:", *what)
        sys.exit(1)


'''

SPECS = {}


def bug(id, prop, edits, needs, breaks, demo):
    assert id not in SPECS, id
    SPECS[id] = dict(prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo)


def sh(cmd, cwd, timeout=900, **env):
    e = {k: v for k, v in os.environ.items() if not k.startswith("VERIF")}
    e.update(env)
    try:
        r = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, shell=isinstance(cmd, str))
        return r.returncode, r.stdout.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        return 124, "timeout"


def write(id):
    s = SPECS[id]
    d = os.path.join(SEEDED, id)
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix="plant_w_")
    sh("git -C /repo archive HEAD | tar x -C %s" % w, "/")
    sh("git init -q . && git add -A && git -c user.name=x -c user.email=x@x commit -qm x", w)
    for f, eds in s["edits"].items():
        p = os.path.join(w, f)
        t = open(p, newline="").read()
        for old, new in eds:
            if t.count(old) != 1:
                shutil.rmtree(w)
                return "%d occurrences of %r in %s" % (t.count(old), old, f)
            t = t.replace(old, new)
        open(p, "w", newline="").write(t)
    diff = subprocess.run(["git", "diff"], cwd=w, stdout=subprocess.PIPE).stdout
    shutil.rmtree(w)
    open(os.path.join(d, "patch.diff"), "wb").write(diff)
    open(os.path.join(d, "demo.sh"), "w").write(DEMO)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    open(os.path.join(d, "demo.py"), "w").write(HELP % s["breaks"].replace("\\", "\\\\").replace('"', "'") + s["demo"].strip() + "\n")
    json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
    return None


def validate(id, check_only=False):
    d = os.path.join(SEEDED, id)
    prop = json.load(open(os.path.join(d, "meta.json")))["property"]
    res = dict(id=id, prop=prop, problems=[])
    c = tempfile.mkdtemp(prefix="plant_c_") + "/repo"
    try:
        shutil.copytree("/repo", c, symlinks=True)
        patch = os.path.join(d, "patch.diff")
        rc, out = sh(["git", "apply", "--check", patch], c)
        if rc:
            res["problems"].append("does not apply: " + out[-200:])
            return res
        # the lines removed are lines of the original repository
        cur, removed, f = None, [], None
        for l in open(patch, errors="replace").read().split("\n"):
            if l.startswith("--- a/"):
                f = l[6:]
            elif l.startswith("@@"):
                cur = int(re.match(r"@@ -(\d+)", l).group(1))
            elif l.startswith("-") and not l.startswith("---"):
                removed.append((f, cur)); cur += 1
            elif l.startswith(" "):
                cur += 1
        orig = 0
        for f, n in removed:
            _, b = sh(["git", "blame", "-s", "-L%d,%d" % (n, n), f], c)
            orig += b.startswith("^" + BASE)
        if not removed or orig < len(removed):
            res["problems"].append("removes %d lines, %d of them original" % (len(removed), orig))
            if not orig:
                res["problems"].append("FATAL: no original line changed")
        if not check_only:
            rc, out = sh(["bash", os.path.join(d, "demo.sh")], c, 300)
            if rc:
                res["problems"].append("demo fails on the clean tree: " + out[-300:])
        sh(["git", "apply", patch], c)
        native = any(x.endswith((".pyx", ".cpp", ".c", ".h")) for x in {f for f, _ in removed})
        if not check_only:
            nat = c + "/../native.sh"
            open(nat, "w").write(open("/opt/vp/native.sh").read().replace("/repo", c))
            if native:
                rc, out = sh(". %s; native" % nat, c)
                if rc:
                    res["problems"].append("does not build: " + out[-500:])
                    return res
            out = sh("export HOME=/root PATH=$PATH LC_ALL=C.UTF-8 PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg; "
                     "PYTHONPATH=%s:/opt/vp/compat /opt/venv/bin/python -m pytest -q -p no:cacheprovider -p nose_compat --timeout=300 --tb=no "
                     "--continue-on-collection-errors rankeval" % c, c)[1]
            if "23 passed" not in out:
                res["problems"].append("tests: " + out[-200:])
            rc, out = sh(["bash", os.path.join(d, "demo.sh")], c, 300)
            if rc == 0:
                res["problems"].append("demo passes with the bug")
            else:
                res["demo"] = out.strip().split("\n")[-1][:150]
        # the check must not find products of a build: it compiles what changed
        rc, out = sh(["python3", os.path.join(ROOT, "run.py"), prop], ROOT, 900, VERIF_REPO=c, VERIF_EVIDENCE=os.path.dirname(c))
        v = [l for l in out.split("\n") if l.startswith("VIOLATION property=" + prop)]
        res["caught"] = rc == 1 and bool(v)
        res["by"] = sorted({re.sub(r".*replays/%s-(.*)\.json" % prop, r"\1", x) for x in v})
        if not res["caught"]:
            res["out"] = out[-600:]
        return res
    finally:
        shutil.rmtree(os.path.dirname(c))


def main():
    a = sys.argv[1:]
    check_only = "--check-only" in a
    a = [x for x in a if x != "--check-only"]
    if a and a[0].endswith(".py"):
        exec(compile(open(a[0]).read(), a[0], "exec"), dict(bug=bug))
        ids = a[1:] or list(SPECS)
        for i in ids:
            p = write(i)
            if p:
                print("%-28s CANNOT WRITE %s" % (i, p))
                shutil.rmtree(os.path.join(SEEDED, i))
        ids = [i for i in ids if os.path.isdir(os.path.join(SEEDED, i))]
    else:
        ids = [x for x in a if not x.startswith("--")] or sorted(os.listdir(SEEDED))
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(int(os.environ.get("PLANT_JOBS", "3"))) as ex:
        for r in ex.map(lambda i: validate(i, check_only), ids):
            print("%-28s %s %-7s %s" % (r["id"], r["prop"], "caught" if r.get("caught") else "MISSED", ",".join(r.get("by", []))), "| " + "; ".join(r["problems"]) if r["problems"] else "")
            if not r.get("caught") and "out" in r:
                print("    " + r["out"].replace("\n", "\n    "))
            sys.stdout.flush()


main()
