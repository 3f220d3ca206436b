"""Driver: prepares the library, runs the sub-checks of one property in worker
processes, prints the verdict and writes the evidence file."""
import argparse
import concurrent.futures
import importlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import zlib

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
EVIDENCE = os.environ.get("VERIF_EVIDENCE") or os.path.join(ROOT, "evidence")
sys.path.insert(0, ROOT)
VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
from lib import sut as S

CRASH = {signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE, signal.SIGILL, signal.SIGVTALRM, signal.SIGTRAP,
         signal.SIGSYS}
SHARD_CASES = {"quick": 10**9, "thorough": 4000}


def load_known():
    """known_findings.txt: 'KNOWN-FINDING: property=<id> key=<key> ...' lines
    are the findings in force; 'fixed:' lines suppress nothing."""
    known = {}
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"KNOWN-FINDING: property=(\S+) key=(\S+)", line)
            if m:
                known.setdefault(m.group(1), {})[m.group(2)] = line.strip()
    return known


def worker(spec, sutdir, check, tmp):
    sp = os.path.join(tmp, spec["id"] + ".spec")
    json.dump(spec, open(sp, "w"))
    extra = dict(check.env)
    extra["OMP_NUM_THREADS"] = str(check.threads)
    extra["MPLCONFIGDIR"] = os.path.join(tmp, "mpl")
    extra["HOME"] = os.path.join(tmp, "home")
    extra["TMPDIR"] = spec["scratch"]
    if check.asan:
        extra["LD_PRELOAD"] = S.asan_runtime()
        extra["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:handle_abort=0:handle_segv=0:" \
            "max_allocation_size_mb=8000:log_path=" + os.path.join(tmp, spec["id"] + ".asan")
        extra["PYTHONMALLOC"] = "malloc"
    err = open(os.path.join(tmp, spec["id"] + ".err"), "wb")
    p = subprocess.Popen([S.PY, os.path.join(HERE, "worker.py"), sp], env=S.env(sutdir, **extra),
                         stdin=subprocess.DEVNULL, stdout=err, stderr=err, cwd=tmp)
    try:
        rc = p.wait(timeout=spec["timeout"])
    except subprocess.TimeoutExpired:
        p.kill()
        p.wait()
        return dict(status="timeout", error="no answer in %d s" % spec["timeout"])
    finally:
        err.close()
    try:
        r = json.load(open(spec["out"]))
    except Exception:
        r = None
    if r is not None and rc in (0, 3):
        return r
    txt = open(os.path.join(tmp, spec["id"] + ".err"), "rb").read().decode("utf8", "replace")
    for n in sorted(os.listdir(tmp)):
        if n.startswith(spec["id"] + ".asan"):
            txt = open(os.path.join(tmp, n)).read()[:4000] + txt
    if rc < 0 and -rc in CRASH:
        try:
            case = json.load(open(spec["case"]))
        except Exception:
            case = None
        what = "no termination within the CPU limit" if -rc == signal.SIGVTALRM else \
            "the process died (%s)" % signal.Signals(-rc).name
        m = re.search(r"AddressSanitizer:? ?([^\n]*)", txt)
        if m:
            what += ": AddressSanitizer: " + m.group(1)
        return dict(status="crash", message=what, case=case, evaluations=0, nontrivial=[], labels={}, samples=[],
                    known={}, error=txt[-3000:])
    return dict(status="error", error="worker ended with %s\n%s" % (rc, txt[-3000:]))


def run_check(prop, check, tier, seed, sutdir, asandir, tmp, known, pool, times):
    n = check.quick * times if tier == "quick" else check.thorough
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    n = max(1, int(n * scale))
    shards = max(check.shards * (2 if tier == "quick" and times > 1 else 1), -(-n // SHARD_CASES[tier]))
    out = []
    for i in range(shards):
        k = n // shards + (1 if i < n % shards else 0)
        base = zlib.crc32(("%s/%s/%d/%d" % (prop, check.name, seed, i)).encode())
        ident = "%s-%d" % (check.name, i)
        spec = dict(id=ident, property=prop, check=check.name, mode="run", seed=base, n=k,
                    scratch=os.path.join(tmp, "w-" + ident), out=os.path.join(tmp, ident + ".out"),
                    case=os.path.join(tmp, ident + ".case"), known=sorted(known),
                    shrink_s=25 if tier == "quick" else 120, timeout=780 if tier == "quick" else 6 * 3600)
        out.append((spec, pool.submit(worker, spec, asandir if check.asan else sutdir, check, tmp)))
    return out


def shrink_crash(spec, res, check, sutdir, tmp):
    """Looks for a smaller crashing case, every case in a child process."""
    s2 = dict(spec, mode="fork", id=spec["id"] + "-fork", n=min(spec["n"], 3000), shrink_s=20, timeout=100,
              out=spec["out"] + "f", case=spec["case"] + "f", scratch=spec["scratch"] + "f")
    r = worker(s2, sutdir, check, tmp)
    if r.get("status") == "violation" and res.get("case") is not None and \
            len(json.dumps(r["case"])) < len(json.dumps(res["case"])):
        res = dict(res, case=r["case"], message=r["message"] + " [" + res["message"] + "]")
    return res


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or "1"))
    ap.add_argument("--only", help="only the sub-checks whose name contains this")
    ap.add_argument("--replay", help="replay file of an earlier violation")
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args(argv)
    prop = a.property.upper()
    t0 = time.time()
    # imported only for the list of sub-checks: no generation happens here
    if VT not in sys.path:
        sys.path.append(VT)
    mod = importlib.import_module("checks." + prop.lower())
    checks = [c for c in mod.CHECKS if not a.only or a.only in c.name]
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    os.makedirs(os.path.join(tmp, "home"))
    try:
        return run(a, prop, mod, checks, tmp, t0)
    except S.SutError as e:
        print("ERROR: %s" % e)
        return 3
    finally:
        if not a.keep:
            shutil.rmtree(tmp, ignore_errors=True)


def run(a, prop, mod, checks, tmp, t0):
    needs = getattr(mod, "NEEDS", S.DIRS)
    sutdir, built = S.prepare(tmp, needs, os.path.join(tmp, "build.log"))
    asandir = None
    asan = sorted({c.asan for c in checks if c.asan})
    for m in asan:
        asandir = S.build_asan(asandir or sutdir, m)
    known = load_known().get(prop, {})
    replays = os.path.join(EVIDENCE, "replays")
    os.makedirs(replays, exist_ok=True)

    if a.replay:
        rep = json.load(open(a.replay))
        check = [c for c in checks if c.name == rep["check"]][0]
        spec = dict(id="replay", property=prop, check=check.name, mode="replay", seed=0, n=1, replay_case=rep["case"],
                    scratch=os.path.join(tmp, "w"), out=os.path.join(tmp, "out"), case=os.path.join(tmp, "case"),
                    known=sorted(known), shrink_s=1, timeout=600)
        r = worker(spec, asandir if check.asan else sutdir, check, tmp)
        if r["status"] in ("violation", "crash"):
            print("%s: %s" % (check.name, r["message"]))
            print("VIOLATION property=%s replay=%s" % (prop, a.replay))
            return 1
        if r["status"] != "ok":
            print("ERROR: %s" % r.get("error"))
            return 3
        print("replay of %s: the property held" % check.name)
        return 0

    jobs = []
    bad, errors, per, samples, nontrivial, evals, klines = [], [], {}, [], 0, 0, {}
    with concurrent.futures.ThreadPoolExecutor(max_workers=int(os.environ.get("VERIF_JOBS", "8"))) as pool:
        for c in sorted(checks, key=lambda c: -(getattr(c, "weight", 0))):
            jobs.append((c, run_check(prop, c, a.tier, a.seed, sutdir, asandir, tmp, known, pool, getattr(mod, "QUICK", 3))))
        for c, futs in jobs:
            seen = set()
            info = dict(evaluations=0, labels={})
            for spec, f in futs:
                r = f.result()
                if r["status"] == "crash":
                    r = shrink_crash(spec, r, c, asandir if c.asan else sutdir, tmp)
                if r["status"] in ("error", "timeout"):
                    errors.append("%s: %s" % (c.name, r["error"]))
                    continue
                info["evaluations"] += r["evaluations"]
                seen.update(r["nontrivial"])
                for k, v in r["labels"].items():
                    info["labels"][k] = info["labels"].get(k, 0) + v
                for s in r["samples"]:
                    if len([1 for x in samples if x["check"] == c.name]) < 2:
                        samples.append(dict(check=c.name, case=s))
                klines.update(r["known"])
                if r["status"] in ("violation", "crash"):
                    path = os.path.join(replays, "%s-%s.json" % (prop, c.name))
                    with open(path, "w") as fh:
                        json.dump(dict(property=prop, check=c.name, message=r["message"], seed=a.seed, tier=a.tier,
                                       case=r["case"]), fh, indent=1)
                    bad.append((c.name, r["message"], path))
            info["distinct_nontrivial"] = len(seen)
            info["rule"] = c.rule
            info["labels"] = dict(sorted(info["labels"].items()))
            per[c.name] = info
            nontrivial += len(seen)
            evals += info["evaluations"]

    for k in sorted(klines):
        print("KNOWN-FINDING: property=%s %s" % (prop, klines[k]))
    ev = dict(property=prop, tier=a.tier, seed=a.seed, level="exploration",
              coverage=dict(evaluations=evals, distinct_nontrivial=nontrivial,
                            rule="Cases are drawn by Hypothesis strategies; per sub-check: " +
                                 "; ".join("%s: non-trivial = %s" % (c.name, c.rule) for c in checks),
                            samples=samples, sub_checks=per, extensions_built=built, errors=len(errors)),
              wall_s=round(time.time() - t0, 2), violations=len(bad))
    if not a.only:
        tmpf = os.path.join(EVIDENCE, ".%s.tmp" % prop)
        with open(tmpf, "w") as fh:
            json.dump(ev, fh, indent=1)
        os.replace(tmpf, os.path.join(EVIDENCE, prop + ".json"))
    for name, msg, path in bad:
        print("%s: %s" % (name, msg))
    for path in sorted({p for _, _, p in bad}):
        print("VIOLATION property=%s replay=%s" % (prop, path))
    for e in errors:
        print("ERROR in %s" % e)
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %d violations, %d errors, %.1f s" % (
        prop, a.tier, a.seed, evals, nontrivial, len(bad), len(errors), time.time() - t0))
    if bad:
        return 1
    return 3 if errors else 0
