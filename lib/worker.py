"""Runs one sub-check of a property in a process of its own.

usage: worker.py SPEC.json   (see engine.py for the fields)
"""
import hashlib
import importlib
import json
import os
import resource
import signal
import sys
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, ROOT)
VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
CPU_LIMIT = 60           # seconds of CPU for a single case (typically milliseconds)


class Stats(object):
    def __init__(self):
        self.evaluations = 0
        self.nontrivial = set()
        self.labels = {}
        self.samples = []
        self.known = {}

    def dump(self):
        return dict(evaluations=self.evaluations, nontrivial=sorted(self.nontrivial),
                    labels=self.labels, samples=self.samples, known=self.known)


def main():
    spec = json.load(open(sys.argv[1]))
    warnings.simplefilter("ignore")
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    if VT not in sys.path:
        sys.path.append(VT)
    os.makedirs(spec["scratch"], exist_ok=True)
    os.chdir(spec["scratch"])
    out = dict(status="error")
    try:
        import numpy as np
        np.seterr(all="ignore")
        from lib.core import Violation, KnownFinding, canon
        sut = os.environ["VERIF_SUT"]
        import rankeval
        assert os.path.realpath(rankeval.__file__).startswith(os.path.realpath(sut)), rankeval.__file__
        mod = importlib.import_module("checks." + spec["property"].lower())
        check = [c for c in mod.CHECKS if c.name == spec["check"]][0]
        if check.setup:
            check.setup()
    except Exception:
        out["error"] = traceback.format_exc()
        json.dump(out, open(spec["out"], "w"))
        return 3

    st = Stats()
    failures = []            # (size, canonical case, message)
    casefd = os.open(spec["case"], os.O_RDWR | os.O_CREAT | os.O_TRUNC)
    known = set(spec.get("known", []))
    confirming = [False]

    def execute(case):
        c = canon(case)
        data = c.encode()
        os.ftruncate(casefd, 0)
        os.pwrite(casefd, data, 0)
        labels = set()
        signal.setitimer(signal.ITIMER_VIRTUAL, CPU_LIMIT)
        try:
            try:
                nt = check.fn(json.loads(c), labels.add)
            finally:
                signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        except Violation as e:
            failures.append((len(c), c, str(e)))
            raise
        except KnownFinding as e:
            if e.key not in known:
                failures.append((len(c), c, str(e)))
                raise Violation(str(e))
            st.known[e.key] = str(e)
            nt = True
        except (MemoryError, KeyboardInterrupt):
            raise
        except Exception as e:
            # cases are valid inputs and the code of the check only consumes
            # what the library returns: an exception is the library's answer
            tb = traceback.extract_tb(e.__traceback__)
            where = ["%s:%d" % (os.path.relpath(f.filename, sut) if f.filename.startswith(sut)
                                else os.path.basename(f.filename), f.lineno) for f in tb[-3:]]
            msg = "unexpected %s: %s (at %s)" % (type(e).__name__, str(e)[:500], " > ".join(where))
            failures.append((len(c), c, msg))
            raise Violation(msg)
        if not failures:
            st.evaluations += 1
            for l in labels:
                st.labels[l] = st.labels.get(l, 0) + 1
            if nt:
                h = hashlib.md5(data).hexdigest()[:16]
                if h not in st.nontrivial:
                    st.nontrivial.add(h)
                    n = len(st.nontrivial)
                    if len(st.samples) < 3 and n in (1, 8, 40) and len(data) < 6000:
                        st.samples.append(case)

    def execute_forked(case):
        """As execute, in a child: a crash becomes a Violation (to shrink it)."""
        c = canon(case)
        pid = os.fork()
        if pid == 0:
            signal.setitimer(signal.ITIMER_VIRTUAL, CPU_LIMIT)
            try:
                check.fn(json.loads(c), lambda l: None)
            except BaseException:
                pass
            os._exit(0)
        _, status = os.waitpid(pid, 0)
        st.evaluations += 1
        if os.WIFSIGNALED(status) or os.WEXITSTATUS(status):
            sig = os.WTERMSIG(status) if os.WIFSIGNALED(status) else 0
            msg = "the process died (%s)" % (signal.Signals(sig).name if sig else
                                              "exit %d" % os.WEXITSTATUS(status))
            failures.append((len(c), c, msg))
            raise Violation(msg)

    try:
        if spec["mode"] == "replay":
            try:
                execute(spec["replay_case"])
            except Violation:
                pass
        else:
            import hypothesis
            from hypothesis import given, settings, HealthCheck, Phase, Verbosity
            import hypothesis.internal.conjecture.engine as ce
            ce.MAX_SHRINKING_SECONDS = spec["shrink_s"]
            # Hypothesis follows every fresh case by five that repeat parts of
            # it; done after one in eight only, most cases are fresh ones
            mutate, turn = ce.ConjectureRunner.generate_mutations_from, [0]

            def sometimes(self, data):
                turn[0] += 1
                if turn[0] % 8 == 0:
                    mutate(self, data)
            ce.ConjectureRunner.generate_mutations_from = sometimes
            run = execute if spec["mode"] == "run" else execute_forked

            @hypothesis.seed(spec["seed"])
            @settings(max_examples=spec["n"], database=None, deadline=None,
                      report_multiple_bugs=False, print_blob=False,
                      suppress_health_check=list(HealthCheck), verbosity=Verbosity.quiet,
                      phases=[Phase.generate, Phase.shrink])
            @given(check.strategy)
            def test(case):
                run(case)

            try:
                test()
            except (KeyboardInterrupt, MemoryError):
                raise
            except BaseException:
                if not failures:
                    raise
        out = st.dump()
        out["status"] = "ok"
        if failures:
            size, c, msg = min(failures, key=lambda f: f[0])
            out["status"] = "violation"
            out["message"], out["case"] = msg, json.loads(c)
    except BaseException:
        out["status"], out["error"] = "error", traceback.format_exc()
    with open(spec["out"], "w") as fh:
        json.dump(out, fh)
    return 0


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
