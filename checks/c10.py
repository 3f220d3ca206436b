from hypothesis import strategies as st

from lib import gen as G, models as M, modelcheck as MC
from lib.core import Check, same, require
import numpy as np

NEEDS = ("dataset", "scoring")


@st.composite
def case(draw, max_leaves=10):
    c = draw(G.scored_case(max_leaves=max_leaves, inf=True))
    c.update(style=draw(st.integers(0, 3)), numbering=draw(st.sampled_from(["pre", "bfs", "heap"])),
             stats=draw(st.booleans()), header=draw(st.sampled_from(["", "[0]", " "])) if False else "",
             base=draw(st.sampled_from([None, None, 0.0, 0.25, -2.0])), tail=draw(st.booleans()))
    return c


def check(c, note):
    text = M.booster(c["model"], "<", c["style"], c["numbering"], c["stats"], tail=c["tail"])
    m = M.load(text, "XGBoost", base_score=c["base"])
    base = 0.5 if c["base"] is None else c["base"]
    MC.compare_structure("XGBoost", m, c["model"], weights=False, thresholds=False)
    MC.compare_scoring("XGBoost", m, c["model"], c["ds"], strict=True, base=base, weights=False)
    note("node numbering " + c["numbering"])
    note("default base score" if c["base"] is None else "given base score")
    return MC.labels(c, note)


@st.composite
def stumps(draw):
    """Every magnitude of threshold, probed at its neighbours."""
    th = draw(st.lists(st.one_of(st.floats(width=32, allow_nan=False, allow_infinity=False), G.f32s(-3.4e38, 3.4e38),
                                 st.integers(-2**31, 2**31).map(lambda i: float(np.float32(i)))),
                       min_size=1, max_size=8))
    return dict(th=th, style=draw(st.integers(0, 3)))


def check_stumps(c, note):
    model = dict(trees=[["S", 0, t, ["L", 1.0], ["L", 2.0]] for t in c["th"]], weights=[1.0] * len(c["th"]))
    m = M.load(M.booster(model, "<", c["style"]), "XGBoost", base_score=0.0)
    xs = sorted(set(G.near(c["th"]) + [0.0, 1.0])) + [float("inf"), float("-inf"), -0.0]
    ds = dict(X=[[x] for x in xs], y=[0.0] * len(xs), sizes=[len(xs)], ids=[1])
    MC.compare_scoring("XGBoost stump", m, model, ds, strict=True)
    big = [abs(t) >= 2.0**24 for t in c["th"]]
    if any(big):
        note("threshold of 2^24 or more")
    if any(t != 0 and abs(t) < 1.2e-38 for t in c["th"]):
        note("denormal threshold")
    return True


CHECKS = [
    Check("files", MC.files_of(["XGBoost"]), MC.check_files, "a file name used again", 60, 3000),
    Check("large", MC.grown(["XGBoost"]), MC.check_grown, "more than 255 nodes", 40, 1500, shards=2),
    Check("load", case(), check, "at least two trees, one of them with a split", 1200, 40000),
    Check("thresholds", stumps(), check_stumps, "always (one-split trees probed next to their threshold)", 800, 30000),
]
