from hypothesis import strategies as st

from lib import gen as G, models as M, modelcheck as MC
from lib.core import Check

NEEDS = ("dataset", "scoring")


@st.composite
def case(draw, max_leaves=10):
    c = draw(G.scored_case(max_leaves=max_leaves, inf=True, far=True))
    c.update(style=draw(st.integers(0, 3)), order=draw(st.sampled_from(["pre", "bfs"])),
             shrinkage=draw(st.sampled_from(["1", "0.1", "0.05"])), default_value=draw(st.booleans()), v3=draw(st.booleans()))
    return c


def check(c, note):
    m = M.load(M.lightgbm(c["model"], c["style"], c["order"], c["shrinkage"], c["default_value"], c["v3"]), "LightGBM")
    MC.compare_structure("LightGBM", m, c["model"], weights=False)
    MC.compare_scoring("LightGBM", m, c["model"], c["ds"], weights=False)
    note("nodes " + c["order"])
    return MC.labels(c, note)


@st.composite
def wild(draw):
    dbl = st.one_of(st.floats(allow_nan=False, allow_infinity=False, min_value=-3e38, max_value=3e38), G.f32s(-3e38, 3e38))
    th, ou = draw(st.lists(dbl, min_size=1, max_size=6)), draw(st.lists(dbl, min_size=1, max_size=6))
    model = draw(G.ensembles(14, 20, draw(st.sampled_from([1, 3, 136])), th, ou))
    return dict(model=model, order=draw(st.sampled_from(["pre", "bfs"])))


def check_wild(c, note):
    old = M.num
    M.num = lambda x, style=0: repr(float(x))
    try:
        text = M.lightgbm(c["model"], 0, c["order"])
    finally:
        M.num = old
    m = M.load(text, "LightGBM")
    MC.compare_structure("LightGBM", m, c["model"], weights=False)
    if len(c["model"]["trees"]) > 10:
        note("more than 10 trees")
    return MC.labels(c, note)


CHECKS = [
    Check("files", MC.files_of(["LightGBM"]), MC.check_files, "a file name used again", 60, 3000),
    Check("large", MC.grown(["LightGBM"]), MC.check_grown, "more than 255 nodes", 40, 1500, shards=2),
    Check("load", case(), check, "at least two trees, one of them with a split", 1200, 40000),
    Check("numbers", wild(), check_wild, "at least two trees, one of them with a split", 600, 20000),
]
