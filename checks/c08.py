from hypothesis import strategies as st

from lib import gen as G, models as M, modelcheck as MC
from lib.core import Check, f32

NEEDS = ("dataset", "scoring")


@st.composite
def case(draw, max_leaves=10):
    c = draw(G.scored_case(max_leaves=max_leaves, inf=True, far=True))
    n = len(c["model"]["trees"])
    c["ids"] = draw(st.sampled_from([None, None, list(range(n)), list(range(n, 0, -1)), [1] * n, list(range(10, 10 + 3 * n, 3))]))
    c.update(style=draw(st.integers(0, 3)), right_first=draw(st.booleans()), pretty=draw(st.booleans()),
             info=True)
    return c


def check(c, note):
    m = M.load(M.quickrank(c["model"], c["style"], c["right_first"], c["pretty"], c["info"], c["ids"]), "QuickRank")
    MC.compare_structure("QuickRank", m, c["model"])
    MC.compare_scoring("QuickRank", m, c["model"], c["ds"])
    if c["right_first"]:
        note("right child first")
    return MC.labels(c, note)


@st.composite
def wild(draw):
    """Double-precision numbers of any magnitude, large feature ids."""
    dbl = st.one_of(st.floats(allow_nan=False, allow_infinity=False, min_value=-3e38, max_value=3e38), G.f32s(-3e38, 3e38))
    th, ou = draw(st.lists(dbl, min_size=1, max_size=6)), draw(st.lists(dbl, min_size=1, max_size=6))
    nf = draw(st.sampled_from([1, 3, 136, 700, 32000, 33000, 65800, 3000000]))
    model = draw(G.ensembles(5, 12, nf, th, ou, weights=draw(st.lists(dbl, min_size=1, max_size=4))))
    if nf > 256:
        off = draw(st.integers(0, nf - 256))
        for t in model["trees"]:
            for x in M.nodes(t):
                if x[0] == "S":
                    x[1] += off
    return dict(model=model)


def write_wild(model):
    """QuickRank text with the numbers in full double precision."""
    old = M.num
    M.num = lambda x, style=0: repr(float(x))
    try:
        return M.quickrank(model)
    finally:
        M.num = old


def check_wild(c, note):
    m = M.load(write_wild(c["model"]), "QuickRank")
    MC.compare_structure("QuickRank", m, c["model"])
    if any(f32(x[2]) != x[2] for t in c["model"]["trees"] for x in M.nodes(t) if x[0] == "S"):
        note("threshold not a single-precision number")
    return MC.labels(c, note)


@st.composite
def deep(draw):
    d = draw(st.integers(20, 150))
    side = draw(st.binary(min_size=d, max_size=d))
    t = ["L", -1.0]
    for i, b in enumerate(side):
        leaf = ["L", float(i)]
        t = ["S", b % 3, (b % 7) / 2.0, t, leaf] if b & 8 else ["S", b % 3, (b % 7) / 2.0, leaf, t]
    ds = draw(G.datasets(2, 3, 3, 3, [0.0, 0.5, 1.0, 1.5, 2.0, 3.0]))
    return dict(model=dict(trees=[t, ["L", 3.0]], weights=[1.0, 2.0]), ds=ds)


def check_deep(c, note):
    m = M.load(M.quickrank(c["model"]), "QuickRank")
    MC.compare_structure("QuickRank", m, c["model"])
    MC.compare_scoring("QuickRank", m, c["model"], c["ds"])
    return True


CHECKS = [
    Check("files", MC.files_of(["QuickRank"]), MC.check_files, "a file name used again", 60, 3000),
    Check("large", MC.grown(["QuickRank"]), MC.check_grown, "more than 255 nodes", 40, 1500, shards=2),
    Check("load", case(), check, "at least two trees, one of them with a split", 1200, 40000),
    Check("numbers", wild(), check_wild, "at least two trees, one of them with a split", 700, 25000),
    Check("deep", deep(), check_deep, "always (a chain of 20 to 150 splits)", 60, 1500),
]
