from hypothesis import strategies as st

from lib import gen as G, models as M, modelcheck as MC
from lib.core import Check

NEEDS = ("dataset", "scoring")


@st.composite
def case(draw, max_leaves=10):
    c = draw(G.scored_case(max_leaves=max_leaves, inf=True, far=True))
    c.update(style=draw(st.integers(0, 3)), order=draw(st.sampled_from(["pre", "bfs"])))
    return c


def check_jforests(c, note):
    m = M.load(M.jforests(c["model"], c["style"], c["order"]), "Jforests")
    MC.compare_structure("Jforests", m, c["model"])
    MC.compare_scoring("Jforests", m, c["model"], c["ds"])
    return MC.labels(c, note)


@st.composite
def cat_case(draw):
    c = draw(G.scored_case(max_leaves=8, inf=True))
    c["le"] = draw(st.booleans())
    if draw(st.booleans()):
        # oblivious trees, as CatBoost makes them: the same split on a level
        nf = len(c["ds"]["X"][0])
        ths = [x[2] for t in c["model"]["trees"] for x in M.nodes(t) if x[0] == "S"] or [0.5]
        trees = []
        for t in c["model"]["trees"]:
            d = min(M.height(t), 3)
            b = draw(st.binary(min_size=2 * d + 1, max_size=2 * d + 1))

            def grow(level, k):
                if level == d:
                    return ["L", float(k + b[-1] % 5)]
                return ["S", b[2 * level] % nf, ths[b[2 * level + 1] % len(ths)], grow(level + 1, 2 * k),
                        grow(level + 1, 2 * k + 1)]
            trees.append(grow(0, 0))
        c["model"]["trees"] = trees
        c["oblivious"] = True
    return c


def check_catboost(c, note):
    m = M.load(M.catboost(c["model"], c["le"]).SerializeToString(), "CatBoost")
    MC.compare_structure("CatBoost", m, c["model"], weights=False)
    MC.compare_scoring("CatBoost", m, c["model"], c["ds"], weights=False)
    note("oblivious trees" if c.get("oblivious") else "any trees")
    return MC.labels(c, note)


@st.composite
def wild(draw):
    """Double-precision numbers of any magnitude, for weights too."""
    dbl = st.one_of(st.floats(allow_nan=False, allow_infinity=False, min_value=-3e38, max_value=3e38), st.floats(-1, 1), G.f32s(-3e38, 3e38))
    th, ou = draw(st.lists(dbl, min_size=1, max_size=6)), draw(st.lists(dbl, min_size=1, max_size=6))
    model = draw(G.ensembles(14, 20, draw(st.sampled_from([1, 3, 136, 3000])), th, ou, weights=draw(st.lists(dbl, min_size=1, max_size=4))))
    return dict(model=model, order=draw(st.sampled_from(["pre", "bfs"])), fmt=draw(st.sampled_from(["Jforests", "Jforests", "CatBoost"])))


def check_wild(c, note):
    old = M.num
    M.num = lambda x, style=0: repr(float(x))
    try:
        data = M.jforests(c["model"], 0, c["order"]) if c["fmt"] == "Jforests" else M.catboost(c["model"]).SerializeToString()
    finally:
        M.num = old
    m = M.load(data, c["fmt"])
    MC.compare_structure(c["fmt"], m, c["model"], weights=c["fmt"] == "Jforests")
    note(c["fmt"])
    return MC.labels(c, note)


def warm():
    import coremltools  # noqa: F401


CHECKS = [
    Check("files", MC.files_of(["Jforests", "CatBoost"]), MC.check_files, "a file name used again", 60, 3000, setup=warm),
    Check("large", MC.grown(["Jforests", "Jforests", "CatBoost"]), MC.check_grown, "more than 255 nodes", 40, 1500, shards=2, setup=warm),
    Check("jforests", case(), check_jforests, "at least two trees, one of them with a split", 1000, 40000),
    Check("numbers", wild(), check_wild, "at least two trees, one of them with a split", 600, 20000, setup=warm),
    Check("catboost", cat_case(), check_catboost, "at least two trees, one of them with a split", 350, 8000,
          setup=warm),
]
