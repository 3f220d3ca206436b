"""Strategies shared by the property modules. Every case is made of JSON types
only; floats are exactly representable in single precision where it matters."""
import numpy as np
from hypothesis import strategies as st

from .core import f32

# ---------------------------------------------------------------- numbers
COMMON = [0.0, 1.0, -1.0, 0.5, -0.5, 2.0, 3.0, 0.25, 10.0, -7.0]
ODD = [f32(x) for x in (0.1, -0.3, 1e-3, 123.456, 1e6, -1e6, 16777216.0, 16777217.0, 33554432.0, 1e-20, -1e-20,
                        1e20, 3.4e38, -3.4e38, 1.1754944e-38, 1e-45, -1e-45, 1 / 3.0)]


def f32s(lo=-1e6, hi=1e6, odd=True):
    """Single-precision numbers with a bias to the remarkable ones."""
    base = [x for x in COMMON if lo <= x <= hi]
    if odd:
        base += [x for x in ODD if lo <= x <= hi]
    return st.one_of(st.sampled_from(base),
                     st.floats(min_value=f32(lo), max_value=f32(hi), width=32, allow_nan=False, allow_infinity=False))


def dyadics(bound=64, denom=8):
    """Multiples of 1/denom: sums of them are exact in single precision."""
    return st.integers(-bound * denom, bound * denom).map(lambda i: i / float(denom))


class Pick(object):
    """Choices that do not depend on each other. Hypothesis repeats parts of
    its own choices, so that rare combinations of several of them hardly ever
    come up; here each one is rotated by a number that depends on a seed (0, to
    which it shrinks, rotates nothing)."""

    def __init__(self, draw):
        self.draw = draw
        self.seed = draw(st.integers(0, 2**24 - 1))
        self.rs = np.random.RandomState(self.seed) if self.seed else None

    def __call__(self, pool):
        return pool[self.int(0, len(pool) - 1)]

    def int(self, lo, hi):
        i = self.draw(st.integers(0, hi - lo))
        return lo + (i + (int(self.rs.randint(hi - lo + 1)) if self.rs is not None else 0)) % (hi - lo + 1)

    def list(self, pool, lo, hi):
        return [self(pool) for _ in range(self.int(lo, hi))]

    def bool(self):
        return self([False, True])


@st.composite
def picked(draw, fn, *a, **k):
    """Strategy of the cases fn(pick, ...)."""
    return fn(Pick(draw), *a, **k)


@st.composite
def from_pool(draw, n, pool):
    """n values taken from a list (one draw for all of them)."""
    b = draw(st.binary(min_size=n, max_size=n))
    return [pool[x % len(pool)] for x in b]


@st.composite
def partition(draw, max_parts, max_size, min_parts=1):
    """Sizes of consecutive non-empty groups."""
    k = draw(st.integers(min_parts, max_parts))
    return [1 + x % max_size for x in draw(st.binary(min_size=k, max_size=k))]


@st.composite
def qids(draw, n, hi=2**31 - 1, wide=False):
    """n distinct non-negative query ids, in any order; wide: also ids beyond
    32 bits, among them ids that only their high bits tell apart."""
    kind = draw(st.sampled_from(["seq", "small", "any", "desc"] + (["wide"] if wide else [])))
    if kind == "wide":
        one = st.tuples(st.integers(0, 3), st.sampled_from([0, 2**16, 2**31, 2**32, 2**33, 2**53, 2**62])).map(sum)
        return draw(st.lists(st.one_of(one, one, st.integers(0, 2**62)), min_size=n, max_size=n, unique=True))
    if kind == "seq":
        start = draw(st.integers(0, 5))
        return list(range(start, start + n))
    if kind == "desc":
        return list(range(n, 0, -1))
    if kind == "small":
        return list(draw(st.permutations(range(n + 3))))[:n]
    return draw(st.lists(st.integers(0, hi), min_size=n, max_size=n, unique=True))


@st.composite
def qids_wide(draw, max_ids=5):
    return dict(ids=draw(qids(draw(st.integers(1, max_ids)), wide=True)))


@st.composite
def grouping(draw, max_queries=8, max_docs=6, min_queries=1, wide=False):
    """(sizes, ids) of consecutive queries."""
    sizes = draw(partition(max_queries, max_docs, min_queries))
    return sizes, draw(qids(len(sizes), wide=wide))


def unroll(sizes, ids):
    return [i for s, i in zip(sizes, ids) for _ in range(s)]


# ---------------------------------------------------------------- datasets
@st.composite
def datasets(draw, max_queries=6, max_docs=5, min_features=1, max_features=5, pool=None, labels=(0, 1, 2, 3, 4),
             min_queries=1, any_values=True, wide=False):
    sizes, ids = draw(grouping(max_queries, max_docs, min_queries, wide))
    n, m = sum(sizes), draw(st.integers(min_features, max_features))
    if pool is None:
        pool = draw(st.lists(f32s() if any_values else dyadics(8), min_size=1, max_size=6)) + [0.0, 1.0]
    X = draw(from_pool(n * m, pool))
    y = draw(from_pool(n, list(labels)))
    return dict(X=[X[i * m:(i + 1) * m] for i in range(n)], y=[float(v) for v in y], sizes=sizes, ids=ids)


def grown_from(pick, max_queries=300, max_docs=20, max_features=40, rows=6000):
    """Parameters of a larger dataset, made by grow() from a seed: cases stay small."""
    return dict(seed=pick.int(0, 2**24), q=pick.int(1, max_queries), docs=pick.int(1, max_docs), m=pick.int(1, max_features),
                ids=pick(["seq", "desc", "any", "dip"]), rows=rows, values=pick(["real", "few", "int", "sparse"]))


def grown(*a, **k):
    return picked(grown_from, *a, **k)


def grow(g):
    rs = np.random.RandomState(g["seed"])
    k = g["q"]
    sizes = rs.randint(1, g["docs"] + 1, k)
    while sizes.sum() > g["rows"]:
        sizes = sizes[:(len(sizes) + 1) // 2] if len(sizes) > 1 else np.array([g["rows"]])
    k = len(sizes)
    if g["ids"] == "any":
        ids = rs.permutation(np.unique(rs.randint(0, 2**31 - 1, 2 * k + 5)))[:k]
    elif g["ids"] == "desc":
        ids = np.arange(k)[::-1]
    elif g["ids"] == "dip":                    # increasing but for the last one
        ids = np.r_[np.arange(1, k), [0]]
    else:
        ids = np.arange(k)
    n, m = int(sizes.sum()), g["m"]
    if g["values"] == "few":
        X = rs.choice([0.0, 1.0, -1.5], (n, m))
    elif g["values"] == "int":
        X = rs.randint(-2**20, 2**20, (n, m)).astype(float)
    else:
        X = (rs.randn(n, m) * 10.0 ** rs.randint(-4, 5, (1, m))).astype(np.float32).astype(float)
        if g["values"] == "sparse":
            X[rs.rand(n, m) < 0.8] = 0.0
    return dict(X=X.tolist(), y=[float(v) for v in rs.randint(0, 5, n)], sizes=[int(v) for v in sizes], ids=[int(v) for v in ids])


# ---------------------------------------------------------------- trees
# a tree is ["L", output] or ["S", feature, threshold, left, right]
@st.composite
def trees(draw, max_leaves=8, n_features=4, thresholds=None, outputs=None, chain=True):
    thresholds = thresholds if thresholds is not None else draw(st.lists(f32s(), min_size=1, max_size=4))
    outputs = outputs if outputs is not None else draw(st.lists(dyadics(), min_size=1, max_size=6))
    kind = draw(st.sampled_from(["any", "any", "any", "leaf", "left", "right", "any"] if chain else ["any"]))
    k = 0 if kind == "leaf" else draw(st.integers(0 if kind == "any" else 1, max_leaves - 1))
    b = draw(st.binary(min_size=4 * k + 1, max_size=4 * k + 1))
    root = ["L", outputs[b[-1] % len(outputs)]]
    leaves = [root]
    for i in range(k):
        w = {"left": 0, "right": len(leaves) - 1}.get(kind, b[4 * i] % len(leaves))
        node = leaves[w]
        l = ["L", node[1]]
        r = ["L", outputs[b[4 * i + 3] % len(outputs)]]
        node[:] = ["S", b[4 * i + 1] % n_features, thresholds[b[4 * i + 2] % len(thresholds)], l, r]
        leaves[w:w + 1] = [l, r]
    return root


@st.composite
def ensembles(draw, max_trees=6, max_leaves=8, n_features=4, thresholds=None, outputs=None, min_trees=1, weights=None,
              chain=True):
    th = thresholds if thresholds is not None else draw(st.lists(f32s(), min_size=1, max_size=5))
    ou = outputs if outputs is not None else draw(st.lists(dyadics(), min_size=1, max_size=6))
    n = draw(st.integers(min_trees, max_trees))
    ts = [draw(trees(max_leaves, n_features, th, ou, chain)) for _ in range(n)]
    w = draw(from_pool(n, weights if weights is not None else [1.0, 0.5, 0.125, 2.0, -1.0, 0.0]))
    return dict(trees=ts, weights=w)


@st.composite
def scored_case(draw, max_trees=6, max_leaves=8, max_queries=5, max_docs=5, weights=None, labels=(0, 1, 2, 3, 4),
                inf=False, min_queries=1, extreme=True, min_trees=1, far=False):
    """A model and a dataset whose feature values hit, or are next to, the
    thresholds of the model."""
    nf = draw(st.integers(1, 4))
    th = draw(st.lists(f32s(-3.4e38, 3.4e38) if extreme else dyadics(4, 4), min_size=1, max_size=4))
    beyond = draw(st.sampled_from([[], [], [], [1e39], [-1e39, 1e300], [1.7976931348623157e308]])) if far else []
    model = draw(ensembles(max_trees, max_leaves, nf, th + beyond, weights=weights, min_trees=min_trees))
    pool = near(th) + [0.0, 1.0]
    if inf and not beyond:
        pool += [float("inf"), float("-inf")]
    ds = draw(datasets(max_queries, max_docs, nf, nf + 2, pool, labels, min_queries))
    return dict(model=model, ds=ds)


def near(ths):
    """Each threshold and its two single-precision neighbours."""
    out = []
    with np.errstate(all="ignore"):
        for t in ths:
            t = np.float32(t)
            for v in (t, np.nextafter(t, np.float32(-np.inf)), np.nextafter(t, np.float32(np.inf))):
                if np.isfinite(v):
                    out.append(float(v))
    return out
