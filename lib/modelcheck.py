"""Comparisons shared by the model properties."""
import numpy as np

from . import gen as G, models as M
from .core import fail, same, require


def compare_structure(what, m, spec, weights=True, thresholds=True):
    """The loaded model has exactly the trees of the plain-data model."""
    got = M.extract(m)
    require(int(m.n_trees) == len(spec["trees"]), "%s: %s trees instead of %d", what, m.n_trees, len(spec["trees"]))
    nn = sum(len(M.nodes(t)) for t in spec["trees"])
    require(int(m.n_nodes) == nn, "%s: %s nodes instead of %d", what, m.n_nodes, nn)
    for i, (g, t) in enumerate(zip(got["trees"], spec["trees"])):
        stack = [(g, t, "root")]
        while stack:
            a, b, path = stack.pop()
            where = "%s: tree %d, node %s" % (what, i, path)
            require(a[0] == b[0], "%s: %s instead of %s", where, a, b if b[0] == "L" else b[:3])
            if b[0] == "L":
                same(where + " output", np.float32(a[1]), np.float32(b[1]))
            else:
                require(a[1] == b[1], "%s: feature %s instead of %s", where, a[1], b[1])
                if thresholds and abs(b[2]) > 3.4028235e38:      # no such number in single precision
                    require(a[2] * b[2] > 0 and abs(a[2]) >= 3.4e38, "%s: threshold %r instead of %r", where, a[2], b[2])
                elif thresholds:
                    same(where + " threshold", np.float32(a[2]), np.float32(b[2]))
                stack += [(a[3], b[3], path + "L"), (a[4], b[4], path + "R")]
    w = spec["weights"] if weights else [1.0] * len(spec["trees"])
    same(what + ": weights", np.asarray(m.trees_weight, dtype=np.float64), np.float32(w).astype(np.float64))


def leaf_path(t, x, strict):
    p = ""
    while t[0] != "L":
        v, th = np.float32(x[t[1]]), np.float32(t[2])
        left = bool(v < th if strict else v <= th)
        p += "L" if left else "R"
        t = t[3] if left else t[4]
    return p


def model_leaf_paths(m, i):
    """{node id of a leaf: path} of tree i of the loaded model."""
    out, stack = {}, [(int(m.trees_root[i]), "")]
    while stack:
        k, p = stack.pop()
        if bool(m.is_leaf_node(k)):
            out[k] = p
        else:
            stack += [(int(m.trees_left_child[k]), p + "L"), (int(m.trees_right_child[k]), p + "R")]
    return out


def compare_scoring(what, m, spec, ds, strict=False, base=0.0, lr=1.0, weights=True, exact=True, tol=0.0):
    """Basic and detailed scores, contributions and leaves are those of the
    plain-data model. With exact=True all sums are representable."""
    d = M.dataset(ds)
    ref = dict(spec, weights=spec["weights"] if weights else [1.0] * len(spec["trees"]))
    want, part = M.score(ref, ds["X"], strict, base, lr)
    n, k = part.shape
    y = m.score(d)
    y2, p2, l2 = m.score(d, detailed=True)
    p2 = np.asarray(p2)
    require(np.asarray(y).shape == (n,), "%s: scores have shape %s", what, np.asarray(y).shape)
    require(p2.shape == (n, k) and np.asarray(l2).shape == (n, k), "%s: detailed results have shapes %s, %s", what,
            p2.shape, np.asarray(l2).shape)
    exp_part = lr * part
    exp_part[:, :1] += base
    if exact:
        same(what + ": scores", np.asarray(y, dtype=np.float64), want)
        same(what + ": detailed scores", np.asarray(y2, dtype=np.float64), want)
        same(what + ": contributions", p2.astype(np.float64), exp_part)
    else:
        scale = np.abs(lr * part).sum(axis=1) + abs(base) + 1e-30
        for nm, a, b, s in (("scores", y, want, scale), ("detailed scores", y2, want, scale),
                            ("contributions", p2, exp_part, scale[:, None])):
            a = np.asarray(a, dtype=np.float64)
            bad = ~(np.abs(a - b) <= tol * s)
            require(not bad.any(), "%s: %s differ: got %s expected %s", what, nm, a.tolist(), b.tolist())
    for t in range(k):
        paths = model_leaf_paths(m, t)
        for r in range(n):
            leaf = int(np.asarray(l2)[r, t])
            w = leaf_path(spec["trees"][t], ds["X"][r], strict)
            require(paths.get(leaf) == w, "%s: row %d %s of tree %d ends in leaf %s (path %s) instead of path %s",
                    what, r, ds["X"][r], t, leaf, paths.get(leaf), w)


def labels(case, note):
    m = case["model"]
    ls = [M.n_leaves(t) for t in m["trees"]]
    if 1 in ls:
        note("single-leaf tree")
    if len(set(ls)) > 1:
        note("trees of different size")
    if len(ls) > 1:
        note("several trees")
    hs = [M.height(t) for t in m["trees"]]
    if max(hs) >= 3:
        note("height>=3")
    ths = {np.float32(x[2]) for t in m["trees"] for x in M.nodes(t) if x[0] == "S"}
    if "ds" in case and any(np.float32(v) in ths for r in case["ds"]["X"] for v in r):
        note("value equal to a threshold")
    return len(ls) > 1 and max(ls) > 1


# ------------------------------------------------------------ larger models
def grown(fmts):
    return G.picked(grown_from, fmts)


def grown_from(pick, fmts):
    """Parameters of a larger model, made by grow() from a seed."""
    return dict(seed=pick.int(0, 2**24), k=pick([1, 2, 9, 10, 11, 40, 99, 128, 129, 260, 1001, 2500]), leaves=pick([2, 7, 31, 64, 129, 300, 2000, 12000, 33500]),
                cap=pick([600, 3000, 3000, 12000, 12000, 40000]), m=pick.int(1, 300), n=pick.int(1, 30), shape=pick(["any", "any", "balanced", "mixed"]),
                keep=pick(["leaves", "trees", "any"]), fmt=pick(fmts))


def grow(c):
    """(model, dataset): exact sums, values on and around the thresholds."""
    rs = np.random.RandomState(c["seed"])
    th = np.unique(rs.randint(-40, 40, 12)) / 4.0
    k, leaves = c["k"], c["leaves"]
    if leaves > 32768:                       # children beyond 16 bits
        k = min(k, 2)
        c = dict(c, cap=70000, n=min(c["n"], 10))
    while k * leaves > c["cap"]:             # keep the trees, or the leaves
        if c["keep"] == "leaves" and k > 1:
            k = (k + 1) // 2
        elif c["keep"] == "trees" and leaves > 2:
            leaves = max(2, leaves // 2)
        elif k > 1 and (leaves < 3 or rs.rand() < .5):
            k = (k + 1) // 2
        else:
            leaves = max(2, leaves // 2)

    def tree(n):
        root = ["L", float(rs.randint(-64, 65)) / 8]
        ls = [root]
        while len(ls) < n:
            i = 0 if c["shape"] == "balanced" else rs.randint(len(ls))
            x = ls.pop(i)
            l, r = ["L", float(rs.randint(-64, 65)) / 8], ["L", float(rs.randint(-64, 65)) / 8]
            x[:] = ["S", int(rs.randint(c["m"])), float(rs.choice(th)), l, r]
            ls += [l, r]
        return root
    trees = [tree(1 if c["shape"] == "mixed" and rs.rand() < .3 else leaves) for _ in range(k)]
    w = [float(v) for v in rs.choice([1.0, 0.5, -1.0, 2.0], k)]
    X = [[float(v) for v in r] for r in np.where(rs.rand(c["n"], c["m"]) < .7, rs.choice(th, (c["n"], c["m"])), rs.randint(-44, 44, (c["n"], c["m"])) / 4.0 + 0.125)]
    sizes = [c["n"]] if c["n"] < 3 else [2, c["n"] - 2]
    return dict(trees=trees, weights=w), dict(X=X, y=[float(v) for v in rs.randint(0, 5, c["n"])], sizes=sizes, ids=list(range(1, 1 + len(sizes))))


def load_grown(c):
    """The loaded model, its plain-data form, the dataset, and how to compare."""
    from checks import c13
    spec, ds = grow(c)
    m = c13.load(dict(model=spec, fmt=c["fmt"], base=0.0, lr=1.0))
    return m, spec, ds, dict(weights=c["fmt"] in ("QuickRank", "Jforests"), strict=c["fmt"] == "XGBoost")


def check_grown(c, note):
    m, spec, ds, how = load_grown(c)
    compare_structure(c["fmt"], m, spec, weights=how["weights"], thresholds=not how["strict"])
    compare_scoring(c["fmt"], m, spec, ds, strict=how["strict"], weights=how["weights"])
    nn = sum(len(M.nodes(t)) for t in spec["trees"])
    note("%s trees" % ("1" if len(spec["trees"]) == 1 else "2-100" if len(spec["trees"]) <= 100 else "more than 100"))
    if nn > 32767:
        note("more than 32767 nodes")
    big = max(M.n_leaves(t) for t in spec["trees"])
    if big > 4096:
        note("a tree of more than 4096 leaves")
    return nn > 255


# ------------------------------------------------------------ files rewritten
def files_of(fmts):
    """Several models loaded one after another, under few file names."""
    def make(pick):
        out = []
        for _ in range(pick.int(2, 4)):
            c = grown_from(pick, fmts)
            c.update(k=pick.int(1, 5), leaves=pick([1, 2, 3, 6]), cap=60, m=pick.int(1, 5), n=pick.int(1, 4), name=pick.int(0, 1), limit=pick([None, None, 1, 2, 7]), lr=pick([1, 0.5]))
            out.append(c)
        if pick.bool():                        # files that differ in one number only
            out[1] = dict(out[0], alter=1 + pick.int(0, 3), name=out[0]["name"], limit=pick([out[0]["limit"], None, 1]))
        return dict(steps=out)
    return G.picked(make)


def check_files(c, note):
    """The content of a file when it is loaded is what counts; models loaded
    before stay as they are."""
    import os
    from checks import c13
    from rankeval.model import RTEnsemble
    kept, paths = [], set()
    for i, s in enumerate(c["steps"]):
        spec, ds = grow(s)
        if s.get("alter"):
            t = spec["trees"][s["alter"] % len(spec["trees"])]
            x = [n for n in M.nodes(t) if n[0] == "L"][0]
            x[1] = float(int(x[1] * 8) // 8 + 1)
        text, kw = c13.text_of(dict(model=spec, fmt=s["fmt"], base=0.0, lr=s["lr"]))
        p = "model%d%s" % (s["name"], ".mlmodel" if s["fmt"] == "CatBoost" else ".txt")
        again = p in paths
        paths.add(p)
        with open(p, "wb") as fh:
            fh.write(text if isinstance(text, bytes) else text.encode())
        lr = s["lr"]
        m = RTEnsemble(p, format=s["fmt"], n_trees=s["limit"], **kw)
        n = min(s["limit"] or len(spec["trees"]), len(spec["trees"]))
        spec = dict(trees=spec["trees"][:n], weights=spec["weights"][:n])
        weights, strict = s["fmt"] in ("QuickRank", "Jforests"), s["fmt"] == "XGBoost"
        what = "file %d (%s%s)" % (i, s["fmt"], ", name used before" if again else "")
        compare_structure(what, m, spec, weights=weights, thresholds=not strict)
        compare_scoring(what, m, spec, ds, strict=strict, weights=weights, lr=lr)
        kept.append((what, m, spec, ds, dict(strict=strict, weights=weights, lr=lr)))
    for what, m, spec, ds, how in kept:
        what += ", after the other loads"
        compare_structure(what, m, spec, weights=how["weights"], thresholds=not how["strict"])
        compare_scoring(what, m, spec, ds, **how)
    for p in paths:
        os.unlink(p)
    note("name used again" if len(paths) < len(c["steps"]) else "different names")
    return len(paths) < len(c["steps"])
