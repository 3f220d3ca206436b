"""Tree ensembles as plain data: writers for every format the library loads, a
reference evaluator, and the extraction of the same plain data from a loaded
model through its documented attributes."""
import itertools
import os
import sys

import numpy as np

sys.setrecursionlimit(20000)
_n = itertools.count()


def tmpname(ext=""):
    return os.path.join(os.getcwd(), "f%d%s" % (next(_n), ext))


# ------------------------------------------------------------ plain-data trees
def is_leaf(t):
    return t[0] == "L"


def nodes(t):
    """All nodes, parents first (iterative)."""
    out, stack = [], [t]
    while stack:
        x = stack.pop()
        out.append(x)
        if not is_leaf(x):
            stack.extend([x[4], x[3]])
    return out


def n_leaves(t):
    return sum(is_leaf(x) for x in nodes(t))


def height(t):
    h, stack = 0, [(t, 0)]
    while stack:
        x, d = stack.pop()
        h = max(h, d)
        if not is_leaf(x):
            stack.extend([(x[3], d + 1), (x[4], d + 1)])
    return h


def max_feature(model):
    return max([x[1] for t in model["trees"] for x in nodes(t) if not is_leaf(x)] or [-1])


def positions(t):
    """{(level, index in the level): is_leaf}"""
    out, stack = {}, [(t, 0, 0)]
    while stack:
        x, d, i = stack.pop()
        out[(d, i)] = is_leaf(x)
        if not is_leaf(x):
            stack.extend([(x[3], d + 1, 2 * i), (x[4], d + 1, 2 * i + 1)])
    return out


def route(t, x, strict=False):
    """The leaf reached by row x (single precision comparisons)."""
    while not is_leaf(t):
        v, th = np.float32(x[t[1]]), np.float32(t[2])
        t = t[3] if (v < th if strict else v <= th) else t[4]
    return t


def contributions(model, X, strict=False):
    """Rows x trees, double precision, whole columns of rows at once."""
    part = np.zeros((len(X), len(model["trees"])))
    X = np.asarray(X, dtype=np.float32)
    for k, (t, w) in enumerate(zip(model["trees"], model["weights"])):
        stack = [(t, np.arange(len(X)))]
        while stack:
            x, rows = stack.pop()
            if not len(rows):
                continue
            if x[0] == "L":
                part[rows, k] = np.float64(np.float32(x[1])) * np.float64(np.float32(w))
            else:
                v, th = X[rows, x[1]], np.float32(x[2])
                left = v < th if strict else v <= th
                stack += [(x[3], rows[left]), (x[4], rows[~left])]
    return part


def score(model, X, strict=False, base=0.0, lr=1.0):
    """(scores, partial) in double precision."""
    if len(X) * len(model["trees"]) > 300:
        part = contributions(model, X, strict)
    else:
        part = np.array([[np.float64(np.float32(w)) * np.float64(np.float32(route(t, x, strict)[1]))
                          for t, w in zip(model["trees"], model["weights"])] for x in X], dtype=np.float64)
        part = part.reshape(len(X), len(model["trees"]))
    return base + lr * part.sum(axis=1), part


def normal(t, fl=np.float32):
    """Copy of a tree with every number as the nearest single-precision one."""
    if is_leaf(t):
        return ["L", float(fl(t[1]))]
    return ["S", int(t[1]), float(fl(t[2])), normal(t[3], fl), normal(t[4], fl)]


# ------------------------------------------------------------ extraction
def extract(m, value=float):
    """Plain-data form of a loaded model, through the public attributes."""
    out = []
    for i in range(int(m.n_trees)):
        seen = set()

        def node(k):
            k = int(k)
            if k in seen or not 0 <= k < int(m.n_nodes):
                raise ValueError("tree %d: node %d is out of range or has two parents" % (i, k))
            seen.add(k)
            l, r = int(m.trees_left_child[k]), int(m.trees_right_child[k])
            if l == -1 and r == -1:
                return ["L", float(m.trees_nodes_value[k])]
            return ["S", int(m.trees_nodes_feature[k]), float(m.trees_nodes_value[k]), node(l), node(r)]
        out.append(node(m.trees_root[i]))
    return dict(trees=out, weights=[float(w) for w in m.trees_weight])


# ------------------------------------------------------------ number notations
def num(x, style=0):
    """A decimal text denoting exactly (as a float32) the number x."""
    with np.errstate(over="ignore"):
        f = np.float32(x)
    if np.isinf(f):                            # a number without a single-precision counterpart
        return repr(float(x))
    if style == 1:
        return "%.9g" % f
    if style == 2:
        return "%.17g" % float(f)
    if style == 3:
        return "%.9e" % f
    return repr(float(f))


# ------------------------------------------------------------ QuickRank
def quickrank(model, style=0, right_first=False, pretty=True, info=True, ids=None):
    nl, tab = ("\n", "\t") if pretty else ("", "")
    out = ["<ranker>"]
    if info:
        out.append("<info>%s<type>LAMBDAMART</type><trees>%d</trees><leaves>10</leaves><shrinkage>0.1</shrinkage>"
                   "<leafsupport>1</leafsupport><discretization>0</discretization><estop>100</estop></info>" %
                   (nl, len(model["trees"])))
    out.append("<ensemble>")
    for i, (t, w) in enumerate(zip(model["trees"], model["weights"])):
        out.append('<tree id="%d" weight="%s">' % (ids[i] if ids else i + 1, num(w, style)))
        # (text | node, depth, pos)
        stack = [(t, 1, None)]
        while stack:
            x, d, pos = stack.pop()
            if isinstance(x, str):
                out.append(x)
                continue
            out.append(tab * d + ("<split>" if pos is None else '<split pos="%s">' % pos))
            if is_leaf(x):
                out.append(tab * d + "<output> %s </output>" % num(x[1], style))
                out.append(tab * d + "</split>")
            else:
                out.append("%s<feature> %d </feature>%s<threshold> %s </threshold>" % (
                    tab * d, x[1] + 1, nl, num(x[2], style)))
                kids = [(x[3], d + 1, "left"), (x[4], d + 1, "right")]
                if right_first:
                    kids.reverse()
                stack.append((tab * d + "</split>", 0, 0))
                stack.extend(reversed(kids))
        out.append("</tree>")
    out += ["</ensemble>", "</ranker>"]
    return nl.join(out) + nl


# ------------------------------------------------------------ LightGBM, Jforests
def arrays(t, order="pre"):
    """Split nodes and leaves numbered separately, as LightGBM and Jforests do:
    children >= 0 are splits, -1-k is leaf k."""
    splits, leaves = [], []
    if is_leaf(t):
        return dict(feature=[], threshold=[], left=[], right=[], leaf=[t[1]])
    queue, idx = [t], {}
    while queue:
        x = queue.pop(0 if order == "bfs" else -1)
        if is_leaf(x):
            idx[id(x)] = -1 - len(leaves)
            leaves.append(x)
        else:
            idx[id(x)] = len(splits)
            splits.append(x)
            queue.extend([x[3], x[4]] if order != "pre" else [x[4], x[3]])
    return dict(feature=[x[1] for x in splits], threshold=[x[2] for x in splits],
                left=[idx[id(x[3])] for x in splits], right=[idx[id(x[4])] for x in splits],
                leaf=[x[1] for x in leaves])


def _fresh(t):
    """Deep copy: node identities must be distinct."""
    return ["L", t[1]] if is_leaf(t) else ["S", t[1], t[2], _fresh(t[3]), _fresh(t[4])]


def lightgbm(model, style=0, order="pre", shrinkage="0.1", default_value=False, v3=False):
    """With v3 the sections and lines that later releases of LightGBM add."""
    nf = max_feature(model) + 1
    out = ["tree"] + ["version=v3"] * v3 + ["num_class=1", "num_tree_per_iteration=1", "label_index=0", "max_feature_idx=%d" % max(nf - 1, 0),
           "objective=lambdarank", "feature_names=" + " ".join("Column_%d" % i for i in range(max(nf, 1))),
           "feature_infos=" + " ".join("[0:1]" for i in range(max(nf, 1)))]
    out += ["tree_sizes=" + " ".join("%d" % (300 + i) for i in range(len(model["trees"])))] * v3 + [""]
    for i, t in enumerate(model["trees"]):
        a = arrays(_fresh(t), order)
        n = len(a["feature"])
        out += ["Tree=%d" % i, "num_leaves=%d" % len(a["leaf"]), "num_cat=0",
                "split_feature=" + " ".join(map(str, a["feature"])),
                "split_gain=" + " ".join("%d" % (7 + k) for k in range(n)),
                "threshold=" + " ".join(num(x, style) for x in a["threshold"]),
                "decision_type=" + " ".join(["2"] * n)]
        if default_value:
            out.append("default_value=" + " ".join(["0"] * n))
        out += ["left_child=" + " ".join(map(str, a["left"])), "right_child=" + " ".join(map(str, a["right"])),
                "leaf_value=" + " ".join(num(x, style) for x in a["leaf"]),
                *["leaf_weight=" + " ".join("1.%d" % k for k in range(len(a["leaf"])))] * v3,
                "leaf_count=" + " ".join("%d" % (10 + k) for k in range(len(a["leaf"]))),
                "internal_value=" + " ".join("0.%d" % (k + 1) for k in range(n)),
                *["internal_weight=" + " ".join("2.%d" % k for k in range(n))] * v3,
                "internal_count=" + " ".join("%d" % (20 + k) for k in range(n)), *["is_linear=0"] * v3, "shrinkage=" + shrinkage, "", ""]
    out += ["end of trees"] * v3 + ["", "feature_importances:" if v3 else "feature importances:"] + ["Column_%d=%d" % (i, 3 + i) for i in range(nf)] + [""]
    if v3:
        out += ["parameters:", "[boosting: gbdt]", "[objective: lambdarank]", "[num_leaves: 31]", "[linear_tree: 0]", "[categorical_feature: ]", "end of parameters", "",
                "pandas_categorical:null", ""]
    return "\n".join(out)


def jforests(model, style=0, order="pre"):
    out = ["<Ensemble>"]
    for t, w in zip(model["trees"], model["weights"]):
        a = arrays(_fresh(t), order)
        out += ['\t<Tree type="RegressionTree" weight="%s">' % num(w, style),
                "\t\t<NumLeaves>%d</NumLeaves>" % len(a["leaf"]),
                "\t\t<SplitFeatures>%s</SplitFeatures>" % " ".join(map(str, a["feature"])),
                "\t\t<LeftChildren>%s</LeftChildren>" % " ".join(map(str, a["left"])),
                "\t\t<RightChildren>%s</RightChildren>" % " ".join(map(str, a["right"])),
                "\t\t<Thresholds>%s</Thresholds>" % " ".join("%d" % (k + 3) for k in range(len(a["threshold"]))),
                "\t\t<OriginalThresholds>%s</OriginalThresholds>" % " ".join(num(x, style) for x in a["threshold"]),
                "\t\t<LeafOutputs>%s</LeafOutputs>" % " ".join(num(x, style) for x in a["leaf"]), "\t</Tree>"]
    return "\n".join(out + ["</Ensemble>"]) + "\n"


# ------------------------------------------------------------ XGBoost, scikit-learn
def booster(model, op, style=0, numbering="bfs", stats=False, header="", tail=True, leaf_style=None):
    """The indented dump of XGBoost (op '<', numbering of any kind) and of the
    scikit-learn exporter (op '<=', preorder numbering)."""
    out = []
    for i, t in enumerate(model["trees"]):
        t = _fresh(t)
        ids = {}
        if numbering == "pre":
            for k, x in enumerate(nodes(t)):
                ids[id(x)] = k
        elif numbering == "bfs":
            q = [t]
            for x in q:
                ids[id(x)] = len(ids)
                if not is_leaf(x):
                    q += [x[3], x[4]]
        else:                                   # heap: gaps in the numbering
            stack = [(t, 0)]
            while stack:
                x, k = stack.pop()
                ids[id(x)] = k
                if not is_leaf(x):
                    stack += [(x[3], 2 * k + 1), (x[4], 2 * k + 2)]
        feats = sorted({x[1] for x in nodes(t) if not is_leaf(x)})
        out.append("booster[%d]%s:" % (i, " [%s]" % " ".join("f%d" % f for f in feats) if op == "<=" else header))
        stack = [(t, 0 if op == "<" else 1)]
        while stack:
            x, d = stack.pop()
            if is_leaf(x):
                out.append("%s%d:leaf=%s%s" % ("\t" * d, ids[id(x)], num(x[1], style if leaf_style is None else
                                                                         leaf_style), ",cover=3.5" if stats else ""))
            else:
                s = "%s%d:[f%d%s%s]" % ("\t" * d, ids[id(x)], x[1], op, num(x[2], style))
                if op == "<":
                    l, r = ids[id(x[3])], ids[id(x[4])]
                    s += " yes=%d,no=%d,missing=%d" % (l, r, l)
                    if stats:
                        s += ",gain=12.5,cover=31"
                out.append(s)
                stack += [(x[4], d + 1), (x[3], d + 1)]
    return "\n".join(out) + ("\n" if tail else "")


# ------------------------------------------------------------ CatBoost (CoreML)
def catboost(model, le_nodes=False):
    """Leaves first, then the levels upwards, the root having the highest id.
    Branches are 'greater than' (right child = true child)."""
    from coremltools.proto import Model_pb2, TreeEnsemble_pb2 as T
    m = Model_pb2.Model()
    m.specificationVersion = 1
    d = m.description
    for k in range(max(max_feature(model) + 1, 1)):
        i = d.input.add()
        i.name = "feature_%d" % k
        i.type.doubleType.SetInParent()
    o = d.output.add()
    o.name = "prediction"
    o.type.multiArrayType.shape.append(1)
    o.type.multiArrayType.dataType = 65600
    d.predictedFeatureName = "prediction"
    te = m.treeEnsembleRegressor.treeEnsemble
    te.numPredictionDimensions = 1
    te.basePredictionValue.append(0)
    B = T.TreeEnsembleParameters.TreeNode
    for tid, t in enumerate(model["trees"]):
        t = _fresh(t)
        level, order = [t], []
        while level:
            order.append(level)
            level = [c for x in level if not is_leaf(x) for c in (x[3], x[4])]
        flat = [x for lv in order for x in lv if is_leaf(x)]
        flat += [x for lv in reversed(order) for x in lv if not is_leaf(x)]
        ids = {id(x): k for k, x in enumerate(flat)}
        for k, x in enumerate(flat):
            nd = te.nodes.add()
            nd.treeId, nd.nodeId = tid, k
            if is_leaf(x):
                nd.nodeBehavior = B.LeafNode
                e = nd.evaluationInfo.add()
                e.evaluationIndex, e.evaluationValue = 0, x[1]
            else:
                nd.branchFeatureIndex, nd.branchFeatureValue = x[1], x[2]
                if le_nodes and k % 2:
                    nd.nodeBehavior = B.BranchOnValueLessThanEqual
                    nd.trueChildNodeId, nd.falseChildNodeId = ids[id(x[3])], ids[id(x[4])]
                else:
                    nd.nodeBehavior = B.BranchOnValueGreaterThan
                    nd.falseChildNodeId, nd.trueChildNodeId = ids[id(x[3])], ids[id(x[4])]
    return m


# ------------------------------------------------------------ loading
def write(text, ext=".txt"):
    p = tmpname(ext)
    with open(p, "wb") as fh:
        fh.write(text if isinstance(text, bytes) else text.encode())
    return p


def load(text, fmt, **kw):
    from rankeval.model import RTEnsemble
    p = write(text, ".mlmodel" if fmt == "CatBoost" else ".txt")
    try:
        return RTEnsemble(p, format=fmt, **kw)
    finally:
        os.unlink(p)


def build(model, fmt="QuickRank", **kw):
    """A loaded model with the given trees; weights only where the format has
    them (QuickRank and Jforests)."""
    if fmt == "QuickRank":
        text = quickrank(model)
    elif fmt == "Jforests":
        text = jforests(model, order="bfs")
    elif fmt == "LightGBM":
        text = lightgbm(model, order="bfs")
    elif fmt == "ScikitLearn":
        text = booster(model, "<=", 2, "pre")
    else:
        raise ValueError(fmt)
    return load(text, fmt, **kw)


def dataset(ds, name=None, dtype=np.float32, order="C"):
    from rankeval.dataset import Dataset
    X = np.array(ds["X"], dtype=dtype, order=order)
    if X.ndim == 1:
        X = X.reshape(len(ds["y"]), -1)
    y = np.array(ds["y"], dtype=np.float32)
    q = np.array([i for s, i in zip(ds["sizes"], ds["ids"]) for _ in range(s)], dtype=np.int64)
    return Dataset(X, y, q, name=name)
