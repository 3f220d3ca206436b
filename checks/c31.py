"""DOT export: the text is parsed back and compared with the tree."""
import io
import os
import re

import numpy as np
from hypothesis import strategies as st

from checks import c13, c15
from lib import gen as G, models as M, modelcheck as MC
from lib.core import Check, require, same, raises, fail

QUICK = 1                                     # times the numbers of cases below
NEEDS = ("dataset", "scoring", "analysis")
NAMES = ["BM25", "page rank", "tf", "idf_body", "len", "x6", "x7"]

OPTIONS = dict(max_depth=[0, 1, 2, 3, 20, None], highlight_leaves=[True, False], leaves_parallel=[True, False], node_ids=[True, False],
               rounded=[True, False], proportion=[True, False], special_characters=[True, False], precision=[0, 1, 3, 6, 10],
               label=["all", "leaves"], label_show=[True, False])


@st.composite
def case(draw, max_leaves=10):
    nf = draw(st.integers(1, 4))
    vals = [0.5, 1.0, -2.25, 100.0, 0.0, 1234.5, 0.000625, -0.1, 1 / 3.0, 65536.0]
    th = [G.f32(v) for v in draw(st.lists(st.sampled_from(vals), min_size=1, max_size=4))]
    ou = [G.f32(v) for v in draw(st.lists(st.sampled_from(vals), min_size=1, max_size=4))]
    model = draw(G.ensembles(4, max_leaves, nf, th, ou))
    n = len(model["trees"])
    pool = G.near(th) + [0.0]
    ds = draw(G.datasets(3, 5, nf, nf, pool))
    o = {}
    for k in sorted(OPTIONS):
        if draw(st.booleans()):
            o[k] = draw(st.sampled_from(OPTIONS[k]))
    return dict(model=model, ds=ds, fmt=draw(st.sampled_from(c13.FORMATS)), base=None, lr=1, opt=o, tree=draw(st.integers(0, n - 1)),
                names=draw(st.sampled_from([None, None, "exact", "more"])), leaves=draw(st.booleans()),
                out=draw(st.sampled_from(["string", "string", "path", "file"])), explicit=draw(st.booleans()),
                over=draw(st.booleans()))


def export(m, c, kw):
    from rankeval.visualization.topological import export_graphviz
    kw = dict(kw)
    if c["tree"] or c["explicit"]:
        kw["tree_id"] = c["tree"]
    if c["out"] == "string":
        return export_graphviz(m, **kw)
    if c["out"] == "file":
        f = io.StringIO()
        r = export_graphviz(m, out_file=f, **kw)
        require(r is None, "something returned (%r) besides the file written", r)
        return f.getvalue()
    p = M.tmpname(".dot")
    try:
        if c.get("over", c["tree"] % 2):         # a file already there is replaced
            with open(p, "w") as f:
                f.write("digraph Old {\n" * 9999)
        r = export_graphviz(m, out_file=p, **kw)
        require(r is None, "something returned (%r) besides the file written", r)
        with open(p, encoding="utf-8") as f:
            return f.read()
    finally:
        if os.path.exists(p):
            os.unlink(p)


NODE = re.compile(r'^(\d+) \[(.*)\] ?;?$')
EDGE = re.compile(r'^(\d+) -> (\d+) ?(?:\[(.*)\])? ?;?$')
RANK = re.compile(r'^\{ ?rank=same ?;(.*)\} ?;?$')


def parse(text):
    lines = [l.strip() for l in text.strip().splitlines() if l.strip()]
    require(lines and lines[0].startswith("digraph") and lines[-1] == "}", "not a digraph: %r", text[:200])
    nodes, edges, ranks = {}, [], []
    for l in lines[1:-1]:
        if re.match(r"^(node|graph|edge) \[", l):
            continue
        r, e, n = RANK.match(l), EDGE.match(l), NODE.match(l)
        if r:
            ranks.append([int(x) for x in r.group(1).split(";") if x.strip()])
        elif e:
            edges.append((int(e.group(1)), int(e.group(2)), e.group(3) or ""))
        elif n:
            i = int(n.group(1))
            require(i not in nodes, "node %d is drawn twice", i)
            a = re.search(r'label=("(?:[^"\\]|\\.)*"|<.*?>(?=,|$))', n.group(2))
            if not a:
                a = re.search(r'label=(<.*>)', n.group(2))
            require(a, "node without a label: %r", l)
            col = re.search(r'fillcolor="([^"]*)"', n.group(2))
            nodes[i] = (a.group(1), col.group(1) if col else None)
        else:
            fail("not understood: %r", l)
    return nodes, edges, ranks


def lines_of(label):
    if label[0] == "<":
        s = label[1:-1].replace("&#35;", "#").replace("&le;", "<=").replace("&#37;", "%")
        s = re.sub(r'<FONT[^>]*><SUB>', "[", s).replace("</SUB></FONT>", "]")
        return [x.strip() for x in s.split("<br/>")]
    return [x.strip() for x in label[1:-1].split("\\n")]


def counts_of(t, X):
    """Documents that reached each node, by identity of the node."""
    cnt = {}
    for x in X:
        n = t
        while True:
            cnt[id(n)] = cnt.get(id(n), 0) + 1
            if n[0] == "L":
                break
            n = n[3] if np.float32(x[n[1]]) <= np.float32(n[2]) else n[4]
    return cnt


def number(what, text, v, precision):
    try:
        x = float(text)
    except ValueError:
        fail("%s: %r is not a number", what, text)
    require(abs(x - v) <= 0.5000001 * 10.0 ** -precision + 3e-7 * abs(v), "%s: %s instead of %r", what, text, v)
    require(abs(x - round(x, precision)) <= 3e-7 * abs(x), "%s: %s has more than %d decimals", what, text, precision)


def check(c, note):
    m = c13.load(c)
    o = dict(c["opt"])
    strict = c["fmt"] == "XGBoost"
    t = c["model"]["trees"][c["tree"]]
    nf = M.max_feature(c["model"]) + 1
    kw = dict(o)
    names = None
    if c["names"]:
        every = NAMES if nf < 6 else ["feature number %d" % (7 * i % 1009) for i in range(nf + 3)]
        names = every[:nf] if c["names"] == "exact" else every
        kw["feature_names"] = list(names)
    cnt = None
    if c["leaves"]:
        y, part, leaves = m.score(M.dataset(c["ds"]), detailed=True)
        kw["output_leaves"] = leaves
        saved = leaves.copy()
    before = c13.snapshot(m)
    text = export(m, c, kw)
    after = c13.snapshot(m)
    for a in c13.ARRAYS:
        same("%s after exporting" % a, after[0][a], before[0][a])
    require(before[1] == after[1], "exporting changed %s to %s", before[1], after[1])
    if c["leaves"]:
        same("leaves after exporting", leaves, saved)
    require(isinstance(text, str), "exporting returned %r", text)
    nodes, edges, ranks = parse(text)
    kids = {}
    for a, b, attr in edges:
        require(a in nodes and b in nodes, "edge %d -> %d between nodes not drawn", a, b)
        kids.setdefault(a, []).append((b, attr))
    precision = o.get("precision", 3)
    show, label = o.get("label_show", False) and c["leaves"], o.get("label", "all")
    drawn = [0]
    root = int(m.trees_root[c["tree"]])
    require(root in nodes, "the root (node %d) is not drawn: %s", root, sorted(nodes))
    leaf_ids = []
    if c["leaves"]:
        # counted on the plain-data tree (strict comparisons where the format has them)
        cnt = {}
        for x in c["ds"]["X"]:
            n = t
            while True:
                cnt[id(n)] = cnt.get(id(n), 0) + 1
                if n[0] == "L":
                    break
                a, b = np.float32(x[n[1]]), np.float32(n[2])
                n = n[3] if (a < b if strict else a <= b) else n[4]
    stack = [(t, root, 0)]
    while stack:
        x, i, d = stack.pop()
        drawn[0] += 1
        require(i in nodes, "node %d is not drawn", i)
        text_i, color = nodes[i]
        what = "node %d at depth %d (%s)" % (i, d, text_i)
        ch = kids.get(i, [])
        if o.get("max_depth") is not None and d > o["max_depth"]:
            require(lines_of(text_i) == ["(...)"], "%s: not the cut-off marker", what)
            require(not ch, "%s: cut off, but with children", what)
            leaf_ids.append(i)
            note("cut off")
            continue
        ls = lines_of(text_i)
        if o.get("node_ids"):
            require(ls and ls[0] == "node #%d" % i, "%s: no node id", what)
            ls = ls[1:]
        if show and (label == "all" or x[0] == "L"):
            require(ls and ls[0].startswith("counts = "), "%s: no counts", what)
            k = ls[0][len("counts = "):].split()
            require(int(k[0]) == cnt.get(id(x), 0), "%s: counts %s instead of %d", what, k[0], cnt.get(id(x), 0))
            require((len(k) > 1) == bool(o.get("proportion")), "%s: percentage", what)
            if len(k) > 1 and label == "all":
                q = float(k[1].strip("()%"))
                require(abs(q - 100.0 * cnt.get(id(x), 0) / len(c["ds"]["X"])) < 0.006, "%s: %s instead of %d of %d documents", what, k[1],
                        cnt.get(id(x), 0), len(c["ds"]["X"]))
            ls = ls[1:]
            note("counts shown")
        require(len(ls) == 1, "%s: lines %s", what, ls)
        if x[0] == "L":
            require(ls[0].startswith("output = "), "%s: no output", what)
            number(what, ls[0][len("output = "):], x[1], precision)
            require(not ch, "%s: a leaf with children", what)
            leaf_ids.append(i)
        else:
            parts = re.split(r"\s*<=\s*", ls[0])
            require(len(parts) == 2, "%s: not a test", what)
            want = names[x[1]] if names else "f[%d]" % x[1]
            require(parts[0].strip() == want, "%s: tests %r instead of %r", what, parts[0], want)
            number(what, parts[1], x[2], precision)
            require(len(ch) == 2, "%s: %d children", what, len(ch))
            l, r = int(m.trees_left_child[i]), int(m.trees_right_child[i])
            require([k for k, _ in ch] == [l, r], "%s: children %s instead of %s", what, ch, [l, r])
            if i == root and not (o.get("max_depth") == 0):
                require("True" in ch[0][1] and "False" in ch[1][1], "%s: edges labelled %s", what, ch)
            stack += [(x[4], r, d + 1), (x[3], l, d + 1)]
        if c["leaves"] or o.get("highlight_leaves"):
            require(color is not None and re.match(r"^#[0-9a-fA-F]{6,8}$", color), "%s: colour %r", what, color)
    require(drawn[0] == len(nodes) and len(edges) == len(nodes) - 1, "%d nodes and %d edges drawn for %d nodes", len(nodes), len(edges), drawn[0])
    if o.get("leaves_parallel"):
        every = sorted(x for r in ranks for x in r)
        require(every == sorted(nodes), "ranks %s do not hold every node once", ranks)
        require(any(sorted(r) == sorted(leaf_ids) for r in ranks), "leaves %s are not on a rank of their own: %s", leaf_ids, ranks)
        note("leaves parallel")
    else:
        require(not ranks, "ranks without leaves_parallel")
    for k in o:
        note("option " + k)
    if names:
        note("feature names")
    if c["tree"]:
        note("not the first tree")
    return len(nodes) > 3 and len(o) > 0


@st.composite
def bad(draw):
    c = draw(case())
    c["wrong"] = draw(st.sampled_from(["tree", "tree", "names", "names", "precision", "label"]))
    c["by"] = draw(st.integers(0, 3))
    return c


def check_refused(c, note):
    from rankeval.visualization.topological import export_graphviz
    m = c13.load(c)
    before = c13.snapshot(m)
    kw, n = dict(c["opt"]), len(c["model"]["trees"])
    nf = M.max_feature(c["model"]) + 1
    w = c["wrong"]
    kw["tree_id"] = c["tree"]
    if w == "tree":
        kw["tree_id"] = n + c["by"]
    elif w == "names":
        if nf < 1:
            return False
        kw["feature_names"] = NAMES[:max(nf - 1 - c["by"], 0)]
    elif w == "precision":
        kw["precision"] = [-1, 2.5, "3", None][c["by"]]
    else:
        kw["label"] = ["none", "root", "", "All"][c["by"]]
        kw["output_leaves"] = m.score(M.dataset(c["ds"]), detailed=True)[2]
    raises("export with a wrong %s (%r)" % (w, {k: v for k, v in kw.items() if k != "output_leaves"}), (ValueError,), export_graphviz, m, **kw)
    after = c13.snapshot(m)
    for a in c13.ARRAYS:
        same("%s after a refused export" % a, after[0][a], before[0][a])
    note("wrong " + w)
    return True


def grown_from(pick):
    """Larger models and trees: late trees, node ids above 32767."""
    c = MC.grown_from(pick, c13.FORMATS)
    opt = {k: pick(v) for k, v in sorted(OPTIONS.items()) if pick.bool()}
    if pick.bool():
        opt["label_show"], c["cap"] = True, pick([c["cap"], 40000])
    return dict(c=c, tree=pick([0, 0.5, 0.999999, 0.999999]), opt=opt,
                names=pick([None, "exact", "more"]), leaves=pick([True, True, False]), out=pick(["string", "path", "file"]))


def check_grown(c, note):
    spec, ds = MC.grow(dict(c["c"], n=max(c["c"]["n"], 5) * 10, leaves=min(c["c"]["leaves"], 12000)))
    check(dict(model=spec, ds=ds, fmt=c["c"]["fmt"], base=None, lr=1, opt=c["opt"], tree=int(c["tree"] * len(spec["trees"])), names=c["names"],
               leaves=c["leaves"], out=c["out"], explicit=True), note)
    nn = sum(len(M.nodes(t)) for t in spec["trees"])
    if nn > 32767:
        note("more than 32767 nodes")
    return nn > 255


@st.composite
def vast(draw):
    o = {k: draw(st.sampled_from(OPTIONS[k])) for k in sorted(OPTIONS) if k not in ("label_show", "max_depth") and draw(st.booleans())}
    return dict(seed=draw(st.integers(0, 2**31 - 1)), n=draw(st.sampled_from([17000, 33000, 66001])), leaves=draw(st.sampled_from([1, 2, 3, 5])), opt=dict(o, label_show=True))


def check_vast(c, note):
    """Node counts of tens of thousands of documents."""
    rs = np.random.RandomState(c["seed"])
    th = [0.0, 0.5, -8.0, 7.0]
    model = dict(trees=[c15.grow(rs, c["leaves"], 2, th)], weights=[1.0])
    X = (rs.randint(-40, 40, (c["n"], 2)) / 4.0).tolist()
    ds = dict(X=X, y=[0.0] * c["n"], sizes=[c["n"]], ids=[1])
    check(dict(model=model, ds=ds, fmt="QuickRank", base=None, lr=1, opt=c["opt"], tree=0, names=None, leaves=True, out="string", explicit=True), note)
    return c["n"] > 32767


CHECKS = [
    Check("vast", vast(), check_vast, "more than 32767 documents", 10, 200, shards=2),
    Check("grown", G.picked(grown_from), check_grown, "more than 255 nodes", 160, 3000, shards=3),
    Check("export", case(), check, "four nodes or more drawn with some option", 2000, 80000, shards=4),
    Check("deep", case(max_leaves=25), check, "four nodes or more drawn with some option", 300, 12000),
    Check("refused", bad(), check_refused, "always", 400, 12000),
]
