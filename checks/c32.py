"""Plots: the artists drawn hold the values of the analysis result."""
import numpy as np
from hypothesis import strategies as st

from checks import c13, c28
from lib import gen as G, models as M, world as W
from lib.core import Check, require, same, close

NEEDS = ("dataset", "scoring", "analysis")


class Named(object):
    def __init__(self, name):
        self.name = name

    def __str__(self):
        return self.name


VALUES = ["unit", "unit", "signed", "negative", "zero", "large", "tiny", "ties"]


def numbers(c, shape, kind=None):
    rs = np.random.RandomState(c["seed"])
    v = rs.rand(*shape)
    kind = kind or c["values"]
    if kind == "signed":
        v = 2 * v - 1
    elif kind == "negative":
        v = -v
    elif kind == "zero":
        v = v * 0
    elif kind == "large":
        v = v * 1000
    elif kind == "tiny":
        v = v * 1e-4
    elif kind == "ties":
        v = np.round(v * 3) / 4
    if c["nan"] == "some":
        v[rs.rand(*shape) < 0.25] = np.nan
    elif c["nan"] == "slice":
        v[0, 0] = np.nan
    elif c["nan"] == "all":
        v[:] = np.nan
    return v.astype(c["dtype"])


def table(c, dims, sizes, **coords):
    import xarray as xr
    cs = []
    for d, n in zip(dims, sizes):
        cs.append(coords[d] if d in coords else [Named("%s %d" % (d, i)) for i in range(n)])
    a = xr.DataArray(numbers(c, sizes), name="Some analysis", coords=cs, dims=list(dims))
    return a


@st.composite
def base(draw, **extra):
    pick = G.Pick(draw)
    c = dict(nd=pick.int(1, 3), nm=pick.int(1, 3), nk=pick.int(1, 3), n=pick([1, 2, 3, 4, 5, 6, 6, 12, 40, 130, 1200]),
             seed=pick.int(0, 2**24), values=pick(VALUES), nan=pick(["no", "no", "some", "slice", "all"]),
             dtype=pick(["float32", "float64"]), show=pick.bool(), style=pick.bool(), compare=pick.int(0, 5))
    for k, v in extra.items():
        c[k] = pick(v) if isinstance(v, (list, range)) else draw(v)
    return c


class drawing(object):
    """Runs a plotting function; everything it draws must render, and the
    analysis result must come out as it was."""
    def __init__(self, c, data):
        self.c, self.data = c, data

    def __enter__(self):
        from matplotlib import pyplot as plt
        plt.close("all")
        if self.c.get("style"):
            from rankeval.visualization.effectiveness import init_plot_style
            init_plot_style()
        self.before = None if self.data is None else self.data.copy(deep=True)
        return self

    def run(self, f, *a, **k):
        before = set(id(x) for x in self.figures())
        r = f(*a, **k)
        for fig in (r if isinstance(r, list) else [r]):
            fig.canvas.draw()
            require(id(fig) not in before, "%s draws on a figure that already existed", f.__name__)
        if self.data is not None:
            self.unmodified()
        return r

    def figures(self):
        from matplotlib import pyplot as plt
        return [plt.figure(n) for n in plt.get_fignums()]

    def unmodified(self):
        a, b = self.before, self.data
        require(a.dims == b.dims and np.array_equal(a.values, b.values, equal_nan=True) and a.dtype == b.dtype and a.name == b.name and
                all(len(a.coords[d]) == len(b.coords[d]) and all(x is y or x == y for x, y in zip(a.coords[d].values, b.coords[d].values))
                    for d in a.dims), "the plot modified the analysis result")

    def __exit__(self, *a):
        from matplotlib import pyplot as plt
        import matplotlib
        plt.close("all")
        if self.c.get("style"):
            with np.errstate(all="ignore"):
                matplotlib.rcdefaults()
                matplotlib.use("Agg")


def labels_of(axis_labels):
    return [t.get_text() for t in axis_labels]


def bar_panel(what, ax, sets, groups, values, show, legend_ax):
    """sets x groups values drawn as one bar container per set."""
    from matplotlib.container import BarContainer
    cs = [x for x in ax.containers if isinstance(x, BarContainer)]
    require(len(cs) == len(sets), "%s: %d bar sets instead of %d", what, len(cs), len(sets))
    ticks = ax.get_xticks()
    require(labels_of(ax.get_xticklabels()) == [str(g) for g in groups], "%s: groups labelled %s instead of %s", what,
            labels_of(ax.get_xticklabels()), [str(g) for g in groups])
    lo, hi = sorted(ax.get_ylim())
    texts = sorted(((t.get_position()[0], t.get_position()[1], t.get_text()) for t in ax.texts), key=lambda t: t[0])
    left = {}
    for i, cont in enumerate(cs):
        h = np.array([b.get_height() for b in cont], dtype=np.float64)
        same("%s: bars of %s" % (what, sets[i]), h, values[i].astype(np.float64))
        for j, b in enumerate(cont):
            x = b.get_x() + b.get_width() / 2
            require(int(np.argmin(np.abs(ticks - x))) == j, "%s: bar %d of %s stands at %r (groups at %s)", what, j, sets[i], x, ticks.tolist())
            require(x > left.get(j, -1e9), "%s: bars of group %d out of order", what, j)
            left[j] = x
            if np.isfinite(h[j]):
                require(lo - 1e-9 <= h[j] <= hi + 1e-9 and lo <= 1e-9 and hi >= -1e-9, "%s: bar of height %r cut off (axis from %r to %r)", what, h[j], lo, hi)
            if show:
                near = [t for t in texts if abs(t[0] - x) < b.get_width() * 0.25]
                require(len(near) == 1, "%s: %d values at the bar %d of %s", what, len(near), j, sets[i])
                g = float(near[0][2])
                require(np.isnan(g) if np.isnan(h[j]) else abs(g - h[j]) <= 5.1e-4 + 1e-6 * abs(h[j]), "%s: bar of %r labelled %s", what, h[j], near[0][2])
        if not show:
            require(not texts, "%s: values %r shown without asking", what, texts)
    if legend_ax:
        lg = ax.get_legend()
        require(lg is not None and labels_of(lg.get_texts()) == [str(s) for s in sets], "%s: legend %r instead of %s", what,
                lg and labels_of(lg.get_texts()), [str(s) for s in sets])
        for a, cont in zip(lg.legend_handles, cs):
            require(tuple(a.get_facecolor()) == tuple(cont[0].get_facecolor()), "%s: legend colours are not those of the bars", what)


def line_panel(what, ax, names, x, ys, legend_ax, check_names=True, maxima=False, extra=()):
    from matplotlib.colors import to_rgba
    ls = [l for l in ax.lines if l.get_linestyle() not in ("None", "", " ")]
    require(len(ls) == len(names), "%s: %d lines instead of %d", what, len(ls), len(names))
    for n, l, y in zip(names, ls, ys):
        if check_names:
            require(str(l.get_label()) == str(n), "%s: line labelled %r instead of %r", what, l.get_label(), str(n))
        same("%s: abscissae of %s" % (what, n), np.asarray(l.get_xdata(), dtype=np.float64), np.asarray(x, dtype=np.float64))
        close("%s: values of %s" % (what, n), np.asarray(l.get_ydata(), dtype=np.float64), np.asarray(y, dtype=np.float64), rel=1e-6, abs_=1e-12)
    if maxima:
        marks = [l for l in ax.lines if l not in ls and len(l.get_xdata())]
        want = [y for y in ys if not np.isnan(y).all()]
        require(len(marks) == len(want), "%s: %d maxima marked instead of %d", what, len(marks), len(want))
        for l, y in zip(marks, want):
            px, py = float(l.get_xdata()[0]), float(l.get_ydata()[0])
            k = [i for i in range(len(x)) if x[i] == px]
            require(len(k) == 1 and py == float(np.nanmax(y)) == float(y[k[0]]), "%s: maximum marked at %r of %s over %s", what, (px, py), y.tolist(), list(x))
    if legend_ax:
        lg = ax.get_legend()
        t = lg and labels_of(lg.get_texts())
        require(t == [str(n) for n in names] + list(extra), "%s: legend %r", what, t)
        for a, l in zip(lg.legend_handles, ls):
            require(to_rgba(a.get_color()) == to_rgba(l.get_color()), "%s: legend colours are not those of the lines", what)


def sel(a, **k):
    """Values for positions, without going through label lookup."""
    return a.values[tuple(k.get(d, slice(None)) for d in a.dims)]


def coord(a, d):
    return list(a.coords[d].values)


def figs(what, r, n):
    require(isinstance(r, list) and len(r) == n and len({id(f) for f in r}) == n, "%s: %s instead of a list of %d figures", what, type(r), n)
    return r


def verify_model_performance(a, compare, show, d):
    from rankeval.visualization.effectiveness import plot_model_performance
    mo, me = coord(a, "model"), coord(a, "metric")
    r = figs("model performance", d.run(plot_model_performance, a, compare=compare, show_values=show), a.sizes["dataset"])
    for i, f in enumerate(r):
        require(len(f.axes) == 1, "model performance: %d panels", len(f.axes))
        v = sel(a, dataset=i)
        sets, groups, v = (mo, me, v) if compare == "models" else (me, mo, v.T)
        bar_panel("model performance by %s, dataset %d" % (compare, i), f.axes[0], sets, groups, v, show, True)
        require(coord(a, "dataset")[i].name in f.axes[0].get_title(), "title %r without the dataset", f.axes[0].get_title())


def verify_class(a, compare, show, d):
    from rankeval.visualization.effectiveness import plot_query_class_performance
    mo, me = coord(a, "model"), coord(a, "metric")
    r = figs("query class performance", d.run(plot_query_class_performance, a, compare=compare, show_values=show), a.sizes["dataset"])
    for i, f in enumerate(r):
        rows, sets, dim = (me, mo, "metric") if compare == "models" else (mo, me, "model")
        require(len(f.axes) == len(rows), "query class performance: %d panels instead of %d", len(f.axes), len(rows))
        for j, ax in enumerate(f.axes):
            bar_panel("query class performance by %s, dataset %d, %s %d" % (compare, i, dim, j), ax, sets, coord(a, "classes"), sel(a, dataset=i, **{dim: j}),
                      show, j == len(rows) - 1)


def verify_tree_wise(a, compare, d):
    from rankeval.visualization.effectiveness import plot_tree_wise_performance
    k = coord(a, "k")
    outer, panel, line = {"models": ("dataset", "metric", "model"), "metrics": ("dataset", "model", "metric"), "datasets": ("model", "metric", "dataset")}[compare]
    r = figs("tree-wise performance", d.run(plot_tree_wise_performance, a, compare=compare), a.sizes[outer])
    for i, f in enumerate(r):
        require(len(f.axes) == a.sizes[panel], "tree-wise performance: %d panels instead of %d", len(f.axes), a.sizes[panel])
        for j, ax in enumerate(f.axes):
            ys = [sel(a, **{outer: i, panel: j, line: x}) for x in range(a.sizes[line])]
            line_panel("tree-wise performance by %s, %s %d, %s %d" % (compare, outer, i, panel, j), ax, coord(a, line), k, ys, j == a.sizes[panel] - 1,
                       maxima=True, extra=["Max"])
            require(ax.get_ylabel() == str(coord(a, panel)[j]), "panel of %s labelled %r", coord(a, panel)[j], ax.get_ylabel())
        require(f._suptitle is not None and coord(a, outer)[i].name in f._suptitle.get_text(), "figure of %s %d without title", outer, i)


def verify_contribution(a, d):
    from rankeval.visualization.effectiveness import plot_tree_wise_average_contribution
    r = figs("tree contribution", d.run(plot_tree_wise_average_contribution, a), a.sizes["dataset"])
    n = a.sizes["k" if "k" in a.dims else a.dims[-1]]
    for i, f in enumerate(r):
        require(len(f.axes) == a.sizes["model"], "tree contribution: %d panels instead of %d", len(f.axes), a.sizes["model"])
        for j, ax in enumerate(f.axes):
            line_panel("tree contribution, dataset %d, model %d" % (i, j), ax, [coord(a, "model")[j]], np.arange(n), [sel(a, dataset=i, model=j)], True, check_names=False)


def verify_query_wise(a, compare, d):
    from rankeval.visualization.effectiveness import plot_query_wise_performance
    panel, line = ("metric", "model") if compare == "models" else ("model", "metric")
    r = figs("query-wise performance", d.run(plot_query_wise_performance, a, compare=compare), a.sizes["dataset"])
    for i, f in enumerate(r):
        require(len(f.axes) == a.sizes[panel], "query-wise performance: %d panels instead of %d", len(f.axes), a.sizes[panel])
        for j, ax in enumerate(f.axes):
            ys = [sel(a, **{"dataset": i, panel: j, line: x}).astype(np.float64) * 100 for x in range(a.sizes[line])]
            line_panel("query-wise performance by %s, dataset %d, %s %d" % (compare, i, panel, j), ax, coord(a, line), coord(a, "bin"), ys, j == a.sizes[panel] - 1)


def verify_graded(a, d):
    from rankeval.visualization.effectiveness import plot_document_graded_relevance
    r = figs("graded relevance", d.run(plot_document_graded_relevance, a), a.sizes["dataset"])
    for i, f in enumerate(r):
        require(len(f.axes) == a.sizes["model"], "graded relevance: %d panels instead of %d", len(f.axes), a.sizes["model"])
        for j, ax in enumerate(f.axes):
            ys = [sel(a, dataset=i, model=j, label=x) for x in range(a.sizes["label"])]
            line_panel("graded relevance, dataset %d, model %d" % (i, j), ax, ["Label %g" % x for x in coord(a, "label")], coord(a, "bin"), ys,
                       j == a.sizes["model"] - 1, check_names=False)
            t = ax.get_title()
            require(coord(a, "dataset")[i].name in t and coord(a, "model")[j].name in t, "panel titled %r", t)


def verify_confusion(a, d):
    from rankeval.visualization.effectiveness import plot_rank_confusion_matrix
    from matplotlib.collections import QuadMesh
    r = figs("rank confusion", d.run(plot_rank_confusion_matrix, a), a.sizes["dataset"])
    for i, f in enumerate(r):
        require(len(f.axes) == a.sizes["model"], "rank confusion: %d panels instead of %d", len(f.axes), a.sizes["model"])
        for j, ax in enumerate(f.axes):
            q = [x for x in ax.collections if isinstance(x, QuadMesh)]
            require(len(q) == 1, "rank confusion: %d matrices drawn in a panel", len(q))
            m = sel(a, dataset=i, model=j).astype(np.float64)
            g = np.ma.filled(np.ma.asarray(q[0].get_array(), dtype=np.float64), -np.inf).reshape(m.shape)
            what = "rank confusion, dataset %d, model %d" % (i, j)
            if not np.array_equal(g, m):          # on a logarithmic scale
                mm, gg = m.ravel(), g.ravel()
                for x in range(len(mm)):
                    for y in range(len(mm)):
                        require(np.sign(mm[x] - mm[y]) == np.sign(np.nan_to_num(gg[x] - gg[y])), "%s: drawn %s for %s", what, g.tolist(), m.tolist())
            xy = q[0].get_coordinates()
            require(all(xy[u, v, 0] < xy[u, v + 1, 0] and xy[u, v, 1] < xy[u + 1, v, 1] for u in range(len(m)) for v in range(len(m))),
                    "%s: cells out of order", what)
            t = ax.get_title()
            require(coord(a, "dataset")[i].name in t and coord(a, "model")[j].name in t, "panel titled %r", t)
            require(ax.get_ylabel() == "Label i" and ax.get_xlabel() == "Label j", "axes labelled %r and %r", ax.get_xlabel(), ax.get_ylabel())


def verify_importance(a, max_features, sort_by, names, d):
    from rankeval.visualization.feature import plot_feature_importance
    from matplotlib.container import BarContainer
    imp, cnt = a.values[0].astype(np.float64), a.values[1].astype(np.float64)
    k = {} if max_features == "default" else dict(max_features=max_features)
    if sort_by:
        k["sort_by"] = sort_by
    f = d.run(plot_feature_importance, a, feature_names=names, **k)
    n = len(imp) if max_features is None else min(10 if max_features == "default" else max_features, len(imp))
    what = "feature importance (%s, %r of %d features)" % (sort_by, max_features, len(imp))
    require(len(f.axes) == 2, "%s: %d axes", what, len(f.axes))
    got = [np.array([b.get_height() for b in c]) for ax in f.axes for c in ax.containers if isinstance(c, BarContainer)]
    require(len(got) == 2 and len(got[0]) == len(got[1]) == n, "%s: bars %s instead of 2 x %d", what, [len(g) for g in got], n)
    t = [x.strip() for x in labels_of(f.axes[0].get_xticklabels())]
    require(len(t) == n, "%s: labels %r", what, t)
    idx = [names.index(x) for x in t] if names else [int(x) - 1 for x in t]
    require(len(set(idx)) == n, "%s: features %r", what, idx)
    same(what + ": importance", got[0], imp[idx])
    same(what + ": counts", got[1], cnt[idx])
    key = cnt if sort_by == "count" else imp
    require(all(key[idx[i]] >= key[idx[i + 1]] for i in range(n - 1)), "%s: not in decreasing order: %s", what, key[idx].tolist())
    rest = [key[i] for i in range(len(imp)) if i not in idx]
    require(not rest or max(rest) <= key[idx[-1]], "%s: shows %s but not %s", what, key[idx].tolist(), rest)
    ticks = f.axes[0].get_xticks()
    for c in [c for ax in f.axes for c in ax.containers]:
        for j, b in enumerate(c):
            x = b.get_x() + b.get_width() / 2
            require(int(np.argmin(np.abs(ticks - x))) == j, "%s: bar %d far from its label", what, j)
    for g, ax in zip(got, f.axes):
        lo, hi = sorted(ax.get_ylim())
        require(all(lo - 1e-9 <= x <= hi * (1 + 1e-9) + 1e-9 for x in g), "%s: bars %s cut off at %r, %r", what, g.tolist(), lo, hi)
    lg = f.axes[0].get_legend()
    require(lg is not None and labels_of(lg.get_texts()) == ["Importance", "Count"], "%s: legend", what)


def refused(f, *a, **k):
    try:
        f(*a, **k)
    except RuntimeError:
        return
    require(False, "%s accepts %r", f.__name__, k)


def check_tables(c, note):
    from rankeval.visualization import effectiveness as V
    kind = c["kind"]
    note("plot: " + kind)
    dm = ("dataset", "model", "metric")
    sizes = (c["nd"], c["nm"], c["nk"])
    cmp_ = ["models", "metrics"][c["compare"] % 2]
    if kind == "model performance":
        a = table(c, dm, sizes)
        with drawing(c, a) as d:
            verify_model_performance(a, cmp_, c["show"], d)
            if c["compare"] > 4:
                refused(V.plot_model_performance, a, compare="datasets")
    elif kind == "query class":
        c["n"] = min(c["n"], 6)
        cl = [["nav", "inf", "tra", "x", "y", "z"], [1, 2, 3, 10, 20, 30], [0.5, 1.5, 2.5, 3.5, 4.5, 5.5]][c["seed"] % 3][:c["n"]]
        a = table(c, dm + ("classes",), sizes + (c["n"],), classes=cl)
        with drawing(c, a) as d:
            verify_class(a, cmp_, c["show"], d)
            if c["compare"] > 4:
                refused(V.plot_query_class_performance, a, compare="classes")
    elif kind == "tree-wise":
        a = table(c, ("dataset", "model", "k", "metric"), (c["nd"], c["nm"], c["n"], c["nk"]), k=[1 + 5 * i + c["seed"] % 4 for i in range(c["n"])])
        with drawing(c, a) as d:
            verify_tree_wise(a, ["models", "metrics", "datasets"][c["compare"] % 3], d)
            if c["compare"] > 4:
                refused(V.plot_tree_wise_performance, a, compare="k")
    elif kind == "contribution":
        c["n"] = min(c["n"], 130)
        a = table(c, ("dataset", "model", "trees"), (c["nd"], c["nm"], c["n"]), trees=np.arange(c["n"]))
        with drawing(c, a) as d:
            verify_contribution(a, d)
    elif kind == "query-wise":
        b = np.sort(numbers(dict(c, nan="no"), (c["n"],), "signed")) + np.arange(c["n"])
        a = table(c, dm + ("bin",), sizes + (c["n"],), bin=b)
        with drawing(c, a) as d:
            verify_query_wise(a, cmp_, d)
            if c["compare"] > 4:
                refused(V.plot_query_wise_performance, a, compare="datasets")
    elif kind == "graded":
        lab = [[0, 1, 2, 3, 4], [0, 0.5, 1, 1.5], [-1, 0, 2.25, 10]][c["seed"] % 3][:1 + c["nk"]]
        b = np.sort(numbers(dict(c, nan="no"), (c["n"],), "signed")) + np.arange(c["n"])
        a = table(c, ("dataset", "model", "label", "bin"), (c["nd"], c["nm"], len(lab), c["n"]), label=np.array(lab, dtype=np.float32), bin=b)
        with drawing(c, a) as d:
            verify_graded(a, d)
    elif kind == "confusion":
        import xarray as xr
        lab = np.arange(1 + c["nk"])
        rs = np.random.RandomState(c["seed"])
        v = rs.randint(0, [2, 10, 1000][c["n"] % 3], (c["nd"], c["nm"], len(lab), len(lab)))
        if c["show"]:
            v[0, 0, 0, -1] = 100000
        if c["nan"] == "all":
            v[:] = 0
        a = xr.DataArray(v, name="Confusion", coords=[[Named("d%d" % i) for i in range(c["nd"])], [Named("m%d" % i) for i in range(c["nm"])], lab, lab],
                         dims=["dataset", "model", "label_i", "label_j"])
        with drawing(c, a) as d, np.errstate(divide="ignore"):
            verify_confusion(a, d)
    return c["nd"] * c["nm"] * c["nk"] > 1


TABLES = ["model performance", "query class", "tree-wise", "contribution", "query-wise", "graded", "confusion"]


def check_features(c, note):
    import xarray as xr
    n = c["features"]
    imp = np.abs(numbers(dict(c, nan="no"), (n,))) if c["values"] != "negative" else numbers(dict(c, nan="no"), (n,))
    rs = np.random.RandomState(c["seed"])
    cnt = rs.randint(0, c["maxcount"], n)
    if c["show"]:
        imp[rs.rand(n) < 0.5] = 0
        cnt[rs.rand(n) < 0.5] = 0
    a = xr.DataArray(np.array([imp, cnt], dtype=c["dtype"]), name="Importance", coords=[["importance", "count"], np.arange(n, dtype=np.uint16)], dims=["type", "feature"])
    names = ["feat %d" % ((7 * i) % 1000) for i in range(n)] if c["names"] else None
    with drawing(c, a) as d:
        verify_importance(a, c["max_features"], c["sort_by"], names, d)
        from rankeval.visualization.feature import plot_feature_importance
        if c["compare"] > 4:
            refused(plot_feature_importance, a, sort_by="importance")
    if c["maxcount"] > 65536:
        note("counts above 65535")
    return n > 2


def shape_of(what, f, r, max_level):
    from matplotlib.collections import QuadMesh
    q = []
    for ax in f.axes:
        for p in [ax] + list(getattr(ax, "parasites", [])):
            q += [x for x in p.collections if isinstance(x, QuadMesh) and x.get_coordinates().shape[0] > 100 and x.get_coordinates()[..., 0].max() > 1.5]
    require(len(q) == 1, "%s: %d shapes drawn in the figure", what, len(q))
    q = q[0]
    xy = q.get_coordinates()
    v = np.asarray(q.get_array()).reshape(xy.shape[0] - 1, xy.shape[1] - 1)
    th, ra = xy[:, 0, 0], xy[0, :, 1]
    ts = r.avg_tree_shape().toarray() if r.topology.shape[1] <= 2**12 else None
    coo = r.avg_tree_shape().tocoo()
    cells = {(int(a), int(b)): float(x) for a, b, x in zip(coo.row, coo.col, coo.data)}
    levels = min(max_level + 1, coo.shape[0])
    for lev in range(levels):
        i = int(np.searchsorted(ra, lev + 0.5)) - 1
        require(0 <= i < v.shape[1], "%s: level %d is not drawn", what, lev)
        for edge in (0.1, 0.9):
            require(int(np.searchsorted(ra, lev + edge)) - 1 == i, "%s: level %d not drawn between its circles: %s", what, lev, ra.tolist())
        w = np.pi / 2**lev
        pos = range(2**lev) if lev <= 9 else sorted({p for l, p in cells if l == lev} | {0, 2**lev - 1})
        for p in pos:
            for frac in (0.2, 0.5, 0.8) if lev <= 6 else (0.5,):
                j = int(np.searchsorted(th, (p + frac) * w)) - 1
                got, want = float(v[j, i]), cells.get((lev, p), 0.0)
                require(abs(got - want) < 1e-6, "%s: level %d, position %d drawn with %r instead of %r", what, lev, p, got, want)
    # the left subtree is on the left hand side of the picture
    tr = q.get_transform()
    px = tr.transform([(np.pi * 0.1, 1.5), (np.pi * 0.9, 1.5)])
    require(px[0][0] < px[1][0], "%s: left and right exchanged", what)
    return levels


def check_shape(c, note):
    from rankeval.analysis.topological import topological_analysis
    from rankeval.visualization.topological import plot_shape
    rs = []
    for i, m in enumerate(c["models"]):
        rs.append((M.build(m, name="model %d" % i), m))
    rs = [(m, topological_analysis(m, include_leaves=c["leaves"])) for m, _ in rs]
    out = []
    with drawing(c, None) as d:
        for m, r in rs:
            before = r.topology.copy()
            k = {} if c["max_level"] is None else dict(max_level=c["max_level"])
            out.append(d.run(plot_shape, r, **k))
            require((before != r.topology).nnz == 0 and before.shape == r.topology.shape, "plot_shape modified the analysis")
        deep = 0
        for i, ((m, r), f) in enumerate(zip(rs, out)):
            deep = max(deep, shape_of("shape of model %d of %d" % (i, len(rs)), f, r, 10 if c["max_level"] is None else c["max_level"]))
            require(any(m.name in t for t in [ax.get_title() for ax in f.axes]), "shape without the name of the model")
    note("cut at max_level" if any(r.topology.shape[0] > (11 if c["max_level"] is None else c["max_level"] + 1) for _, r in rs) else "all levels")
    return deep > 2


@st.composite
def shapes(draw):
    ms = []
    for _ in range(draw(st.integers(1, 2))):
        m = draw(G.ensembles(4, 10, 2))
        m["weights"] = [1.0] * len(m["trees"])
        if draw(st.integers(0, 3)) == 0:
            t = ["L", 1.0]
            for i in range(draw(st.integers(3, 14))):
                t = ["S", 0, float(i), t, ["L", 2.0]] if draw(st.booleans()) else ["S", 0, float(i), ["L", 2.0], t]
            m["trees"][0] = t
        ms.append(m)
    return dict(models=ms, leaves=draw(st.booleans()), max_level=draw(st.sampled_from([None, None, 1, 2, 3, 5, 12])), style=draw(st.booleans()))


def check_analyses(c, note):
    """The plots of real analyses, of models and datasets of every shape."""
    from rankeval.analysis import effectiveness as E
    from rankeval.analysis.feature import feature_importance
    from rankeval.analysis.topological import topological_analysis
    from rankeval.visualization.topological import plot_shape
    w = W.World(c)
    if c["unnamed"]:
        w.models = [M.build(m, base_score=m["base"], learning_rate=m["lr"]) for m in c["models"]]
        w.datasets = [M.dataset(d) for d in c["datasets"]]
    for i, a in enumerate(w.datasets):
        for b in w.datasets[:i]:
            if a.X.shape == b.X.shape and np.array_equal(a.X, b.X) and np.array_equal(a.y, b.y) and np.array_equal(a.get_qids_dataset(), b.get_qids_dataset()):
                note("equal datasets")             # a coordinate would not tell one from the other
                return False
    kind = c["kind"]
    note("analysis: " + kind)
    args = (w.datasets, w.models, w.metrics)
    cmp_ = ["models", "metrics"][c["compare"] % 2]
    if kind == "model performance":
        a = E.model_performance(*args, cache=c["cache"])
        f = lambda d: verify_model_performance(a, cmp_, c["show"], d)
    elif kind == "query class":
        a = E.query_class_performance(*args, query_classes=[[c["seed"] % 2 + i % c["nclass"] for i in range(len(d["sizes"]))] for d in c["datasets"]])
        f = lambda d: verify_class(a, cmp_, c["show"], d)
    elif kind == "tree-wise":
        a = E.tree_wise_performance(*args, step=c["nclass"])
        f = lambda d: verify_tree_wise(a, ["models", "metrics", "datasets"][c["compare"] % 3], d)
    elif kind == "contribution":
        a = E.tree_wise_average_contribution(*args[:2])
        f = lambda d: verify_contribution(a, d)
    elif kind == "query-wise":
        # (there are no thresholds if no query has a value)
        v = [x for m in w.metrics for d in w.datasets for o in w.models for x in np.ravel(m.eval(d, o.score(d))[1])]
        if np.isnan(v).all():
            return False
        a = E.query_wise_performance(*args, bins=c["nclass"] * 3)
        f = lambda d: verify_query_wise(a, cmp_, d)
    elif kind == "graded":
        a = E.document_graded_relevance(*args[:2], bins=c["nclass"] * 3)
        f = lambda d: verify_graded(a, d)
    elif kind == "confusion":
        a = E.rank_confusion_matrix(*args[:2], skip_same_label=c["show"])
        f = lambda d: verify_confusion(a, d)
    elif kind == "importance":
        a = feature_importance(w.models[0], w.datasets[0], normalize=c["show"])
        if np.isnan(a.values).any():
            return False
        f = lambda d: verify_importance(a, c["nclass"], ["gain", "count"][c["compare"] % 2], None, d)
    else:
        a = None
        r = topological_analysis(w.models[0])
        f = lambda d: shape_of("shape", d.run(plot_shape, r), r, 10)
    with drawing(c, a) as d, np.errstate(divide="ignore"):
        f(d)
    w.untouched()
    return len(w.datasets) * len(w.models) * len(w.metrics) > 1


@st.composite
def analyses(draw):
    c = draw(W.worlds(max_models=2, max_datasets=2, max_metrics=2, labels=None))
    c["kind"] = draw(st.sampled_from(TABLES + ["importance", "shape"]))
    c["repeat"] = None                         # plots find their data by coordinate
    c.update(show=draw(st.booleans()), compare=draw(st.integers(0, 5)), nclass=draw(st.integers(1, 4)), seed=draw(st.integers(0, 100)), style=draw(st.booleans()),
             unnamed=draw(st.booleans()))
    return c


def check_tree(c, note):
    """The picture of a tree is made of the exported text."""
    from rankeval.visualization.topological import plot_tree, export_graphviz
    m = M.build(c["model"])
    dot = export_graphviz(m, tree_id=c["tree"] % len(c["model"]["trees"]))
    s = plot_tree(dot)
    require(s.source.strip() == dot.strip(), "plot_tree draws %r instead of %r", s.source, dot)
    return len(c["model"]["trees"]) > 1


CHECKS = [
    Check("tables", base(kind=TABLES), check_tables, "more than one dataset, model or metric", 160, 2400, shards=4),
    Check("feature-importance", base(features=list(range(1, 31)) + [80, 200], maxcount=[1, 2, 10, 100, 200000], names=[False, True], sort_by=[None, "gain", "count"],
                                     max_features=["default", "default", None, 1, 3, 10, 50]), check_features, "more than two features", 240, 2400, shards=4),
    Check("tree-shape", shapes(), check_shape, "three levels or more", 60, 1000, shards=2),
    Check("real-analyses", analyses(), check_analyses, "more than one dataset, model or metric", 120, 2000, shards=4),
    Check("tree-picture", st.fixed_dictionaries(dict(model=G.ensembles(4, 6, 3), tree=st.integers(0, 9))), check_tree, "more than one tree", 40, 500),
]
