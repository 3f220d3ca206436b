"""Histories of transformations of data and models; scores and metrics of what
comes out are those of the original rows and queries."""
import os

import numpy as np

from lib import gen as G, models as M, metricref as R, world as W
from lib.core import Check, require, same, fail

NEEDS = ("dataset", "scoring")
DATA_OPS = ["subset", "subset", "split", "split", "kfold", "features", "dump", "dump", "bytes", "arrays"]
MODEL_OPS = ["save", "save", "copy", "prune"]
ALL = ["QuickRank", "LightGBM", "ScikitLearn", "Jforests"]


def case_from(pick, big=False):
    kinds = pick([R.RANK, R.RANK, ["NDCG", "DCG", "MAP"], R.RANK + R.ERRORS + ["SpearmanRho"]])
    g = W.grown_from(pick, kinds, 2, rows=pick([60, 400, 3000]) if big else pick([8, 30, 90]))
    g["data"] = g["data"][:1]
    if not big:
        g["data"][0].update(queries=pick.int(1, 12), docs=pick.int(1, 7))
        g["trees"] = [pick.int(1, 12) for _ in range(pick.int(1, 2))]
        g["m"], g["leaves"] = pick.int(1, 6), pick([2, 3, 6])
    else:
        g["trees"] = g["trees"][:2]
    ops = [dict(op=pick(DATA_OPS + MODEL_OPS + ["clear"]), a=pick.int(0, 2**20), b=pick.int(0, 2**20), cache=pick.bool(), detailed=pick.bool(), exact=pick.bool())
           for _ in range(pick.int(2, 9))]
    return dict(world=g, fmts=[pick(ALL), pick(ALL)], ops=ops)


class Live(object):
    def __init__(self, c):
        g = W.grow(c["world"])
        self.ds = g["datasets"][0]
        self.g = g
        ds = self.ds
        self.q = G.unroll(ds["sizes"], ds["ids"])
        self.off = dict(zip(ds["ids"], R.slices(ds)))
        self.nf = max(M.max_feature(m) for m in g["models"]) + 1
        self.models, self.ref = [], []
        for m, fmt in zip(g["models"], c["fmts"]):
            if fmt in ("LightGBM", "ScikitLearn"):
                m["weights"] = [1.0] * len(m["trees"])
            self.models.append((len(self.ref), len(m["trees"]), M.build(m, fmt, base_score=m["base"], learning_rate=m["lr"])))
            self.ref.append((m["base"] or 0.0) + m["lr"] * np.cumsum(M.contributions(m, ds["X"]), axis=1))
        self.metrics = [R.make(s) for s in g["metrics"]]
        self.specs = g["metrics"]
        self.data = [(M.dataset(ds, name="whole"), "whole")]
        self.known = {}

    def rows(self, d):
        return [i for q in d.query_ids for i in range(*self.off[int(q)])]

    def bounds(self, im, k, s, q):
        key = (im, k, s, q)
        if key not in self.known:
            a, b = self.off[q]
            self.known[key] = R.bounds(self.specs[s], np.array(self.ds["y"][a:b]), self.ref[im][a:b, k - 1])
        return self.known[key]

    def verify(self, what, data, model, op, s):
        d, history = data
        im, k, m = model
        what = "%s: %s, model %d with %d trees" % (what, history, im, k)
        rows = self.rows(d)
        require(len(rows) == int(d.n_instances), "%s: %d rows for queries of %d rows", what, d.n_instances, len(rows))
        r = m.score(d, detailed=op["detailed"], cache=op["cache"])
        y = r[0] if op["detailed"] else r
        want = self.ref[im][rows, k - 1]
        same(what + ": scores", np.asarray(y, dtype=np.float64), want)
        spec = self.specs[s]
        mean, det = self.metrics[s].eval(d, y)
        det = np.asarray(det)
        require(det.shape == (len(d.query_ids),), "%s: %s has %s values for %d queries", what, spec, det.shape, len(d.query_ids))
        lo, hi, undefined = [], [], False
        w = float(d.n_instances) if spec["kind"] == "MSE" else 1.0
        for i, q in enumerate(d.query_ids):
            lh = self.bounds(im, k, s, int(q))
            if lh is None:
                undefined = True
                continue
            lh = lh[0] / w, lh[1] / w
            W.inside("%s: %s of query %d" % (what, spec, q), det[i], lh)
            if lh[0] == lh[0]:
                lo.append(lh[0])
                hi.append(lh[1])
        if not undefined:
            n = 1 if spec["kind"] == "MSE" else len(lo)
            W.inside("%s: %s" % (what, spec), mean, (sum(lo) / n, sum(hi) / n) if lo else (float("nan"),) * 2)
        return mean, det

    def recombine(self, what, whole, parts, model, s):
        """Means over the parts give the mean over the whole."""
        if self.specs[s]["kind"] == "MSE":
            n = lambda d: d.n_instances
        else:
            n = lambda d: d.n_queries
        m, met = model[2], self.metrics[s]
        tot, num = 0.0, 0
        by = {}
        for p in parts:
            if not p.n_queries:
                continue
            v, det = met.eval(p, m.score(p))
            if np.isnan(np.asarray(det, dtype=np.float64)).any():
                return
            tot += float(v) * int(n(p))
            num += int(n(p))
        ref = [self.bounds(model[0], model[1], s, int(q)) for q in whole.query_ids]
        if any(b is None or b[0] != b[1] for b in ref):
            return
        v = float(met.eval(whole, m.score(whole))[0])
        require(num == n(whole), "%s: parts of %d, whole of %d", what, num, n(whole))
        require(abs(tot / num - v) <= 3e-5 * max(1.0, abs(v)), "%s: %s over the parts gives %r, over the whole %r", what, self.specs[s], tot / num, v)


def check(c, note):
    w = Live(c)
    from rankeval.dataset import Dataset
    from rankeval.model import RTEnsemble
    made, files = 0, set()
    for step, op in enumerate(c["ops"]):
        rs = np.random.RandomState(op["b"] % 100000)
        i = op["a"] % len(w.data) if op["exact"] else len(w.data) - 1
        d, history = w.data[i]
        j = op["a"] // 7 % len(w.models)
        model = w.models[j]
        s = op["b"] % len(w.metrics)
        what = "step %d, %s" % (step, op["op"])
        ids = [int(v) for v in d.query_ids]
        new, nm = [], None
        k = op["op"]
        if k == "subset":
            keep = [q for q in ids if rs.rand() < rs.choice([.2, .6, .95])] or ids[:1]
            arg = list(rs.permutation(keep))
            new = [d.subset(np.array(arg) if op["detailed"] else [int(v) for v in arg])]
            require(sorted(int(v) for v in new[0].query_ids) == sorted(keep), "%s: asked for queries %s, got %s", what, keep, new[0].query_ids)
        elif k == "split":
            t = float(rs.choice([0.0, 0.3, 0.5, 0.8, 1.0]))
            v = float(rs.choice([0.0, 0.1, 0.2])) if t < .9 else 0
            new = list(d.split(t, v, random_state=int(op["b"] % 1000)))
            if all(p.n_queries or True for p in new):
                w.recombine(what, d, new, model, s)
        elif k == "kfold":
            n = int(rs.randint(2, 6))
            if len(ids) >= n:
                np.random.seed(op["b"] % 1000)
                folds = [tuple(f) for f in d.kfold(n_folds=n, shuffle=op["detailed"])]
                w.recombine(what + " (test parts)", d, [f[2] for f in folds], model, s)
                w.recombine(what + " (validation parts)", d, [f[1] for f in folds], model, s)
                f = folds[rs.randint(n)]
                w.recombine(what + " (one fold)", d, f, model, s)
                new = list(f)
        elif k == "features":
            extra = [f for f in range(w.nf, int(d.n_features)) if rs.rand() < .5]
            keep = list(range(w.nf)) + [int(v) for v in rs.permutation(extra)]
            new = [d.subset_features(keep if op["detailed"] else np.array(keep))]
        elif k in ("dump", "bytes"):
            p = "data%d%s" % (rs.randint(2), str(rs.choice([".txt", ".txt", ".gz", ".bz2"])) if k == "dump" else ".txt")   # used again by later dumps
            files.add(p)
            d.dump(p)
            if k == "dump":
                new = [Dataset.load(p)]
            else:
                with open(p, "rb") as fh:
                    new = [Dataset.load(fh)]
            if int(new[0].n_features) < w.nf:  # last features all zero
                new = []
            else:
                same(what + ": query ids", new[0].query_ids, d.query_ids)
        elif k == "arrays":
            X = np.asarray(d.X)
            X = np.asfortranarray(X) if op["detailed"] else np.ascontiguousarray(X)
            new = [Dataset(X.copy(order="K"), np.array(d.y), np.array(d.get_qids_dataset()))]
        elif k == "save":
            p = "model%d" % rs.randint(2)
            files.add(p)
            require(model[2].save(p), "%s: not saved", what)
            base, lr = w.g["models"][model[0]]["base"], w.g["models"][model[0]]["lr"]
            nm = (model[0], model[1], RTEnsemble(p, format="QuickRank", base_score=base, learning_rate=lr))
        elif k == "copy":
            nm = (model[0], model[1], model[2].copy())
        elif k == "prune":
            t = int(rs.randint(1, model[1] + 2))
            nm = (model[0], min(t, model[1]), model[2].copy(n_trees=t))
        elif k == "clear":
            model[2].clear_cache()
        for n_, p in enumerate(new):
            if int(p.n_queries):
                w.data.append((p, "%s > %s%s" % (history, k, " part %d" % n_ if len(new) > 1 else "")))
                w.verify(what, w.data[-1], model, op, s)
                made += 1
        if nm:
            w.models.append(nm)
            made += 1
            w.verify(what, (d, history), nm, op, s)
        w.verify(what + " (source)", (d, history), model, op, s)
        note(k)
        if len(w.data) > 14:
            w.data = w.data[:1] + w.data[-9:]
        if len(w.models) > 8:
            w.models = w.models[:1] + w.models[-5:]
    cells = [(a, b, s) for a in w.data for b in w.models for s in range(len(w.metrics))]
    rs = np.random.RandomState(len(cells))
    for n_ in rs.permutation(len(cells))[:12]:
        a, b, s = cells[n_]
        w.verify("at the end", a, b, dict(detailed=bool(n_ % 2), cache=bool(n_ % 3)), s)
    for p in files:
        os.unlink(p)
    return made > 1 and len(w.ds["sizes"]) > 2


def small():
    return G.picked(case_from)


def large():
    return G.picked(case_from, True)


CHECKS = [
    Check("history", small(), check, "three queries or more, two derived datasets or models or more", 400, 20000, shards=4),
    Check("large", large(), check, "three queries or more, two derived datasets or models or more", 60, 2500, shards=4),
]
