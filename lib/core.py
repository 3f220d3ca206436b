"""What the property modules use: Check, Violation, comparison helpers."""
import base64
import json
import math

import numpy as np


class Violation(Exception):
    """The library contradicted the property on this case."""


class KnownFinding(Exception):
    """A defect already recorded (identified by its key) was met."""
    def __init__(self, key, msg):
        Exception.__init__(self, msg)
        self.key = key


class Check(object):
    """One executable statement: a strategy of JSON-able cases, and a function
    from a case to labels; it raises Violation when the property is broken.

    fn(case, note) -> bool : whether the case was non-trivial (see rule).
    """
    def __init__(self, name, strategy, fn, rule, quick=200, thorough=4000,
                 env=None, asan=None, threads=1, setup=None, shards=1):
        self.name, self.strategy, self.fn, self.rule = name, strategy, fn, rule
        self.quick, self.thorough = quick, thorough
        self.env, self.asan, self.threads, self.setup = env or {}, asan, threads, setup
        self.shards = shards


def fail(msg, *args):
    raise Violation(msg % args if args else msg)


def require(cond, msg, *args):
    if not cond:
        fail(msg, *args)


def _short(x):
    s = repr(x)
    return s if len(s) < 400 else s[:400] + "..."


def as_array(what, got):
    if got is None:
        fail("%s: nothing returned", what)
    a = np.asarray(got)
    if a.dtype == object:
        fail("%s: not a numeric array: %s", what, _short(got))
    return a


def same(what, got, want):
    """Exact equality of scalars/lists/arrays, shape included (NaN == NaN)."""
    g, w = as_array(what, got), np.asarray(want)
    if g.shape != w.shape:
        fail("%s: shape %s instead of %s (got %s, expected %s)", what, g.shape, w.shape, _short(got), _short(want))
    if g.dtype.kind in "fc" or w.dtype.kind in "fc":
        g64, w64 = g.astype(np.float64), w.astype(np.float64)
        eq = (g64 == w64) | (np.isnan(g64) & np.isnan(w64))
    else:
        eq = g == w
    if not np.all(eq):
        i = tuple(int(k) for k in np.argwhere(~np.atleast_1d(eq))[0])
        fail("%s: at %s got %r, expected %r (all: %s, expected %s)", what, i,
             np.atleast_1d(g)[i].item(), np.atleast_1d(w)[i].item(), _short(g.tolist()), _short(w.tolist()))


def close(what, got, want, rel=1e-6, abs_=1e-9):
    """Equality up to a stated tolerance (NaN and infinities must coincide)."""
    g, w = as_array(what, got).astype(np.float64), np.asarray(want, dtype=np.float64)
    if g.shape != w.shape:
        fail("%s: shape %s instead of %s (got %s, expected %s)", what, g.shape, w.shape, _short(got), _short(want))
    with np.errstate(all="ignore"):
        ok = (g == w) | (np.isnan(g) & np.isnan(w)) | \
            (np.isfinite(g) & np.isfinite(w) & (np.abs(g - w) <= abs_ + rel * np.maximum(np.abs(g), np.abs(w))))
    if not np.all(ok):
        i = tuple(int(k) for k in np.argwhere(~np.atleast_1d(ok))[0])
        fail("%s: at %s got %r, expected %r (tolerance rel %g abs %g)", what, i,
             np.atleast_1d(g)[i].item(), np.atleast_1d(w)[i].item(), rel, abs_)


def raises(what, exc, fn, *args, **kw):
    """fn must raise one of exc."""
    try:
        r = fn(*args, **kw)
    except exc as e:
        return e
    except Exception as e:
        fail("%s: raised %s (%s) instead of %s", what, type(e).__name__, e, exc)
    fail("%s: accepted (returned %s) instead of raising", what, _short(r))


def b64(b):
    return base64.b64encode(b).decode()


def unb64(s):
    return base64.b64decode(s)


def f32(x):
    return float(np.float32(x))


def canon(case):
    return json.dumps(case, sort_keys=True)
