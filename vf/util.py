"""Helpers shared by the check modules (run inside the repository's interpreter).

Everything here is a pure function of the case: arrays are expanded from small
JSON specs, so that a case can be generated, shrunk, stored and replayed as JSON.
"""
import contextlib
import json
import os
import traceback

import numpy as np


class CheckFailure(AssertionError):
    """The property does not hold for this case."""

    def __init__(self, msg, sig=None):
        super().__init__(msg)
        self.sig = sig or "mismatch"


@contextlib.contextmanager
def sut(what, *arrays):
    """Code under test: the inputs are valid, so an exception breaks the property.

    Of the storage the given arrays are windows of, nothing outside them changes.
    """
    owners = {id(a.base): a.base for a in arrays if isinstance(a.base, np.ndarray)}
    around = {i: np.array(b, copy=True) for i, b in owners.items()}
    before = [np.array(a, copy=True) for a in arrays] if owners else []
    try:
        yield
    except CheckFailure:
        raise
    except Exception as e:  # noqa
        raise CheckFailure(
            "%s raised %s: %s\n%s"
            % (what, type(e).__name__, e, traceback.format_exc(limit=-4)),
            sig="exception",
        ) from None
    if owners:
        after = [np.array(a, copy=True) for a in arrays]
        for a, b in zip(arrays, before):
            a[...] = b
        for i, b in owners.items():
            same(b, around[i], "%s: storage around the fields modified" % what)
        for a, b in zip(arrays, after):
            a[...] = b


def expect_raises(excs, what, fn, *args, **kwargs):
    """Documented rejection: fn must raise one of excs."""
    try:
        fn(*args, **kwargs)
    except excs:
        return
    except Exception as e:  # noqa
        raise CheckFailure(
            "%s: expected %s, got %s: %s" % (what, excs, type(e).__name__, e)
        )
    raise CheckFailure("%s: accepted, expected %s" % (what, excs))


# ------------------------------------------------------------------ precision
def rt(name):
    return {"f32": np.float32, "f64": np.float64}[name]


def eps(name):
    return float(np.finfo(rt(name)).eps)


# --------------------------------------------------------------------- arrays
def expand(spec, shape, dtype):
    """Array of the given shape from a JSON spec.  Values are bounded by ~1e3."""
    shape = tuple(int(s) for s in shape)
    kind = spec["k"]
    if kind == "zero":
        a = np.zeros(shape)
    elif kind == "const":
        a = np.full(shape, float(spec["v"]))
    elif kind == "rand":
        a = np.random.RandomState(spec["s"]).standard_normal(shape) * spec.get("m", 1.0)
    elif kind == "pos":
        a = np.random.RandomState(spec["s"]).uniform(0.05, 1.0, shape) * spec.get("m", 1.0)
    elif kind == "int":
        a = np.random.RandomState(spec["s"]).randint(-4, 5, shape).astype(float)
    elif kind == "spikes":
        a = np.full(shape, float(spec.get("v", 0.0)))
        flat = a.reshape(-1)
        for pos, val in spec["c"]:
            if flat.size:
                flat[int(pos) % flat.size] += float(val)
    elif kind == "poly":
        # linear / quadratic polynomial of the (integer) cell indices
        a = np.zeros(shape)
        idx = np.indices(shape).astype(float)
        n = len(shape)
        c = list(spec["c"])
        a += c[0] if c else 0.0
        for d in range(n):
            if 1 + d < len(c):
                a += c[1 + d] * idx[d]
            if 1 + n + d < len(c):
                a += 0.125 * c[1 + n + d] * idx[d] ** 2
    elif kind == "wave":
        a = np.zeros(shape)
        idx = np.indices(shape).astype(float)
        ph = float(spec.get("p", 0.0))
        for d in range(len(shape)):
            w = spec["w"][d % len(spec["w"])]
            a += np.sin(2 * np.pi * w * (idx[d] + 0.5) / max(shape[d], 1) + ph + d)
    elif kind == "tile":
        n = int(np.prod(shape))
        a = np.resize(np.asarray(spec["c"], dtype=float), max(n, 1))[:n].reshape(shape) * spec.get("m", 1.0)
    else:
        raise ValueError("unknown array spec %r" % (spec,))
    return a.astype(dtype)


def laid_out(a, layout):
    """The same values in a different memory layout."""
    if layout == "C" or layout is None:
        return np.array(a, order="C", copy=True)
    if layout == "F":
        return np.array(a, order="F", copy=True)
    if layout == "pad":  # a window of a larger buffer
        big = np.full(tuple(s + 3 for s in a.shape), 7.5, dtype=a.dtype)
        v = big[tuple(slice(1, 1 + s) for s in a.shape)]
        v[...] = a
        return v
    if layout == "skip":  # every second element along the last axis
        big = np.full(a.shape[:-1] + (2 * a.shape[-1],), 7.5, dtype=a.dtype)
        v = big[..., ::2]
        v[...] = a
        return v
    raise ValueError(layout)


def d(a):
    return np.asarray(a, dtype=np.float64)


# ------------------------------------------------------------------ comparison
def worst(err):
    i = np.unravel_index(int(np.argmax(err)), err.shape) if err.ndim else ()
    return tuple(int(j) for j in i)


def close(got, want, tol, what, sig=None):
    """|got - want| <= tol pointwise (tol scalar or array); NaN never passes."""
    got = d(got)
    want = d(want)
    if got.shape != want.shape:
        raise CheckFailure("%s: shape %s, expected %s" % (what, got.shape, want.shape), sig)
    if got.size == 0:
        return
    err = np.abs(got - want)
    bad = ~(err <= tol)
    if bad.any():
        tol_a = np.broadcast_to(np.asarray(tol, dtype=float), got.shape)
        score = np.where(np.isfinite(err), err - tol_a, np.inf)
        score = np.where(bad, score, -np.inf)
        i = worst(score)
        raise CheckFailure(
            "%s: at %s got %.17g, expected %.17g (tolerance %.3g); %d of %d cells differ"
            % (what, i, got[i], want[i], float(tol_a[i]), int(bad.sum()), got.size),
            sig,
        )


def same(got, want, what, sig=None):
    """Bitwise equal values."""
    got = np.asarray(got)
    want = np.asarray(want)
    if got.shape != want.shape:
        raise CheckFailure("%s: shape %s, expected %s" % (what, got.shape, want.shape), sig)
    ne = ~(got == want)
    if want.dtype.kind in "fc":
        ne &= ~(np.isnan(got) & np.isnan(want))
    if ne.any():
        i = worst(ne.astype(float))
        raise CheckFailure(
            "%s: at %s is %r, expected exactly %r; %d of %d cells differ"
            % (what, i, got[i], want[i], int(ne.sum()), got.size),
            sig,
        )


def require(cond, what, sig=None):
    if not cond:
        raise CheckFailure(what, sig)


class Unchanged:
    """Remember arrays the operation must not modify."""

    def __init__(self, **arrays):
        self.a = [(k, v, np.array(v, copy=True)) for k, v in arrays.items()]

    def check(self, what):
        for k, v, old in self.a:
            same(v, old, "%s: input %s was modified" % (what, k))


# -------------------------------------------------------------------- kernels
_kernels = {}


def kernel(module, name, **cfg):
    """Generated kernel, memoised per configuration (generation compiles C++)."""
    key = (module, name, json.dumps({k: str(v) for k, v in cfg.items()}, sort_keys=True))
    if key not in _kernels:
        import importlib

        mod = importlib.import_module(module)
        with sut("%s(%s)" % (name, cfg)):
            _kernels[key] = getattr(mod, name)(**cfg)
    return _kernels[key]


SPNE = "sopht.numeric.eulerian_grid_ops"


def fresh_kernel(module, name, **cfg):
    import importlib

    mod = importlib.import_module(module)
    with sut("%s(%s)" % (name, cfg)):
        return getattr(mod, name)(**cfg)


def scratch():
    """Scratch directory of this worker, removed by the driver."""
    p = os.environ["VERIF_SCRATCH"]
    os.makedirs(p, exist_ok=True)
    return p
