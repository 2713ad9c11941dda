"""Helpers shared by the property modules: comparators, strategies and small reference functions."""

import math
import pickle

import numpy as np
import torch
from hypothesis import strategies as st

from harness.core import Ctx, Facet, HarnessError, Probe, Violation, require  # noqa: F401

DT = {
    "float16": torch.float16,
    "float32": torch.float32,
    "float64": torch.float64,
    "int8": torch.int8,
    "int16": torch.int16,
    "int32": torch.int32,
    "int64": torch.int64,
    "uint8": torch.uint8,
    "bool": torch.bool,
}


def plain(x) -> torch.Tensor:
    """The content of a tensor (possibly read-only) as an ordinary, independent tensor."""
    if not isinstance(x, torch.Tensor):
        raise Violation(f"expected a tensor, got {type(x).__name__}")
    return torch.Tensor.detach(x.as_subclass(torch.Tensor)).clone()


def show(x) -> str:
    if isinstance(x, torch.Tensor):
        t = x.as_subclass(torch.Tensor)
        return f"{tuple(t.shape)}{t.dtype}{t.reshape(-1).tolist()[:24]}"
    return repr(x)[:300]


def check_shape(x, shape, what="tensor"):
    require(isinstance(x, torch.Tensor), lambda: f"{what}: expected a tensor, got {type(x).__name__}")
    require(tuple(x.shape) == tuple(shape), lambda: f"{what}: shape {tuple(x.shape)}, expected {tuple(shape)}")


def same(x, y, what="value", rtol=0.0, atol=0.0, dtype=False):
    """Requires that tensor x equals tensor y (NaN equals NaN), in shape and content, and in dtype if asked to."""
    require(isinstance(x, torch.Tensor), lambda: f"{what}: expected a tensor, got {type(x).__name__}")
    if not isinstance(y, torch.Tensor):
        y = torch.as_tensor(y)
    check_shape(x, y.shape, what)
    if dtype:
        require(x.dtype == y.dtype, lambda: f"{what}: dtype {x.dtype}, expected {y.dtype}")
    a = plain(x)
    b = plain(y)
    if a.dtype == torch.bool or b.dtype == torch.bool:
        a, b = a.to(torch.int64), b.to(torch.int64)
    a = a.to(torch.float64) if a.is_floating_point() or b.is_floating_point() else a
    b = b.to(torch.float64) if a.is_floating_point() else b
    if not a.is_floating_point():
        require(bool((a == b).all()), lambda: f"{what}: got {show(x)}, expected {show(y)}")
        return
    ok = torch.isclose(a, b, rtol=rtol, atol=atol, equal_nan=True)
    require(bool(ok.all()), lambda: f"{what}: got {show(x)}, expected {show(y)}")


def eq(x, y, what="value"):
    require(x == y, lambda: f"{what}: got {x!r}, expected {y!r}")


def close(x, y, what="value", rtol=1e-5, atol=1e-7):
    x, y = float(x), float(y)
    if math.isnan(x) and math.isnan(y):
        return
    if x == y:
        return
    require(abs(x - y) <= atol + rtol * abs(y), lambda: f"{what}: got {x!r}, expected {y!r}")


def must_raise(fn, what, exc=Exception):
    """Requires that fn() raises (an exception of the given kinds)."""
    try:
        r = fn()
    except exc:
        return
    except Violation:
        raise
    raise Violation(f"{what}: expected an error, got {show(r)}")


def unpickled(path, what):
    """The object pickled in the file which the code under test should have written."""
    try:
        with open(path, "rb") as f:
            return pickle.load(f)
    except (OSError, EOFError, pickle.UnpicklingError) as e:
        raise Violation(f"{what}: not a pickled object: {type(e).__name__}: {e}")


def T(x, dtype="float32"):
    return torch.tensor(x, dtype=DT[dtype] if isinstance(dtype, str) else dtype)


# -- strategies ------------------------------------------------------------------------------------------------------

small_ints = st.integers(-8, 8)
#: exactly representable in every float type, and whose small sums and products are exact in float32
grid = st.integers(-32, 32).map(lambda i: i / 4)
nice = st.one_of(grid, st.sampled_from([0.0, 1.0, -1.0, 0.5, 100.0, -100.0]))
seeds = st.integers(0, 10**6)
senses = st.sampled_from(["min", "max"])


def lists(elem, n):
    return st.lists(elem, min_size=n, max_size=n)


def matrix(elem, rows, cols):
    return lists(lists(elem, cols), rows)


@st.composite
def matrices(draw, elem=grid, rows=(1, 8), cols=(1, 4)):
    r = draw(st.integers(*rows))
    c = draw(st.integers(*cols))
    return draw(matrix(elem, r, c))


def rng(seed: int) -> torch.Generator:
    g = torch.Generator()
    g.manual_seed(int(seed))
    return g


def rand_grid(seed, shape, lo=-32, hi=32, div=4.0, dtype=torch.float32):
    """A tensor of exactly representable pseudo-random numbers; a pure function of its arguments."""
    t = torch.randint(lo, hi + 1, tuple(shape), generator=rng(seed))
    return (t.to(torch.float64) / div).to(dtype)


def randn(seed, shape, dtype=torch.float64):
    return torch.randn(tuple(shape), generator=rng(seed), dtype=torch.float64).to(dtype)


def often(lo, hi, far):
    """Mostly integers between lo and hi, now and then (much) larger ones up to far."""
    near = st.integers(lo, hi)
    return st.one_of(near, near, near, near, near, st.integers(hi + 1, far))


def with_fields(**kw):
    return st.fixed_dictionaries(kw)
