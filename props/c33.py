"""C33: the assertion helpers for tests."""

import numpy as np
import torch
from hypothesis import strategies as st

from evotorch import Problem
from evotorch import testing as vt

from .common import DT, must_raise, require
from harness.core import Facet

QUICK_FACTOR = 5
TECHNIQUE = "property-based testing: generated values, tolerances, bounds, dtypes, shapes and containers; whether an assertion helper raises is compared with the stated condition evaluated in plain Python"
ASSUMPTIONS = ["values are multiples of 1/8 and tolerances are odd multiples of 1/16 or powers of two well away from the differences, so that rounding decides nothing", "differences of integers from fractional numbers are compared as real numbers"]

FORMS = ["list", "tuple", "array32", "array64", "tensor32", "tensor64"]


def as_form(values, form, shape):
    flat = np.array(values, dtype="float64").reshape(shape)
    if form in ("list", "tuple"):
        x = flat.tolist()
        return tuple(x) if form == "tuple" and isinstance(x, list) else x
    if form == "int array":
        return flat.astype("int64")
    if form == "int tensor":
        return torch.tensor(flat).to(torch.int64)
    if form.startswith("array"):
        return flat.astype("float" + form[-2:])
    return torch.tensor(flat, dtype=DT["float" + form[-2:]])


def as_solutions(values, form):
    """One solution or a batch, of which the values are asserted"""
    problem = Problem("min", lambda x: x.sum(), solution_length=len(values), initial_bounds=(-1, 1))
    batch = problem.generate_batch(1, empty=True)
    batch.set_values(torch.tensor([values], dtype=torch.float32))
    return batch if form == "batch" else batch[0]


def outcome(fn, what, want):
    """Requires fn to raise AssertionError exactly if `want` is False"""
    if want:
        try:
            fn()
        except AssertionError as e:
            require(False, f"{what}: AssertionError although the condition holds: {str(e)[:200]}")
    else:
        must_raise(fn, f"{what}: the condition does not hold", AssertionError)


eighths = st.integers(-40, 40).map(lambda i: i / 8)
special = st.sampled_from([float("nan"), float("inf"), float("-inf")])
shapes = st.sampled_from([[1], [3], [2, 2], [4], []])


@st.composite
def close_case(draw):
    shape = draw(shapes)
    n = int(np.prod(shape)) if shape else 1
    a = draw(st.lists(eighths if draw(st.booleans()) else eighths | special, min_size=n, max_size=n))
    b = [draw(st.sampled_from([x, x, x, x + 0.125, x - 0.25, x + 1.0, draw(eighths | special)])) for x in a]
    enc = lambda v: [str(x) for x in v]
    return {
        "shape": shape,
        "actual": enc(a),
        "desired": enc(b),
        "each": draw(st.booleans()),
        "rtol": draw(st.sampled_from([None, 1e-6, 0.0009765625, 0.0625, 0.3])),
        "atol": draw(st.sampled_from([None, 1e-6, 0.0625, 0.1875, 0.5625])),
        "nan": draw(st.sampled_from([None, True, False])),
        "forms": [draw(st.sampled_from(FORMS)), draw(st.sampled_from(FORMS))],
        "solution": draw(st.sampled_from([None, None, None, "solution", "batch"])),
    }


def check_close(c, ctx):
    a, b = [float(x) for x in c["actual"]], [float(x) for x in c["desired"]]
    fa, fb = c["forms"]
    finite = all(np.isfinite(x) for x in a)
    rtol, atol = c["rtol"], c["atol"]
    kw = {k: v for k, v in (("rtol", rtol), ("atol", atol)) if v is not None}
    sol = c["solution"] if finite and len(c["shape"]) == 1 else None
    if sol is not None:
        x = as_solutions(a, sol)
    else:
        x = as_form(a, fa, c["shape"])
    if c["each"]:
        b = [b[0]] * len(b)
    y = as_form(b, fb, c["shape"])
    if sol == "batch" and not c["each"]:
        y = as_form(b, fb, [1] + c["shape"])
    value = b[0]
    if c["each"]:
        run = lambda: vt.assert_eachclose(x, value, **kw)
        equal_nan = True
    else:
        if c["nan"] is not None:
            kw["equal_nan"] = c["nan"]
        equal_nan = c["nan"] is not False
        run = lambda: vt.assert_allclose(x, y, **kw)
    if rtol is None and atol is None:
        must_raise(run, "no tolerance given", vt.TestingError)
        ctx.label("no tolerance")
        return
    ok = True
    for p, q in zip(a, b):
        if np.isnan(p) or np.isnan(q):
            ok = ok and equal_nan and np.isnan(p) and np.isnan(q)
        elif np.isinf(p) or np.isinf(q):
            ok = ok and p == q
        else:
            limit = (atol or 0.0) + (rtol or 0.0) * abs(q)
            if p != q and abs(abs(p - q) - limit) < 1e-5:
                return
            ok = ok and abs(p - q) <= limit
    outcome(run, "assert_eachclose" if c["each"] else "assert_allclose", bool(ok))
    ctx.hit("holds" if ok else "fails", "each" if c["each"] else "all", sol)


@st.composite
def between_case(draw):
    shape = draw(shapes)
    n = int(np.prod(shape)) if shape else 1
    bound = lambda: draw(st.sampled_from(["scalar", "scalar", "same", "row"]))
    lo = draw(st.lists(st.integers(-16, 8).map(lambda i: i / 8), min_size=n, max_size=n))
    hi = [v + draw(st.integers(0, 16)) / 8 for v in lo]
    lk, hk = bound(), bound()
    x = [draw(st.sampled_from([l, h, (l + h) / 2, l - 0.125, h + 0.125, l - 1, h + 1, l, h, (l + h) / 2])) for l, h in zip(lo, hi)]
    if draw(st.integers(0, 7)) == 0:
        x[draw(st.integers(0, n - 1))] = None  # not a number
    return {"shape": shape, "x": x, "lo": lo, "hi": hi, "kinds": [lk, hk], "atol": draw(st.sampled_from([None, None, 0.0625, 0.1875, 1e-6])), "forms": draw(st.lists(st.sampled_from(FORMS), min_size=3, max_size=3))}


def check_between(c, ctx):
    shape = tuple(c["shape"])
    x = np.array([np.nan if v is None else v for v in c["x"]], dtype="float64").reshape(shape)

    def bound(values, kind, form):
        v = np.array(values, dtype="float64").reshape(shape)
        if kind == "scalar" or not shape:
            return float(v.flat[0]), np.full(shape, v.flat[0])
        if kind == "row":
            v = np.broadcast_to(v[:1] if len(shape) == 1 else v[0], shape)
            return as_form((v[:1] if len(shape) == 1 else v[0]).flatten(), form, (1,) if len(shape) == 1 else v[0].shape), v
        return as_form(v.flatten(), form, shape), v

    lo, lo_ref = bound(c["lo"], c["kinds"][0], c["forms"][1])
    hi, hi_ref = bound(c["hi"], c["kinds"][1], c["forms"][2])
    tol = c["atol"] or 0.0
    ok = bool(((x >= lo_ref - tol) & (x <= hi_ref + tol)).all())
    kw = {} if c["atol"] is None else {"atol": c["atol"]}
    outcome(lambda: vt.assert_almost_between(as_form(x.flatten(), c["forms"][0], shape), lo, hi, **kw), "assert_almost_between", ok)
    ctx.hit("within" if ok else "outside")


@st.composite
def limit_case(draw):
    return {
        "only": draw(st.sampled_from(["atol", "rtol"])),
        "tol": draw(st.sampled_from([1e-6, 1e-3, 0.01, 0.25])),
        "size": draw(st.integers(0, 24)),
        "sign": draw(st.sampled_from([-1, 1])),
        "side": draw(st.sampled_from([-1, 1])),
        "part": draw(st.sampled_from([0.5, 0.75, 1.25, 2.0])),
        "n": draw(st.integers(1, 4)),
        "at": draw(st.integers(0, 3)),
        "each": draw(st.booleans()),
        "forms": [draw(st.sampled_from(["array64", "tensor64"])) for _ in range(2)],
    }


def check_limit(c, ctx):
    """With only one of the tolerances given, the other one is zero, at whatever magnitude"""
    n, at = c["n"], c["at"] % c["n"]
    q = c["sign"] * 2.0 ** (c["size"] if c["only"] == "atol" else -c["size"])
    limit = c["tol"] * (1.0 if c["only"] == "atol" else abs(q))
    b = [q] * n
    a = list(b)
    a[at] = q + c["side"] * c["part"] * limit
    x, y = as_form(a, c["forms"][0], [n]), as_form(b, c["forms"][1], [n])
    kw = {c["only"]: c["tol"]}
    if c["each"]:
        outcome(lambda: vt.assert_eachclose(x, q, **kw), "assert_eachclose", c["part"] < 1)
    else:
        outcome(lambda: vt.assert_allclose(x, y, **kw), "assert_allclose", c["part"] < 1)
        # arrays of different shapes are never close
        for other in (np.stack([np.asarray(b)] * 2), np.asarray(b + [q]), np.asarray(b)[None]):
            if n > 1:
                outcome(lambda: vt.assert_allclose(np.asarray(b), other, **kw), "assert_allclose with different shapes", False)
                outcome(lambda: vt.assert_allclose(other, np.asarray(b), **kw), "assert_allclose with different shapes", False)
    ctx.hit(c["only"])


DTYPES = ["float32", "float64", "int32", "int64", "bool", "uint8", "float16"]


@st.composite
def kind_case(draw):
    return {
        "dtype": draw(st.sampled_from(DTYPES)),
        "asked": draw(st.sampled_from(DTYPES)),
        "same": draw(st.booleans()),
        "written": draw(st.sampled_from(["text", "numpy", "torch", "numpy type"])),
        "holder": draw(st.sampled_from(["array", "tensor", "tensor"])),
        "shape": draw(st.lists(st.integers(0, 3), max_size=3)),
        "asked shape": draw(st.lists(st.integers(0, 3), max_size=3)),
        "same shape": draw(st.sampled_from([True, True, False])),
        "shape form": draw(st.sampled_from(["tuple", "size", "int"])),
        "x form": draw(st.sampled_from(["array", "tensor", "list"])),
    }


def check_kind(c, ctx):
    asked = c["dtype"] if c["same"] else c["asked"]
    x = np.zeros((2,), dtype=c["dtype"])
    if c["holder"] == "tensor":
        x = torch.as_tensor(x)
    d = {"text": asked, "numpy": np.dtype(asked), "torch": getattr(torch, asked), "numpy type": np.dtype(asked).type}[c["written"]]
    outcome(lambda: vt.assert_dtype_matches(x, d), f"assert_dtype_matches({c['dtype']}, {d!r})", asked == c["dtype"])

    shape = tuple(c["shape"])
    want = shape if c["same shape"] else tuple(c["asked shape"])
    form = c["shape form"]
    if form == "int":
        want = want[:1] or (2,)
        given = want[0]
    else:
        given = want if form == "tuple" else torch.Size(want)
    x = np.zeros(shape)
    if c["x form"] == "list":
        x = x.tolist()
        shape = tuple(torch.tensor(x).shape)
    elif c["x form"] == "tensor":
        x = torch.zeros(shape)
    outcome(lambda: vt.assert_shape_matches(x, given), f"assert_shape_matches({shape}, {given})", shape == want)
    ctx.hit("same" if shape == want else "different")


@st.composite
def whole_case(draw):
    n = draw(st.integers(1, 4))
    v = draw(st.integers(-4, 4))
    return {
        "x": [draw(st.sampled_from([v, v, v, v + 1])) for _ in range(n)],
        "value": v + draw(st.sampled_from([0, 0, 0, 0.25, 0.5, 0.75, -0.5])),
        "form": draw(st.sampled_from(["int array", "int tensor"])),
        "atol": draw(st.sampled_from([1e-6, 0.125, 0.375])),
    }


def check_whole(c, ctx):
    ok = all(abs(x - c["value"]) <= c["atol"] for x in c["x"])
    outcome(lambda: vt.assert_eachclose(as_form(c["x"], c["form"], [len(c["x"])]), c["value"], atol=c["atol"]), f"assert_eachclose of integers with {c['value']}", ok)
    ctx.hit("holds" if ok else "fails")


FACETS = [
    Facet("closeness", close_case(), check_close, rule="non-trivial: tolerance given and no borderline difference", quick=900, thorough=15000),
    Facet("bounds", between_case(), check_between, rule="non-trivial: every case", quick=400, thorough=8000),
    Facet("limits", limit_case(), check_limit, rule="non-trivial: every case", quick=300, thorough=5000),
    Facet("dtype and shape", kind_case(), check_kind, rule="non-trivial: every case", quick=400, thorough=8000),
    Facet("integers", whole_case(), check_whole, rule="non-trivial: every case", quick=150, thorough=2000),
]
