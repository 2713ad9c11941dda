"""C23: constraint violations and penalties."""

import itertools
import math
import random

import numpy as np
import torch
from hypothesis import strategies as st

from evotorch import Problem
from evotorch.tools import log_barrier, penalty, violation

from .common import DT, eq, must_raise, often, plain, require, same, seeds, show
from harness.core import Facet

QUICK_FACTOR = 5
TECHNIQUE = "property-based testing: generated values, comparisons, parameters and batch shapes; results compared item by item with the documented formulas computed in plain Python"
ASSUMPTIONS = ["at least one of the arguments is a floating-point tensor", "values of constraints are finite; exponents are positive"]

GRID = [-3.0, -2.0, -1.5, -1.0, -0.5, -0.25, 0.0, 0.25, 0.5, 1.0, 1.5, 2.0, 3.0, 100.0]
CMP = ["<=", ">=", "=="]


@st.composite
def value(draw, full, grid, tensor=None):
    k = draw(st.integers(0, len(full)))
    return {"batch": k, "kind": draw(st.sampled_from(["tensor", "tensor", "scalar", "numpy"])), "seed": draw(seeds)}


@st.composite
def case_(draw):
    full = draw(st.lists(often(1, 4, 9), max_size=3))
    names = ["lhs", "rhs", "linear", "step", "exp", "exp_inf", "sharpness", "inf"]
    args = {n: draw(value(full, GRID)) for n in names}
    args["lhs"]["batch"] = draw(st.sampled_from([len(full), len(full), 0]))
    return {
        "tool": draw(st.sampled_from(["violation", "penalty", "penalty", "log_barrier"])),
        "full": full,
        "args": args,
        "given": [n for n in names[2:] if draw(st.booleans())],
        "cmp": draw(st.sampled_from(CMP)),
        "sign": draw(st.sampled_from(["+", "-"])),
        "dtype": draw(st.sampled_from(["float32", "float64"])),
    }


VALUES = {
    "lhs": GRID,
    "rhs": GRID,
    "linear": [0.0, 0.5, 1.0, 2.0, 10.0],
    "step": [0.0, 0.25, 1.0, 5.0],
    "exp": [0.5, 1.0, 2.0, 3.0, float("nan")],
    "exp_inf": [0.125, 1.0, 4.0, 1000.0, float("inf")],
    "sharpness": [0.5, 1.0, 2.0, 8.0],
    "inf": [0.25, 1.0, 5.0, 1e6, float("inf")],
}


def build(case):
    """The arguments as they are given, and as arrays with all the extra dimensions."""
    full = case["full"]
    dt = DT[case["dtype"]]
    given, items = {}, {}
    for n, spec in case["args"].items():
        b = full[len(full) - spec["batch"] :]
        r = random.Random(spec["seed"])
        arr = np.array([r.choice(VALUES[n]) for _ in range(int(np.prod(b)))], dtype=np.float64).reshape(b)
        t = torch.as_tensor(arr).to(dt)
        if spec["kind"] == "scalar" and not b:
            g = arr.item()
        elif spec["kind"] == "numpy":
            g = t.numpy().copy()
        else:
            g = t.clone()
        given[n] = g
        items[n] = arr
    if not isinstance(given["lhs"], torch.Tensor) and not isinstance(given["rhs"], torch.Tensor):
        given["lhs"] = torch.as_tensor(items["lhs"]).to(dt)
    return given, items


def violated_by(l, c, r):
    if c == "<=":
        return l - r if l > r else 0.0
    if c == ">=":
        return r - l if l < r else 0.0
    return abs(l - r)


def penalty_ref(l, c, r, sign, p):
    v = violated_by(l, c, r)
    out = p.get("linear", 0.0) * v
    if v > 0:
        out += p.get("step", 0.0)
    e = p.get("exp", float("nan"))
    if not math.isnan(e):
        out += min(v**e, p.get("exp_inf", math.inf))
    return out if sign == "+" else -out


def barrier_ref(l, c, r, sign, p):
    slack = max(0.0, l - r if c == ">=" else r - l)
    out = -math.inf if slack == 0 else math.log(slack) / p.get("sharpness", 1.0)
    out = max(out, -p.get("inf", math.inf))
    return -out if sign == "+" else out


def check(case, ctx):
    given, items = build(case)
    tool, c, sign = case["tool"], case["cmp"], case["sign"]
    used = ["lhs", "rhs"]
    if tool == "violation":
        run = lambda c: violation(given["lhs"], c, given["rhs"])
    else:
        mine = ["linear", "step", "exp", "exp_inf"] if tool == "penalty" else ["sharpness", "inf"]
        names = [n for n in mine if n in case["given"]]
        used += names
        kw = {n: given[n] for n in names}
        fn = penalty if tool == "penalty" else log_barrier
        run = lambda c, s=sign: fn(given["lhs"], c, given["rhs"], penalty_sign=s, **kw)
        must_raise(lambda: run("<=", "*"), "an unknown sign", ValueError)
    for bad in ["<", "=", "!=", ""] + (["=="] if tool == "log_barrier" else []):
        must_raise(lambda: run(bad), f"comparison {bad!r}", ValueError)
    if tool == "log_barrier" and c == "==":
        c = "<="
    out = run(c)
    depth = max(items[n].ndim for n in used)
    shape = case["full"][len(case["full"]) - depth :]
    eq(tuple(out.shape), tuple(shape), f"{tool}: shape")
    eq(out.dtype, DT[case["dtype"]], f"{tool}: data type")
    seen = set()
    for idx in itertools.product(*[range(n) for n in shape]):
        it = {n: float(items[n][idx[len(idx) - items[n].ndim :]]) for n in used}
        l, r = it["lhs"], it["rhs"]
        got = plain(out)[idx].item()
        v = violated_by(l, c, r)
        seen.add("violated" if v > 0 else "equal" if l == r else "satisfied")
        if tool == "violation":
            want = v
            require((got == 0) == (v == 0) and got >= 0, lambda: f"violation of {l} {c} {r} is {got}")
        elif tool == "penalty":
            want = penalty_ref(l, c, r, sign, it)
            require(got >= 0 if sign == "+" else got <= 0, lambda: f"penalty of sign {sign} for {l} {c} {r} is {got}")
            require(v > 0 or got == 0, lambda: f"penalty {got} though {l} {c} {r} holds")
        else:
            want = barrier_ref(l, c, r, sign, it)
        ok = got == want or abs(got - want) <= 1e-5 * max(1e-3, abs(want))
        require(ok, lambda: f"{tool} of {l} {c} {r} with {it}, sign {sign}: {got}, expected {want}")
    for s in sorted(seen):
        ctx.label(s)
    if depth and len(seen) > 1:
        ctx.hit(tool)
    elif "violated" in seen:
        ctx.hit(tool + " violated")


@st.composite
def fit_case(draw):
    return {"sense": draw(st.sampled_from(["min", "max"])), "cmp": draw(st.sampled_from(CMP)), "n": draw(often(1, 8, 40)), "bound": draw(st.sampled_from([-1.0, 0.0, 0.5, 2.0])), "seed": draw(seeds), "rows": draw(st.booleans())}


def check_fit(case, ctx):
    """Penalties added within a fitness function: never better than the unpenalised fitness."""
    from evotorch.decorators import rowwise, vectorized

    sign = "+" if case["sense"] == "min" else "-"
    c, bound = case["cmp"], case["bound"]

    def rows(x):
        return (x**2).sum() + penalty(x[0], c, bound, penalty_sign=sign, linear=2.0, step=1.0, exp=2.0, exp_inf=4.0)

    def batch(x):
        return (x**2).sum(dim=-1) + penalty(x[:, 0], c, bound, penalty_sign=sign, linear=2.0, step=1.0, exp=2.0, exp_inf=4.0)

    p = Problem(case["sense"], rowwise(rows) if case["rows"] else vectorized(batch), solution_length=3, initial_bounds=(-3, 3), seed=case["seed"] + 1)
    b = p.generate_batch(case["n"])
    with torch.no_grad():
        vals = plain(b.values).clone()
        vals[0, 0] = bound
    b.set_values(vals)
    p.evaluate(b)
    count = 0
    for row, f in zip(vals.tolist(), b.evals.reshape(-1).tolist()):
        base = sum(v * v for v in row)
        want = base + penalty_ref(row[0], c, bound, sign, {"linear": 2.0, "step": 1.0, "exp": 2.0, "exp_inf": 4.0})
        count += violated_by(row[0], c, bound) > 0
        require(abs(f - want) <= 1e-4 * (1 + abs(want)), lambda: f"penalised fitness of {row}: {f}, expected {want}")
    if 0 < count:
        ctx.hit("some violated")


FACETS = [
    Facet("formulas", case_(), check, quick=500, thorough=10000, rule="some item violates its constraint, or a batch has both violated and satisfied constraints"),
    Facet("within a fitness function", fit_case(), check_fit, quick=80, thorough=1000, rule="a solution violates the constraint"),
]
