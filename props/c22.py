"""C22: functions declared for fixed dimensions give per-item results on batched inputs."""

import itertools

import numpy as np
import torch
from hypothesis import strategies as st

from evotorch import Problem
from evotorch.decorators import expects_ndim, on_aux_device, rowwise, vectorized

from .common import DT, eq, must_raise, often, plain, rand_grid, require, same, seeds, show
from harness.core import Facet

QUICK_FACTOR = 5
TECHNIQUE = "property-based testing: generated functions, dimension declarations and batch shapes; every item of the result compared with a direct call of the undecorated function on the items of the arguments"
ASSUMPTIONS = ["the leftmost dimensions of the arguments are aligned from the right and have equal sizes, as the decorated functions require"]

F64 = torch.float64

#: functions of tensors of the given numbers of dimensions (None: anything, passed as it is)
FUNCS = {
    "sumsq": ((1,), lambda x: (x**2).sum()),
    "first": ((1,), lambda x: x[0] - x[-1]),
    "sorted": ((1,), lambda x: torch.sort(x).values),
    "trace": ((2,), lambda x: torch.diagonal(x).sum()),
    "mat": ((2,), lambda x: (x @ x.T, x.sum(dim=0))),
    "dot": ((1, 1), lambda x, y: (x * y).sum()),
    "axpy": ((0, 1, 1), lambda a, x, y: a * x + y),
    "matvec": ((2, 1), lambda m, v: m @ v),
    "outer": ((1, 1), lambda x, y: torch.outer(x, y)),
    "scalar": ((0, 0), lambda a, b: a * 2 - b),
    "shape": ((1, 2), lambda x, m: x.shape[0] * m.sum() + x.ndim + 10 * m.ndim),
    "named": ((1, None), lambda x, op: x.max() if op == "max" else x.min()),
    "callable": ((None, 1), lambda f, x: f(x)),
    "shared": ((1, None), lambda x, w: (x * w).sum()),
    "scaled": ((0, None, 1), lambda a, k, x: a * x + k.sum()),
    "tuple": ((1, 0), lambda x, a: (x + a, x.sum() * a, x[0] > a)),
    "where": ((0, 1), lambda a, x: torch.where(x > a, x, a)),
}
L = 3
SIZES = {0: [], 1: [L], 2: [2, L]}


@st.composite
def case_(draw):
    name = draw(st.sampled_from(sorted(FUNCS)))
    ndims = FUNCS[name][0]
    full = draw(st.lists(often(1, 3, 7), min_size=draw(st.sampled_from([0, 1, 1, 1])), max_size=3))
    args = []
    for d in ndims:
        args.append({"batch": draw(st.sampled_from([*range(len(full) + 1), len(full)])) if d is not None else 0, "kind": draw(st.sampled_from(["tensor", "tensor", "tensor", "numpy", "scalar"])), "seed": draw(seeds)})
    return {
        "f": name,
        "full": full,
        "args": args,
        "dtype": draw(st.sampled_from(["float32", "float64"])),
        "use": draw(st.sampled_from(["decorator", "wrap", "twice"])),
        "too_few": draw(st.booleans()),
    }


def ndims_for(name, ndims):
    if name in ("matvec", "shape"):
        return [([2, L] if d == 2 else [L]) for d in ndims]
    return [None if d is None else SIZES[d] if name != "trace" else [L, L] for d in ndims]


def decorated(use, f, ndims, **kw):
    if use == "wrap":
        return expects_ndim(f, tuple(ndims), **kw)
    return expects_ndim(*ndims, **kw)(f)


def check(case, ctx):
    name = case["f"]
    ndims, f = FUNCS[name]
    dt = DT[case["dtype"]]
    full = case["full"]
    given, exact = [], []
    batches = []
    for spec, d, item in zip(case["args"], ndims, ndims_for(name, ndims)):
        if d is None:
            v = {"named": "max" if spec["seed"] % 2 else "min", "callable": torch.sum, "shared": rand_grid(spec["seed"], (L,), dtype=dt), "scaled": rand_grid(spec["seed"], (2,), dtype=torch.int64)}[name]
            given.append(v)
            exact.append(v)
            batches.append(None)
            continue
        b = full[len(full) - spec["batch"] :]
        t = rand_grid(spec["seed"], b + item, dtype=dt)
        g = t.clone()
        if spec["kind"] == "numpy":
            g = t.numpy().copy()
        elif spec["kind"] == "scalar" and t.ndim == 0:
            g = t.item()
        given.append(g)
        exact.append(t)
        batches.append(b)
    if not any(isinstance(g, torch.Tensor) for g, d in zip(given, ndims) if d is not None):
        # (a scalar's type is that of the tensors)
        k = [i for i, d in enumerate(ndims) if d is not None][0]
        given[k] = exact[k].clone()
    deco = decorated(case["use"], f, ndims)
    if case["use"] == "twice":
        deco(*[x.clone() if isinstance(x, torch.Tensor) else x for x in given])
    out = deco(*given)
    depth = max([len(b) for b in batches if b is not None] + [0])
    shape = full[len(full) - depth :]
    many = isinstance(out, tuple)
    for idx in itertools.product(*[range(n) for n in shape]):
        items = []
        for t, b in zip(exact, batches):
            items.append(t if b is None else t[tuple(idx[len(idx) - len(b) :])])
        want = f(*items)
        require(isinstance(want, tuple) == many, "number of results")
        for j, (w, o) in enumerate(zip(want if many else (want,), out if many else (out,))):
            eq(tuple(o.shape), tuple(shape) + tuple(w.shape), f"{name}: shape of result {j}")
            require(o.dtype == w.dtype, lambda: f"{name}: result {j} has type {o.dtype}, expected {w.dtype}")
            same(plain(o)[idx], w, f"{name}, result {j} of item {idx}", rtol=1e-5, atol=1e-5)
    for g, t in zip(given, exact):
        if isinstance(g, torch.Tensor):
            same(g, t, "argument after the call")
    # extra dimensions of different sizes
    if case["too_few"] and depth and sum(bool(b) for b in batches) > 1:
        k = [i for i, b in enumerate(batches) if b][-1]
        bad = list(given)
        bad[k] = torch.cat([exact[k]] * 4)
        if len(batches[k]) <= max(len(b) for i, b in enumerate(batches) if b and i != k):
            must_raise(lambda: deco(*bad), f"{name} with extra dimensions of different sizes")
    # too few dimensions
    if case["too_few"]:
        for i, d in enumerate(ndims):
            if d:
                bad = list(given)
                bad[i] = torch.zeros([2] * (d - 1), dtype=dt)
                must_raise(lambda: deco(*bad), f"{name} with {d - 1} dimensions for argument {i}", ValueError)
        bad = list(given)
        k = [i for i, d in enumerate(ndims) if d is not None][0]
        bad[k] = "text"
        must_raise(lambda: deco(*bad), f"{name} with a text as a tensor", TypeError)
    ctx.label(name)
    if depth and len({len(b) for b in batches if b is not None}) > 1:
        ctx.hit("different numbers of extra dimensions")
    elif depth:
        ctx.hit("batched")


@st.composite
def smaller_case(draw):
    return {"d": draw(st.integers(0, 3)), "batch": draw(st.integers(0, 2)), "seed": draw(seeds)}


def check_smaller(case, ctx):
    """Arguments with fewer dimensions are passed on when that is allowed."""
    seen = []

    def f(x, y):
        seen.append((x.ndim, y.ndim))
        return x.sum() + y.sum()

    deco = expects_ndim(2, 1, allow_smaller_ndim=True)(f)
    x = rand_grid(case["seed"], [2, 3, 2][: case["d"]] if case["d"] < 3 else [2, 2, 3])
    y = rand_grid(case["seed"] + 1, [2, 2, 3][2 - case["batch"] :])
    out = deco(x, y)
    eq(seen[0], (min(case["d"], 2), 1), "dimensions seen by the function")
    extra = max(case["d"] - 2, case["batch"], 0)
    eq(out.ndim, extra, "dimensions of the result")
    if extra == 0:
        same(out, x.sum() + y.sum(), "result", rtol=1e-6)
    else:
        for idx in itertools.product(range(2), repeat=extra):
            xi = x[idx[len(idx) - (case["d"] - 2) :]] if case["d"] > 2 else x
            yi = y[idx[len(idx) - case["batch"] :]] if case["batch"] else y
            same(plain(out)[idx], xi.sum() + yi.sum(), f"item {idx}", rtol=1e-6)
    ctx.hit("smaller" if case["d"] < 2 else "not smaller")


@st.composite
def random_case(draw):
    return {"mode": draw(st.sampled_from(["error", "same", "different", None])), "n": draw(often(2, 5, 20)), "m": draw(st.integers(0, 2)), "row": draw(st.booleans()), "seed": draw(seeds)}


def check_random(case, ctx):
    def f(x):
        return x.sum() * 0 + torch.randn(4)

    kw = {} if case["mode"] is None else {"randomness": case["mode"]}
    deco = rowwise(**kw)(f) if case["row"] else expects_ndim(1, **kw)(f)
    x = rand_grid(case["seed"], ([case["m"]] if case["m"] else []) + [case["n"], 3])
    torch.manual_seed(case["seed"])
    if case["mode"] in (None, "error"):
        must_raise(lambda: deco(x), "random numbers in a batched call")
        torch.manual_seed(case["seed"])
        a = deco(x.reshape(-1, 3)[0])
        torch.manual_seed(case["seed"])
        same(a, torch.randn(4), "random numbers in an unbatched call")
    else:
        out = plain(deco(x)).reshape(-1, 4)
        distinct = {tuple(r) for r in out.tolist()}
        want = 1 if case["mode"] == "same" else len(out)
        eq(len(distinct), want, f"number of different draws with randomness={case['mode']!r}")
    ctx.hit(str(case["mode"]))


@st.composite
def row_case(draw):
    return {
        "shape": draw(st.lists(st.integers(1, 4), min_size=1, max_size=4)),
        "seed": draw(seeds),
        "how": draw(st.sampled_from(["rowwise", "rowwise()", "vectorized", "vectorized()", "plain", "aux"])),
        "n": draw(often(1, 6, 30)),
        "nobj": draw(st.integers(1, 2)),
    }


def check_row(case, ctx):
    seen = []

    def f(x):
        seen.append(x.ndim)
        r = (x**2).sum() + x[0]
        return r if case["nobj"] == 1 else torch.stack([r, -x.sum()])

    def g(x):
        seen.append(x.ndim)
        r = (x**2).sum(-1) + x[..., 0]
        return r if case["nobj"] == 1 else torch.stack([r, -x.sum(-1)], dim=-1)

    x = rand_grid(case["seed"], case["shape"])
    if case["how"].startswith("rowwise"):
        deco = rowwise(f) if case["how"] == "rowwise" else rowwise()(f)
        out = deco(x)
        rows = plain(x).reshape(-1, case["shape"][-1])
        want = torch.stack([f(r) for r in rows]).reshape(case["shape"][:-1] + ([2] if case["nobj"] == 2 else []))
        same(out, want, "row by row", rtol=1e-6)
        must_raise(lambda: deco(torch.tensor(1.0)), "a scalar", ValueError)
        must_raise(lambda: rowwise(f, f), "two functions", TypeError)
    elif case["how"].startswith("vectorized"):
        deco = vectorized(g) if case["how"] == "vectorized" else vectorized()(g)
        same(deco(x), g(x), "vectorized function called directly")
    elif case["how"] == "aux":
        deco = on_aux_device(f)
        require(deco is f, "the decorator gave another object")
    else:
        deco = f
    # as a fitness function
    seen.clear()
    p = Problem(["min", "max"][: case["nobj"]] if case["nobj"] > 1 else "min", deco, solution_length=3, initial_bounds=(-1, 1))
    b = p.generate_batch(case["n"])
    p.evaluate(b)
    want = torch.stack([f(r) for r in plain(b.values)]).reshape(case["n"], -1)
    same(b.evals, want, "fitnesses", rtol=1e-5, atol=1e-6)
    if case["how"].startswith("vectorized"):
        eq(seen[0], 2, "dimensions seen by a vectorized fitness function")
    ctx.hit(case["how"])


@st.composite
def nested_case(draw):
    return {"a": draw(st.lists(st.integers(1, 3), max_size=2)), "b": draw(st.integers(1, 3)), "inner": draw(st.sampled_from(["dot", "rows", "pairs"])), "seed": draw(seeds)}


def check_nested(case, ctx):
    """A declared function used within another one, where it gets batched arguments itself."""

    def dot(x, y):
        return (x * y).sum()

    inner = expects_ndim(1, 1)(dot)

    @expects_ndim(2, 1)
    def outer(m, v):
        if case["inner"] == "dot":
            return inner(m, v) + m.sum()  # the rows of m against one v
        if case["inner"] == "rows":
            return rowwise(lambda r: r.max() - r[0])(m) * v.sum()
        return inner(m, m) - 1

    m = rand_grid(case["seed"], case["a"] + [case["b"], L], dtype=F64)
    v = rand_grid(case["seed"] + 1, case["a"][len(case["a"]) - 1 :] + [L], dtype=F64)
    out = outer(m, v)
    eq(tuple(out.shape), tuple(case["a"] + [case["b"]]), "shape")
    for idx in itertools.product(*[range(n) for n in case["a"]]):
        mi, vi = m[idx], v[idx[len(idx) - (v.ndim - 1) :]]
        for r in range(case["b"]):
            row = mi[r]
            want = {"dot": lambda: dot(row, vi) + mi.sum(), "rows": lambda: (row.max() - row[0]) * vi.sum(), "pairs": lambda: dot(row, row) - 1}[case["inner"]]()
            same(plain(out)[idx + (r,)], want, f"item {idx + (r,)}", rtol=1e-9, atol=1e-9)
    ctx.hit(case["inner"]) if case["a"] else ctx.label("unbatched")


@st.composite
def flag_case(draw):
    return {
        "kind": draw(st.sampled_from(["bool", "numpy bool", "tensor", "batch"])),
        "value": draw(st.booleans()),
        "number": draw(st.sampled_from(["int", "float", "numpy float", "numpy int", "tensor"])),
        "dtype": draw(st.sampled_from(["float32", "float64"])),
        "n": draw(st.integers(1, 4)),
        "batch": draw(st.booleans()),
        "seed": draw(seeds),
    }


def check_flag(case, ctx):
    """Truth values stay truth values, numbers take the type of the tensors."""
    dt = DT[case["dtype"]]
    seen = []

    def f(x, flag, a):
        seen.append((flag.dtype, a.dtype, flag.ndim, a.ndim))
        return torch.where(flag, x * a, x - a)

    x = rand_grid(case["seed"], (case["n"], L) if case["batch"] else (L,), dtype=dt)
    v = case["value"]
    flags = torch.tensor([v, not v] * 2)[: case["n"]]
    flag = {"bool": v, "numpy bool": np.bool_(v), "tensor": torch.tensor(v), "batch": flags}[case["kind"]]
    a = {"int": 3, "float": 0.5, "numpy float": np.float32(1.5), "numpy int": np.int64(2), "tensor": torch.tensor(2.5, dtype=dt)}[case["number"]]
    tensors_disagree = isinstance(flag, torch.Tensor) and case["number"] != "tensor"
    g = expects_ndim(1, 0, 0)(f)
    if tensors_disagree:
        # (the type of the number is not clear)
        must_raise(lambda: g(x, flag, a), "a number together with tensors of different types", TypeError)
        ctx.hit("unclear")
        return
    out = g(x, flag, a)
    eq(seen[0], (torch.bool, dt, 0, 0), "what the function sees: types and numbers of dimensions")
    n = case["n"] if case["batch"] or case["kind"] == "batch" else None
    for i in range(1 if n is None else n):
        row = x[i] if case["batch"] else x
        fl = bool(flags[i]) if case["kind"] == "batch" else v
        want = row * float(a) if fl else row - float(a)
        same(plain(out)[i] if n is not None else plain(out), want, f"item {i}")
    ctx.hit(case["kind"])


FACETS = [
    Facet("truth values", flag_case(), check_flag, quick=80, thorough=600, rule="any"),
    Facet("nested declarations", nested_case(), check_nested, quick=80, thorough=1500, rule="the outer call is batched"),
    Facet("per-item results", case_(), check, quick=400, thorough=8000, rule="at least one extra leftmost dimension"),
    Facet("smaller arguments", smaller_case(), check_smaller, quick=40, thorough=300, rule="any"),
    Facet("randomness", random_case(), check_random, quick=60, thorough=600, rule="any"),
    Facet("rows and fitness functions", row_case(), check_row, quick=120, thorough=2000, rule="any"),
]
