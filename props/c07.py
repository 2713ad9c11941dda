"""C07: generated solutions and random numbers respect bounds, shape and data type."""

import math

import numpy as np
import torch
from hypothesis import strategies as st

from evotorch import Problem, SolutionBatch
from evotorch.tools import make_gaussian, make_randint, make_uniform

from evotorch.tools.tensormaker import TensorMakerMixin

from .common import DT, Violation, check_shape, eq, must_raise, often, plain, require, same, show, with_fields
from harness.core import Facet

QUICK_FACTOR = 3
TECHNIQUE = "property-based testing: generated shapes, data types and bounds against range, coverage and moment oracles"

RANGE = {"uint8": (0, 255), "int8": (-128, 127), "int16": (-(2**15), 2**15 - 1), "int32": (-(2**31), 2**31 - 1), "int64": (-(2**61), 2**61 - 1)}
ASSUMPTIONS = ["the number of values in a 64-bit integer range is below 2**63"]
FLOATS = ("float32", "float64")


class Maker(TensorMakerMixin):
    """A minimal object offering the tensor making methods."""

    def __init__(self, dtype, length):
        self.dtype = dtype
        self.eval_dtype = torch.float64
        self.device = torch.device("cpu")
        self.solution_length = length


def make_bounds(c, dtype, shape):
    """Lower and upper bounds as nested lists of the given shape, exactly representable by the dtype."""
    g = torch.Generator().manual_seed(c["seed"] % (2**31))
    n = int(np.prod(shape)) if shape else 1
    out = []
    for _ in range(n):
        r = [int(torch.randint(0, 1 << 30, (1,), generator=g)) for _ in range(3)]
        if dtype in FLOATS:
            lo = (r[0] % 65 - 32) / 4.0
            out.append((lo, lo + (r[1] % 17) / 4.0))
        else:
            a, z = RANGE[dtype]
            width = [0, 1, 2, 3, 1 + r[1] % 40, (z - a) // 2 + 1, z - a][r[0] % 7]
            width = min(width, z - a)
            room = z - a - width
            lo = [a, a + room, a + (r[2] % (room + 1)), min(max(-(r[2] % 5), a), z - width)][c["where"] % 4]
            out.append((lo, lo + width))
    return out


def box(pairs, shape, dtype):
    lb = torch.tensor([p[0] for p in pairs], dtype=DT[dtype]).reshape(shape)
    ub = torch.tensor([p[1] for p in pairs], dtype=DT[dtype]).reshape(shape)
    return lb, ub


def inside(x, lb, ub, what):
    x, lb, ub = plain(x), lb.expand(x.shape), ub.expand(x.shape)
    require(bool((x >= lb).all()) and bool((x <= ub).all()), lambda: f"{what}: {show(x)} outside of [{show(lb)}, {show(ub)}]")


def covers(x, lb, ub, what):
    """Many rows of integers: every value of the small inclusive ranges must show up."""
    for j in range(x.shape[1]):
        lo, hi = int(lb[j]), int(ub[j])
        if hi - lo <= 4:
            got = sorted(set(plain(x)[:, j].tolist()))
            eq(got, list(range(lo, hi + 1)), f"{what}: values seen in {x.shape[0]} samples from {lo}..{hi}")
        else:
            # a large range is not confined to one half of it
            mid = (lo + hi) // 2
            low = int((plain(x)[:, j] <= mid).sum())
            require(0.2 < low / x.shape[0] < 0.8, lambda: f"{what}: {low} of {x.shape[0]} samples from {lo}..{hi} in the lower half")


def spread_float(x, lb, ub, what):
    n = x.shape[0]
    for j in range(x.shape[1]):
        lo, hi = float(lb[j]), float(ub[j])
        if hi > lo:
            m = float(plain(x)[:, j].to(torch.float64).mean())
            s = (hi - lo) / math.sqrt(12 * n)
            require(abs(m - (lo + hi) / 2) < 7 * s, lambda: f"{what}: mean {m} of {n} samples from [{lo}, {hi}]")
            v = float(plain(x)[:, j].to(torch.float64).std())
            require(abs(v - (hi - lo) / math.sqrt(12)) < 0.3 * (hi - lo) / math.sqrt(12), lambda: f"{what}: stdev {v} of {n} samples from [{lo}, {hi}]")


# --------------------------------------------------------------------- problems


def check_problem(c, ctx):
    dtype, L = c["dtype"], c["L"]
    scalar = c["scalar"]
    pairs = make_bounds(c, dtype, () if scalar else (L,))
    lb, ub = box(pairs, () if scalar else (L,), dtype)
    kw = {}
    spec = lambda: (plain(lb), plain(ub)) if not scalar else ((lb.item(), ub.item()))  # noqa: E731
    if c["kind"] == 0:
        kw["bounds"] = spec()
    elif c["kind"] == 1:
        kw["initial_bounds"] = spec()
    else:
        # initial bounds inside the strict ones: the strict bounds must not be used for the generation
        wide_lb = plain(lb) - 3 if dtype in FLOATS else torch.full_like(lb, RANGE[dtype][0])
        wide_ub = plain(ub) + 2 if dtype in FLOATS else torch.full_like(ub, RANGE[dtype][1])
        kw["bounds"] = (wide_lb, wide_ub)
        kw["initial_bounds"] = spec()
    if c["seed2"] is not None:
        kw["seed"] = c["seed2"]
    dt_spec = [DT[dtype], dtype, np.dtype(dtype)][c["spec"] % 3]
    p = Problem("min", lambda x: x.sum(), solution_length=L, dtype=dt_spec, **kw)
    for name, want in (("initial_lower_bounds", lb), ("initial_upper_bounds", ub)):
        same(getattr(p, name), want, name, dtype=True)
    if c["kind"] == 0:
        same(p.lower_bounds, lb, "lower_bounds", dtype=True)
        same(p.upper_bounds, ub, "upper_bounds", dtype=True)
    elif c["kind"] == 1:
        require(p.lower_bounds is None and p.upper_bounds is None, "strict bounds although none were given")
    else:
        same(p.lower_bounds, wide_lb, "lower_bounds", dtype=True)
        same(p.upper_bounds, wide_ub, "upper_bounds", dtype=True)
    n = c["n"]
    if c["form"] == 0:
        x = p.generate_values(n)
    elif c["form"] == 1:
        x = p.generate_batch(n).values
    else:
        x = SolutionBatch(p, popsize=n).values
    check_shape(x, (n, L), "generated solutions")
    require(x.dtype == DT[dtype], lambda: f"dtype of the generated solutions {x.dtype}, expected {dtype}")
    inside(x, lb, ub, "generated solutions")
    big = p.generate_values(120)
    inside(big, lb, ub, "generated solutions")
    (spread_float if dtype in FLOATS else covers)(big, lb.expand(L), ub.expand(L), "generated solutions")
    if bool((lb < ub).any()):
        require(not bool((plain(big) == plain(big)[0]).all()), "all generated solutions are the same")
    batch = p.generate_batch(n)
    same(batch.evals, torch.full((n, 1), float("nan"), dtype=batch.evals.dtype), "fitnesses of a generated batch")
    # wrong specifications
    bad = torch.zeros(L + 1, dtype=DT[dtype])
    key = ["bounds", "initial_bounds"][c["form"] % 2]
    mk = lambda b: Problem("min", lambda x: x.sum(), solution_length=L, dtype=DT[dtype], **{key: b})  # noqa: E731
    must_raise(lambda: mk((bad, bad + 1)), "bounds of the wrong length", ValueError)
    must_raise(lambda: mk((0, bad + 1)), "an upper bound of the wrong length", ValueError)
    must_raise(lambda: mk((torch.zeros((1, L), dtype=DT[dtype]), 1)), "bounds with two dimensions", ValueError)
    if dtype in FLOATS:
        # Gaussian batches
        center = [0.0, 2.5, torch.arange(L, dtype=DT[dtype])][c["where"] % 3]
        stdev = [1.0, 0.25, torch.arange(L, dtype=DT[dtype]) / 2 + 0.5][c["spec"] % 3]
        sym = c["seed"] % 2 == 0
        g = p.generate_batch(400, center=center, stdev=stdev, symmetric=sym).values
        gaussian_ok(g, torch.as_tensor(center).expand(L), torch.as_tensor(stdev).expand(L), sym, DT[dtype])
        must_raise(lambda: p.generate_batch(n, center=center), "a Gaussian batch with a center alone", ValueError)
        must_raise(lambda: p.generate_batch(n, center=center, stdev=stdev, empty=True), "an empty Gaussian batch", ValueError)
    must_raise(lambda: p.generate_batch(n, symmetric=True), "a symmetric batch without a Gaussian distribution", ValueError)
    # nothing is known about the values of a problem without bounds
    free = Problem("min", lambda x: x.sum(), solution_length=L, dtype=DT[dtype])
    must_raise(lambda: free.generate_values(n), "generating values without any bounds", RuntimeError)
    must_raise(lambda: free.generate_batch(n), "generating a batch without any bounds", RuntimeError)
    empty = free.generate_batch(n, empty=True)
    check_shape(empty.values, (n, L), "values of an empty batch")
    ctx.label(dtype)
    if bool((lb < ub).any()):
        ctx.hit()


def gaussian_ok(g, center, stdev, sym, dtype):
    n, L = g.shape
    require(g.dtype == dtype, lambda: f"dtype {g.dtype}, expected {dtype}")
    x = plain(g).to(torch.float64)
    z = (x - center.to(torch.float64)) / stdev.to(torch.float64)
    eff = n // 2 if sym else n
    for j in range(L):
        m, s = float(z[:, j].mean()), float(z[:, j].std())
        require(abs(m) < (1e-4 if sym else 7 / math.sqrt(n)), lambda: f"Gaussian samples: mean {m} (in units of the requested standard deviation) away from the requested center")
        require(abs(s - 1) < 7 / math.sqrt(2 * eff), lambda: f"Gaussian samples: standard deviation {s} times the requested one")
    if sym:
        # each sample has its mirror image in the batch
        same((z[0::2] + z[1::2]), torch.zeros((n // 2, L), dtype=torch.float64), "sum of a sample and its mirror image", atol=1e-4)
    else:
        require(len(set(x[:, 0].tolist())) > n * 0.9, "repeated samples")


# --------------------------------------------------------------------- tool functions

SHAPES = [(), (1,), (4,), (2, 3), (3, 1, 2), (2, 2), (7,)]


def check_tools(c, ctx):
    dtype = c["dtype"]
    shape = SHAPES[c["shape"] % len(SHAPES)]
    fn = c["fn"]
    maker = Maker(DT[dtype], 3)
    gen = torch.Generator().manual_seed(c["seed"] % 1000) if c["gen"] % 2 else None
    if gen is not None and c["gen"] % 4 == 3:
        class G:
            generator = gen
        gen_arg = G()
    else:
        gen_arg = gen
    use_maker = c["maker"] % 2 == 1
    out = None
    kw = {} if gen is None else {"generator": gen_arg}
    dt_spec = [DT[dtype], dtype, np.dtype(dtype)][c["spec"] % 3]
    form = c["form"] % 3
    target_dtype = dtype
    if form == 2:
        out = torch.ones(shape if shape else (1,), dtype=DT[dtype])
        shape = tuple(out.shape)
        args = ()
        kw["out"] = out
    else:
        if use_maker and c["maker"] % 4 == 3 and len(shape) == 2 and shape[1] == 3:
            args = ()
            kw["num_solutions"] = shape[0]
        else:
            args = shape if (form == 0 and shape) else (tuple(shape),)
        if use_maker and c["spec"] > 2:
            if c["spec"] == 4 and dtype == "float64":
                kw["use_eval_dtype"] = True
            elif fn == "randint":
                kw["dtype"] = DT[dtype]
        else:
            kw["dtype"] = dt_spec
    mod = {"uniform": make_uniform, "gaussian": make_gaussian, "randint": make_randint}
    f = getattr(maker, "make_" + fn) if use_maker else mod[fn]
    before = torch.random.get_rng_state()
    if fn == "uniform":
        bnd = shape if c["bshape"] == 0 else (shape[-1:] if c["bshape"] == 1 else ())
        if c["nobounds"]:
            x = f(*args, **kw)
            lb, ub = torch.zeros((), dtype=DT[dtype]), torch.ones((), dtype=DT[dtype])
        elif dtype == "bool":
            g = torch.Generator().manual_seed(c["seed"] % 1000)
            lb = torch.rand(bnd, generator=g) < 0.4
            ub = lb | (torch.rand(bnd, generator=g) < 0.6)
            if c["seed"] % 5 == 0:
                lb = torch.tensor(False)  # one bound for all, the other for each
            elif c["seed"] % 5 == 1:
                ub = torch.tensor(True)
            x = f(*args, lb=lb, ub=ub, **kw)
            must_raise(lambda: f(2, lb=False, dtype=torch.bool), "a lower bound alone", ValueError)
            must_raise(lambda: f(2, ub=True, dtype=torch.bool), "an upper bound alone", ValueError)
            big = f((60,) + shape, lb=lb, ub=ub, dtype=torch.bool)
            free = (ub & ~lb).expand(shape)
            require(bool((big.any(0)[free]).all()) and not bool(big.all(0)[free].any()), "a boolean value which is free never varies")
        else:
            pairs = make_bounds(c, dtype, bnd)
            lb, ub = box(pairs, bnd, dtype)
            a, z = (lb.item(), ub.item()) if bnd == () and c["seed"] % 2 else (lb, ub)
            klb, kub = lb.clone(), ub.clone()
            x = f(*args, lb=a, ub=z, **kw)
            same(lb, klb, "the given lower bound")
            same(ub, kub, "the given upper bound")
            must_raise(lambda: f(2, lb=0, dtype=DT[dtype]), "a lower bound alone", ValueError)
            must_raise(lambda: f(2, ub=1, dtype=DT[dtype]), "an upper bound alone", ValueError)
        if dtype == "bool":
            inside(x.to(torch.int8), lb.to(torch.int8), ub.to(torch.int8), "make_uniform")
        else:
            inside(x, lb, ub, "make_uniform")
        if dtype not in FLOATS and dtype != "bool" and c["nobounds"]:
            big = mod["uniform"](80, 1, dtype=DT[dtype])
            covers(big, torch.tensor([0]), torch.tensor([1]), "make_uniform without bounds")
        if bool((lb < ub).any()) if dtype != "bool" else bool((~lb & ub).any()):
            ctx.hit("uniform")
    elif fn == "gaussian":
        center, stdev = [(0.0, 1.0), (3.0, 0.5), (torch.tensor(-2.0), torch.tensor(4.0))][c["bshape"]]
        x = f(*args, **kw) if c["nobounds"] else f(*args, center=center, stdev=stdev, **kw)
        if c["nobounds"]:
            center, stdev = 0.0, 1.0
        if not c["nobounds"]:
            must_raise(lambda: f(2, center=1.0, dtype=DT[dtype]), "a center alone", ValueError)
            must_raise(lambda: f(2, stdev=1.0, dtype=DT[dtype]), "a standard deviation alone", ValueError)
        sym = c["seed"] % 2 == 0
        big = f(400, 2, center=center, stdev=stdev, symmetric=sym, dtype=DT[dtype])
        gaussian_ok(big, torch.as_tensor(center, dtype=torch.float64).expand(2), torch.as_tensor(stdev, dtype=torch.float64).expand(2), sym, DT[dtype])
        must_raise(lambda: f(3, 2, symmetric=True, dtype=DT[dtype]), "an odd number of symmetric samples", ValueError)
        ctx.hit("gaussian")
    else:
        m = 1 + c["seed"] % 9
        per = torch.tensor([m, m + 1, 2 * m])[: shape[-1]] if (shape and shape[-1] <= 3 and c["bshape"] == 1) else None
        narg = m if per is None else per.to(DT[dtype])
        x = f(*args, n=narg, **kw)
        hi = torch.as_tensor(narg)
        inside(x, torch.zeros((), dtype=DT[dtype]), (hi - 1).to(DT[dtype]), "make_randint")
        require(bool((plain(x) == plain(x).to(torch.float64).floor()).all()), lambda: f"make_randint gave {show(x)}")
        big = f(300, 1, n=m, dtype=DT[dtype])
        eq(sorted(set(int(v) for v in big[:, 0])), list(range(m)), f"values of 300 random integers below {m}")
        if "dtype" not in kw and out is None and "use_eval_dtype" not in kw:
            target_dtype = "int64"
        ctx.hit("randint")
    check_shape(x, shape, f"make_{fn}")
    require(x.dtype == DT[target_dtype], lambda: f"make_{fn} gave {x.dtype}, expected {target_dtype}")
    if out is not None:
        require(x is out or x.data_ptr() == out.data_ptr(), "the result is not in the given tensor")
        same(out, x, "the tensor given to be filled")
        must_raise(lambda: mod[fn](*( (2,) ), out=out, **({"n": 2} if fn == "randint" else {})), "both a size and an output tensor", ValueError)
    if use_maker and c["shape"] % 2 == 0 and fn != "randint":
        like = torch.zeros(SHAPES[(c["shape"] + 1) % len(SHAPES)])
        if fn == "uniform":
            y = maker.make_uniform_shaped_like(like, lb=1, ub=1) if dtype != "bool" else maker.make_uniform_shaped_like(like, lb=True, ub=True)
        else:
            y = maker.make_gaussian_shaped_like(like, center=1.0, stdev=0.0)
        same(y, torch.ones(like.shape, dtype=DT[dtype]), f"make_{fn}_shaped_like with a degenerate distribution", dtype=True)
    ctx.label(dtype)


problem_cases = with_fields(
    dtype=st.sampled_from(["float32", "float64", "int64", "int32", "int16", "int8", "uint8"]),
    L=often(1, 4, 30),
    n=often(1, 6, 60),
    scalar=st.booleans(),
    kind=st.integers(0, 2),
    form=st.integers(0, 2),
    spec=st.integers(0, 2),
    seed=st.integers(0, 10**6),
    seed2=st.one_of(st.none(), st.integers(0, 1000)),
    where=st.integers(0, 3),
)


def tool_cases():
    def mk(fn):
        dts = {"uniform": ["float32", "float64", "int64", "int32", "int16", "int8", "uint8", "bool"], "gaussian": list(FLOATS), "randint": ["int64", "int32", "int16", "int8", "float32"]}[fn]
        return with_fields(
            fn=st.just(fn),
            dtype=st.sampled_from(dts),
            shape=st.integers(0, 6),
            form=st.integers(0, 2),
            maker=st.integers(0, 3),
            gen=st.integers(0, 3),
            spec=st.integers(0, 4),
            seed=st.integers(0, 10**6),
            where=st.integers(0, 3),
            bshape=st.integers(0, 2),
            nobounds=st.sampled_from([False, False, False, True]),
        )

    return st.sampled_from(["uniform", "uniform", "gaussian", "randint"]).flatmap(mk)


FACETS = [
    Facet("problem", problem_cases, check_problem, rule="at least one decision value has a lower bound below its upper bound", quick=900, thorough=20000),
    Facet("tools", tool_cases(), check_tools, rule="a request for Gaussian values or integers, or a uniform request with at least one non-empty range", quick=1500, thorough=40000),
]
