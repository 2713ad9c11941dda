"""C25: seeded searches are reproducible and independent of outside randomness."""

import random

import numpy as np
import torch
from hypothesis import strategies as st

from evotorch import Problem
from evotorch.decorators import vectorized
from evotorch.distributions import ExpGaussian, ExpSeparableGaussian, SeparableGaussian, SymmetricSeparableGaussian
from evotorch.operators import (
    CosynePermutation,
    GaussianMutation,
    MultiPointCrossOver,
    OnePointCrossOver,
    PolynomialMutation,
    SimulatedBinaryCrossOver,
    TwoPointCrossOver,
)
from evotorch.tools import make_gaussian, make_randint, make_uniform
from evotorch.tools.structures import CBag

from .common import DT, eq, often, plain, rand_grid, require, same, seeds, show
from .searchers import MULTI, SINGLE, make_problem, make_searcher, popsize_of
from harness.core import Facet

TECHNIQUE = "property-based testing by paired runs: the same seeded search or sequence of draws is run twice with different global random states and different outside draws in between, and everything evaluated and reported is compared bit by bit"
ASSUMPTIONS = ["both runs of a pair happen in the same process on the CPU", "fitness functions are deterministic, except in the facet on actors"]


def outside(r, much=True):
    """Draws from the global generators, as unrelated code could make."""
    for _ in range(r.randint(1, 3) if much else 0):
        k = r.randint(0, 4)
        if k == 0:
            torch.rand(r.randint(1, 7))
        elif k == 1:
            np.random.rand(r.randint(1, 7))
        elif k == 2:
            random.random()
        elif k == 3:
            torch.manual_seed(r.randint(0, 10**6))
        else:
            np.random.seed(r.randint(0, 10**6))
            random.seed(r.randint(0, 10**6))


def bits(x):
    x = plain(x)
    return (tuple(x.shape), str(x.dtype), x.contiguous().numpy().tobytes())


def same_bits(a, b, what):
    require(bits(a) == bits(b), lambda: f"{what}: {show(a)} in one run and {show(b)} in the other")


# ---------------------------------------------------------------- searches


@st.composite
def search_case(draw):
    kind = draw(st.sampled_from(SINGLE))
    nobj = draw(st.integers(1, 2)) if kind in MULTI else 1
    return {
        "kind": kind,
        "senses": [draw(st.sampled_from(["min", "max"])) for _ in range(nobj)],
        "L": draw(often(2, 4, 10)),
        "n": draw(often(4, 9, 30)),
        "steps": draw(often(1, 5, 12)),
        "seed": draw(seeds),
        "problem_seed": draw(st.integers(0, 10**6)),
        "dtype": draw(st.sampled_from(["float32", "float64"])),
        "noise": draw(seeds),
        "reseed": draw(st.booleans()),
        "subbatch": draw(st.sampled_from([None, 2, 3])),
    }


def run_search(case, noise, problem_seed):
    r = random.Random(noise)
    kw = {}
    if case["subbatch"]:
        kw["subbatch_size"] = case["subbatch"]
    outside(r)
    p, fit = make_problem(case["kind"], case["senses"], case["L"], case["seed"], case["dtype"], problem_seed=problem_seed + 1 if case["reseed"] else problem_seed, **kw)
    if case["reseed"]:
        p.generate_batch(3)
        outside(r)
        p.manual_seed(problem_seed)
    outside(r)
    s = make_searcher(case["kind"], p, case["n"])
    for _ in range(case["steps"]):
        outside(r)
        s.step()
    outside(r)
    seen = [v for v, _ in fit.seen]
    report = {}
    for k in sorted(s.status.keys()):
        v = s.status[k]
        if isinstance(v, (int, float)):
            report[k] = v
        elif isinstance(v, torch.Tensor):
            report[k] = plain(v)
    return seen, plain(s.population.values) if hasattr(s, "population") and s.population is not None else None, report


def check_search(case, ctx):
    a = run_search(case, case["noise"], case["problem_seed"])
    b = run_search(case, case["noise"] + 1, case["problem_seed"])
    what = f"{case['kind']} with seed {case['problem_seed']}"
    eq(len(a[0]), len(b[0]), f"{what}: number of evaluations")
    for i, (x, y) in enumerate(zip(a[0], b[0])):
        same_bits(x, y, f"{what}: solutions of evaluation {i}")
    if a[1] is not None:
        same_bits(a[1], b[1], f"{what}: population")
    eq(sorted(a[2]), sorted(b[2]), f"{what}: reported items")
    for k in a[2]:
        if isinstance(a[2][k], torch.Tensor):
            same_bits(a[2][k], b[2][k], f"{what}: reported {k}")
        else:
            require(a[2][k] == b[2][k] or (a[2][k] != a[2][k] and b[2][k] != b[2][k]), lambda: f"{what}: reported {k}: {a[2][k]} and {b[2][k]}")
    c = run_search(case, case["noise"], case["problem_seed"] + 7)
    require(any(bits(x) != bits(y) for x, y in zip(a[0], c[0])), f"{what}: another seed gave the same search")
    # the values do change from step to step, so that equality says something
    if len(a[0]) > 1 and bits(a[0][0]) != bits(a[0][-1]):
        ctx.hit(case["kind"])


# ---------------------------------------------------------------- draws


DRAWS = ["batch", "values", "uniform", "gaussian", "symmetric", "randint", "shaped", "ints"]
OPS = ["one", "two", "multi", "sbx", "gauss", "poly", "cosyne"]


@st.composite
def draw_case(draw):
    return {
        "program": draw(st.lists(st.tuples(st.sampled_from(DRAWS + OPS), st.integers(1, 4)), min_size=1, max_size=6)),
        "problem_seed": draw(st.integers(0, 10**6)),
        "noise": draw(seeds),
        "other": draw(st.sampled_from([1, 1, 2, 10, 128, 256, 1000, 1024, 4096, 10**4, 2**16, 10**6, 2**20, 2**31])),
        "init": draw(st.sampled_from(["bounds", "strict", "override"])),
        "dtype": draw(st.sampled_from(["float32", "float64"])),
        "how": draw(st.sampled_from(["same seed", "restart", "global"])),
    }


class Normal(Problem):
    def _fill(self, values):
        self.make_gaussian(out=values, center=1.0, stdev=2.0)


def draws_problem(case, seed):
    kw = {"initial_bounds": (-2, 2)} if case["init"] != "strict" else {"bounds": (-2, 2)}
    cls = Normal if case["init"] == "override" else Problem
    return cls("min", vectorized(lambda x: (x**2).sum(-1)), solution_length=3, dtype=DT[case["dtype"]], seed=seed, **kw)


def do(p, kind, n, r):
    if kind == "batch":
        return p.generate_batch(n).values
    if kind == "values":
        return p.generate_values(n)
    if kind == "uniform":
        return p.make_uniform(num_solutions=n, lb=-1.0, ub=3.0)
    if kind == "gaussian":
        return p.make_gaussian(n, 2, center=1.0, stdev=0.5)
    if kind == "symmetric":
        return p.make_gaussian(2 * n, 2, symmetric=True)
    if kind == "randint":
        return p.make_randint(n, 4, n=1000)
    if kind == "shaped":
        return torch.cat([p.make_uniform_shaped_like(torch.zeros(n)), p.make_gaussian_shaped_like(torch.zeros(n))])
    if kind == "ints":
        return p.make_uniform(n, 5, dtype="int32", lb=-5, ub=1000)
    b = p.generate_batch(2 * n + 2)
    p.evaluate(b)
    if r is not None:
        outside(r)
    if kind == "one":
        op = OnePointCrossOver(p, tournament_size=2)
    elif kind == "two":
        op = TwoPointCrossOver(p, tournament_size=2)
    elif kind == "multi":
        op = MultiPointCrossOver(p, tournament_size=2, num_points=2)
    elif kind == "sbx":
        op = SimulatedBinaryCrossOver(p, tournament_size=2, eta=3.0)
    elif kind == "gauss":
        op = GaussianMutation(p, stdev=0.5, mutation_probability=0.75)
    elif kind == "poly":
        if p.lower_bounds is None:
            op = GaussianMutation(p, stdev=0.25)
        else:
            op = PolynomialMutation(p, eta=5.0, mutation_probability=0.75)
    else:
        op = CosynePermutation(p)
    return op(b).values


def check_draws(case, ctx):
    seed, how = case["problem_seed"], case["how"]
    r = random.Random(case["noise"])

    def program(p, noisy, seed_global=None):
        res = []
        for kind, n in case["program"]:
            if noisy:
                outside(r)
            res.append(plain(do(p, kind, n, r if noisy else None)).clone())
        return res

    if how == "same seed":
        a = program(draws_problem(case, seed), False)
        outside(r)
        b = program(draws_problem(case, seed), True)
        c = program(draws_problem(case, seed + case["other"]), False)
    elif how == "restart":
        p = draws_problem(case, seed)
        a = program(p, False)
        p.manual_seed(seed)
        b = program(p, True)
        c = program(p, False)  # the stream goes on
    else:  # without a seed, the global generator decides
        p = draws_problem(case, None)
        torch.manual_seed(seed)
        a = program(p, False)
        p = draws_problem(case, seed + 1)
        p.manual_seed(None)
        torch.manual_seed(seed)
        np.random.seed(3)
        random.random()
        b = program(p, False)
        c = program(p, False)
    for (kind, n), x, y in zip(case["program"], a, b):
        same_bits(x, y, f"{kind} ({how})")
    require(any(bits(x) != bits(y) for x, y in zip(a, c)) or all(x.numel() < 3 for x in a), f"the values do not change ({how})")
    ctx.hit(how)
    ctx.label(*[k for k, _ in case["program"]])


# ---------------------------------------------------------------- tools and distributions


@st.composite
def tool_case(draw):
    return {
        "kind": draw(st.sampled_from(["separable", "symmetric", "exp", "expsep", "uniform", "gaussian", "randint", "bag"])),
        "n": draw(st.integers(1, 5)),
        "seed": draw(seeds),
        "noise": draw(seeds),
        "via": draw(st.sampled_from(["generator", "problem"])),
    }


def check_tool(case, ctx):
    kind, n = case["kind"], case["n"]
    r = random.Random(case["noise"])

    def gen(seed):
        if case["via"] == "problem":
            return Problem("min", lambda x: x.sum(), solution_length=2, initial_bounds=(0, 1), seed=seed)
        return torch.Generator().manual_seed(seed)

    mu, sigma = rand_grid(case["seed"], (3,)), rand_grid(case["seed"], (3,), 1, 8, 4.0)

    def go(seed):
        g = gen(seed)
        outside(r)
        res = []
        bag = None
        for _ in range(3):
            outside(r)
            if kind == "separable":
                res.append(SeparableGaussian({"mu": mu, "sigma": sigma}).sample(n, generator=g))
            elif kind == "symmetric":
                res.append(SymmetricSeparableGaussian({"mu": mu, "sigma": sigma}).sample(2 * n, generator=g))
            elif kind == "exp":
                res.append(ExpGaussian({"mu": mu, "sigma": torch.diag(sigma)}).sample(n, generator=g))
            elif kind == "expsep":
                res.append(ExpSeparableGaussian({"mu": mu, "sigma": sigma}).sample(n, generator=g))
            elif kind == "uniform":
                res.append(make_uniform(n, 3, lb=-1, ub=1, generator=g))
            elif kind == "gaussian":
                res.append(make_gaussian(n, 3, generator=g))
            elif kind == "randint":
                res.append(make_randint(n, 3, n=10**6, generator=g))
            else:
                if bag is None:
                    bag = CBag(max_length=6, generator=g)
                    for i in range(6):
                        bag.push_(i)
                res.append(bag.pop_())
        return [plain(x) for x in res]

    a, b = go(case["seed"]), go(case["seed"])
    for x, y in zip(a, b):
        same_bits(x, y, kind)
    if kind != "bag":
        require(bits(a[0]) != bits(a[1]), f"{kind}: two draws are the same")
        require(bits(a[0]) != bits(go(case["seed"] + 1)[0]), f"{kind}: another seed gave the same draw")
    else:
        require(len({int(x) for x in a}) == 3, lambda: f"values taken from a bag: {a}")
    ctx.hit(kind)


# ---------------------------------------------------------------- actors


@st.composite
def actor_case(draw):
    return {"n": draw(st.integers(2, 9)), "actors": draw(st.integers(2, 3)), "noise": draw(seeds), "problem_seed": draw(st.integers(0, 10**6)), "source": draw(st.sampled_from(["torch", "numpy", "python", "problem"])), "kind": draw(st.sampled_from(["evaluate", "gradients"]))}


class Noisy(Problem):
    """The fitness has noise from one of the generators of the process evaluating it"""

    def __init__(self, source, **kw):
        self.source = source
        super().__init__("min", solution_length=3, initial_bounds=(-2, 2), **kw)

    def _evaluate_batch(self, batch):
        n = len(batch)
        if self.source == "torch":
            e = torch.rand(n)
        elif self.source == "numpy":
            e = torch.as_tensor(np.random.rand(n), dtype=torch.float32)
        elif self.source == "python":
            e = torch.tensor([random.random() for _ in range(n)])
        else:
            e = self.make_uniform(n)
        batch.set_evals(plain(batch.values).sum(-1) + e)


def check_actor(case, ctx):
    """What is random in actors follows from the seed of the problem as well."""
    r = random.Random(case["noise"])

    def go(seed):
        outside(r)
        p = Noisy(case["source"], seed=seed, num_actors=case["actors"])
        outside(r)
        try:
            if case["kind"] == "evaluate":
                b = p.generate_batch(case["n"])
                outside(r)
                p.evaluate(b)
                return [plain(b.values), plain(b.evals)]
            d = SeparableGaussian({"mu": torch.zeros(3), "sigma": torch.ones(3)})
            res = p.sample_and_compute_gradients(d, case["n"] * 2, ranking_method="centered", obj_index=0)
            return [plain(g["gradients"][k]) for g in res for k in sorted(g["gradients"])]
        finally:
            p.kill_actors()

    a, b, c = go(case["problem_seed"]), go(case["problem_seed"]), go(case["problem_seed"] + 1)
    for x, y in zip(a, b):
        same_bits(x, y, f"{case['kind']} with actors, noise from {case['source']}")
    require(any(bits(x) != bits(y) for x, y in zip(a, c)), "another seed gave the same results")
    ctx.hit(case["kind"])


FACETS = [
    Facet("searches", search_case(), check_search, quick=260, thorough=4000, rule="the evaluated solutions differ between the first and the last step"),
    Facet("draws", draw_case(), check_draws, quick=300, thorough=5000, rule="any sequence of draws"),
    Facet("tools and distributions", tool_case(), check_tool, quick=120, thorough=1500, rule="any"),
    Facet("actors", actor_case(), check_actor, quick=40, thorough=400, needs_ray=True, rule="any"),
]
