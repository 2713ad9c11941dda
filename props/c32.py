"""C32: the search which wraps the pycma solver."""

import contextlib
import io

import cma
import numpy as np
import torch
from hypothesis import strategies as st

from evotorch import Problem
from evotorch.algorithms import PyCMAES

from .common import DT, must_raise, plain, rand_grid, require, seeds
from harness.core import Facet

QUICK_FACTOR = 5
TECHNIQUE = "property-based testing: generated settings, problems and run lengths; every generation is compared with the same solver driven directly through its own ask and tell interface with the same seed"
ASSUMPTIONS = ["the pycma solver itself is taken as it is", "values are compared with a tolerance of 1e-4, since the solver may be given its bounds in single precision"]
F64 = torch.float64


class Terrain:
    def __init__(self, seed, L, nobj):
        self.p = rand_grid(seed, (nobj, L), -8, 8, 4.0, F64)
        self.w = rand_grid(seed + 1, (nobj, L), 1, 8, 4.0, F64)
        self.seen = []

    def compute(self, x):
        x = x.to(F64)
        return torch.stack([((x - p) ** 2 * w).sum(-1) for p, w in zip(self.p, self.w)], dim=-1)

    def __call__(self, xs):
        f = self.compute(plain(xs)).to(xs.dtype)
        self.seen.append((plain(xs).clone(), f.clone()))
        return f


@st.composite
def cma_case(draw):
    L = draw(st.integers(2, 5))
    nobj = draw(st.sampled_from([1, 1, 1, 2, 3]))
    vec = lambda: st.lists(st.integers(1, 16).map(lambda i: i / 8), min_size=L, max_size=L)
    some = lambda s: st.none() | s
    opts = {}
    if draw(st.booleans()):
        opts["CMA_active"] = draw(st.booleans())
    how = draw(st.sampled_from([None, None, "tensor", "list"]))
    stdev_kind = draw(st.sampled_from(["scalar", "scalar", "list", "tensor", "array"]))
    low = draw(st.none() | st.integers(1, 4).map(lambda i: i / 8))
    return {
        "L": L,
        "senses": draw(st.lists(st.sampled_from(["min", "max"]), min_size=nobj, max_size=nobj)),
        "obj": draw(st.integers(0, nobj - 1)),
        "negative": draw(st.booleans()),
        "dtype": draw(st.sampled_from(["float32", "float64"])),
        "stdev": draw(vec()),
        "stdev_kind": stdev_kind,
        "stds": [how, draw(vec())] if stdev_kind == "scalar" else [None, []],
        "popsize": draw(some(st.integers(4, 11))),
        "popsize_via": draw(st.sampled_from(["argument", "argument", "options", "both"])),
        "center": draw(st.sampled_from([None, "list", "tensor", "solution", "array"])),
        "center_at": draw(st.lists(st.integers(-8, 8).map(lambda i: i / 8), min_size=L, max_size=L)),
        "cmean": draw(some(st.sampled_from([0.5, 0.75, 1.0]))),
        "on": draw(some(st.sampled_from([0.25, 0.5, 1.0]))),
        "rankmu": draw(some(st.sampled_from([0.0, 0.5, 1.0]))),
        "rankone": draw(some(st.sampled_from([0.0, 0.5, 1.0]))),
        "min": None if low is None else draw(st.sampled_from([low, [low] * L, [low / (i + 1) for i in range(L)]])),
        "max": draw(st.none() | st.sampled_from([1.0, 2.0, [1.0 + i / 4 for i in range(L)]])),
        "separable": draw(st.sampled_from([False, False, True])),
        "bounds": draw(st.sampled_from([None, None, [-2.0, 2.0], [[-1.0 - i / 2 for i in range(L)], [1.0 + i for i in range(L)]]])),
        "opts": opts,
        "own_seed": draw(st.sampled_from([True, True, False])),
        "steps": draw(st.integers(1, 6)),
        "seed": draw(seeds),
    }


def as_kind(v, kind, dtype=F64):
    return {"list": lambda: list(v), "tensor": lambda: torch.tensor(v, dtype=dtype), "array": lambda: np.array(v)}[kind]()


def build(c, problem, sign_opts):
    L, kw, opts = c["L"], {}, dict(sign_opts)
    given = {}
    if c["stdev_kind"] == "scalar":
        kw["stdev_init"] = c["stdev"][0]
    else:
        kw["stdev_init"] = as_kind(c["stdev"], c["stdev_kind"])
    if c["stds"][0] is not None:
        opts["CMA_stds"] = as_kind(c["stds"][1], c["stds"][0])
    if c["popsize"] is not None:
        if c["popsize_via"] == "options":
            opts["popsize"] = c["popsize"]
        else:
            kw["popsize"] = c["popsize"]
    if c["center"] == "solution":
        b = problem.generate_batch(1, empty=True)
        b.set_values(torch.tensor([c["center_at"]], dtype=problem.dtype))
        kw["center_init"] = b[0]
    elif c["center"] is not None:
        kw["center_init"] = as_kind(c["center_at"], c["center"], problem.dtype)
    for name, key in (("center_learning_rate", "cmean"), ("cov_learning_rate", "on"), ("rankmu_learning_rate", "rankmu"), ("rankone_learning_rate", "rankone"), ("stdev_min", "min"), ("stdev_max", "max")):
        if c[key] is not None:
            kw[name] = c[key]
    if c["separable"]:
        kw["separable"] = True
    if len(c["senses"]) > 1:
        kw["obj_index"] = c["obj"] - (len(c["senses"]) if c["negative"] else 0)
    elif c["negative"]:
        kw["obj_index"] = 0
    given.update(opts)
    return kw, opts


def make(c):
    fit = Terrain(c["seed"], c["L"], len(c["senses"]))
    kw = {}
    b = c["bounds"]
    if b is None:
        kw["initial_bounds"] = (-1, 1)
    else:
        kw["bounds"] = tuple(b)
    s = c["senses"]
    return fit, Problem(s if len(s) > 1 else s[0], fit, vectorized=True, solution_length=c["L"], dtype=DT[c["dtype"]], seed=c["seed"] + 3, **kw)


def reference(c, x0, seed):
    """The options for the solver, written down independently"""
    o = dict(c["opts"], verbose=-9, maxiter=np.inf, seed=seed)
    sigma = c["stdev"][0]
    if c["stdev_kind"] != "scalar":
        sigma, o["CMA_stds"] = 1.0, np.array(c["stdev"])
    elif c["stds"][0] is not None:
        o["CMA_stds"] = np.array(c["stds"][1])
    if c["popsize"] is not None:
        o["popsize"] = c["popsize"]
    for key, name in (("cmean", "CMA_cmean"), ("on", "CMA_on"), ("rankmu", "CMA_rankmu"), ("rankone", "CMA_rankone"), ("min", "minstd"), ("max", "maxstd")):
        if c[key] is not None:
            o[name] = np.array(c[key]) if isinstance(c[key], list) else c[key]
    if c["separable"]:
        o["CMA_diagonal"] = True
    if c["bounds"] is not None:
        o["bounds"] = [list(np.broadcast_to(np.array(v, dtype=float), (c["L"],))) for v in c["bounds"]]
    return cma.CMAEvolutionStrategy(x0, sigma, o)


def check_cma(c, ctx):
    sink = io.StringIO()
    with contextlib.redirect_stdout(sink):
        run(c, ctx)


def run(c, ctx):
    fit, problem = make(c)
    opts = dict(c["opts"], verbose=-9)
    if c["own_seed"]:
        opts["seed"] = c["seed"] + 17
    kw, opts = build(c, problem, opts)
    if c["popsize_via"] == "both" and c["popsize"] is not None:
        must_raise(lambda: PyCMAES(problem, cma_options=dict(opts, popsize=c["popsize"] + 1), **kw), "a population size given twice", ValueError)
        fit, problem = make(c)
        kw, opts = build(c, problem, {k: v for k, v in opts.items() if k != "CMA_stds"})
    before = dict(opts)
    s = PyCMAES(problem, cma_options=opts, **kw)
    require(set(opts) == set(before) and all(opts[k] is before[k] for k in opts), "the dictionary of options given by the user was modified")
    require(s.obj_index == c["obj"], f"objective index {s.obj_index}")
    ctx.label(c["stdev_kind"], c["center"], "bounds" if c["bounds"] else None, "separable" if c["separable"] else None, "several objectives" if len(c["senses"]) > 1 else None)

    if not c["own_seed"]:
        # the seed comes from the problem: an equal problem gives an equal run
        s.run(c["steps"])
        again_fit, again = make(c)
        kw, opts = build(c, again, dict(c["opts"], verbose=-9))
        r = PyCMAES(again, cma_options=opts, **kw)
        r.run(c["steps"])
        require(len(fit.seen) == len(again_fit.seen) == c["steps"], "number of evaluated populations")
        for t, ((x, f), (y, g)) in enumerate(zip(fit.seen, again_fit.seen)):
            require(torch.equal(x, y), f"generation {t + 1}: two searches on problems with the same seed differ")
        ctx.hit("seed of the problem")
        return

    centers = [plain(s.status["center"]).clone()]
    for t in range(c["steps"]):
        s.step()
        centers.append(plain(s.status["center"]).clone())
    pop = s.population

    # the same run, driven directly
    other_fit, other = make(c)
    if c["center"] is None:
        x0 = plain(other.generate_values(1))[0].to(F64).numpy()
    else:
        x0 = torch.tensor(c["center_at"], dtype=DT[c["dtype"]]).to(F64).numpy()
    es = reference(c, x0, c["seed"] + 17)
    sign = 1.0 if c["senses"][c["obj"]] == "min" else -1.0
    require(len(pop) == es.popsize, f"population of {len(pop)} instead of {es.popsize}")
    require(len(fit.seen) == c["steps"], f"{len(fit.seen)} evaluations of populations in {c['steps']} steps")

    def center_matches(got, t):
        want = torch.as_tensor(np.array(es.result[5]), dtype=DT[c["dtype"]])
        require(got.dtype == want.dtype and torch.allclose(got, want, rtol=1e-4, atol=1e-5), f"generation {t}: center {got.tolist()} instead of {want.tolist()}")

    center_matches(centers[0], 0)
    for t in range(c["steps"]):
        asked = es.ask()
        x = torch.as_tensor(np.asarray(asked), dtype=DT[c["dtype"]])
        got, evals = fit.seen[t]
        require(got.shape == x.shape, f"generation {t + 1}: {len(got)} solutions evaluated instead of {len(x)}")
        require(torch.allclose(got, x, rtol=1e-4, atol=1e-5), f"generation {t + 1}: other solutions were evaluated than those the solver asks for")
        if c["bounds"] is not None:
            lo, hi = (torch.tensor(v, dtype=F64) for v in c["bounds"])
            require(bool(((got.to(F64) >= lo - 1e-6) & (got.to(F64) <= hi + 1e-6)).all()), f"generation {t + 1}: solutions out of bounds")
        es.tell(asked, (sign * evals[:, c["obj"]].to(F64)).numpy())
        center_matches(centers[t + 1], t + 1)
        if t + 1 == c["steps"]:
            require(torch.equal(plain(pop.values), got), "the population does not hold the solutions of the last generation")
            require(torch.equal(plain(pop.evals)[:, : len(c["senses"])], evals), "the population does not hold the fitnesses of the last generation")
    ctx.hit("compared")


FACETS = [
    Facet("generations", cma_case(), check_cma, rule="non-trivial: at least one generation compared with the solver driven directly, or with another run of the same seed", quick=400, thorough=6000),
]
