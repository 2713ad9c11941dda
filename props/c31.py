"""C31: searches which restart their inner algorithm."""

import torch
from hypothesis import strategies as st

from evotorch import Problem
from evotorch.algorithms import CEM, CMAES, PGPE, SNES, XNES, Cosyne, GeneticAlgorithm, SteadyStateGA
from evotorch.algorithms.restarter import IPOP, ModifyingRestart, Restart
from evotorch.operators import GaussianMutation, OnePointCrossOver

from .common import DT, often, plain, rand_grid, require, seeds, senses
from harness.core import Facet

TECHNIQUE = "property-based testing: generated inner algorithms, landscapes, stopping conditions and growth factors; every step of the restarting search is compared with a hand-written loop which runs the plain inner algorithm on a problem with the same seed and builds a new one when the stated condition is met"
ASSUMPTIONS = [
    "one objective; when the spread of the fitnesses is within 0.01 percent of the threshold the comparison stops, since the order of summation may decide",
    "populations are followed up to 600 solutions",
]
F64 = torch.float64
INNER = ["snes", "pgpe", "pgpe-plain", "cem", "xnes", "cmaes", "cmaes-sep", "ga", "ga", "steady", "cosyne"]


class Terrain:
    """A landscape with plateaus, so that the spread of fitnesses vanishes now and then; keeps a record of what was evaluated"""

    def __init__(self, seed, L, step, features):
        self.p = rand_grid(seed, (L,), -8, 8, 4.0, F64)
        self.w = rand_grid(seed + 1, (L,), 1, 8, 4.0, F64)
        self.step, self.features = step, features
        self.seen = []

    def __call__(self, xs):
        x = plain(xs).to(F64)
        f = ((x - self.p) ** 2 * self.w).sum(-1)
        if self.step:
            f = torch.floor(f / self.step) * self.step
        f = f.to(xs.dtype)
        self.seen.append((plain(xs).clone(), f.clone()))
        if self.features:
            return f, (100.0 * x[:, :1]).expand(-1, self.features).to(xs.dtype)
        return f


def inner(kind, problem, n, given_center, limit):
    """(class, arguments) of the inner algorithm"""
    L = problem.solution_length
    o = {}
    if given_center:
        o["center_init"] = torch.linspace(-1.0, 1.0, L, dtype=problem.dtype)
    cross, mut = OnePointCrossOver(problem, tournament_size=2), GaussianMutation(problem, stdev=0.5)
    cls, args = {
        "snes": (SNES, dict(stdev_init=1.0, popsize=n, **o)),
        "pgpe": (PGPE, dict(popsize=n + n % 2, center_learning_rate=0.25, stdev_learning_rate=0.125, stdev_init=1.0, **o)),
        "pgpe-plain": (PGPE, dict(popsize=n, center_learning_rate=0.25, stdev_learning_rate=0.125, stdev_init=1.0, symmetric=False, optimizer=None, **o)),
        "cem": (CEM, dict(popsize=n, parenthood_ratio=0.5, stdev_init=1.0, **o)),
        "xnes": (XNES, dict(popsize=n, stdev_init=1.0, **o)),
        "cmaes": (CMAES, dict(popsize=n, stdev_init=1.0, **o)),
        "cmaes-sep": (CMAES, dict(popsize=n, stdev_init=1.0, separable=True, **o)),
        "ga": (GeneticAlgorithm, dict(operators=[cross, mut], popsize=n)),
        "steady": (SteadyStateGA, dict(operators=[cross, mut], popsize=n)),
        "cosyne": (Cosyne, dict(popsize=max(n, 8), tournament_size=2, mutation_stdev=0.5, num_elites=1)),
    }[kind]
    if limit is None:
        return cls, args
    n_evals = limit[0] == "evals"

    class Stopping(cls):
        @property
        def is_terminated(self):
            if n_evals:
                # a condition on what the inner algorithm found
                return self.step_count >= 1 and float(self.population.evals[:, 0].min()) < limit[1]
            return self.step_count >= limit[1]

    return Stopping, args


@st.composite
def restart_case(draw):
    mode = draw(st.sampled_from(["restart", "modifying", "ipop", "ipop", "ipop", "ipop", "ipop and stop"]))
    kind = draw(st.sampled_from(INNER))
    limit = None
    if mode in ("restart", "modifying", "ipop and stop"):
        limit = draw(st.sampled_from([["steps", 1], ["steps", 2], ["steps", 3], ["steps", 4], ["evals", 2.0], ["evals", 8.0], None]))
    growth = draw(st.sampled_from([None, 1, 1.5, 2, 2, 3, 1.25])) if kind != "pgpe" else draw(st.sampled_from([None, 1, 2, 3]))
    return {
        "mode": mode,
        "inner": kind,
        "limit": limit,
        "growth": growth,
        "threshold": draw(st.sampled_from([None, 0.01, 0.5, 1.0, 2.0, 4.0, 8.0])),
        "step": draw(st.sampled_from([0, 1, 4, 16])),
        "n": draw(st.integers(4, 9)),
        "L": draw(st.integers(1, 4)),
        "sense": draw(senses),
        "features": draw(st.sampled_from([0, 0, 2])),
        "center": draw(st.booleans()),
        "dtype": draw(st.sampled_from(["float32", "float64"])),
        "steps": draw(often(2, 14, 40)),
        "read": draw(st.sampled_from(["every step", "every step", "never", "before"])),
        "seed": draw(seeds),
    }


def spread(batch):
    return float(batch.evals[:, 0].to(F64).std())


def check_restart(c, ctx):
    sense, ipop = c["sense"], c["mode"].startswith("ipop")
    fits = [Terrain(c["seed"], c["L"], c["step"], c["features"]) for _ in range(2)]
    kw = dict(vectorized=True, solution_length=c["L"], initial_bounds=(-2, 2), dtype=DT[c["dtype"]], seed=c["seed"] + 1)
    if c["features"]:
        kw["eval_data_length"] = c["features"]
    one, two = [Problem(sense, f, **kw) for f in fits]
    cls, args = inner(c["inner"], one, c["n"], c["center"], c["limit"])
    ref_cls, ref_args = inner(c["inner"], two, c["n"], c["center"], c["limit"])
    kept = dict(args)
    more = {}
    if ipop:
        if c["threshold"] is not None:
            more["min_fitness_stdev"] = c["threshold"]
        if c["growth"] is not None:
            more["popsize_multiplier"] = c["growth"]
    threshold = 1e-9 if c["threshold"] is None else c["threshold"]
    growth = 2 if c["growth"] is None else c["growth"]
    search = {"restart": Restart, "modifying": ModifyingRestart}.get(c["mode"], IPOP)(one, cls, args, **more)
    calls = []
    search.after_step_hook.append(lambda: calls.append(search.step_count) or {"mine": search.step_count * 10})

    ref = ref_cls(two, **ref_args)
    starts, grown = 1, 0
    require(search.num_restarts == 1 and search.step_count == 0, "a search which has not made a step has restarted already")
    if c["read"] == "before":
        require(search.status["num_restarts"] == 1, "number of restarts before the first step")
    for t in range(1, c["steps"] + 1):
        search.step()
        ref.step()
        pop = ref.population
        if not float(plain(pop.values).abs().max()) < 1e6:
            ctx.label("diverged")
            return
        stop = bool(ref.is_terminated)
        if ipop:
            s = spread(pop)
            noise = 1e-6 * float(plain(pop.evals)[:, 0].abs().max()) * (1 if c["dtype"] == "float32" else 1e-8)
            if abs(s - threshold) <= 1e-4 * threshold + noise:
                ctx.label("borderline")
                return
            stop = stop or s < threshold
        if stop:
            if ipop:
                ref_args = dict(ref_args, popsize=int(growth * len(pop)))
                if ref_args["popsize"] > 600:
                    ctx.label("large")
                    return
                grown += ref_args["popsize"] > len(pop)
            ref = ref_cls(two, **ref_args)
            starts += 1
        a, b = fits[0].seen, fits[1].seen
        require(len(a) == len(b), f"step {t}: {len(a)} evaluations of populations instead of {len(b)}")
        for (x, f), (y, g) in zip(a[-3:], b[-3:]):
            require(x.shape == y.shape, f"step {t}: {len(x)} solutions evaluated instead of {len(y)}")
            require(torch.equal(x, y), f"step {t}: other solutions were evaluated than those of the inner algorithm")
        require(search.num_restarts == starts, f"step {t}: {search.num_restarts} starts instead of {starts}")
        require(search.step_count == t, f"step {t}: step count {search.step_count}")
        require(search.search_algorithm.step_count == ref.step_count, f"step {t}: the inner algorithm is at its step {search.search_algorithm.step_count} instead of {ref.step_count}")
        require(type(search.search_algorithm) is cls, f"step {t}: inner algorithm of type {type(search.search_algorithm)}")
        require(search.search_algorithm.problem is one, f"step {t}: the inner algorithm works on another problem")
        require(calls == list(range(t)) or calls == list(range(1, t + 1)), f"step {t}: hook called at steps {calls}")
        if c["read"] == "every step" or t == c["steps"]:
            st_ = dict(search.status)
            require(st_["iter"] == t and st_["num_restarts"] == starts, f"step {t}: status shows iteration {st_['iter']}, {st_['num_restarts']} starts")
            require("mine" in st_, f"step {t}: what the hook returned is missing in the status")
            if not stop:
                require(st_["algorithm_terminated"] is False or st_["algorithm_terminated"] == False, f"step {t}: shown as terminated")  # noqa: E712
            every = torch.cat([f for _, f in a])
            best = every.min() if sense == "min" else every.max()
            worst = every.max() if sense == "min" else every.min()
            require(st_["best_eval"] == float(best) and st_["worst_eval"] == float(worst), f"step {t}: best and worst so far {st_['best_eval']}, {st_['worst_eval']} instead of {float(best)}, {float(worst)}")
            sol = st_["best"]
            where = [bool((x == plain(sol.values)).all(dim=-1)[f == best].any()) for x, f in a]
            require(any(where), f"step {t}: the best solution so far is not one of those with the best fitness")
    for k in kept:
        require(k in args and (args[k] is kept[k]), f"the argument {k} given by the user was replaced")
    require(set(args) == set(kept), "arguments were added to those of the user")
    if c["center"] and "center_init" in args:
        require(torch.equal(plain(args["center_init"]), torch.linspace(-1.0, 1.0, c["L"], dtype=DT[c["dtype"]])), "the initial center given by the user was modified")
    ctx.label(c["inner"], c["mode"])
    if starts > 1:
        ctx.hit(f"{min(starts - 1, 4)} restarts", "grown" if grown else None)


FACETS = [
    Facet("restarts", restart_case(), check_restart, rule="non-trivial: the inner algorithm was started again at least once", quick=500, thorough=8000),
]
