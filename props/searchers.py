"""Small searches of every kind, for the checks on what all searches have in common."""

import torch

from evotorch import Problem
from evotorch.algorithms import CEM, CMAES, PGPE, SNES, XNES, Cosyne, GeneticAlgorithm, MAPElites, SteadyStateGA
from evotorch.operators import GaussianMutation, OnePointCrossOver, SimulatedBinaryCrossOver

from .common import DT, plain, rand_grid

F64 = torch.float64
#: distribution-based searches, whose status shows a center
CENTERED = ["snes", "pgpe", "pgpe-plain", "cem", "xnes", "cmaes", "cmaes-sep"]
POPULATION = ["ga", "ga-children", "ga-once", "steady", "cosyne"]
SINGLE = CENTERED + POPULATION + ["mapelites"]
#: searches which need no objective index with several objectives
MULTI = ["ga", "ga-children", "ga-once", "steady"]


class Landscape:
    """A vectorized fitness with a record of everything evaluated"""

    def __init__(self, seed, L, nobj, features=0):
        self.w = rand_grid(seed, (nobj, L), 1, 16, 8.0, F64)
        self.p = rand_grid(seed + 1, (nobj, L), -8, 8, 4.0, F64)
        self.k = rand_grid(seed + 2, (features, L), -4, 4, 4.0, F64)
        self.seen = []

    def compute(self, x):
        x = x.to(F64)
        f = torch.stack([((x - p) ** 2 * w).sum(-1) + torch.sin(3 * x * w).sum(-1) for w, p in zip(self.w, self.p)], dim=-1)
        return f, x @ self.k.T

    def __call__(self, xs):
        f, feat = self.compute(plain(xs))
        f = f.to(xs.dtype)
        self.seen.append((plain(xs), f.clone()))
        if self.k.shape[0]:
            return f, feat.to(xs.dtype)
        return f


def make_problem(kind, senses, L, seed, dtype="float32", problem_seed=None, **kw):
    if problem_seed is not None:
        kw["seed"] = problem_seed
    feats = 2 if kind == "mapelites" else 0
    fit = Landscape(seed + 5, L, len(senses), feats)
    if feats:
        kw["eval_data_length"] = feats
    p = Problem(senses if len(senses) > 1 else senses[0], fit, vectorized=True, solution_length=L, initial_bounds=(-2, 2), dtype=DT[dtype], **kw)
    return p, fit


def make_searcher(kind, problem, n, obj=None):
    o = {} if obj is None else {"obj_index": obj}
    if kind == "snes":
        return SNES(problem, stdev_init=1.0, popsize=n, **o)
    if kind == "pgpe":
        return PGPE(problem, popsize=n + n % 2, center_learning_rate=0.25, stdev_learning_rate=0.125, stdev_init=1.0, **o)
    if kind == "pgpe-plain":
        return PGPE(problem, popsize=n, center_learning_rate=0.25, stdev_learning_rate=0.125, stdev_init=1.0, symmetric=False, optimizer=None, **o)
    if kind == "cem":
        return CEM(problem, popsize=n, parenthood_ratio=0.5, stdev_init=1.0, **o)
    if kind == "xnes":
        return XNES(problem, stdev_init=1.0, popsize=n, **o)
    if kind == "cmaes":
        return CMAES(problem, stdev_init=1.0, popsize=n, **o)
    if kind == "cmaes-sep":
        return CMAES(problem, stdev_init=1.0, popsize=n, separable=True, **o)
    cross = OnePointCrossOver(problem, tournament_size=2, **o)
    mut = GaussianMutation(problem, stdev=0.5)
    if kind == "ga":
        return GeneticAlgorithm(problem, operators=[cross, mut], popsize=n)
    if kind == "ga-children":
        return GeneticAlgorithm(problem, operators=[mut], popsize=n, elitist=False)
    if kind == "ga-once":
        return GeneticAlgorithm(problem, operators=[cross, mut], popsize=n, re_evaluate=False)
    if kind == "steady":
        s = SteadyStateGA(problem, popsize=n)
        s.use(SimulatedBinaryCrossOver(problem, tournament_size=2, eta=4.0, **o))
        s.use(mut)
        return s
    if kind == "cosyne":
        return Cosyne(problem, popsize=max(n, 8), tournament_size=2, mutation_stdev=0.5, num_elites=1)
    if kind == "mapelites":
        grid = MAPElites.make_feature_grid([-1.0, -1.0], [1.0, 1.0], 3, dtype=problem.eval_dtype)
        return MAPElites(problem, operators=[mut], feature_grid=grid)
    raise AssertionError(kind)


def popsize_of(kind, n):
    if kind == "pgpe":
        return n + n % 2
    if kind == "cosyne":
        return max(n, 8)
    if kind == "mapelites":
        return 9
    return n
