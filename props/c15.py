"""C15: the MAP-Elites archive keeps in each cell the best solution that fits it."""

import itertools
import math
from collections import Counter

import torch
from hypothesis import strategies as st

from evotorch import Problem
from evotorch.algorithms import MAPElites

from .c14 import CROSS, make_ops, row
from .common import DT, check_shape, eq, must_raise, often, plain, rand_grid, require, same, seeds, with_fields
from harness.core import Facet

TECHNIQUE = "property-based testing: the archive after every generation of generated searches compared with everything evaluated so far (recorded by the fitness function)"
ASSUMPTIONS = ["fitnesses and features are finite", "a solution on the border of two cells belongs to both"]

F64 = torch.float64


class Tracked:
    """Fitness and features of solutions, with a record of everything evaluated"""

    def __init__(self, seed, L, nfeat, drifting, dtype, coarse):
        self.w = rand_grid(seed, (L,), -16, 16, 8.0, F64)
        self.d = rand_grid(seed + 2, (L,), -16, 16, 8.0, F64) if drifting else None
        self.k = rand_grid(seed + 3, (nfeat, L), -4, 4, 2.0, F64)
        self.coarse = coarse
        self.dtype = dtype
        self.gen = 0
        self.calls = []

    def __call__(self, xs):
        x = xs.as_subclass(torch.Tensor).to(F64)
        f = ((x - 0.5) ** 2 * self.w).sum(-1, keepdim=True)
        if self.d is not None:
            f = f + self.gen * (x @ self.d)[:, None]
        feat = x @ self.k.T
        if self.d is not None:
            feat = feat + self.gen * self.d[0] / 2
        if self.coarse:
            # features falling on the borders of the cells, and equal fitnesses
            feat = (feat * 2).round() / 2
            f = (f * 2).round() / 2
        e = torch.cat([f, feat], dim=-1).to(self.dtype)
        self.calls.append([row(v, r) for v, r in zip(plain(xs).tolist(), e.tolist())])
        return e[:, 0], e[:, 1:]


def in_cell(e, cell):
    return all(lo <= v <= hi for v, (lo, hi) in zip(e[1:], cell))


def grid_of(c):
    """(cells as nested lists, the argument given to the algorithm)"""
    dt = DT[c["dtype"]]
    lo = rand_grid(c["seed"] + 11, (c["nfeat"],), -8, 0, 4.0, F64)
    hi = lo + rand_grid(c["seed"] + 12, (c["nfeat"],), 1, 16, 4.0, F64)
    if c["grid"] == "made":
        bins = c["bins"][: c["nfeat"]]
        given = bins if c["binlist"] else bins[0]
        bins = bins if c["binlist"] else bins[:1] * c["nfeat"]
        g = MAPElites.make_feature_grid(lo.tolist(), hi.tolist(), given, dtype=c["dtype"])
        return plain(g).to(F64).tolist(), g
    # cells of any kind, which may overlap or leave gaps
    n = c["cells"]
    a = rand_grid(c["seed"] + 13, (n, c["nfeat"]), -12, 8, 4.0, F64)
    b = a + rand_grid(c["seed"] + 14, (n, c["nfeat"]), 0, 20, 4.0, F64)
    cells = torch.stack([a, b], dim=-1)
    cells[:: 3, :, 0] = -math.inf
    cells[1::4, 0, 1] = math.inf
    cells[: c["wide"], :, 0] = -math.inf
    cells[: c["wide"], :, 1] = math.inf
    return cells.tolist(), (cells.tolist() if c["binlist"] else cells.to(dt))


def archive(c, ctx):
    dt = DT[c["dtype"]]
    fit = Tracked(c["seed"] + 5, c["L"], c["nfeat"], c["drift"], dt, c["coarse"])
    b = {"bounds": (-2.0, 3.0)} if c["bounded"] else {"initial_bounds": (-2.0, 3.0)}
    problem = Problem(c["sense"], fit, vectorized=True, solution_length=c["L"], dtype=dt, eval_data_length=c["nfeat"], seed=c["seed"] if c["seeded"] else None, **b)
    cells, given = grid_of(c)
    n = len(cells)
    log = []
    ops = make_ops(dict(c, n=n, senses=[c["sense"]], first=False), problem, log)
    kw = {}
    if c["reeval"] is not None:
        kw["re_evaluate"] = c["reeval"]
    reeval = c["reeval"] in (None, True)
    if reeval and c["first"] is not None and c["ops"][0]["kind"] not in CROSS:
        kw["re_evaluate_parents_first"] = c["first"]
    searcher = MAPElites(problem, operators=ops, feature_grid=given, **kw)
    eq(len(searcher.population), n, "number of cells in the archive")
    require(not bool(plain(searcher.filled).any()), "cells are reported as filled before anything was evaluated")
    parents = plain(searcher.population.values).tolist()
    sign = 1 if c["sense"] == "max" else -1
    best = [-math.inf] * n
    old = None
    for gen in range(c["steps"]):
        fit.gen = gen
        fit.calls.clear()
        searcher.step()
        pool = [r for call in fit.calls for r in call]
        if reeval or gen == 0:
            left = Counter(tuple(p) for p in parents)
            left.subtract(Counter(r[0] for r in pool))
            require(all(k <= 0 for k in left.values()), lambda: f"generation {gen + 1}: a parent was not evaluated")
        else:
            pool = old + pool
        what = f"generation {gen + 1}"
        pop = searcher.population
        eq(len(pop), n, f"{what}: number of cells in the archive")
        filled = plain(searcher.filled)
        check_shape(filled, (n,), f"{what}: mask of filled cells")
        eq(filled.dtype, torch.bool, "dtype of the mask of filled cells")
        now = [row(v, e) for v, e in zip(plain(pop.values).tolist(), plain(pop.evals).tolist())]
        known = set(pool)
        for i, (cell, r) in enumerate(zip(cells, now)):
            require(r in known, lambda: f"{what}: cell {i} holds {r}, which does not have the fitness and features of an evaluated solution")
            fitting = [q for q in pool if in_cell(q[1], cell)]
            require(bool(filled[i]) == bool(fitting), lambda: f"{what}: cell {i} {cell} is reported as {'filled' if filled[i] else 'empty'}, {len(fitting)} solutions fall inside")
            if fitting:
                require(in_cell(r[1], cell), lambda: f"{what}: cell {i} {cell} holds a solution with features {r[1][1:]}")
                top = max(sign * q[1][0] for q in fitting)
                require(sign * r[1][0] == top, lambda: f"{what}: cell {i} holds fitness {r[1][0]}, the best is {sign * top}")
                if not c["drift"]:
                    best[i] = max(best[i], top)
                    require(sign * r[1][0] == best[i], lambda: f"{what}: cell {i} lost the best fitness so far {sign * best[i]}, holds {r[1][0]}")
            elif not c["drift"]:
                require(best[i] == -math.inf, lambda: f"{what}: cell {i} lost its solution")
        if bool(filled.any()):
            ctx.hit(c["grid"], "re-evaluating" if reeval else "evaluating once")
            if not bool(filled.all()):
                ctx.label("partly filled")
        if gen and {r[0] for r in now} - {tuple(p) for p in parents}:
            ctx.label("improved")
        parents = [list(r[0]) for r in now]
        old = now


@st.composite
def archive_cases(draw):
    bounded = draw(st.booleans())
    kinds = ["one", "two", "sbx", "gauss", "gauss", "permute", "seen", "equal", "fewer", "more"] + (["poly"] if bounded else [])
    ops = draw(
        st.lists(with_fields(kind=st.sampled_from(kinds), children=st.integers(0, 2), num=st.integers(0, 11)), min_size=1, max_size=3)
    )
    ops = [o for i, o in enumerate(ops) if i == 0 or o["kind"] not in CROSS]
    if any(o["kind"] in ("seen", "equal", "fewer", "more") for o in ops):
        # these leave the bounds, outside of which polynomial mutation is not defined
        ops = [{**o, "kind": "gauss"} if o["kind"] == "poly" else o for o in ops]
    nfeat = draw(st.integers(1, 3))
    return draw(
        with_fields(
            L=often(2, 4, 8),
            nfeat=st.just(nfeat),
            grid=st.sampled_from(["made", "custom"]),
            bins=st.lists(st.integers(1, 6 if nfeat < 3 else 3), min_size=3, max_size=3),
            binlist=st.booleans(),
            cells=often(2, 12, 40),
            wide=st.integers(0, 1),
            coarse=st.booleans(),
            dtype=st.sampled_from(["float64", "float32"]),
            bounded=st.just(bounded),
            seeded=st.booleans(),
            ops=st.just(ops),
            sense=st.sampled_from(["min", "max"]),
            reeval=st.sampled_from([None, True, False, False]),
            first=st.sampled_from([None, None, True, False]),
            drift=st.sampled_from([False, False, True]),
            steps=often(1, 6, 12),
            seed=seeds,
        ).filter(lambda c: c["grid"] == "custom" or math.prod(c["bins"][:nfeat] if c["binlist"] else c["bins"][:1] * nfeat) >= 2)
    )


# -- feature grids -------------------------------------------------------------------------------------------------------


def grids(c, ctx):
    dt = DT[c["dtype"]]
    k = c["nfeat"]
    lo = rand_grid(c["seed"], (k,), -3000, 3000, c["div"], F64)
    hi = lo + rand_grid(c["seed"] + 1, (k,), 1, 3000, c["div"], F64)
    bins = c["bins"][:k]
    if c["scalar"]:
        bins = bins[:1] * k
        given = bins[0]
    else:
        given = torch.tensor(bins) if c["tensors"] else bins
    if c["tensors"]:
        kw = {"dtype": dt} if c["explicit"] else {}
        g = MAPElites.make_feature_grid(lo.to(dt), hi.to(dt), given, **kw)
    else:
        g = MAPElites.make_feature_grid(lo.tolist(), hi.tolist(), given, dtype=c["dtype"] if c["explicit"] else dt)
    lo, hi = lo.to(dt).to(F64), hi.to(dt).to(F64)
    check_shape(g, (math.prod(bins), k, 2), "grid")
    eq(g.dtype, dt, "dtype of the grid")
    g = plain(g).to(F64)
    eps = 4 * torch.finfo(dt).eps
    sides = []
    for j in range(k):
        n = bins[j]
        edges = [-math.inf]
        if n == 2:
            edges.append(float(lo[j]))
        elif n > 2:
            edges += [float(lo[j]) + (float(hi[j]) - float(lo[j])) * i / (n - 2) for i in range(n - 1)]
        edges.append(math.inf)
        tol = eps * (abs(float(lo[j])) + abs(float(hi[j])))
        # the intervals of this feature that appear in the grid, in increasing order
        ints = sorted(set(map(tuple, g[:, j].tolist())))
        eq(len(ints), n, f"number of intervals of feature {j}")
        for (a, b), (c1, d1) in zip(ints, ints[1:]):
            require(b == c1, lambda: f"feature {j}: the interval ({a}, {b}) is followed by ({c1}, {d1})")
        for i, (a, b) in enumerate(ints):
            for got, want in ((a, edges[i]), (b, edges[i + 1])):
                require(got == want or abs(got - want) <= tol, lambda: f"feature {j}: border {got!r}, expected {want!r}")
        if n > 2:
            require(ints[0][1] == float(lo[j]) and ints[-1][0] == float(hi[j]), lambda: f"feature {j}: the inner intervals go from {ints[0][1]!r} to {ints[-1][0]!r}, expected {float(lo[j])!r} to {float(hi[j])!r}")
        sides.append(ints)
    got = Counter(tuple(map(tuple, cell)) for cell in g.tolist())
    eq(got, Counter(itertools.product(*sides)), "cells of the grid")
    ctx.hit(c["dtype"])


grid_cases = with_fields(
    nfeat=st.integers(1, 3),
    bins=st.lists(often(1, 9, 25), min_size=3, max_size=3),
    scalar=st.booleans(),
    tensors=st.booleans(),
    explicit=st.booleans(),
    div=st.sampled_from([1.0, 10.0, 8.0, 1000.0]),
    dtype=st.sampled_from(["float32", "float64", "float64"]),
    seed=seeds,
)


def rejected(c, ctx):
    f32 = torch.float32
    a, b = torch.zeros(2), torch.ones(2)
    make = MAPElites.make_feature_grid
    kind = c["kind"]
    p = lambda senses, **kw: Problem(senses, lambda x: x.sum(-1), vectorized=True, solution_length=2, initial_bounds=(-1, 1), **kw)
    op = lambda x: x + 1
    if kind == "lengths":
        must_raise(lambda: make(a, torch.ones(2 + c["n"]), 3), "bounds of different lengths")
    elif kind == "dtypes":
        must_raise(lambda: make(a, b.double(), 3), "bounds of different types")
    elif kind == "matrix":
        must_raise(lambda: make(torch.zeros(2, c["n"]), torch.ones(2, c["n"]), 3), "two-dimensional bounds")
    elif kind == "two objectives":
        must_raise(lambda: MAPElites(p(["min", "max"]), operators=[op], feature_grid=make(a, b, c["n"] + 1)), "two objectives")
    elif kind == "no operators":
        must_raise(lambda: MAPElites(p("min", eval_data_length=2), operators=[], feature_grid=make(a, b, c["n"] + 1)), "no operators")
    ctx.hit(kind)


rejected_cases = with_fields(kind=st.sampled_from(["lengths", "dtypes", "matrix", "two objectives", "no operators"]), n=st.integers(1, 4))

FACETS = [
    Facet("archive", archive_cases(), archive, rule="at least one cell was filled", quick=500, thorough=8000),
    Facet("grids", grid_cases, grids, rule="a grid was made and compared", quick=250, thorough=3000),
    Facet("rejected", rejected_cases, rejected, rule="an illegal setting given", quick=20, thorough=100),
]
