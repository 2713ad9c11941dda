"""C14: genetic algorithms keep population size, elites and true fitnesses."""

from collections import Counter

import torch
from hypothesis import strategies as st

from evotorch import Problem, SolutionBatch
from evotorch.algorithms import Cosyne, GeneticAlgorithm, SteadyStateGA
from evotorch.operators import (
    CopyingOperator,
    CosynePermutation,
    CutAndSplice,
    GaussianMutation,
    MultiPointCrossOver,
    OnePointCrossOver,
    PolynomialMutation,
    SimulatedBinaryCrossOver,
    TwoPointCrossOver,
)
from evotorch.tools import ObjectArray

from .c05 import fronts_of
from .common import DT, check_shape, eq, must_raise, often, plain, rand_grid, require, seeds, with_fields
from harness.core import Facet

TECHNIQUE = "property-based testing: every generation of generated searches compared with the set of solutions evaluated in it (recorded by the fitness function)"
ASSUMPTIONS = ["fitnesses are never NaN"]

F64 = torch.float64


class Tracked:
    """A fitness that changes from generation to generation, with a record of everything evaluated"""

    def __init__(self, seed, L, nobj, drifting, dtype):
        self.w = rand_grid(seed, (nobj, L), -16, 16, 8.0, F64)
        self.p = rand_grid(seed + 1, (nobj, L), -8, 8, 4.0, F64)
        self.d = rand_grid(seed + 2, (nobj, L), -16, 16, 8.0, F64) if drifting else None
        self.dtype = dtype
        self.gen = 0
        self.calls = []

    def __call__(self, xs):
        x = xs.as_subclass(torch.Tensor).to(F64)
        f = torch.stack([((x - p) ** 2 * w).sum(-1) for w, p in zip(self.w, self.p)], dim=-1)
        if self.d is not None:
            f = f + self.gen * (x @ self.d.T)
        f = f.to(self.dtype)
        self.calls.append([row(v, e) for v, e in zip(plain(xs).tolist(), f.tolist())])
        return f


def row(v, e):
    return tuple(v), tuple(e)


class Words(Problem):
    """Solutions are sequences of small integers"""

    def __init__(self, senses, seed, drifting):
        super().__init__(senses, dtype=object, seed=seed)
        self.drifting = drifting
        self.gen = 0
        self.calls = []
        self.open = []
        self.g = torch.Generator()
        self.g.manual_seed(seed)

    def _fill(self, values):
        for i in range(len(values)):
            n = int(torch.randint(1, 5, (), generator=self.g))
            values[i] = torch.randint(0, 4, (n,), generator=self.g).tolist()

    def score(self, v):
        f = [float(sum((i + 1) * a for i, a in enumerate(v)) % 7) + 0.125 * len(v), float(sum(v)) - 0.5 * len(v)]
        if self.drifting:
            f = [a + self.gen * (sum(v) % 3) for a in f]
        return f[: len(self.senses)]

    def _evaluate_batch(self, batch):
        self.open = []
        super()._evaluate_batch(batch)
        self.calls.append(self.open)

    def _evaluate(self, solution):
        v = list(solution.values)
        f = self.score(v)
        self.open.append(row(v, f))
        solution.set_evals(torch.tensor(f))


def population_rows(pop, nobj):
    f = plain(pop.evals)
    check_shape(f, (len(pop), f.shape[1]), "evaluations")
    v = pop.values
    vs = [list(x) for x in v] if isinstance(v, ObjectArray) else plain(v).tolist()
    return [row(a, b) for a, b in zip(vs, f[:, :nobj].tolist())]


# -- operators ---------------------------------------------------------------------------------------------------------


class Seen(CopyingOperator):
    """Notes what it receives, and adds a constant"""

    def __init__(self, problem, log, add):
        super().__init__(problem)
        self.log, self.add = log, add

    def _do(self, batch):
        r = batch.clone()
        self.log.append((plain(batch.values).tolist(), plain(batch.evals).tolist()))
        r.access_values()[:] += self.add
        return r


def make_function(kind, add, log):
    """A user function from values to values: the same number, fewer or more rows"""

    def op(x):
        y = x.clone()
        y += add
        if kind == "fewer":
            y = y[: max(1, len(y) // 2)]
        elif kind == "more":
            y = torch.cat([y, y[: len(y) // 2 + 1] + add])
        log.append((plain(x).tolist(), plain(y).tolist()))
        return y

    return op


def make_ops(c, problem, log):
    ops = []
    n = c["n"]
    for i, o in enumerate(c["ops"]):
        k = o["kind"]
        more = {}
        if o["children"] == 1:
            more["num_children"] = 2 * (1 + o["num"] % n)
        elif o["children"] == 2:
            more["cross_over_rate"] = [0.5, 1.0, 2.0][o["num"] % 3]
        ts = 1 + o["num"] % 4
        if k == "one":
            ops.append(OnePointCrossOver(problem, tournament_size=ts, **more))
        elif k == "two":
            ops.append(TwoPointCrossOver(problem, tournament_size=ts, **more))
        elif k == "multi":
            ops.append(MultiPointCrossOver(problem, tournament_size=ts, num_points=1 + o["num"] % 3, **more))
        elif k == "sbx":
            ops.append(SimulatedBinaryCrossOver(problem, tournament_size=ts, eta=2.0, **more))
        elif k == "cut":
            ops.append(CutAndSplice(problem, tournament_size=ts, **more))
        elif k == "gauss":
            ops.append(GaussianMutation(problem, stdev=0.5, mutation_probability=[None, 0.5][o["num"] % 2]))
        elif k == "poly":
            ops.append(PolynomialMutation(problem, eta=2.0))
        elif k == "permute":
            ops.append(CosynePermutation(problem, permute_all=not (o["num"] % 2 and i == 0 and len(c["senses"]) == 1 and (c["reeval"] is False or c["first"]))))
        elif k == "seen":
            ops.append(Seen(problem, log, 0.25))
        elif k in ("equal", "fewer", "more"):
            ops.append(make_function(k, (1 + o["num"] % 3) * 0.25, log))
        elif k == "swap":
            ops.append(swap_words)
    return ops


def swap_words(values):
    """A user function on object arrays: reverses every sequence, and appends to it"""
    r = ObjectArray(len(values))
    for i in range(len(values)):
        r[i] = list(reversed(values[i])) + [i % 4]
    return r


CROSS = ("one", "two", "multi", "sbx", "cut")


# -- the oracle --------------------------------------------------------------------------------------------------------


def utilities(rows, senses):
    return [tuple(e if s == "max" else -e for e, s in zip(r[1], senses)) for r in rows]


def take_best_ok(chosen, pool, n, senses, what):
    """chosen are n rows of the pool such that nothing better was left"""
    eq(len(chosen), n, f"{what}: number of survivors")
    left = Counter(pool)
    left.subtract(Counter(chosen))
    bad = [r for r, k in left.items() if k < 0]
    require(not bad, lambda: f"{what}: {bad[0]} is not among the candidates (values with their fitness), or not so often")
    lost = list(left.elements())
    if len(senses) == 1:
        uc, ul = utilities(chosen, senses), utilities(lost, senses)
        if uc and ul:
            require(min(uc) >= max(ul), lambda: f"{what}: a solution of utility {max(ul)} was dropped, one of {min(uc)} was kept")
    else:
        fronts = fronts_of(utilities(pool, senses))
        level = {pool[i]: k for k, f in enumerate(fronts) for i in f}
        if chosen and lost:
            worst, best = max(level[r] for r in chosen), min(level[r] for r in lost)
            require(worst <= best, lambda: f"{what}: a solution of front {best} was dropped, one of front {worst} was kept")


def minus(pool, part, what):
    left = Counter(pool)
    left.subtract(Counter(part))
    require(all(k >= 0 for k in left.values()), lambda: f"{what}: {[r for r, k in left.items() if k < 0][0]} is missing")
    return list(left.elements())


def setup(c):
    nobj = len(c["senses"])
    senses = c["senses"] if nobj > 1 else c["senses"][0]
    if c["dtype"] == "object":
        problem = Words(senses, c["seed"], c["drift"])
        return problem, problem
    dt = DT[c["dtype"]]
    fit = Tracked(c["seed"] + 5, c["L"], nobj, c["drift"], dt)
    b = {"bounds": (-2.0, 3.0)} if c["bounded"] else {"initial_bounds": (-2.0, 3.0)}
    problem = Problem(senses, fit, vectorized=True, solution_length=c["L"], dtype=dt, seed=c["seed"] if c["seeded"] else None, **b)
    return problem, fit


def bounds_ok(c, rows):
    if c["bounded"] and not any(o["kind"] in ("equal", "fewer", "more", "seen") for o in c.get("ops", [])):
        require(all(-2.0 <= a <= 3.0 for v, _ in rows for a in v), lambda: "a solution lies outside the bounds")


def ga(c, ctx):
    problem, rec = setup(c)
    senses, nobj, n = c["senses"], len(c["senses"]), c["n"]
    log = []
    ops = make_ops(c, problem, log)
    kw = {"popsize": n, "operators": ops}
    if c["elitist"] is not None:
        kw["elitist"] = c["elitist"]
    if c["reeval"] is not None:
        kw["re_evaluate"] = c["reeval"]
    elitist, reeval = c["elitist"] in (None, True), c["reeval"] in (None, True)
    crossing = any(isinstance(o, (OnePointCrossOver, TwoPointCrossOver, MultiPointCrossOver, SimulatedBinaryCrossOver, CutAndSplice)) for o in ops)
    first = crossing
    if reeval and c["first"] is not None and not (crossing and not c["first"]):
        kw["re_evaluate_parents_first"] = first = c["first"]
    cls = GeneticAlgorithm
    if c["steady"]:
        cls = SteadyStateGA
        if c["use"] and c["first"] is None and len(ops) <= 2 and [isinstance(o, CopyingOperator) and type(o) in (OnePointCrossOver, TwoPointCrossOver, MultiPointCrossOver, SimulatedBinaryCrossOver, CutAndSplice) for o in ops] in ([True], [False], [True, False]):
            del kw["operators"]
            first = True
    searcher = cls(problem, **kw)
    if c["steady"] and "operators" not in kw:
        for o in reversed(ops):
            searcher.use(o)
        ctx.label("use")
    v = searcher.population.values
    parents = [list(x) for x in v] if isinstance(v, ObjectArray) else plain(v).tolist()
    eq(len(parents), n, "initial population size")
    old = None
    for gen in range(c["steps"]):
        rec.gen = gen
        rec.calls.clear()
        log.clear()
        searcher.step()
        pool = [r for call in rec.calls for r in call]
        evaluated_parents = reeval or gen == 0
        if evaluated_parents:
            # every parent was evaluated in this generation
            count = Counter(tuple(p) for p in parents)
            old = []
            children = []
            for r in pool:
                if count[r[0]] > 0:
                    count[r[0]] -= 1
                    old.append(r)
                else:
                    children.append(r)
            require(len(old) == n, lambda: f"generation {gen + 1}: {n - len(old)} of {n} parents were not evaluated")
            if first or gen == 0 and not reeval:
                eq(Counter(rec.calls[0]), Counter(old), f"generation {gen + 1}: the first batch evaluated holds the parents")
            elif reeval:
                eq(len(rec.calls), 1, f"generation {gen + 1}: batches evaluated")
        else:
            children = pool
        # what the operators received
        if log and c["ops"][0]["kind"] in ("seen", "equal", "fewer", "more"):
            eq(Counter(map(tuple, log[0][0])), Counter(tuple(p) for p in parents), f"generation {gen + 1}: values given to the first operator")
            if c["ops"][0]["kind"] == "seen" and (first or not reeval):
                got = [row(a, b[:nobj]) for a, b in zip(*log[0])]
                eq(Counter(got), Counter(old), f"generation {gen + 1}: parents given to the first operator")
            for a, b, o, o2 in zip(log, log[1:], c["ops"], c["ops"][1:]):
                if o2["kind"] not in ("seen", "equal", "fewer", "more"):
                    break
                if o["kind"] != "seen":
                    eq(b[0], a[1], f"generation {gen + 1}: values given to the next operator")
        if log and c["ops"][-1]["kind"] in ("equal", "fewer", "more"):
            eq(Counter(r[0] for r in children), Counter(map(tuple, log[-1][1])), f"generation {gen + 1}: evaluated children")
            ctx.label("functions")
        m = c["ops"][0]
        if m["kind"] in CROSS and all(o["kind"] not in ("fewer", "more") and o["kind"] not in CROSS for o in c["ops"][1:]):
            if m["children"] == 1:
                eq(len(children), 2 * (1 + m["num"] % n), "number of children")
            elif m["children"] == 0:
                eq(len(children), n + n % 2, "number of children")
        now = population_rows(searcher.population, nobj)
        what = f"generation {gen + 1}"
        if elitist:
            take_best_ok(now, old + children, n, senses, what)
        elif len(children) >= n:
            take_best_ok(now, children, n, senses, what)
        else:
            kept = minus(now, children, what)
            take_best_ok(kept, old, n - len(children), senses, what)
            ctx.label("partial replacement")
        bounds_ok(c, now)
        require(searcher.population.is_evaluated if hasattr(searcher.population, "is_evaluated") else True, "the population is not evaluated")
        if Counter(r[0] for r in now) != Counter(tuple(p) for p in parents):
            ctx.hit("elitist" if elitist else "generational", "re-evaluating" if reeval else "evaluating once", "objects" if c["dtype"] == "object" else "numbers")
        parents = [list(r[0]) for r in now]
        old = now
    if nobj > 1:
        ctx.label("multi-objective")


@st.composite
def ga_cases(draw):
    dtype = draw(st.sampled_from(["float64", "float32", "float64", "object"]))
    nobj = draw(st.sampled_from([1, 1, 2]))
    bounded = draw(st.booleans()) or dtype == "object"
    if dtype == "object":
        kinds = ["cut", "cut", "swap"]
        bounded = False
    else:
        kinds = ["one", "two", "multi", "sbx", "gauss", "permute", "seen", "equal", "fewer", "more"] + (["poly"] if bounded else [])
    n = draw(often(2, 12, 40))
    ops = draw(
        st.lists(
            with_fields(kind=st.sampled_from(kinds), children=st.integers(0, 2), num=often(0, 11, 40)),
            min_size=1,
            max_size=3,
        )
    )
    # an operator which selects needs solutions with known fitness: it may only come first
    ops = [o for i, o in enumerate(ops) if i == 0 or o["kind"] not in CROSS]
    if any(o["kind"] in ("seen", "equal", "fewer", "more") for o in ops):
        # these leave the bounds, outside of which polynomial mutation is not defined
        ops = [{**o, "kind": "gauss"} if o["kind"] == "poly" else o for o in ops]
    return draw(
        with_fields(
            L=often(2, 4, 10),
            n=st.just(n),
            dtype=st.just(dtype),
            bounded=st.just(bounded),
            seeded=st.booleans(),
            ops=st.just(ops),
            senses=st.lists(st.sampled_from(["min", "max"]), min_size=nobj, max_size=nobj),
            elitist=st.sampled_from([None, True, False, False]),
            reeval=st.sampled_from([None, True, False, False]),
            first=st.sampled_from([None, None, True, False]),
            steady=st.booleans(),
            use=st.booleans(),
            drift=st.booleans(),
            steps=often(1, 5, 12),
            seed=seeds,
        )
    )


# -- cooperative synapse neuroevolution ----------------------------------------------------------------------------------


def cosyne(c, ctx):
    problem, rec = setup(c)
    senses, nobj, n = c["senses"], len(c["senses"]), c["n"]
    kw = dict(popsize=n, tournament_size=c["ts"], mutation_stdev=None if c["mut"] == 0 else 0.5)
    if c["mut"] == 2:
        kw["mutation_probability"] = 0.5
    if nobj > 1:
        kw["permute_all"] = True
    elif c["all"] is not None:
        kw["permute_all"] = c["all"]
    elites = 0
    if c["elites"] is not None:
        elites = min(c["elites"], n)
        if c["byratio"]:
            kw["elitism_ratio"] = (elites + 0.5) / n if elites < n else 1.0
        else:
            kw["num_elites"] = elites
    if c["eta"]:
        kw["eta"] = 4.0
    if c["children"]:
        kw["num_children"] = 2 * c["children"]
    searcher = Cosyne(problem, **kw)
    parents = plain(searcher.population.values).tolist()
    eq(len(parents), n, "initial population size")
    if c["bounded"]:
        bounds_ok(c, [row(p, ()) for p in parents])
    old = None
    for gen in range(c["steps"]):
        rec.gen = gen
        rec.calls.clear()
        searcher.step()
        what = f"generation {gen + 1}"
        if gen == 0:
            eq(Counter(r[0] for r in rec.calls[0]), Counter(tuple(p) for p in parents), "first batch evaluated")
            old = rec.calls.pop(0)
        pool = [r for call in rec.calls for r in call]
        values = [r[0] for r in pool]
        now = population_rows(searcher.population, nobj)
        take_best_ok(now, pool, n, senses, what)
        bounds_ok(c, now)
        num = len(pool) - n - elites
        if c["children"]:
            eq(num, 2 * c["children"], f"{what}: number of children")
        elif n % 4 == 0:
            eq(num, n // 2, f"{what}: number of children")
        require(num >= 2, lambda: f"{what}: {num} children")
        if nobj == 1:
            ranked = sorted(old, key=lambda r: utilities([r], senses)[0], reverse=True)
            us = [utilities([r], senses)[0] for r in ranked]
            if elites and (elites == n or us[elites - 1] > us[elites]):
                minus(values, [r[0] for r in ranked[:elites]], f"{what}: elites among the evaluated solutions")
                ctx.label("elites")
                if not c["drift"]:
                    best = max(utilities(now, senses))
                    require(best >= us[0], lambda: f"{what}: the best fitness went from {us[0]} to {best}")
            if not c["mut"] and not c["eta"] and elites <= n // 4 or (elites and elites == n):
                good = [r[0] for r, u in zip(ranked, us) if u >= us[n // 4 - 1]]
                if elites == 0 or elites == n or us[elites - 1] > us[elites]:
                    for j in range(c["L"]):
                        col = Counter(v[j] for v in values)
                        col.subtract(Counter(r[0][j] for r in old))
                        col.subtract(Counter(r[0][j] for r in ranked[:elites]))
                        require(all(k >= 0 for k in col.values()), lambda: f"{what}: variable {j + 1}: the values of the population were not permuted among the solutions")
                        if not c["mut"] and not c["eta"]:
                            from_parents = {v[j] for v in good}
                            require(all(a in from_parents for a, k in col.items() if k > 0), lambda: f"{what}: variable {j + 1} of a child does not come from the best quarter")
                            ctx.label("recombination")
        ctx.hit()
        old = now
        parents = [list(r[0]) for r in now]


def breadth(c, ctx):
    """Without selection pressure among them, every solution of the best quarter gets children"""
    problem, rec = setup(c)
    n = c["n"]
    rec.gen = 0
    searcher = Cosyne(problem, popsize=n, tournament_size=1, mutation_stdev=None, permute_all=True, num_children=200)
    searcher.step()
    old, pool = rec.calls[0], [r for call in rec.calls[1:] for r in call]
    eq(len(pool), n + 200, "number of solutions evaluated")
    ranked = sorted(old, key=lambda r: utilities([r], c["senses"])[0], reverse=True)
    us = [utilities([r], c["senses"])[0] for r in ranked]
    k = n // 4
    if us[k - 1] == us[k]:
        return
    unused = set(range(k))
    for j in range(c["L"]):
        col = Counter(r[0][j] for r in pool)
        col.subtract(Counter(r[0][j] for r in old))
        unused -= {i for i in unused if col[ranked[i][0][j]] > 0}
    require(not unused, lambda: f"no child of the solutions number {sorted(i + 1 for i in unused)} of the best {k} among 200 children")
    ctx.hit()


breadth_cases = with_fields(
    L=st.integers(2, 4),
    n=st.integers(8, 24),
    dtype=st.just("float64"),
    bounded=st.booleans(),
    seeded=st.booleans(),
    drift=st.just(False),
    senses=st.sampled_from([["min"], ["max"]]),
    seed=seeds,
)


@st.composite
def cosyne_cases(draw):
    nobj = draw(st.sampled_from([1, 1, 1, 2]))
    return draw(
        with_fields(
            L=st.integers(2, 5),
            n=often(8, 24, 60),
            ts=st.integers(1, 5),
            mut=st.integers(0, 2),
            all=st.sampled_from([None, False, True]),
            elites=st.sampled_from([None, 0, 1, 1, 2, 3, 12, 24]),
            byratio=st.booleans(),
            eta=st.sampled_from([False, False, True]),
            children=st.integers(0, 6),
            dtype=st.sampled_from(["float64", "float32"]),
            bounded=st.booleans(),
            seeded=st.booleans(),
            drift=st.booleans(),
            senses=st.lists(st.sampled_from(["min", "max"]), min_size=nobj, max_size=nobj),
            steps=often(1, 5, 12),
            seed=seeds,
        )
    )


# -- settings that are rejected ----------------------------------------------------------------------------------------


def rejected(c, ctx):
    problem, _ = setup(c)
    n = c["n"]
    kind = c["kind"]
    cross = OnePointCrossOver(problem, tournament_size=2)
    mut = GaussianMutation(problem, stdev=0.5)
    if kind == "no operators":
        must_raise(lambda: GeneticAlgorithm(problem, operators=[], popsize=n), "no operators")
    elif kind == "order without re-evaluation":
        must_raise(
            lambda: GeneticAlgorithm(problem, operators=[mut], popsize=n, re_evaluate=False, re_evaluate_parents_first=c["flag"]),
            "an order of re-evaluation without re-evaluation",
        )
    elif kind == "two cross-overs":
        s = SteadyStateGA(problem, popsize=n)
        s.use(cross)
        must_raise(lambda: s.use(TwoPointCrossOver(problem, tournament_size=2)), "a second cross-over")
    elif kind == "two mutations":
        s = SteadyStateGA(problem, popsize=n)
        s.use(mut)
        must_raise(lambda: s.use(lambda x: x), "a second mutation")
    elif kind == "use after start":
        s = SteadyStateGA(problem, popsize=n)
        s.use(mut)
        s.step()
        must_raise(lambda: s.use(cross), "an operator after the search started")
    elif kind == "use with list":
        s = SteadyStateGA(problem, popsize=n, operators=[mut])
        must_raise(lambda: s.use(cross), "an operator besides the list")
    elif kind == "nothing used":
        s = SteadyStateGA(problem, popsize=n)
        must_raise(lambda: s.step(), "a search without operators")
    elif kind == "probability alone":
        must_raise(lambda: Cosyne(problem, popsize=n, tournament_size=2, mutation_stdev=None, mutation_probability=0.5), "a mutation probability without mutation")
    elif kind == "elites twice":
        must_raise(lambda: Cosyne(problem, popsize=n, tournament_size=2, mutation_stdev=0.5, num_elites=1, elitism_ratio=0.25), "two numbers of elites")
    elif kind == "wrong rank":
        s = GeneticAlgorithm(problem, operators=[lambda x: x.reshape(-1)], popsize=n)
        must_raise(lambda: s.step(), "an operator returning a vector")
    ctx.hit(kind)


rejected_cases = with_fields(
    L=st.integers(2, 4),
    n=st.integers(8, 10),
    kind=st.sampled_from(
        ["no operators", "order without re-evaluation", "two cross-overs", "two mutations", "use after start", "use with list", "nothing used", "probability alone", "elites twice", "wrong rank"]
    ),
    flag=st.booleans(),
    dtype=st.just("float32"),
    bounded=st.booleans(),
    seeded=st.booleans(),
    drift=st.just(False),
    senses=st.sampled_from([["min"], ["max"]]),
    seed=seeds,
)

FACETS = [
    Facet("ga", ga_cases(), ga, rule="at least one generation changed the population", quick=500, thorough=10000),
    Facet("cosyne", cosyne_cases(), cosyne, rule="at least one generation compared", quick=250, thorough=4000),
    Facet("breadth", breadth_cases, breadth, rule="no tie at the border of the best quarter", quick=15, thorough=100),
    Facet("rejected", rejected_cases, rejected, rule="an illegal setting given", quick=40, thorough=200),
]
