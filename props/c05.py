"""C05: Pareto fronts, crowding and multi-objective selection."""

import math

import torch
from hypothesis import strategies as st

from evotorch import Problem, SolutionBatch

from .common import DT, check_shape, eq, plain, require, same, with_fields
from harness.core import Facet

QUICK_FACTOR = 3
TECHNIQUE = "property-based testing: generated fitness tables against brute-force front peeling and crowding distances"
INF = float("inf")


def fronts_of(u):
    """Fronts by repeated removal of the non-dominated rows (all objectives to be maximised)."""
    left = list(range(len(u)))
    fronts = []

    def dominates(a, b):
        return all(x >= y for x, y in zip(u[a], u[b])) and any(x > y for x, y in zip(u[a], u[b]))

    while left:
        f = [i for i in left if not any(dominates(j, i) for j in left)]
        fronts.append(f)
        left = [i for i in left if i not in f]
    return fronts


def crowding(u, front):
    """NSGA-II crowding distances in a front, or None where equal values make them ambiguous."""
    d = {i: 0.0 for i in front}
    for k in range(len(u[0])):
        vals = [u[i][k] for i in front]
        if len(set(vals)) < len(vals):
            return None
        order = sorted(front, key=lambda i: u[i][k])
        span = u[order[-1]][k] - u[order[0]][k]
        d[order[0]] = d[order[-1]] = INF
        for a, b, c in zip(order, order[1:], order[2:]):
            d[b] += (u[c][k] - u[a][k]) / span
    return d


def least_crowded_first(ids, d, what):
    for a, b in zip(ids, ids[1:]):
        require(d[a] >= d[b] - 1e-5, lambda: f"{what}: solution {a} (crowding distance {d[a]}) before {b} ({d[b]})")


def check(c, ctx):
    senses = c["senses"]
    m = len(senses)
    rows = [[v / 2.0 for v in r[:m]] for r in c["rows"]]
    if "layers" in c:
        # large fronts: some trade-off lines behind each other, with distinct coordinates in a shuffled order
        size, layers = c["size"], c["layers"]
        order = torch.randperm(size).tolist()
        rows = []
        for i in order:
            x = float(i) + 0.001 * i * i
            v = [x, -x - (i % layers) * (size * size)] + [float(i % layers) * -1.0] * (m - 2)
            rows.append([a if s == "max" else -a for a, s in zip(v, senses)])
    elif c["line"]:
        # large fronts: points around a trade-off line with distinct coordinates, in a shuffled order
        size = len(rows)
        step = next(k for k in range(1 + c["shift"] % size, 2 * size + 2) if math.gcd(k, size) == 1)
        new = []
        for i, r in enumerate(c["rows"]):
            x = float((i * step) % size)
            x = x * x * 0.25 + x
            new.append([x, -x + (r[1] % 3) * 0.25 - (3.125 if r[0] % 4 == 0 else 0.0)] + [v / 2.0 if c["k"] % 3 else 1.0 for v in r[2:m]])
        rows = [[v if s == "max" else -v for v, s in zip(r, senses)] for r in new]
    # objectives of different scales, and such which differ only in the last digits of their type
    rows = [[v * 2.0**e for v, e in zip(r, c["scales"])] for r in rows]
    if c["edt"] == "float64" and c["k"] % 4 == 0:
        rows = [[100.0 + v * 2.0**-20 if e in (0, 3) else v for v, e in zip(r, c["scales"])] for r in rows]
    n = len(rows)
    p = Problem(senses, solution_length=1, initial_bounds=(0, 1), eval_dtype=DT[c["edt"]], eval_data_length=c["q"])
    b = SolutionBatch(p, popsize=n, empty=True)
    b.set_values(torch.arange(n, dtype=torch.float32).reshape(n, 1))
    ev = torch.tensor(rows, dtype=DT[c["edt"]])
    if c["q"]:
        b.set_evals(ev, torch.arange(n, dtype=DT[c["edt"]]).reshape(n, 1).expand(n, c["q"]))
    else:
        b.set_evals(ev)
    keep = plain(b.evals)
    u = [[(x if s == "max" else -x) for x, s in zip(r, senses)] for r in rows]
    fronts = fronts_of(u)
    rank_of = {i: k for k, f in enumerate(fronts) for i in f}
    want_ranks = [rank_of[i] for i in range(n)]
    dist = [crowding(u, f) for f in fronts]

    for crowd in (False, True):
        info = b.arg_pareto_sort(crowdsort=crowd)
        eq([int(x) for x in info.ranks], want_ranks, f"Pareto ranks (crowdsort={crowd}) for {rows} {senses}")
        eq(len(info.fronts), len(fronts), "number of fronts")
        for k, f in enumerate(info.fronts):
            got = [int(i) for i in f]
            eq(sorted(got), fronts[k], f"members of front {k} (crowdsort={crowd}) for {rows} {senses}")
            if crowd and dist[k] is not None:
                least_crowded_first(got, dist[k], f"front {k}")
        ranks, cr = b.compute_pareto_ranks(crowdsort=crowd)
        eq([int(x) for x in ranks], want_ranks, f"Pareto ranks (crowdsort={crowd})")
        if not crowd:
            require(cr is None, "crowding ranks although there is no crowd sorting")
        else:
            for k, f in enumerate(fronts):
                got = {i: int(cr[i]) for i in f}
                eq(sorted(got.values()), list(range(len(f))), f"crowding ranks in front {k}")
                if dist[k] is not None:
                    least_crowded_first(sorted(f, key=lambda i: got[i]), dist[k], f"crowding ranks in front {k}")

    size = 1 + c["k"] % n
    top = b.take_best(size)
    eq(len(top), size, "number of taken solutions")
    ids = [int(v) for v in top.values[:, 0]]
    eq(len(set(ids)), size, "number of distinct taken solutions")
    for r, i in enumerate(ids):
        same(top.evals[r], keep[i], f"fitness of the taken solution {i}")
    got_ranks = [rank_of[i] for i in ids]
    require(got_ranks == sorted(want_ranks)[:size], lambda: f"take_best({size}) of {rows} {senses}: taken fronts {got_ranks}, best possible {sorted(want_ranks)[:size]}")
    last = got_ranks[-1]
    cut = [i for i in ids if rank_of[i] == last]
    partial = len(cut) < len(fronts[last])
    if dist[last] is not None:
        d = dist[last]
        out = [i for i in fronts[last] if i not in cut]
        for i in cut:
            for o in out:
                require(d[i] >= d[o] - 1e-5, lambda: f"take_best({size}) of {rows} {senses}: took solution {i} (crowding distance {d[i]}) and left {o} ({d[o]})")
    # An objective on which the whole front agrees says nothing about crowding, except that two solutions have to be
    # its ends: those may be any.
    flat = [k for k in range(m) if len({u[i][k] for i in fronts[last]}) == 1]
    if dist[last] is None and 0 < len(flat) < m and len(fronts[last]) > 1:
        d = crowding([[x[k] for k in range(m) if k not in flat] for x in u], fronts[last])
        if d is not None:
            left = sorted(d[i] for i in fronts[last] if i not in cut)
            kept = sorted(d[i] for i in cut)[2 * len(flat) :]
            if kept and left:
                require(kept[0] >= left[-1] - 1e-5, lambda: f"take_best({size}) of {rows} {senses}: took {cut} of {fronts[last]} with the crowding distances {d}")
                ctx.hit("front cut by crowding, constant objective")
    # selection by one objective of a multi-objective batch
    j = c["j"] % m
    one = b.take_best(size, obj_index=j)
    col = [x[j] for x in u]
    eq(sorted((float(x) if senses[j] == "max" else -float(x)) for x in one.evals[:, j]), sorted(sorted(col)[-size:]), "best solutions of one objective")
    same(b.evals, keep, "fitnesses of the sorted batch")
    if len(fronts) >= 2 and max(len(f) for f in fronts) >= 2:
        ctx.hit()
    if partial and dist[last] is not None and len(fronts[last]) >= 4:
        ctx.hit("front cut by crowding")
    if len(fronts[0]) >= 4 and dist[0] is not None:
        ctx.label("first front of 4 or more with distinct values")


scales = st.one_of(st.just([0] * 4), st.lists(st.sampled_from([0, -17, -9, -4, 3, 20]), min_size=4, max_size=4))

cases = with_fields(
    senses=st.lists(st.sampled_from(["min", "max"]), min_size=2, max_size=4),
    rows=st.one_of(
        st.lists(st.lists(st.integers(-40, 40), min_size=4, max_size=4), min_size=1, max_size=8),
        st.lists(st.lists(st.integers(-3, 3), min_size=4, max_size=4), min_size=1, max_size=10),
        st.lists(st.lists(st.integers(-40, 40), min_size=4, max_size=4), min_size=6, max_size=14),
    ),
    line=st.booleans(),
    shift=st.integers(0, 13),
    k=st.integers(0, 13),
    j=st.integers(0, 3),
    q=st.sampled_from([0, 0, 2]),
    edt=st.sampled_from(["float32", "float64"]),
    scales=scales,
)

large_cases = with_fields(
    senses=st.lists(st.sampled_from(["min", "max"]), min_size=2, max_size=3),
    rows=st.just([]),
    size=st.integers(30, 200),
    layers=st.sampled_from([1, 1, 2, 2, 3]),
    k=st.integers(0, 200),
    j=st.integers(0, 2),
    q=st.just(0),
    edt=st.just("float64"),
    scales=scales,
)



def many_fronts(c, ctx):
    """A long chain of solutions dominating each other, with a front at its end: crowding decides about that front only"""
    chain, size, senses = c["chain"], c["size"], c["senses"]
    n = chain + size
    order = torch.randperm(n, generator=torch.Generator().manual_seed(c["seed"])).tolist()
    gaps = torch.randint(1, 8, (size,), generator=torch.Generator().manual_seed(c["seed"] + 1)).cumsum(0).to(torch.float64)
    u = [[1000.0 + chain - i] * 2 for i in range(chain)] + [[float(g), -float(g)] for g in gaps]
    ev = torch.tensor([u[i] for i in order], dtype=torch.float64) * torch.tensor([1.0 if s == "max" else -1.0 for s in senses])
    p = Problem(senses, solution_length=1, initial_bounds=(0, 1), dtype=torch.float64, eval_dtype=torch.float64)
    b = SolutionBatch(p, popsize=n, empty=True)
    b.set_values(torch.tensor(order, dtype=torch.float64).reshape(n, 1))
    b.set_evals(ev)
    take = chain + 1 + c["k"] % (size - 1)
    ids = [int(v) for v in b.take_best(take).values[:, 0]]
    eq(sorted(i for i in ids if i < chain), list(range(chain)), "taken solutions of the better fronts")
    front = list(range(chain, n))
    d = crowding(u, front)
    cut = {i for i in ids if i >= chain}
    eq(len(cut), take - chain, "taken solutions of the last front")
    require(
        min(d[i] for i in cut) >= max(d[i] for i in front if i not in cut) - 1e-5,
        lambda: f"{chain} fronts before a front with the crowding distances {d}: taken {sorted(cut)}",
    )
    ctx.hit("many fronts")


many_cases = with_fields(
    senses=st.lists(st.sampled_from(["min", "max"]), min_size=2, max_size=2),
    chain=st.integers(1, 3000),
    size=st.integers(5, 60),
    k=st.integers(0, 60),
    seed=st.integers(0, 2**20),
)

RULE = "at least 2 fronts, one of them with at least 2 solutions, or a front of at least 4 cut by crowding distance"

FACETS = [
    Facet("fronts", cases, check, rule=RULE, quick=1200, thorough=30000),
    Facet("many fronts", many_cases, many_fronts, rule="any", quick=4, thorough=30),
    Facet("large fronts", large_cases, check, rule=RULE, quick=25, thorough=300),
]
