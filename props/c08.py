"""C08: variation operators give valid children made from the selected parents."""

import math

import torch
from hypothesis import strategies as st

from evotorch import Problem, SolutionBatch
from evotorch.operators import (
    CosynePermutation,
    CutAndSplice,
    GaussianMutation,
    MultiPointCrossOver,
    OnePointCrossOver,
    PolynomialMutation,
    SimulatedBinaryCrossOver,
    TwoPointCrossOver,
)

from .common import DT, Violation, check_shape, eq, must_raise, often, plain, rand_grid, require, same, show, with_fields
from .c05 import fronts_of
from harness.core import Facet

TECHNIQUE = "property-based testing: parents of every child are reconstructed from tagged populations; mutation laws inverted and tested for uniformity"


def make_batch(c, values, evals, **kw):
    p = Problem(c["senses"], solution_length=values.shape[1], dtype=values.dtype, initial_bounds=(0, 1), eval_dtype=torch.float32, **kw)
    b = SolutionBatch(p, popsize=len(values), empty=True)
    b.set_values(values)
    b.set_evals(evals)
    return p, b


def unchanged(b, values, evals):
    same(b.values, values, "decision values of the batch given to the operator")
    same(b.evals, evals, "fitnesses of the batch given to the operator")


def fresh(children, n, L, dtype, nobj, what):
    require(isinstance(children, SolutionBatch), f"{what} did not give a batch")
    check_shape(children.values, (n, L), f"{what}: children")
    require(children.values.dtype == dtype, lambda: f"{what}: dtype {children.values.dtype}, expected {dtype}")
    same(children.evals, torch.full((n, nobj), float("nan")), f"{what}: fitnesses of the new solutions")


def num_children(c, n):
    """(keyword arguments, allowed numbers of children)"""
    k = c["count"]
    if k == 0:
        return {}, [n if n % 2 == 0 else n + 1]
    if k == 1:
        m = 2 * (1 + c["m"] % 6)
        return {"num_children": m}, [m]
    rate = [0.5, 1.0, 0.3, 0.75][c["m"] % 4]
    if n * rate < 1:
        rate = 1.0
    f = n * rate
    return {"cross_over_rate": rate}, [x for x in range(0, 2 * n + 4, 2) if abs(x - f) <= 1]


def quality(c, evals, obj):
    """Numbers which are higher for solutions which win over others; equal ones may be selected either way."""
    senses = c["senses"]
    u = [[float(x) if s == "max" else -float(x) for x, s in zip(r, senses)] for r in evals.tolist()]
    if len(senses) > 1 and obj is None:
        fr = fronts_of(u)
        rank = {i: k for k, f in enumerate(fr) for i in f}
        return [-rank[i] for i in range(len(u))]
    return [r[obj or 0] for r in u]


def selection_ok(winners, q, t, ctx):
    """Frequencies of the tournament winners against the exact distribution over the quality levels."""
    n, total = len(q), len(winners)
    levels = sorted(set(q))
    for lev in levels:
        below = sum(1 for x in q if x < lev) / n
        upto = sum(1 for x in q if x <= lev) / n
        p = upto**t - below**t
        got = sum(1 for w in winners if q[w] == lev)
        sd = math.sqrt(max(p * (1 - p) * total, 0.0))
        require(abs(got - p * total) <= 7 * sd + 1e-3 * total + 2, lambda: f"solutions of quality level {lev} of {q} won {got} of {total} tournaments of size {t}, expected about {p * total:.1f}")


def evals_for(c, n):
    return rand_grid(c["seed"] + 5, (n, len(c["senses"])), -12, 12, 2.0, torch.float32)


def no_ties(e, j):
    """The same order, with ties within objective j removed."""
    order = sorted(range(len(e)), key=lambda i: (float(e[i, j]), i))
    e = e.clone()
    for k, i in enumerate(order):
        e[i, j] = e[i, j] + k * 0.01
    return e


# --------------------------------------------------------------------- point cross-overs


def check_points(c, ctx):
    n, L = c["n"], c["L"]
    dtype = DT[c["dtype"]]
    # the value encodes the row and the position, so every gene can be traced to its origin
    values = (torch.arange(n).reshape(n, 1) * 100 + torch.arange(L).reshape(1, L)).to(dtype)
    evals = evals_for(c, n)
    nobj = len(c["senses"])
    obj = None if (nobj == 1 and c["obj"] % 2 == 0) or (nobj > 1 and c["obj"] % 3 == 2) else c["obj"] % nobj
    if not (nobj > 1 and obj is None):
        evals = no_ties(evals, obj or 0)
    p, b = make_batch(c, values, evals)
    kw, allowed = num_children(c, n)
    stats = c["stats"]
    if stats:
        kw, allowed = {"num_children": 400}, [400]
    t = c["t"]
    if obj is not None:
        kw["obj_index"] = obj - nobj if c["obj"] >= 3 else obj
    points = c["points"]
    if points == 1:
        op = OnePointCrossOver(p, tournament_size=t, **kw)
    elif points == 2 and c["m"] % 2:
        op = TwoPointCrossOver(p, tournament_size=t, **kw)
    else:
        op = MultiPointCrossOver(p, tournament_size=t, num_points=points, **kw)
    ch = op(b)
    m = len(ch)
    require(m in allowed, lambda: f"{m} children, expected {allowed}")
    fresh(ch, m, L, dtype, nobj, "cross-over")
    unchanged(b, values, evals)
    x = plain(ch.values).to(torch.int64)
    pos = x % 100
    same(pos, torch.arange(L).expand(m, L), "origin position of the genes")
    rows = x // 100
    require(bool(((rows >= 0) & (rows < n)).all()), lambda: f"genes which belong to no parent: {show(ch.values)}")
    half = m // 2
    winners = []
    mixed = differing = 0
    for i in range(half):
        r1, r2 = rows[i].tolist(), rows[i + half].tolist()
        pair = {r1[0], r2[0]}
        differing += len(pair) == 2
        cuts = 0
        for k in range(L):
            require({r1[k], r2[k]} == pair, lambda: f"children {i} and {i + half} are not made from one pair of parents: rows {r1} and {r2}")
            if k and r1[k] != r1[k - 1]:
                cuts += 1
        require(cuts <= points, lambda: f"{cuts} cuts in a {points}-point cross-over: rows {r1}")
        if points == 1 and len(pair) == 2 and L > 1:
            require(cuts == 1, lambda: f"one-point cross-over without a cut: rows {r1} and {r2}")
        mixed += cuts > 0
        winners += [r1[0], r2[0]]
    if stats:
        selection_ok(winners, quality(c, evals, obj), t, ctx)
        ctx.hit("selection statistics")
        if points > 1 and L > 2 and differing >= 40:
            require(mixed > 0, "no child of many is a mixture")
        if L >= 3 and n >= 3:
            # every cutting position is used
            seen = set()
            for i in range(half):
                r1 = rows[i].tolist()
                seen |= {k for k in range(1, L) if r1[k] != r1[k - 1]}
            q = quality(c, evals, obj)
            top = sum(1 for v in q if v == max(q)) / n
            if t <= 2 and top < 0.7 and len(set(q)) > 2:
                eq(sorted(seen), list(range(1, L)), "cutting positions used in 200 cross-overs")
    if L >= 2 and n >= 3:
        ctx.hit()
    ctx.label(f"{points} points")
    must_raise(lambda: OnePointCrossOver(p, tournament_size=2, num_children=2, cross_over_rate=0.5), "both num_children and cross_over_rate", ValueError)


# --------------------------------------------------------------------- SBX


def uniformity(u, what):
    """Many numbers which should be uniform in (0, 1): mean, spread and quartiles."""
    n = len(u)
    m = sum(u) / n
    require(abs(m - 0.5) < 7 * math.sqrt(1 / 12 / n), lambda: f"{what}: mean {m} of {n} values which should be uniform in (0, 1)")
    for k in (0.25, 0.75):
        f = sum(1 for x in u if x < k) / n
        require(abs(f - k) < 7 * math.sqrt(k * (1 - k) / n), lambda: f"{what}: fraction {f} of {n} values below {k}, which should be uniform in (0, 1)")


def check_sbx(c, ctx):
    n, L = c["n"], c["L"]
    dtype = DT[c["dtype"]]
    values = rand_grid(c["seed"], (n, L), -64, 64, 8.0, dtype) + torch.arange(n, dtype=dtype).reshape(n, 1) * 0.0625
    evals = no_ties(evals_for(c, n), 0)
    nobj = len(c["senses"])
    kw = {}
    lim = None
    if c["bounded"]:
        lim = (values.min(dim=0).values, values.max(dim=0).values) if c["bounded"] == 1 else (torch.tensor(-8.0, dtype=dtype), torch.tensor(10.0, dtype=dtype))
        kw["bounds"] = lim
    p, b = make_batch(c, values, evals, **kw)
    kwc, allowed = num_children(c, n)
    if c["stats"]:
        kwc, allowed = {"num_children": 600}, [600]
    obj = 0 if nobj > 1 else None
    eta = c["eta"]
    op = SimulatedBinaryCrossOver(p, tournament_size=c["t"], eta=eta, **({} if obj is None else {"obj_index": 0}), **kwc)
    ch = op(b)
    m = len(ch)
    require(m in allowed, lambda: f"{m} children, expected {allowed}")
    fresh(ch, m, L, dtype, nobj, "SBX")
    unchanged(b, values, evals)
    x = plain(ch.values).to(torch.float64)
    v = values.to(torch.float64)
    if lim is not None:
        require(bool((ch.values >= lim[0]).all() and (ch.values <= lim[1]).all()), lambda: f"children {show(ch.values)} outside of the bounds {lim}")
    half = m // 2
    tol = 1e-3 if dtype == torch.float32 else 1e-9
    ii, jj = torch.triu_indices(n, n)
    sums = v[ii] + v[jj]
    us, frac = [], []
    winners = []
    for i in range(half):
        s = x[i] + x[i + half]
        ok = ((sums - s).abs() <= tol * (1 + s.abs() + (x[i] - x[i + half]).abs()))
        if lim is not None:
            # where one of the children was clipped, nothing can be said
            at = (x[i] <= lim[0].to(torch.float64)) | (x[i] >= lim[1].to(torch.float64)) | (x[i + half] <= lim[0].to(torch.float64)) | (x[i + half] >= lim[1].to(torch.float64))
            ok = ok | at
        cand = torch.nonzero(ok.all(dim=1)).reshape(-1).tolist()
        require(len(cand) > 0, lambda: f"no pair of parents among {v.tolist()} is in the middle of the children {x[i].tolist()} and {x[i + half].tolist()}")
        if lim is None:
            cc = cand[0]
            a, z = int(ii[cc]), int(jj[cc])
            if len(cand) > 1:
                pass  # more than one pair of parents has this middle
            elif a == z:
                same(x[i], v[a], "child of a pair of equal parents", rtol=1e-4, atol=1e-4)
            else:
                d = (v[a] - v[z]).abs()
                for k in range(L):
                    if float(d[k]) > 0.05:
                        beta = float((x[i, k] - x[i + half, k]).abs() / d[k])
                        frac.append(beta <= 1)
                        e = beta ** (eta + 1)
                        us.append(e if beta <= 1 else 1 / e)
            if len(cand) == 1:
                winners += [a, z]
    if c["stats"] and len(us) > 250:
        f = sum(frac) / len(frac)
        require(abs(f - 0.5) < 7 * math.sqrt(0.25 / len(frac)), lambda: f"SBX: fraction {f} of {len(frac)} contracting cross-overs")
        uniformity(us, f"SBX with eta={eta}: spread factor")
        if len(winners) == m:
            selection_ok(winners, quality(c, evals, 0), c["t"], ctx)
        ctx.hit("spread statistics")
    if n >= 3:
        ctx.hit()


# --------------------------------------------------------------------- mutations


def check_mutation(c, ctx):
    L = c["L"]
    dtype = DT[c["dtype"]]
    n = 300 if c["stats"] else c["n"]
    values = rand_grid(c["seed"], (n, L), -8, 8, 4.0, dtype)
    nobj = len(c["senses"])
    evals = evals_for(c, n)
    prob = [None, 0.0, 1.0, 0.3, 0.6][c["prob"]]
    which = c["which"]
    kw = {}
    lb = ub = None
    if which == "poly" or c["bounded"]:
        if c["bounded"] == 2:
            lb, ub = torch.tensor(-2.0, dtype=dtype), torch.tensor(2.0, dtype=dtype)
        else:
            lb = torch.full((L,), -2.0, dtype=dtype) - torch.arange(L, dtype=dtype)
            ub = torch.full((L,), 2.0, dtype=dtype) + 2 * torch.arange(L, dtype=dtype)
            if c["bounded"] == 1 and c["fixed"]:
                lb[-1] = ub[-1] = 1.5
        if which == "poly":
            values = torch.min(torch.max(values, lb), ub)
        kw["bounds"] = (lb, ub)
    p, b = make_batch(c, values, evals, **kw)
    pk = {} if prob is None else {"mutation_probability": prob}
    if which == "gauss":
        stdev = [0.25, 1.0, 3.0][c["m"] % 3]
        op = GaussianMutation(p, stdev=stdev, **pk)
    else:
        eta = c["eta"] if c["m"] % 3 else 20.0
        op = PolynomialMutation(p, **({"eta": eta} if c["m"] % 3 else {}), **pk)
    ch = op(b)
    fresh(ch, n, L, dtype, nobj, "mutation")
    unchanged(b, values, evals)
    x = plain(ch.values)
    require(not bool(torch.isnan(x).any()), lambda: f"mutation of {show(values)} gave {show(x)}")
    if lb is not None:
        require(bool((x >= lb).all() and (x <= ub).all()), lambda: f"mutation gave {show(x)} outside of the bounds {show(lb)}, {show(ub)}")
    d = (x - values).to(torch.float64)
    if prob == 0.0:
        want = values if lb is None else torch.min(torch.max(values, lb), ub)
        same(x, want, "result of a mutation with probability 0")
        ctx.hit("probability 0")
        return
    pp = 1.0 if prob is None else prob
    if pp == 1.0 and not c["stats"]:
        # everything is subject to the mutation: some of many real values must be different afterwards
        movable = n * L if lb is None else int((lb < ub).expand(n, L).sum())
        require(movable < 12 or bool((d != 0).any()), "a mutation of everything changed nothing")
    if which == "gauss" and lb is None:
        changed = d != 0
        zs = (d[changed] / stdev).tolist()
        if c["stats"]:
            total = n * L
            sd = math.sqrt(pp * (1 - pp) * total)
            require(abs(int(changed.sum()) - pp * total) <= 7 * sd + 3, lambda: f"{int(changed.sum())} of {total} values mutated with probability {pp}")
            k = len(zs)
            m_, s_ = sum(zs) / k, math.sqrt(sum(z * z for z in zs) / k)
            require(abs(m_) < 7 / math.sqrt(k), lambda: f"mean of the mutations: {m_} standard deviations")
            require(abs(s_ - 1) < 7 / math.sqrt(2 * k), lambda: f"size of the mutations: {s_} times the standard deviation")
            ctx.hit("Gaussian statistics")
    if which == "poly":
        span = (ub - lb).to(torch.float64).expand(n, L)
        free = span > 0
        v, e = values.to(torch.float64), eta + 1.0
        w1 = (1 - (v - lb) / span.clamp_min(1e-9)) ** e
        w2 = (1 - (ub - v) / span.clamp_min(1e-9)) ** e
        q = d / span.clamp_min(1e-9)
        us, changed = [], 0
        tight = 1e-4 if dtype == torch.float32 else 1e-10
        for i in range(n):
            for k in range(L):
                if not free[i, k]:
                    continue
                qi = float(q[i, k])
                if qi == 0:
                    continue
                changed += 1
                w = float(w1[i, k] if qi < 0 else w2[i, k])
                a = (1 - abs(qi)) ** e
                # the smallest (largest) value reachable is the bound itself
                require(a >= w - tight * 10, lambda: f"mutation left the range: {a} < {w}")
                if 1 - w > 1e-6:
                    u = (a - w) / (1 - w) / 2
                    us.append(u if qi < 0 else 1 - u)
        if c["stats"] and pp == 1.0:
            inner = int(((v > lb) & (v < ub) & free).sum())
            require(changed >= 0.9 * inner, lambda: f"{changed} values changed, although all of at least {inner} were to be mutated")
        if c["stats"] and len(us) > 250:
            total = int(free.sum())
            sd = math.sqrt(pp * (1 - pp) * total)
            require(changed <= pp * total + 7 * sd + 3, lambda: f"{changed} of {total} values mutated with probability {pp}")
            # values lying on a bound can only move inwards, the others must follow the published law
            inner = (v > lb) & (v < ub) & free
            us2 = []
            for i in range(n):
                for k in range(L):
                    if inner[i, k] and float(q[i, k]) != 0:
                        qi = float(q[i, k])
                        w = float(w1[i, k] if qi < 0 else w2[i, k])
                        u = ((1 - abs(qi)) ** e - w) / (1 - w) / 2
                        us2.append(u if qi < 0 else 1 - u)
            if len(us2) > 250:
                uniformity(us2, f"polynomial mutation with eta={eta}")
                inn = int(inner.sum())
                sdi = math.sqrt(pp * (1 - pp) * inn)
                require(abs(len(us2) - pp * inn) <= 7 * sdi + 3 + 0.01 * inn, lambda: f"{len(us2)} of {inn} values mutated with probability {pp}")
                ctx.hit("polynomial statistics")
    if n >= 2:
        ctx.hit(which)


# --------------------------------------------------------------------- permutation, cut and splice


def check_cosyne(c, ctx):
    n, L = c["n"], c["L"]
    nobj = len(c["senses"])
    dtype = DT[c["dtype"]]
    values = (torch.arange(n).reshape(n, 1) * 100 + torch.arange(L).reshape(1, L)).to(dtype)
    obj = c["obj"] % nobj
    evals = no_ties(evals_for(c, n), obj)
    p, b = make_batch(c, values, evals)
    if c["all"]:
        op = CosynePermutation(p, permute_all=True)
    else:
        op = CosynePermutation(p, obj) if (nobj > 1 or c["obj"] % 2) else CosynePermutation(p)
    moved = torch.zeros((n, L))
    reps = 40 if c["stats"] else 1
    for _ in range(reps):
        ch = op(b)
        fresh(ch, n, L, dtype, nobj, "permutation")
        unchanged(b, values, evals)
        x = plain(ch.values)
        same(torch.sort(x, dim=0).values, values, "values in each column")
        moved += (x != values)
    if not c["all"] and n > 1:
        e = evals[:, obj]
        best = int(e.argmax() if c["senses"][obj] == "max" else e.argmin())
        worst = int(e.argmin() if c["senses"][obj] == "max" else e.argmax())
        require(float(moved[best].sum()) == 0, lambda: f"the best solution (row {best}) was permuted: {moved.tolist()}")
        if c["stats"] and n >= 4:
            require(float(moved[worst].sum()) > 0, "the worst solution is never permuted")
    elif c["stats"] and n >= 3:
        require(bool((moved.sum(dim=1) > 0).all()), lambda: f"some rows are never permuted: {moved.sum(dim=1).tolist()}")
        # each column is permuted on its own
        if L >= 2:
            require(not bool((moved == moved[:, :1]).all()) or n < 3, "all columns are permuted together")
    if n >= 3:
        ctx.hit()


class Sequences(Problem):
    def __init__(self, senses):
        super().__init__(senses, dtype=object, eval_dtype=torch.float32)


def check_splice(c, ctx):
    p = Sequences(c["senses"])
    n = len(c["lens"])
    nobj = len(c["senses"])
    evals = no_ties(evals_for(c, n), 0)
    lists = [[(r, k) for k in range(length)] for r, length in enumerate(c["lens"])]
    b = SolutionBatch(p, popsize=n, empty=True)
    b.set_values([[r * 100 + k for r, k in x] for x in lists])
    b.set_evals(evals)
    kw, allowed = num_children(c, n)
    if nobj > 1:
        kw["obj_index"] = 0
    ch = CutAndSplice(p, tournament_size=c["t"], **kw)(b)
    m = len(ch)
    require(m in allowed, lambda: f"{m} children, expected {allowed}")
    same(ch.evals, torch.full((m, nobj), float("nan")), "fitnesses of the children")
    eq([list(v) for v in b.values], [[r * 100 + k for r, k in x] for x in lists], "decision values of the batch given to the operator")
    same(b.evals, evals, "fitnesses of the batch given to the operator")
    half = m // 2
    whole = [[r * 100 + k for r, k in x] for x in lists]
    for i in range(half):
        c1, c2 = list(ch.values[i]), list(ch.values[i + half])
        found = False
        for a in whole:
            for z in whole:
                for k1 in range(len(a) + 1):
                    if c1[:k1] != a[:k1]:
                        break
                    for k2 in range(len(z) + 1):
                        if c1 == a[:k1] + z[k2:] and c2 == z[:k2] + a[k1:]:
                            found = True
        require(found, lambda: f"children {c1} and {c2} are not spliced from two of {whole}")
    if n >= 2 and max(c["lens"]) >= 2:
        ctx.hit()


senses = st.lists(st.sampled_from(["min", "max"]), min_size=1, max_size=3)
common = dict(senses=senses, n=often(2, 7, 30), seed=st.integers(0, 10**6), t=often(1, 4, 12), count=st.integers(0, 2), m=often(0, 11, 45), obj=st.integers(0, 5), stats=st.sampled_from([False, False, True]))
point_cases = with_fields(**common, L=often(1, 6, 25), dtype=st.sampled_from(["float32", "float64", "int64"]), points=st.integers(1, 3))
sbx_cases = with_fields(**common, L=often(1, 4, 12), dtype=st.sampled_from(["float32", "float64"]), eta=st.sampled_from([1.0, 2.0, 8.0, 20.0]), bounded=st.sampled_from([0, 0, 1, 2]))
mut_cases = with_fields(
    **common,
    L=often(1, 4, 12),
    dtype=st.sampled_from(["float32", "float64"]),
    which=st.sampled_from(["gauss", "poly", "poly"]),
    eta=st.sampled_from([0.0, 1.0, 5.0, 20.0]),
    prob=st.integers(0, 4),
    bounded=st.integers(0, 2),
    fixed=st.sampled_from([False, False, True]),
)
cos_cases = with_fields(**common, L=often(1, 5, 20), dtype=st.sampled_from(["float32", "float64"]), all=st.booleans())
splice_cases = with_fields(senses=senses, seed=st.integers(0, 10**6), t=st.integers(1, 4), count=st.integers(0, 2), m=st.integers(0, 11), lens=st.lists(st.integers(1, 5), min_size=2, max_size=5))

FACETS = [
    Facet("points", point_cases, check_points, rule="at least 2 decision values and 3 solutions, or a statistics case with 400 children", quick=700, thorough=15000),
    Facet("sbx", sbx_cases, check_sbx, rule="at least 3 solutions", quick=350, thorough=8000),
    Facet("mutation", mut_cases, check_mutation, rule="at least 2 solutions, or mutation probability 0", quick=450, thorough=8000),
    Facet("cosyne", cos_cases, check_cosyne, rule="at least 3 solutions", quick=300, thorough=8000),
    Facet("splice", splice_cases, check_splice, rule="at least 2 solutions, one of them with 2 or more elements", quick=300, thorough=8000),
]
