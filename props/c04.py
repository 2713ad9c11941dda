"""C04: single-objective ordering, selection and utilities."""

import math

import torch
from hypothesis import strategies as st

from evotorch import Problem, SolutionBatch

from .common import DT, Violation, check_shape, eq, must_raise, plain, rand_grid, require, same, seeds, show, with_fields
from .rankref import rank_ok
from harness.core import Facet

QUICK_FACTOR = 5
TECHNIQUE = "property-based testing: generated fitness tables against a brute-force ordering oracle"

INF = float("inf")
POOL = [-INF, INF, 0.0, -0.0, 1e30, -1e30, 1e-30]


def value(v):
    """Small integers mean themselves divided by 4; larger ones point into the pool of special values."""
    return POOL[v - 100] if v >= 100 else v / 4.0


def check(c, ctx):
    nobj = len(c["senses"])
    rows = [[value(v) for v in r[:nobj]] for r in c["rows"]]
    if "size" in c:
        # many solutions, with or without equal fitnesses
        top = 30 if c["ties"] else 10**5
        rows = rand_grid(c["seed"], (c["size"], nobj), -top, top, 8.0, torch.float64).tolist()
    if c["fine"]:
        # fitnesses which differ only in the last digits their type has
        unit = 2.0**-30 if c["edt"] == "float64" else 2.0**-12
        rows = [[x if not abs(x) <= 10 else 1000.0 + x * unit for x in r] for r in rows]
    n = len(rows)
    edt = DT[c["edt"]]
    p = Problem(c["senses"] if nobj > 1 else c["senses"][0], solution_length=1, initial_bounds=(0, 1), dtype=DT[c["dt"]], eval_dtype=edt, eval_data_length=c["q"])
    b = SolutionBatch(p, popsize=n, empty=True)
    b.set_values(torch.arange(n, dtype=DT[c["dt"]]).reshape(n, 1))
    ev = torch.tensor(rows, dtype=edt)
    if c["q"]:
        b.set_evals(ev, torch.arange(n * c["q"], dtype=edt).reshape(n, c["q"]) - 3)
    else:
        b.set_evals(ev if nobj > 1 else ev[:, 0])
    j = c["j"] % nobj
    col = [float(x) for x in ev[:, j]]
    spelled = (j, j - nobj)[c["neg"] % 2]
    arg = {} if (nobj == 1 and c["neg"] > 1) else {"obj_index": spelled}
    sign = 1.0 if c["senses"][j] == "max" else -1.0
    better = lambda x, y: sign * x > sign * y  # noqa: E731

    order = b.argsort(**arg)
    check_shape(order, (n,), "argsort")
    idx = [int(i) for i in order]
    eq(sorted(idx), list(range(n)), "argsort is a permutation")
    for a, z in zip(idx, idx[1:]):
        require(not better(col[z], col[a]), lambda: f"argsort puts {col[a]} before the better {col[z]} (sense {c['senses'][j]})")

    ib, iw = int(b.argbest(**arg)), int(b.argworst(**arg))
    require(not any(better(x, col[ib]) for x in col), lambda: f"argbest chose {col[ib]} of {col} ({c['senses'][j]})")
    require(not any(better(col[iw], x) for x in col), lambda: f"argworst chose {col[iw]} of {col} ({c['senses'][j]})")

    k = 1 + c["k"] % n
    top = b.take_best(k, **arg) if (arg or nobj == 1) else None
    eq(len(top), k, "number of taken solutions")
    ids = [int(v) for v in top.values[:, 0]]
    eq(len(set(ids)), k, "number of distinct taken solutions")
    for r, i in enumerate(ids):
        same(top.evals[r], b.evals[i], f"fitness of the taken solution {i}")
    worst_in = [col[i] for i in ids]
    out = [col[i] for i in range(n) if i not in ids]
    require(not any(better(o, x) for o in out for x in worst_in), lambda: f"take_best({k}) took {worst_in}, left {out}")
    for a, z in zip(worst_in, worst_in[1:]):
        require(not better(z, a), lambda: f"take_best({k}) is not ordered from best to worst: {worst_in}")

    # single solutions compared with each other
    a, z = c["k"] % n, c["hole"] % n
    cmp = float(p.compare_solutions(b[a], b[z], **arg)) if math.isfinite(col[a]) or math.isfinite(col[z]) else None
    if cmp is not None:
        eq((cmp > 0, cmp < 0), (better(col[a], col[z]), better(col[z], col[a])), f"sign of the comparison of {col[a]} with {col[z]} ({c['senses'][j]})")
        eq((bool(p.is_better(b[a], b[z], **arg)), bool(p.is_worse(b[a], b[z], **arg))), (better(col[a], col[z]), better(col[z], col[a])), f"is {col[a]} better, worse than {col[z]} ({c['senses'][j]})")
    if nobj > 1:
        must_raise(lambda: p.is_better(b[a], b[z]), "comparison without an objective", ValueError)
        must_raise(lambda: p.is_worse(b[a], b[z], nobj), "comparison by an objective which does not exist", IndexError)

    # an objective which does not exist is refused
    for bad in (nobj, -nobj - 1, nobj + 1):
        for f in (b.argsort, b.argbest, b.argworst):
            must_raise(lambda: f(bad), f"{f.__name__}({bad}) with {nobj} objectives", IndexError)
        must_raise(lambda: b.utility(bad), f"utility({bad}) with {nobj} objectives", IndexError)
    if nobj > 1:
        for f in (b.argsort, b.argbest, b.argworst):
            must_raise(lambda: f(), f"{f.__name__}() with {nobj} objectives", ValueError)

    # utilities
    method = c["method"]
    using = c["using"] and c["dt"] != "int64"
    finite = all(math.isfinite(x) and abs(x) < 1e6 for r in rows for x in r)
    if method is not None and not finite:
        method = None
    if method in ("centered", "linear", "normalized") and n < 2 or method == "normalized" and c["fine"]:
        method = None
    if method == "normalized" and any(len(set(r[i] for r in rows)) < 2 for i in range(nobj)):
        method = None
    kw = dict(ranking_method=method, using_values_dtype=using)
    want_dt = DT[c["dt"]] if using else edt
    one = b.utility(j, **kw)
    check_shape(one, (n,), "utility")
    require(one.dtype == want_dt, lambda: f"utility dtype {one.dtype}, expected {want_dt}")
    tables = [b.utils(**kw), b.utility(**kw) if nobj > 1 else b.utility(**kw).reshape(n, 1)]
    if nobj == 1:
        check_shape(b.utility(**kw), (n,), "utility of a single-objective batch")
    for t in tables:
        check_shape(t, (n, nobj), "utilities of all objectives")
        require(t.dtype == want_dt, lambda: f"utilities dtype {t.dtype}, expected {want_dt}")
        for i in range(nobj):
            s = 1.0 if c["senses"][i] == "max" else -1.0
            if method is None:
                same(t[:, i].to(torch.float64), (s * ev[:, i]).to(want_dt).to(torch.float64), f"utility of objective {i}")
            else:
                rank_ok(t[:, i], ev[:, i], method, s > 0, tol=1e-4)
        same(t[:, j], one, "utility(j) against column j of the utilities", rtol=1e-6, atol=1e-6)
    # a batch with an unevaluated solution has no utilities
    if c["hole"] % 4 == 0:
        b.set_values(b.values[:1] * 1, solutions=[c["hole"] % n])
        must_raise(lambda: b.utils(), "utilities of a batch with an unevaluated solution", ValueError)
        must_raise(lambda: b.utility(j), "utility of a batch with an unevaluated solution", ValueError)
        b.utils(check_nans=False)
    if n >= 3 and len(set(col)) >= 2:
        ctx.hit()
        if len(set(col)) < n:
            ctx.label("ties")
        if c["fine"]:
            ctx.label("fitnesses differing in their last digits")
    ctx.label(str(method))


values = st.one_of(st.integers(-12, 12), st.integers(-12, 12), st.integers(-12, 12), st.integers(100, 106))
cases = with_fields(
    senses=st.lists(st.sampled_from(["min", "max"]), min_size=1, max_size=4),
    rows=st.one_of(
        st.lists(st.lists(st.integers(-40, 40), min_size=4, max_size=4), min_size=1, max_size=9),
        st.lists(st.lists(values, min_size=4, max_size=4), min_size=1, max_size=9),
    ),
    j=st.integers(0, 3),
    neg=st.integers(0, 3),
    k=st.integers(0, 8),
    q=st.sampled_from([0, 0, 1]),
    edt=st.sampled_from(["float32", "float64"]),
    fine=st.sampled_from([False, False, True]),
    dt=st.sampled_from(["float32", "float64", "int64"]),
    method=st.sampled_from([None, "raw", "centered", "linear", "nes", "normalized"]),
    using=st.booleans(),
    hole=st.integers(0, 30),
)

large_cases = with_fields(
    senses=st.lists(st.sampled_from(["min", "max"]), min_size=1, max_size=4),
    rows=st.just([]),
    size=st.integers(20, 500),
    seed=seeds,
    ties=st.booleans(),
    j=st.integers(0, 3),
    neg=st.integers(0, 3),
    k=st.integers(0, 499),
    q=st.sampled_from([0, 0, 1]),
    edt=st.sampled_from(["float32", "float64"]),
    fine=st.sampled_from([False, False, True]),
    dt=st.sampled_from(["float32", "float64", "int64"]),
    method=st.sampled_from([None, "raw", "centered", "linear", "nes", "normalized"]),
    using=st.booleans(),
    hole=st.integers(0, 499),
)

FACETS = [
    Facet("large batches", large_cases, check, rule="at least 3 solutions with at least 2 different fitnesses in the chosen objective", quick=40, thorough=600),
    Facet("order", cases, check, rule="at least 3 solutions with at least 2 different fitnesses in the chosen objective", quick=1200, thorough=30000)
]
