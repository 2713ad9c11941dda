"""C06: fitness shaping (ranking) preserves order and matches its definition."""

import random

import torch
from hypothesis import strategies as st

from evotorch.tools.ranking import centered, linear, nes, normalized, rank, raw

from .common import DT, check_shape, eq, must_raise, plain, require, same, show, with_fields
from .rankref import rank_ok
from harness.core import Facet

QUICK_FACTOR = 5
TECHNIQUE = "property-based testing: generated fitness vectors against independent definitions and metamorphic relations"
FUNCS = {"centered": centered, "linear": linear, "nes": nes, "normalized": normalized, "raw": raw}
SHAPES = lambda n: [(n,), (n,), (1, n), (n, 1)] + ([(2, n // 2), (n // 2, 2)] if n % 2 == 0 else [])  # noqa: E731


def tol(dt):
    return 1e-5 if dt == "float32" else 1e-9


def many(n, seed, ties):
    r = random.Random(seed)
    return [r.randint(-40, 40) for _ in range(n)] if ties else r.sample(range(-3000, 3000), n)


def check(c, ctx):
    method, hib = c["method"], c["hib"]
    vals = [v / 8.0 for v in (many(*c["vals"]["many"]) if isinstance(c["vals"], dict) else c["vals"])]
    if method == "normalized" and len(set(vals)) < 2:
        vals = vals + [max(vals) + 1]
    if method in ("centered", "linear", "normalized") and len(vals) < 2:
        vals = vals + [vals[0] - 2]
    n = len(vals)
    shapes = SHAPES(n)
    shape = shapes[c["shape"] % len(shapes)]
    f = torch.tensor(vals, dtype=DT[c["dt"]]).reshape(shape)
    keep = f.clone()
    t = tol(c["dt"])
    if c["form"] == 0:
        r = rank(f, ranking_method=method, higher_is_better=hib)
    elif c["form"] == 1:
        r = FUNCS[method](f, higher_is_better=hib)
    elif c["form"] == 2:
        r = FUNCS[method](f) if hib else FUNCS[method](f, higher_is_better=False)
    else:
        f = keep = torch.tensor(vals)
        r = rank(list(vals), method, higher_is_better=hib)
        t = 1e-5
    same(f, keep, "the fitnesses given to the ranking", dtype=True)
    require(r.dtype == f.dtype, lambda: f"{method} of {f.dtype} gave {r.dtype}")
    rank_ok(r, f, method, hib, tol=t)
    # reversing the direction is the same as negating (distinct fitnesses)
    distinct = len(set(vals)) == n
    if distinct:
        same(rank(-f, method, higher_is_better=not hib), r, f"{method}: reversed direction and negated fitnesses", rtol=t, atol=t)
        if method not in ("raw", "normalized"):
            same(rank(f * 4 - 3, method, higher_is_better=hib), r, f"{method}: shifted and scaled fitnesses", rtol=t, atol=t)
        elif method == "normalized":
            same(rank(f * 4 - 3, method, higher_is_better=hib), r, f"{method}: shifted and scaled fitnesses", rtol=10 * t, atol=10 * t)
        # moving the solutions around moves their utilities with them
        perm = torch.tensor([(i * c["stride"] + 1) % n for i in range(n)]) if n > 1 else torch.tensor([0])
        if len(set(perm.tolist())) == n:
            ff = f.reshape(-1)
            same(rank(ff[perm], method, higher_is_better=hib), r.reshape(-1)[perm], f"{method}: permuted fitnesses", rtol=10 * t, atol=t)
    # under vmap, each vector is ranked as if it were alone
    if c["rows"] > 1 and distinct:
        ff = f.reshape(-1)
        rows = torch.stack([torch.roll(ff, k) * (1 if k % 2 == 0 else -1) for k in range(c["rows"])])
        got = torch.vmap(lambda x: rank(x, method, higher_is_better=hib))(rows)
        check_shape(got, rows.shape, "ranking under vmap")
        for k in range(len(rows)):
            rank_ok(got[k], rows[k], method, hib, tol=10 * t)
    if n >= 3 and len(set(vals)) >= 2:
        ctx.hit()
    ctx.label(method)


cases = with_fields(
    method=st.sampled_from(["centered", "linear", "nes", "nes", "normalized", "raw"]),
    hib=st.booleans(),
    vals=st.one_of(
        st.lists(st.integers(-400, 400), min_size=1, max_size=12, unique=True),
        st.lists(st.integers(-400, 400), min_size=4, max_size=24, unique=True),
        st.lists(st.integers(-8, 8), min_size=1, max_size=10),
        # [number of fitnesses, seed, whether there are equal ones]
        st.tuples(st.integers(25, 600), st.integers(0, 10**6), st.booleans()).map(lambda t: {"many": list(t)}),
    ),
    shape=st.integers(0, 5),
    dt=st.sampled_from(["float32", "float64"]),
    form=st.integers(0, 3),
    stride=st.sampled_from([1, 5, 7]),
    rows=st.integers(1, 3),
)

FACETS = [Facet("definition", cases, check, rule="at least 3 fitnesses, at least two of them different", quick=2500, thorough=60000)]
