"""C02: best and worst solutions reported by a problem are the true extremes so far."""

import math

import torch
from hypothesis import strategies as st

from evotorch import Problem, Solution, SolutionBatch
from evotorch.decorators import vectorized

from .common import DT, eq, must_raise, often, plain, require, same, with_fields
from harness.core import Facet

TECHNIQUE = "stateful property-based testing: histories of evaluations against a log of every evaluated row"

POOL = [0.0, 1.0, -1.0, 2.0, -2.5, 3.0, 1e30, -1e30, math.inf, -math.inf, 3.0 + 2.0**-40, 3.0 - 2.0**-40, -2.5 - 2.0**-40]
# JSON has no infinities: fitnesses are drawn as indices into the pool


def make_problem(c):
    senses = c["senses"]
    nobj = len(senses)

    # The first columns of the decision values are the fitnesses; the last one identifies the row.
    @vectorized
    def vec(xs):
        xs = xs.as_subclass(torch.Tensor)
        if c["q"]:
            return xs[:, :nobj], xs[:, nobj:].clone()
        return xs[:, :nobj] if nobj > 1 else xs[:, 0]

    def row(x):
        x = x.as_subclass(torch.Tensor)
        if c["q"]:
            return x[:nobj], x[nobj:].clone()
        return x[:nobj] if nobj > 1 else x[0]

    kw = {}
    if c["stats"] is not None:
        kw["store_solution_stats"] = c["stats"]
    return Problem(
        senses if nobj > 1 else senses[0],
        vec if c["vec"] else row,
        solution_length=nobj + 1,
        initial_bounds=(-1, 1),
        dtype=DT[c["dtype"]],
        eval_data_length=1 if c["q"] else 0,
        **kw,
    )


def check(c, ctx):
    p = make_problem(c)
    senses = c["senses"]
    nobj = len(senses)
    dtype = DT[c["dtype"]]
    batches = []
    seen = []  # every evaluated row, as a tuple
    improved = 0
    uid = 0
    if c["bad"] is not None:
        wrong = list(senses)
        wrong[len(c["ops"]) % nobj] = c["bad"]
        must_raise(lambda: Problem(wrong if nobj > 1 else wrong[0], solution_length=1, initial_bounds=(0, 1)), f"the objective senses {wrong}", ValueError)
    last_best = None

    def rows_for(spec, n):
        nonlocal uid
        out = []
        for i in range(n):
            row = [POOL[spec[(i * nobj + j) % len(spec)]] for j in range(nobj)]
            uid += 1
            out.append(row + [float(uid)])
        return torch.tensor(out, dtype=dtype)

    def verify(expect_present):
        s = p.status
        if c["stats"] is False:
            for k in ("best", "worst", "best_eval", "worst_eval"):
                require(k not in s, f"status has {k!r} although solution statistics are switched off")
            return
        if not expect_present:
            return
        for which in ("best", "worst"):
            require(which in s, f"status has no {which!r}")
            slns = s[which]
            if nobj == 1:
                slns = [slns]
            eq(len(slns), nobj, f"number of {which} solutions")
            for j in range(nobj):
                sln = slns[j]
                require(isinstance(sln, Solution), f"{which}[{j}] is not a solution but {type(sln).__name__}")
                col = [r[j] for r in seen]
                want_min = (senses[j] == "min") == (which == "best")
                target = min(col) if want_min else max(col)
                ev = plain(sln.evals)
                eq(float(ev[j]), target, f"fitness of the {which} solution for objective {j}")
                vals = tuple(plain(sln.values).to(torch.float64).tolist())
                require(vals in seen_set, lambda: f"{which} solution {vals} was never evaluated")
                eq(tuple(ev[:nobj].to(torch.float64).tolist()), vals[:nobj], f"fitness of the {which} solution versus its own decision values")
                if nobj == 1:
                    eq(s[which + "_eval"], target, which + "_eval")

    seen_set = set()
    for op in c["ops"]:
        kind = op["op"]
        if kind == "new":
            b = SolutionBatch(p, popsize=op["n"], empty=True)
            b.set_values(rows_for(op["fit"], op["n"]))
            batches.append(b)
            kind = "eval"
            target = b
        elif not batches:
            continue
        else:
            b = batches[op["b"] % len(batches)]
            n = len(b)
            if kind == "eval":
                target = b
            elif kind == "evalpart":
                i = op["i"] % n
                target = b[i : i + 1 + op["n"]]
                kind = "eval"
            elif kind == "evalone":
                target = b[op["i"] % n]
                kind = "eval"
            elif kind == "write":
                # overwrite rows without evaluating them
                i = op["i"] % n
                new = rows_for(op["fit"], 1)
                if op["how"] == 0:
                    b.access_values()[i : i + 1] = new
                elif op["how"] == 1:
                    b[i].set_values(new[0])
                else:
                    b.access_values(keep_evals=True)[i : i + 1] = new
            elif kind == "zero":
                # overwrite everything, fitnesses included
                b.set_values(torch.zeros((n, nobj + 1), dtype=dtype))
                b.set_evals(torch.zeros((n, nobj), dtype=dtype))
        if kind == "eval":
            p.evaluate(target)
            tb = target.to_batch() if isinstance(target, Solution) else target
            for r in plain(tb.values).to(torch.float64).tolist():
                seen.append(tuple(r))
                seen_set.add(tuple(r))
        verify(bool(seen))
        if seen and c["stats"] is not False:
            key = [min(r[0] for r in seen), max(r[0] for r in seen)]
            if last_best is not None and key != last_best:
                improved += 1
            last_best = key
    if improved:
        ctx.hit("improved")
    if any(any(math.isinf(v) for v in r) for r in seen):
        ctx.label("infinite fitness")


fits = st.lists(st.integers(0, len(POOL) - 1), min_size=1, max_size=6)
ops = st.one_of(
    with_fields(op=st.just("new"), n=often(1, 4, 40), fit=fits),
    with_fields(op=st.just("new"), n=often(1, 4, 40), fit=fits),
    with_fields(op=st.just("eval"), b=st.integers(0, 3)),
    with_fields(op=st.just("evalpart"), b=st.integers(0, 3), i=often(0, 3, 39), n=often(0, 3, 30)),
    with_fields(op=st.just("evalone"), b=st.integers(0, 3), i=st.integers(0, 3)),
    with_fields(op=st.just("write"), b=st.integers(0, 3), i=st.integers(0, 3), fit=fits, how=st.integers(0, 2)),
    with_fields(op=st.just("zero"), b=st.integers(0, 3)),
)
cases = with_fields(
    senses=st.lists(st.sampled_from(["min", "max"]), min_size=1, max_size=3),
    dtype=st.sampled_from(["float32", "float64"]),
    q=st.booleans(),
    vec=st.booleans(),
    stats=st.sampled_from([None, True, None, True, None, False]),
    bad=st.sampled_from([None, None, None, "minimize", "MAX", "", "maximize"]),
    ops=st.one_of(st.lists(ops, min_size=3, max_size=14), st.lists(ops, min_size=3, max_size=14), st.lists(ops, min_size=14, max_size=40)),
)

FACETS = [
    Facet(
        "history",
        cases,
        check,
        rule="a later evaluation of the history changed the best or the worst fitness of the first objective",
        quick=1500,
        thorough=40000,
    )
]
