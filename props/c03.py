"""C03: solution batches keep decision values and fitnesses aligned, and never show stale fitnesses."""

import copy
import math
import pickle

import torch
from hypothesis import strategies as st

from evotorch import Problem, Solution, SolutionBatch
from evotorch.tools import ObjectArray

from .common import DT, Violation, check_shape, eq, must_raise, often, plain, rand_grid, require, same, show, with_fields, seeds
from harness.core import Facet

TECHNIQUE = "stateful property-based testing: operation histories over related batches and views against a row-store model"

NAN = float("nan")


class Store:
    """The model of one piece of memory: a list of rows [values, evals]."""

    def __init__(self, values, evals):
        self.values = [list(v) for v in values]
        self.evals = [list(e) for e in evals]


class Handle:
    """A live batch (or single solution) and the model rows it shows: a list of (store, index)."""

    def __init__(self, obj, rows, single=False):
        self.obj = obj
        self.rows = rows
        self.single = single

    def model_values(self):
        return [s.values[i] for s, i in self.rows]

    def model_evals(self):
        return [s.evals[i] for s, i in self.rows]

    def copy_rows(self, idx=None):
        rows = self.rows if idx is None else [self.rows[i] for i in idx]
        st_ = Store([s.values[i] for s, i in rows], [s.evals[i] for s, i in rows])
        return [(st_, k) for k in range(len(rows))]


class World:
    def __init__(self, c):
        self.c = c
        self.nobj = len(c["senses"])
        self.q = c["q"]
        self.L = c["L"]
        self.w = self.nobj + self.q
        self.is_obj = c["dtype"] == "object"
        kw = dict(eval_data_length=self.q)
        if self.is_obj:
            self.p = Problem(c["senses"], dtype=object, **kw)
        else:
            self.p = Problem(c["senses"], dtype=DT[c["dtype"]], solution_length=self.L, initial_bounds=(-8, 8), eval_dtype=torch.float32, **kw)
        self.handles = []

    # -- data
    def rows(self, seed, n):
        return rand_grid(seed, (n, self.L), -9, 9, 1.0, torch.int64).tolist()

    def evals(self, seed, n, w):
        return rand_grid(seed + 17, (n, w), -40, 40, 4.0, torch.float32).tolist()

    def as_values(self, rows):
        if self.is_obj:
            out = ObjectArray(len(rows))
            for i, r in enumerate(rows):
                out[i] = list(r)
            return out
        return torch.tensor(rows, dtype=DT[self.c["dtype"]]).reshape(len(rows), self.L)

    def as_evals(self, rows, w):
        return torch.tensor(rows, dtype=torch.float32).reshape(len(rows), w)

    # -- checking everything
    def check(self, what):
        for k, h in enumerate(self.handles):
            mv, me = h.model_values(), h.model_evals()
            b = h.obj
            name = f"after {what}: object {k}"
            if h.single:
                require(isinstance(b, Solution), f"{name}: not a solution")
                self.same_row_values(b.values, mv[0], name)
                same(b.evals, torch.tensor(me[0], dtype=torch.float32), f"{name}: fitness")
                eq(b.is_evaluated, not any(math.isnan(x) for x in me[0][: self.nobj]), f"{name}: is_evaluated")
                ev = b.evaluation
                same(ev, torch.tensor(me[0][0] if self.w == 1 else me[0], dtype=torch.float32), f"{name}: evaluation")
                eq(list(b.senses), self.c["senses"], f"{name}: senses")
                eq(tuple(b.eval_shape), (self.w,), f"{name}: shape of the fitness")
                eq(len(b), len(mv[0]), f"{name}: length")
                eq([float(x) for x in b], [float(x) for x in mv[0]], f"{name}: iterated values")
                eq([float(x) for x in reversed(b)], [float(x) for x in mv[0]][::-1], f"{name}: values iterated backwards")
                eq(float(b[-1]), float(mv[0][-1]), f"{name}: last value")
                if not self.is_obj:
                    eq((tuple(b.shape), tuple(b.size()), b.ndim, b.dim()), ((self.L,), (self.L,), 1, 1), f"{name}: shape")
                    eq((b.dtype, b.eval_dtype, str(b.device)), (DT[self.c["dtype"]], torch.float32, "cpu"), f"{name}: types and device")
                continue
            eq(len(b), len(mv), f"{name}: length")
            if self.is_obj:
                eq([list(v) for v in b.values], mv, f"{name}: decision values")
            else:
                same(b.values, torch.tensor(mv, dtype=DT[self.c["dtype"]]).reshape(len(mv), self.L), f"{name}: decision values", dtype=True)
            same(b.evals, torch.tensor(me, dtype=torch.float32).reshape(len(me), self.w), f"{name}: fitnesses", dtype=True)
            eq(list(b.senses), self.c["senses"], f"{name}: senses")
            eq(b.objective_sense, self.c["senses"][0] if self.nobj == 1 else self.c["senses"], f"{name}: objective sense")
            eq(tuple(b.eval_shape), (len(mv), self.w), f"{name}: shape of the fitnesses")
            eq(tuple(b.values_shape), (len(mv),) if self.is_obj else (len(mv), self.L), f"{name}: shape of the decision values")
            eq(b.solution_length, None if self.is_obj else self.L, f"{name}: solution length")
            eq((b.eval_dtype, b.dtype == b.values_dtype == (object if self.is_obj else DT[self.c["dtype"]])), (torch.float32, True), f"{name}: types")
        # rows one by one, on one of the batches
        if self.handles:
            h = self.handles[-1]
            if not h.single:
                for i, sln in enumerate(h.obj):
                    self.same_row_values(sln.values, h.model_values()[i], f"after {what}: iterated solution {i}")
                    same(sln.evals, torch.tensor(h.model_evals()[i], dtype=torch.float32), f"after {what}: iterated solution {i}")

    def same_row_values(self, got, want, what):
        if self.is_obj:
            eq(list(got), want, f"{what}: decision values")
        else:
            same(got, torch.tensor(want, dtype=DT[self.c["dtype"]]), f"{what}: decision values", dtype=True)


def pick_slice(op, n):
    """A slice of a sequence of length n, given in one of several equivalent spellings."""
    a = op["i"] % (n + 1)
    b = a + (op["j"] % (n - a + 1))
    form = op["k"] % 4
    if form == 0:
        return slice(a, b), list(range(n))[a:b]
    if form == 1 and b < n:
        return slice(a - n if a > 0 else None, b - n), list(range(n))[a:b]
    if form == 2:
        return slice(None, b), list(range(n))[:b]
    return slice(a, None), list(range(n))[a:]


def pick_step_slice(op, n):
    a = op["i"] % (n + 1)
    step = 1 + op["k"] % 3
    return slice(a, None, step), list(range(n))[a::step]


def pick_indices(op, n, distinct):
    out = []
    for x in op["idx"]:
        i = x % n
        if not distinct or i not in out:
            out.append(i)
    return out


def pick_target(op, n):
    """How the `solutions` argument is given: everything, a slice, or a list of indices."""
    t = op["t"] % 4
    if t == 0:
        return None, list(range(n))
    if t == 1:
        s, rows = pick_slice(op, n)
        return s, rows
    if t == 2:
        idx = pick_indices(op, n, True)
        return idx, idx
    idx = pick_indices(op, n, True)
    return torch.tensor(idx, dtype=torch.int64), idx


def apply(w: World, op, ctx):
    """Performs an operation on the real objects and on the model."""
    kind = op["op"]
    hs = w.handles
    if kind == "new" or not hs:
        n = 1 + op["i"] % 5 if op["i"] < 7 else op["i"]
        b = SolutionBatch(w.p, popsize=n, empty=True)
        rows = w.rows(op["seed"], n)
        same(b.evals, torch.full((n, w.w), NAN), "fitnesses of a new batch")
        b.set_values(w.as_values(rows))
        s = Store(rows, [[NAN] * w.w for _ in range(n)])
        hs.append(Handle(b, [(s, i) for i in range(n)]))
        return "new"
    h = hs[op["h"] % len(hs)]
    b, n = h.obj, len(h.rows)

    if h.single:
        s, i = h.rows[0]
        if kind in ("setv", "accv"):
            row = w.rows(op["seed"], 1)[0]
            if kind == "setv" or w.is_obj:
                b.set_values(row)
                s.evals[i] = [NAN] * w.w
            elif op["k"] % 2:
                b.access_values()[:] = torch.tensor(row)
                s.evals[i] = [NAN] * w.w
            else:
                b.access_values(keep_evals=True)[:] = torch.tensor(row)
            s.values[i] = list(row)
        elif kind in ("sete", "acce"):
            ev = w.evals(op["seed"], 1, w.w)[0]
            f = op["k"] % 4
            if f == 0 and w.nobj == 1:
                b.set_evals(ev[0])
                s.evals[i] = [ev[0]] + [NAN] * w.q
            elif f == 1 and w.q:
                b.set_evals(torch.tensor(ev[: w.nobj]), torch.tensor(ev[w.nobj :]))
                s.evals[i] = list(ev)
            elif f == 2:
                b.set_evaluation(torch.tensor(ev[: w.nobj]))
                s.evals[i] = ev[: w.nobj] + [NAN] * w.q
            else:
                b.set_evals(torch.tensor(ev))
                s.evals[i] = list(ev)
        elif kind == "clone":
            c = copy.deepcopy(b) if op["k"] % 2 else b.clone()
            hs.append(Handle(c, h.copy_rows(), True))
        elif kind == "pickle":
            hs.append(Handle(pickle.loads(pickle.dumps(b)), h.copy_rows(), True))
        else:
            hs.append(Handle(b.to_batch(), list(h.rows)))
        return f"{kind} on a solution"

    if kind in ("slice", "step"):
        sl, idx = (pick_slice if kind == "slice" else pick_step_slice)(op, n)
        hs.append(Handle(b[sl], [h.rows[i] for i in idx]))
    elif kind == "one":
        if n == 0:
            return "nothing"
        i = op["i"] % n
        hs.append(Handle(b[i - n if op["k"] % 2 else i], [h.rows[i]], True))
        must_raise(lambda: b[n + op["j"]], "indexing past the end", IndexError)
        must_raise(lambda: b[-n - 1 - op["j"]], "indexing before the beginning", IndexError)
    elif kind == "split":
        if n == 0:
            return "nothing"
        if op["t"] % 2:
            k = 1 + op["j"] % (n + 2)
            pieces = b.split(k)
            eq(len(pieces), k, "number of pieces")
            sizes = [len(x) for x in pieces]
            require(max(sizes) - min(sizes) <= 1, lambda: f"pieces of uneven sizes {sizes}")
        else:
            m = 1 + op["j"] % (n + 2)
            pieces = b.split(max_size=m)
            sizes = [len(x) for x in pieces]
            require(all(1 <= x <= m for x in sizes), lambda: f"sizes {sizes} of pieces with maximum size {m}")
        eq(sum(sizes), n, "total size of the pieces")
        start = 0
        for j, size in enumerate(sizes):
            eq(tuple(pieces.indices_of(j)), (start, start + size), "indices of a piece")
            start += size
        eq([tuple(ij) for _, ij in pieces.iter_with_indices()], [tuple(pieces.indices_of(j)) for j in range(len(sizes))], "indices of the pieces")
        j = op["i"] % len(pieces)
        a, z = pieces.indices_of(j)
        hs.append(Handle(pieces[j], h.rows[a:z]))
    elif kind in ("cat", "concat"):
        others = [hs[x % len(hs)] for x in op["idx"][:2]]
        others = [o for o in others if not o.single]
        parts = [h] + others
        if kind == "cat":
            c = SolutionBatch.cat([x.obj for x in parts])
        elif len(others) == 1 and op["k"] % 2:
            c = b.concat(others[0].obj)
        else:
            c = b.concat([x.obj for x in others])
        rows = []
        for x in parts:
            rows.extend(x.rows)
        hs.append(Handle(c, Handle(None, rows).copy_rows()))
    elif kind == "take":
        if n == 0:
            return "nothing"
        idx = pick_indices(op, n, False)
        how = op["k"] % 3
        arg = idx if how == 0 else torch.tensor(idx)
        c = b[arg] if how == 2 else b.take(arg)
        eq(len(c), len(idx), "number of taken solutions")
        hs.append(Handle(c, h.copy_rows(idx)))
    elif kind == "clone":
        hs.append(Handle(copy.deepcopy(b) if op["k"] % 2 else b.clone(), h.copy_rows()))
    elif kind == "pickle":
        hs.append(Handle(pickle.loads(pickle.dumps(b)), h.copy_rows()))
    elif kind == "like":
        # a new batch of the same kind
        m = op["i"] % 4 + 1 if op["j"] % 2 else n
        kw = {"popsize": m} if op["j"] % 2 else {}
        if op["k"] % 2 and not w.is_obj and m > 0:
            c = SolutionBatch(w.p, like=b, **kw)
            rows = plain(c.values).to(torch.int64).tolist() if not c.values.dtype.is_floating_point else plain(c.values).tolist()
            require(all(-8 <= x <= 8 for r in rows for x in r), lambda: f"a filled batch has values outside of the initial bounds: {rows}")
        else:
            c = SolutionBatch(like=b, empty=True, **kw)
            rows = w.rows(op["seed"], m)
            if m:
                c.set_values(w.as_values(rows))
        eq(len(c), m, "size of a batch made like another")
        s = Store(rows, [[NAN] * w.w for _ in range(m)])
        hs.append(Handle(c, [(s, i) for i in range(m)]))
    elif kind == "to":
        if w.is_obj:
            must_raise(lambda: b.to("cpu"), "moving a batch of objects", ValueError)
        else:
            require(b.to("cpu") is b, "moving a batch to its own device does not give the batch itself")
            moved = b.to("meta")
            eq((str(moved.device), len(moved), list(moved.senses)), ("meta", n, w.c["senses"]), "a batch moved to another device")
    elif kind == "setv":
        if n == 0:
            return "nothing"
        target, idx = pick_target(op, n)
        rows = w.rows(op["seed"], len(idx))
        if target is None:
            b.set_values(w.as_values(rows))
        else:
            b.set_values(w.as_values(rows), solutions=target)
        for i, r in zip(idx, rows):
            s, j = h.rows[i]
            s.values[j] = list(r)
            s.evals[j] = [NAN] * w.w
    elif kind == "accv":
        keep = bool(op["k"] % 2)
        t = b.access_values(keep_evals=True) if keep else b.access_values()
        if not keep:
            for s, j in h.rows:
                s.evals[j] = [NAN] * w.w
        if n:
            i = op["i"] % n
            row = w.rows(op["seed"], 1)
            if w.is_obj:
                t[i] = row[0]
            else:
                t[i] = torch.tensor(row[0])
            s, j = h.rows[i]
            s.values[j] = list(row[0])
    elif kind == "sete":
        target, idx = pick_target(op, n) if n else (None, [])
        f = op["k"] % 4
        kw = {} if target is None else {"solutions": target}
        if f == 0 and w.nobj == 1:
            ev = w.evals(op["seed"], len(idx), 1)
            b.set_evals(w.as_evals(ev, 1)[:, 0], **kw)
            new = [e + [NAN] * w.q for e in ev]
        elif f == 1 and w.q:
            ev = w.evals(op["seed"], len(idx), w.w)
            t = w.as_evals(ev, w.w)
            b.set_evals(t[:, : w.nobj], t[:, w.nobj :], **kw)
            new = ev
        elif f == 2:
            ev = w.evals(op["seed"], len(idx), w.nobj)
            b.set_evals(w.as_evals(ev, w.nobj), **kw)
            new = [e + [NAN] * w.q for e in ev]
        else:
            ev = w.evals(op["seed"], len(idx), w.w)
            b.set_evals(w.as_evals(ev, w.w), **kw)
            new = ev
        for i, e in zip(idx, new):
            s, j = h.rows[i]
            s.evals[j] = list(e)
    elif kind == "acce":
        if n == 0:
            return "nothing"
        i, j = op["i"] % n, op["j"] % w.nobj
        v = op["seed"] % 7 - 3.0
        if op["k"] % 2:
            b.access_evals(j)[i] = v
        else:
            b.access_evals()[i, j] = v
        s, k = h.rows[i]
        s.evals[k][j] = v
    elif kind == "forget":
        target, idx = pick_target(op, n) if n else (None, [])
        if target is None:
            b.forget_evals()
        else:
            b.forget_evals(solutions=target)
        for i in idx:
            s, j = h.rows[i]
            s.evals[j] = [NAN] * w.w
    elif kind == "bad":
        # writes of the wrong shape are refused and change nothing
        m = n + 1 + op["j"] % 2
        must_raise(lambda: b.set_evals(torch.zeros((m, w.nobj))), "fitnesses with too many rows", ValueError)
        must_raise(lambda: b.set_evals(torch.zeros((n, w.w + 1))), "fitnesses with too many columns", ValueError)
        if w.nobj > 1:
            must_raise(lambda: b.set_evals(torch.zeros((n,))), "one-dimensional fitnesses for many objectives", ValueError)
        if w.q:
            ok = torch.zeros((n, w.nobj))
            must_raise(lambda: b.set_evals(ok, torch.zeros((n, w.q + 1 + op["i"] % 2))), "additional data with too many columns", ValueError)
            must_raise(lambda: b.set_evals(ok, torch.zeros((m, w.q))), "additional data with too many rows", ValueError)
            must_raise(lambda: b.set_evals(ok, torch.zeros((n,))), "one-dimensional additional data", ValueError)
            must_raise(lambda: b.set_evals(torch.zeros((n, w.w)), torch.zeros((n, w.q))), "fitnesses with data next to additional data", ValueError)
        must_raise(lambda: b.split(), "a split without a number and a size", ValueError)
        must_raise(lambda: b.split(2, max_size=2), "a split with a number and a size", ValueError)
        wrong = [dict(problem=w.p), dict(popsize=2), dict(like=b), dict(empty=True), dict(slice_of=(b, slice(0, 1)))][op["k"] % 5]
        must_raise(lambda: SolutionBatch(merging_of=[b, b], **wrong), f"a batch merged from others and given {list(wrong)}")
        wrong = [dict(problem=w.p), dict(popsize=2), dict(like=b), dict(empty=True), dict(merging_of=[b, b])][op["k"] % 5]
        must_raise(lambda: SolutionBatch(slice_of=(b, slice(0, 1)), **wrong), f"a batch sliced from another and given {list(wrong)}")
    return kind


def check(c, ctx):
    w = World(c)
    views = 0
    for op in c["ops"]:
        before = len(w.handles)
        what = apply(w, op, ctx)
        w.check(what)
        if len(w.handles) > 12:
            w.handles = w.handles[-9:]
    writes = [o for o in c["ops"] if o["op"] in ("setv", "accv", "sete", "acce", "forget")]
    kinds = {o["op"] for o in c["ops"]}
    if writes and kinds & {"slice", "step", "one", "split", "take", "clone", "cat", "concat", "like"} and len(w.handles) >= 2:
        ctx.hit()
    for k in kinds:
        ctx.label(k)


kinds = ["new", "slice", "step", "one", "split", "cat", "concat", "take", "clone", "pickle", "like", "to", "setv", "setv", "accv", "sete", "sete", "sete", "acce", "forget", "bad"]
ops = with_fields(
    op=st.sampled_from(kinds),
    h=st.integers(0, 11),
    i=often(0, 6, 40),
    j=often(0, 6, 40),
    k=st.integers(0, 11),
    t=st.integers(0, 3),
    idx=st.one_of(st.lists(st.integers(0, 6), min_size=1, max_size=4), st.lists(often(0, 6, 40), min_size=1, max_size=12)),
    seed=st.integers(0, 1000),
)
cases = with_fields(
    senses=st.lists(st.sampled_from(["min", "max"]), min_size=1, max_size=3),
    q=st.integers(0, 2),
    L=often(1, 3, 9),
    dtype=st.sampled_from(["float32", "int64", "float64", "object"]),
    ops=st.lists(ops, min_size=4, max_size=16),
)

FACETS = [
    Facet(
        "history",
        cases,
        check,
        rule="the history contains a write and a view- or copy-making operation, and ends with at least two live objects",
        quick=700,
        thorough=20000,
    )
]
