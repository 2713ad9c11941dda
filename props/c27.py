"""C27: statistics of observations, and normalization with them."""

import copy
import pickle

import numpy as np
import torch
from hypothesis import strategies as st

from evotorch.neuroevolution.net import RunningNorm, RunningStat

from .common import DT, eq, must_raise, often, plain, rand_grid, require, same, seeds
from harness.core import Facet

QUICK_FACTOR = 3
TECHNIQUE = "property-based testing: generated sequences of updates, merges, copies and resets on several statistics objects; after every action compared with the statistics of the list of all observations given so far, in float64"
ASSUMPTIONS = ["observations are multiples of 1/8 of moderate size, so that the sums are exact and the differences of squares accurate"]

SHAPES = [[1], [3], [2, 2], [4], []]
ACTIONS = ["one", "one", "batch", "batch", "masked", "masked", "nothing", "merge", "merge", "copy", "pickle", "reset", "normalize", "normalize", "both", "both masked", "layer", "move", "wrong"]


@st.composite
def norm_case(draw):
    n = draw(st.integers(1, 3))
    return {
        "shape": draw(st.sampled_from(SHAPES)),
        "dtype": draw(st.sampled_from(["float32", "float32", "float64"])),
        "clip": draw(st.sampled_from([None, None, [-1, 1], [-0.5, 2.0], [-5, 5]])),
        "min_var": draw(st.sampled_from([None, None, 1e-4, 0.5])),
        "n": n,
        "actions": draw(st.lists(st.tuples(st.sampled_from(ACTIONS), st.integers(0, n - 1), st.integers(0, n - 1), often(1, 4, 20), st.sampled_from(["tensor", "tensor", "array", "list", "other dtype"])).map(list), min_size=2, max_size=12)),
        "seed": draw(seeds),
    }


class Seen:
    """The observations given to a statistics object, and what is expected from it"""

    def __init__(self, shape, min_var, clip):
        self.rows = []
        self.shape, self.min_var, self.clip = shape, min_var, clip

    def table(self):
        return torch.stack([r.to(torch.float64) for r in self.rows])

    def mean(self):
        return self.table().mean(dim=0)

    def stdev(self):
        t = self.table()
        return torch.sqrt(torch.clamp(((t - t.mean(dim=0)) ** 2).mean(dim=0), min=self.min_var))

    def normalized(self, x):
        y = (x.to(torch.float64) - self.mean()) / self.stdev()
        return y if self.clip is None else torch.clamp(y, *self.clip)


def given(x, form):
    """(what is given to the library, a function telling whether it was left alone)"""
    if form == "array":
        a = x.numpy().copy()
        keep = a.copy()
        return a, lambda: np.array_equal(a, keep, equal_nan=True)
    if form == "list":
        return x.tolist(), lambda: True
    t = x.clone() if form == "tensor" else x.to(torch.float64 if x.dtype == torch.float32 else torch.float32)
    keep = t.clone()
    return t, lambda: torch.equal(torch.nan_to_num(t, nan=77.0), torch.nan_to_num(keep, nan=77.0))


def check_stats(rn, seen, what):
    eq(rn.count, len(seen.rows), f"{what}: number of observations")
    if seen.rows:
        t = seen.table()
        kw = dict(rtol=1e-4, atol=1e-4)
        same(torch.as_tensor(rn.mean).to(torch.float64), seen.mean(), f"{what}: mean", **kw)
        same(torch.as_tensor(rn.stdev).to(torch.float64), seen.stdev(), f"{what}: standard deviation", rtol=1e-3, atol=1e-3)
        same(torch.as_tensor(rn.sum).to(torch.float64), t.sum(dim=0), f"{what}: sum", **kw)
        same(torch.as_tensor(rn.sum_of_squares).to(torch.float64), (t**2).sum(dim=0), f"{what}: sum of squares", **kw)


def agree(got, want, what):
    got = torch.as_tensor(np.array(got) if not isinstance(got, torch.Tensor) else got)
    same(plain(got).to(torch.float64), want, what, rtol=2e-3, atol=2e-3)


def check_norm(case, ctx):
    shape, dt = tuple(case["shape"]), DT[case["dtype"]]
    min_var = 1e-2 if case["min_var"] is None else case["min_var"]
    kw = {} if case["min_var"] is None else {"min_variance": case["min_var"]}
    if case["clip"] is not None:
        kw["clip"] = tuple(case["clip"])

    def new(i):
        sh = shape[0] if len(shape) == 1 and i == 1 else shape
        return RunningNorm(shape=sh, dtype=case["dtype"] if i else dt, **kw)

    objs = [new(i) for i in range(case["n"])]
    seen = [Seen(shape, min_var, case["clip"]) for _ in objs]
    held = []  # what callers gave, and must keep
    seed = case["seed"]
    merged = masked = False
    for k, (action, i, j, size, form) in enumerate(case["actions"]):
        rn, s = objs[i], seen[i]
        what = f"action {k} of {[a[0] for a in case['actions']]} on object {i}"
        seed += 13
        one = rand_grid(seed, shape, -24, 24, 8.0, dtype=dt)
        batch = rand_grid(seed + 1, (size, *shape), -24, 24, 8.0, dtype=dt)
        mask = [bool(b) for b in rand_grid(seed + 2, (size,), 0, 1, 1.0)]
        if shape == () and form == "list" and action == "one":
            form = "tensor"
        if action == "one":
            x, kept = given(one, form)
            rn.update(x)
            s.rows.append(one)
            held.append(kept)
        elif action in ("batch", "nothing", "masked", "both masked", "both"):
            m = None
            if action == "nothing":
                m = [False] * size
            elif "masked" in action:
                m = mask
                masked = True
            sent = batch.clone()
            if action in ("masked", "nothing"):
                for r in range(size):
                    if not m[r]:
                        sent[r] = float("nan") if r % 2 else float("inf")
            x, kept = given(sent, form)
            mm = None if m is None else torch.tensor(m) if form != "list" else m
            rows = [batch[r] for r in range(size) if m is None or m[r]]
            if action.startswith("both"):
                if not s.rows and not rows:
                    continue
                y = rn.update_and_normalize(x, mm)
                s.rows += rows
                require(isinstance(y, torch.Tensor) == isinstance(x, torch.Tensor), f"{what}: type of the result")
                agree(y, s.normalized(batch), f"{what}: normalized")
            else:
                rn.update(x, mm)
                s.rows += rows
            held.append(kept)
        elif action == "merge":
            rn.update(objs[j])
            s.rows = s.rows + list(seen[j].rows)
            merged |= bool(seen[j].rows) and i != j
        elif action in ("copy", "pickle"):
            objs[i] = (copy.copy(objs[j]) if form == "list" else copy.deepcopy(objs[j])) if action == "copy" else pickle.loads(pickle.dumps(objs[j]))
            rows = list(seen[j].rows)
            seen[i] = Seen(shape, min_var, case["clip"])
            seen[i].rows = rows
        elif action == "reset":
            rn.reset()
            s.rows = []
        elif action == "move":
            require(rn.to("cpu") is rn, "moving to the same device")
            other = rn.to("cpu:0")
            check_stats(other, s, f"{what}: moved")
            other.update(one)
            check_stats(rn, s, f"{what}: after updating the moved one")
        elif action == "wrong":
            must_raise(lambda: rn.update(torch.zeros((2, 7, *shape, 3))), f"{what}: wrong number of dimensions", ValueError)
            if shape:
                must_raise(lambda: rn.update(torch.zeros((shape[0] + 1, *shape[1:]))), f"{what}: wrong shape", ValueError)
                must_raise(lambda: rn.update(torch.zeros((2, shape[0] + 1, *shape[1:]))), f"{what}: wrong shape of a batch", ValueError)
            must_raise(lambda: rn.update(batch, [True] * (size + 1)), f"{what}: wrong mask", ValueError)
            if seen[j].rows:
                must_raise(lambda: rn.update(objs[j], [True]), f"{what}: mask for merging statistics", ValueError)
            foreign = RunningNorm(shape=(*shape, 2) if size % 2 else (*shape[:-1], (shape[-1] if shape else 0) + 1), dtype=dt)
            foreign.update(torch.ones((3, *foreign.shape), dtype=dt))
            must_raise(lambda: rn.update(foreign), f"{what}: merging statistics of the shape {tuple(foreign.shape)}", ValueError)
            must_raise(lambda: rn.update(one, [True]), f"{what}: mask for a single observation", ValueError)
            if not s.rows:
                must_raise(lambda: rn.normalize(one), f"{what}: normalizing without data", ValueError)
        elif not s.rows:
            continue
        elif action == "normalize":
            for z in (one, batch):
                f = "tensor" if z.ndim == 0 else form
                x, kept = given(z, f)
                y = rn.normalize(x)
                require(isinstance(y, torch.Tensor) == isinstance(x, torch.Tensor), f"{what}: type of the result")
                agree(y, s.normalized(z), f"{what}: normalized")
                held.append(kept)
                y = rn.normalize(x, result_as_numpy=True)
                require(isinstance(y, np.ndarray), f"{what}: type of the result")
        elif action == "layer":
            layer = rn.to_layer()
            want = s.normalized(batch)
            agree(layer(batch), want, f"{what}: output of the layer")
            rn.update(one)
            s.rows.append(one)
            agree(layer(batch), want, f"{what}: output of the layer after an update")
            require(len(list(layer.parameters())) == 0, "the layer has parameters")
        for z, (o, w) in enumerate(zip(objs, seen)):
            check_stats(o, w, f"after {what}: object {z}")
        require(all(f() for f in held), f"after {what}: the data of the caller was changed")
    for o in objs:
        eq((tuple(o.shape), o.dtype, o.min_variance, o.low, o.high), (shape, dt, min_var, *(case["clip"] or (None, None))), "settings")
    ctx.hit(*[x for x, y in (("merged", merged), ("masked", masked)) if y] or ["plain"]) if sum(len(s.rows) for s in seen) > 1 else ctx.label("few observations")


STAT_ACTIONS = ["one", "one", "one", "batch", "merge", "merge", "copy", "pickle", "reset", "normalize", "layer"]


@st.composite
def stat_case(draw):
    n = draw(st.integers(1, 3))
    return {
        "shape": draw(st.sampled_from([[1], [3], [2, 2]])),
        "n": n,
        "actions": draw(st.lists(st.tuples(st.sampled_from(STAT_ACTIONS), st.integers(0, n - 1), st.integers(0, n - 1), st.sampled_from(["array", "list", "float64"])).map(list), min_size=2, max_size=12)),
        "seed": draw(seeds),
    }


def check_stat(case, ctx):
    shape = tuple(case["shape"])
    objs = [RunningStat() for _ in range(case["n"])]
    seen = [Seen(shape, 1e-2, None) for _ in objs]
    held = []
    seed = case["seed"]
    merged = False
    for k, (action, i, j, form) in enumerate(case["actions"]):
        rs, s = objs[i], seen[i]
        what = f"action {k} of {[a[0] for a in case['actions']]} on object {i}"
        seed += 13
        one = rand_grid(seed, shape, -24, 24, 8.0)
        batch = rand_grid(seed, (3, *shape), -24, 24, 8.0)

        def give(t):
            if form == "list":
                return t.tolist()
            a = t.numpy().astype("float64" if form == "float64" else "float32")
            keep = a.copy()
            held.append(lambda: np.array_equal(a, keep))
            return a

        if action == "one":
            rs.update(give(one))
            s.rows.append(one)
        elif action == "batch":
            if not s.rows:
                continue
            rs.update(give(batch))
            s.rows += list(batch)
        elif action == "merge":
            rs.update(objs[j])
            s.rows = s.rows + list(seen[j].rows)
            merged |= bool(seen[j].rows) and i != j
        elif action in ("copy", "pickle"):
            objs[i] = (copy.copy(objs[j]) if form == "list" else copy.deepcopy(objs[j])) if action == "copy" else pickle.loads(pickle.dumps(objs[j]))
            rows = list(seen[j].rows)
            seen[i] = Seen(shape, 1e-2, None)
            seen[i].rows = rows
        elif action == "reset":
            rs.reset()
            s.rows = []
        elif action == "normalize":
            y = rs.normalize(give(one))
            if s.rows:
                require(isinstance(y, np.ndarray), "type of the result")
                agree(y, s.normalized(one), f"{what}: normalized")
            else:
                agree(y, one.to(torch.float64), f"{what}: normalized without data")
        elif s.rows:
            layer = rs.to_layer()
            want = s.normalized(one)
            agree(layer(one), want, f"{what}: output of the layer")
            rs.update(give(one))
            s.rows.append(one)
            agree(layer(one), want, f"{what}: output of the layer after an update")
        for z, (o, w) in enumerate(zip(objs, seen)):
            check_stats(o, w, f"after {what}: object {z}")
        require(all(f() for f in held), f"after {what}: the data of the caller was changed")
    require(objs[0].to("cpu") is objs[0], "moving to the same device")
    ctx.hit("merged" if merged else "plain") if sum(len(s.rows) for s in seen) > 1 else ctx.label("few observations")


FACETS = [
    Facet("tensor version", norm_case(), check_norm, quick=700, thorough=12000, rule="statistics of at least two observations"),
    Facet("array version", stat_case(), check_stat, quick=300, thorough=5000, rule="statistics of at least two observations"),
]
