"""C01: evaluation gives each solution its own fitness, however the work is split."""

import math
import random as pyrandom

import ray
import torch
from hypothesis import strategies as st

from evotorch import Problem, Solution, SolutionBatch
from evotorch.decorators import on_aux_device, on_cuda, on_device, vectorized
from evotorch.tools import ObjectArray

from .common import DT, Violation, check_shape, eq, must_raise, often, plain, rand_grid, require, same, show, with_fields, seeds
from harness.core import Facet, RaySchedule

# -- the reference fitness: exact in every dtype used, different for each objective and sensitive to element order ---

#: makes the fitnesses need the digits of float64 where that is their type, and vanishes by rounding elsewhere
FINE = 2.0**-30


def ref_row(x, nobj, q):
    """Objective values and evaluation data for one row (list of numbers)."""
    x = [float(v) for v in x]
    out = []
    for j in range(nobj):
        s = 0.0
        for i, v in enumerate(x):
            s += v * (i + 1 + 3 * j)
        out.append(s + 7 * j - 3 + FINE)
    data = [float(sum(x)) * (k + 2) + k + FINE for k in range(q)]
    return out, data


def torch_rows(xs, nobj, q, dtype):
    xs = xs.as_subclass(torch.Tensor).to(torch.float64)
    i = torch.arange(1, xs.shape[-1] + 1, dtype=torch.float64)
    evals = torch.stack([(xs * (i + 3 * j)).sum(-1) + (7 * j - 3) + FINE for j in range(nobj)], dim=-1).to(dtype)
    data = torch.stack([xs.sum(-1) * (k + 2) + k + FINE for k in range(q)], dim=-1).to(dtype) if q else None
    return evals, data


#: sizes of the batches given to the fitness functions, also of those running in actors (which share this process)
SEEN = []


def note(k):
    SEEN.append(k)


def make_problem(c, log):
    nobj, q, L = len(c["senses"]), c["q"], c["L"]
    is_obj = c["dtype"] == "object"
    eval_dtype = DT[c["eval_dtype"]]
    kind, ret = c["kind"], c["ret"]

    def pack(evals, data, row):
        # evals: (..., nobj), data: (..., q) or None
        if data is None or ret == "omit":
            if nobj == 1 and ret != "joined":
                evals = evals[..., 0]
            return evals
        if ret == "joined":
            return torch.cat([evals, data], dim=-1)
        return (evals[..., 0] if nobj == 1 else evals), data

    def row_of(x):
        if is_obj:
            e, d = ref_row(list(x), nobj, q)
        else:
            check_shape(x, (L,), "decision values given to the fitness function")
            e, d = ref_row(x.tolist(), nobj, q)
        e = torch.tensor(e, dtype=eval_dtype)
        d = torch.tensor(d, dtype=eval_dtype) if q else None
        log.append(1)
        return pack(e, d, True)

    def rows_of(xs):
        if is_obj:
            pairs = [ref_row(list(x), nobj, q) for x in xs]
            e = torch.tensor([p[0] for p in pairs], dtype=eval_dtype).reshape(-1, nobj)
            d = torch.tensor([p[1] for p in pairs], dtype=eval_dtype).reshape(-1, q) if q else None
        else:
            require(xs.ndim == 2 and xs.shape[1] == L, lambda: f"fitness function was given shape {tuple(xs.shape)}")
            e, d = torch_rows(xs, nobj, q, eval_dtype)
        log.append(len(xs))
        note(len(xs))
        return pack(e, d, False)

    kw = dict(
        objective_sense=c["senses"][0] if nobj == 1 and c["flat_sense"] else c["senses"],
        eval_data_length=q if (q or c["flat_sense"]) else None,
    )
    if is_obj:
        kw["dtype"] = object
        kw["eval_dtype"] = eval_dtype
    else:
        kw.update(dtype=DT[c["dtype"]], solution_length=L, eval_dtype=eval_dtype)
        if not c.get("unbounded"):
            kw["initial_bounds"] = (-8, 8)
    if c["seed"] is not None:
        kw["seed"] = c["seed"]
    s = c.get("split")
    if s is not None:
        kw["num_actors"] = s["actors"]
        if s["how"] == "num":
            kw["num_subbatches"] = s["k"]
        elif s["how"] == "size":
            kw["subbatch_size"] = s["k"]

    if kind == "rowfn":
        return Problem(objective_func=row_of, **kw)
    if kind == "vecfn":
        return Problem(objective_func=vectorized(rows_of), **kw)
    if kind == "veckw":
        return Problem(objective_func=rows_of, vectorized=True, **kw)
    if kind == "vecdev":
        return Problem(objective_func=vectorized(on_device("cpu")(rows_of)), **kw)

    class RowProblem(Problem):
        def _evaluate(self, solution):
            r = row_of(solution.values)
            if isinstance(r, tuple):
                solution.set_evals(*r)
            else:
                solution.set_evals(r)

    class BatchProblem(Problem):
        def _evaluate_batch(self, batch):
            r = rows_of(batch.values)
            if isinstance(r, tuple):
                batch.set_evals(*r)
            else:
                batch.set_evals(r)

    return {"rowmeth": RowProblem, "batmeth": BatchProblem}[kind](**kw)


def make_values(c):
    n, L = c["n"], c["L"]
    vals = rand_grid(c["vseed"], (n, L), -8, 8, 1.0, torch.int64)
    if c["dtype"] == "object":
        out = ObjectArray(n)
        for i in range(n):
            out[i] = vals[i].tolist()[: 1 + (i % L)]
        return out
    return vals.to(DT[c["dtype"]])


def expected(values, c):
    nobj, q = len(c["senses"]), c["q"]
    rows = []
    for v in values:
        e, d = ref_row(v.tolist() if isinstance(v, torch.Tensor) else list(v), nobj, q)
        if c["ret"] == "omit":
            d = [float("nan")] * q
        rows.append(e + d)
    return torch.tensor(rows, dtype=DT[c["eval_dtype"]]).reshape(len(values), nobj + q)


def check_eval(c, ctx):
    log = []
    problem = make_problem(c, log)
    n, nobj, q = c["n"], len(c["senses"]), c["q"]
    try:
        batch = SolutionBatch(problem, popsize=n, empty=True)
        values = make_values(c)
        batch.set_values(values)
        hook_log = []
        for h in range(c["hooks"][0]):
            problem.before_eval_hook.append(lambda b, h=h: hook_log.append(("before", h, len(b), plain(b.evals))))
        for h in range(c["hooks"][1]):
            def after(b, h=h):
                hook_log.append(("after", h, len(b), plain(b.evals)))
                return {"k%d" % h: h, "shared": h}
            problem.after_eval_hook.append(after)

        for r in range(c["repeat"]):
            target = c["target"]
            before = plain(batch.evals)
            SEEN.clear()
            if target["kind"] == "all":
                rows = list(range(n))
                problem.evaluate(batch)
            elif target["kind"] == "solution":
                i = target["i"] % n
                rows = [i]
                problem.evaluate(batch[i])
            else:
                a = target["i"] % n
                b = a + 1 + target["j"] % (n - a)
                rows = list(range(a, b))
                problem.evaluate(batch[a:b])
            s = c.get("split")
            if s is not None and c["kind"] not in ("rowfn", "rowmeth"):
                m = len(rows)
                if s["how"] == "size":
                    require(max(SEEN) <= s["k"] and len(SEEN) == -(-m // s["k"]), lambda: f"{m} solutions in pieces of {s['k']} at most: got pieces of {SEEN}")
                else:
                    parts = min(m, s["k"] if s["how"] == "num" else s["actors"])
                    full = [k for k in SEEN if k]
                    require(len(full) == parts and max(full) - min(full) <= 1, lambda: f"{m} solutions in {parts} pieces: got pieces of {SEEN}")
                eq(sum(SEEN), m, "number of evaluated rows")
            got = plain(batch.evals)
            exp_all = expected(values, c)
            exp = before.clone()
            exp[rows] = exp_all[rows]
            same(got, exp, "fitnesses after evaluation", dtype=True)
            if c["dtype"] == "object":
                eq([list(v) for v in batch.values], [list(v) for v in values], "decision values after evaluation")
            else:
                same(batch.values, values, "decision values after evaluation", dtype=True)
            for i in rows:
                require(batch[i].is_evaluated, f"solution {i} is not reported as evaluated") if c["ret"] != "omit" or q == 0 else None
            # hooks
            exp_hooks = [("before", h) for h in range(c["hooks"][0])] + [("after", h) for h in range(c["hooks"][1])]
            eq([e[:2] for e in hook_log], exp_hooks, "hook calls")
            for kind, h, ln, evals in hook_log:
                eq(ln, len(rows), f"length of the batch given to {kind} hook")
                same(evals, before[rows] if kind == "before" else exp_all[rows], f"fitnesses seen by {kind} hook")
            hook_log.clear()
            if c["hooks"][1]:
                require("shared" in problem.status, "result of the after-evaluation hook is not in the status")
                eq(problem.status["shared"], c["hooks"][1] - 1, "status entry returned by two hooks")
                for h in range(c["hooks"][1]):
                    eq(problem.status.get("k%d" % h), h, "status entry returned by a hook")
        if c.get("split") is None:
            eq(sum(log), c["repeat"] * len(rows), "number of evaluated rows")
        ctx.label(c["kind"])
        if n >= 2 and len(set(tuple(r) for r in expected(values, c).tolist())) >= 2:
            ctx.hit()
    finally:
        problem.kill_actors()
        require(problem.actors is None, "there are actors after killing them")


def cases(split):
    def fix(c):
        # construction constraints
        if c["dtype"] == "object" and c["kind"] in ("vecdev",):
            c["kind"] = "veckw"
        if c["q"] == 0 and c["ret"] != "plain":
            c["ret"] = "plain"
        if c["kind"] in ("rowfn", "rowmeth") and c["ret"] == "joined" and len(c["senses"]) == 1 and c["q"] == 0:
            c["ret"] = "plain"
        return c

    fields_target = st.one_of(
        st.just({"kind": "all"}),
        with_fields(kind=st.just("solution"), i=often(0, 8, 69)),
        with_fields(kind=st.just("slice"), i=often(0, 8, 69), j=often(0, 8, 69)),
    )
    fields = dict(
        n=often(1, 9, 70),
        L=often(1, 4, 20),
        senses=st.lists(st.sampled_from(["min", "max"]), min_size=1, max_size=3),
        flat_sense=st.booleans(),
        q=st.integers(0, 2),
        kind=st.sampled_from(["rowfn", "vecfn", "veckw", "vecdev", "rowmeth", "batmeth"]),
        ret=st.sampled_from(["plain", "joined", "omit"]),
        dtype=st.sampled_from(["float32", "float64", "int64", "object", "float16", "int8"]),
        eval_dtype=st.sampled_from(["float32", "float64"]),
        seed=st.one_of(st.none(), st.integers(0, 1000)),
        vseed=seeds,
        hooks=st.tuples(st.integers(0, 2), st.integers(0, 3)).map(list),
        repeat=st.integers(1, 2),
        target=fields_target,
    )
    if split:
        # here the splitting is what matters: larger batches, usually evaluated as a whole
        fields["n"] = often(1, 14, 60)
        fields["repeat"] = st.just(1)
        fields["target"] = st.sampled_from(range(5)).flatmap(lambda i: fields_target if i == 0 else st.just({"kind": "all"}))
        fields["split"] = with_fields(
            actors=st.integers(2, 4), how=st.sampled_from(["num", "size", "default"]), k=often(1, 6, 25), order=seeds
        )
    return st.fixed_dictionaries(fields).map(fix)


def check_split(c, ctx):
    """Same, with the work split over actors whose results arrive in a generated order."""
    RaySchedule.order = pyrandom.Random(c["split"]["order"])
    try:
        check_eval(c, ctx)
    finally:
        RaySchedule.order = None


# -- callable evaluators over any batch shape ------------------------------------------------------------------------


def check_callable(c, ctx):
    c = dict(c, q=0, ret="plain", eval_dtype=c["dtype"], split=None, unbounded=c["vseed"] % 2 == 1)
    log = []
    problem = make_problem(c, log)
    nobj, L = len(c["senses"]), c["L"]
    i_obj = c["obj"] % nobj
    f = problem.make_callable_evaluator(obj_index=(None if nobj == 1 and c["none_obj"] else i_obj))
    shape = tuple(c["batch_shape"]) + (c["n"], L)
    x = rand_grid(c["vseed"], shape, -8, 8, 1.0, DT[c["dtype"]])
    keep = x.clone()
    y = f(x)
    flat = x.reshape(-1, L)
    exp = torch.tensor([ref_row(r.tolist(), nobj, 0)[0][i_obj] for r in flat], dtype=x.dtype).reshape(shape[:-1])
    same(y, exp, "result of the callable evaluator")
    same(x, keep, "input of the callable evaluator")
    if len(c["batch_shape"]) >= 1 and nobj >= 2:
        ctx.hit()


callable_cases = st.fixed_dictionaries(
    dict(
        n=often(1, 5, 40),
        L=often(1, 3, 12),
        senses=st.lists(st.sampled_from(["min", "max"]), min_size=1, max_size=3),
        flat_sense=st.booleans(),
        none_obj=st.booleans(),
        obj=st.integers(0, 2),
        kind=st.sampled_from(["rowfn", "vecfn", "veckw", "rowmeth", "batmeth"]),
        dtype=st.sampled_from(["float32", "float64"]),
        seed=st.none(),
        vseed=seeds,
        batch_shape=st.lists(often(1, 3, 8), max_size=3),
    )
)

# -- how many actors ---------------------------------------------------------------------------------------------------


class Probed(Problem):
    def __init__(self, c, **kw):
        super().__init__("min", solution_length=2, initial_bounds=(-1, 1), **kw)
        self.add = c["seed"] % 7

    def _evaluate_batch(self, batch):
        batch.set_evals(batch.values.sum(-1) + self.add)

    def tell(self, x, *, y):
        return [self.actor_index, self.is_remote, self.is_main, x, y, self.add]


def check_number(c, ctx):
    have = {"CPU": float(c["cpus"])}
    if c["gpus"] is not None:
        have["GPU"] = c["gpus"]
    real = ray.available_resources, ray.cluster_resources
    kw = {}
    if c["given"] != "absent":
        kw["num_actors"] = c["given"]
    gpu = c["gpus"] is not None and c["gpus"] >= 1
    named_for_devices = c["given"] in ("num_gpus", "num_devices")
    if c["device"] == "meta":
        kw["device"] = "meta"
    if c["conflict"] == 1:
        kw["num_gpus_per_actor"] = 1
    elif c["conflict"] == 2:
        kw["actor_config"] = {"num_gpus": 1}
    ray.available_resources = ray.cluster_resources = lambda: dict(have)
    p = None
    try:
        make = lambda: Probed(c, **kw)  # noqa: E731
        if c["given"] == "many":
            must_raise(make, "an unknown name for the number of actors", ValueError)
            return
        if c["given"] == "num_gpus" and not gpu:
            must_raise(make, "one actor for each GPU without GPUs", ValueError)
            return
        if named_for_devices and c["conflict"]:
            must_raise(make, "GPUs for each actor given twice", ValueError)
            return
        n = {"absent": 0, None: 0, "max": c["cpus"], "num_cpus": c["cpus"], "num_gpus": gpu and c["gpus"]}.get(c["given"], c["given"])
        if n == "num_devices":
            n = 0 if c["device"] == "meta" else min(c["cpus"], c["gpus"]) if gpu else c["cpus"]
        n = math.ceil(n)
        n = 0 if n == 1 else n
        if c["device"] == "meta" and n:
            must_raise(make, "actors for a population on a device", ValueError)
            return
        p = make()
        eq(p.num_actors, n, f"number of actors, given as {c['given']!r} with {have}")
        eq((p.is_main, p.is_remote, p.actor_index), (True, False, None), "the problem itself")
        if c["device"] == "meta" or (n and (gpu or c["conflict"])):
            return
        ray.available_resources, ray.cluster_resources = real
        b = p.generate_batch(c["n"])
        p.evaluate(b)
        same(b.evals[:, 0], b.values.sum(-1) + p.add, "fitnesses", rtol=1e-5, atol=1e-5)
        eq(None if p.actors is None else len(p.actors), n or None, "actors after an evaluation")
        if n:
            got = p.all_remote_problems().tell(5, y="z")
            eq([list(g) for g in got], [[i, True, False, 5, "z", p.add] for i in range(n)], "a method called on all actors")
            ctx.hit(str(c["given"]))
    finally:
        ray.available_resources, ray.cluster_resources = real
        if p is not None:
            p.kill_actors()


number_cases = with_fields(
    given=st.sampled_from(["absent", None, 0, 1, 2, 3, 5, "max", "num_cpus", "max", "num_cpus", "num_gpus", "num_devices", "num_devices", "many"]),
    cpus=st.integers(1, 5),
    gpus=st.sampled_from([None, None, None, None, 0.0, 1.0, 2.0, 3.0, 8.0]),
    device=st.sampled_from(["cpu", "cpu", "cpu", "cpu", "meta"]),
    conflict=st.sampled_from([0, 0, 0, 0, 1, 2]),
    n=st.integers(1, 9),
    seed=seeds,
)

class Arrived(Exception):
    pass


def check_device(c, ctx):
    """There is no second device which can compute, so the fitness function only notes where its values are."""
    seen = []
    kw = dict(objective_sense="min", solution_length=c["L"], initial_bounds=(-1, 1), seed=c["seed"])

    def look(values):
        seen.append((values.device.type, tuple(values.shape)))
        if values.device.type == "meta":
            raise Arrived()

    def fn(xs):
        look(xs)
        return xs.sum(dim=-1)

    far = c["far"]
    deco = {"device": on_device(["meta", torch.device("meta")][c["seed"] % 2] if far else "cpu"), "aux": on_aux_device if c["seed"] % 2 else on_aux_device()}[c["deco"]]
    kind = c["kind"]

    class Base(Problem):
        @property
        def aux_device(self):
            return torch.device("meta" if far else "cpu")

    if kind == "fn":
        target = deco(vectorized(fn)) if c["seed"] % 3 else vectorized(deco(fn))
        p = Base(objective_func=target, **kw)
    elif kind == "rowfn":
        target = deco(fn)
        p = Base(objective_func=target, **kw)
    elif kind == "batmeth":

        class P(Base):
            @deco
            def _evaluate_batch(self, batch):
                batch.set_evals(fn(batch.values))

        target, p = P._evaluate_batch, P(**kw)
    else:

        class P(Base):
            @deco
            def _evaluate(self, solution):
                solution.set_evals(fn(solution.values))

        target, p = P._evaluate, P(**kw)
    batch = p.generate_batch(c["n"])
    shape = (c["n"], c["L"]) if kind in ("fn", "batmeth") else (c["L"],)

    def ask(where):
        del seen[:]
        if where == "meta":
            must_raise(lambda: p.evaluate(batch), "the exception of the fitness function", Arrived)
            eq(seen, [("meta", shape)], "device and shape of the values given to the fitness function")
        else:
            p.evaluate(batch)
            eq(seen, [("cpu", shape)] * (1 if len(shape) == 2 else c["n"]), "devices and shapes of the values given to the fitness function")
            same(batch.evals[:, 0], batch.values.sum(dim=-1), "fitnesses", rtol=1e-5)
        eq(batch.device.type, "cpu", "device of the population after the evaluation")

    ask("meta" if far else "cpu")
    if c["deco"] == "device" and kind in ("fn", "rowfn"):
        eq(torch.device(target.device).type, "meta" if far else "cpu", "device attribute of the function")
        target.device = "cpu" if far else "meta"
        ask("cpu" if far else "meta")
    for g, want in ((on_cuda(lambda x: x), "cuda"), (on_cuda()(lambda x: x), "cuda"), (on_cuda(1)(lambda x: x), "cuda:1")):
        eq(str(torch.device(g.device)), want, "device asked for by on_cuda")
    ctx.hit("another device") if far else ctx.label("same device")


device_cases = with_fields(
    kind=st.sampled_from(["fn", "rowfn", "batmeth", "rowmeth"]),
    deco=st.sampled_from(["device", "aux"]),
    far=st.sampled_from([True, True, False]),
    n=st.integers(1, 4),
    L=st.integers(1, 3),
    seed=seeds,
)

FACETS = [
    Facet(
        "devices",
        device_cases,
        check_device,
        rule="the fitness function asks for a device other than the problem's",
        quick=80,
        thorough=600,
    ),
    Facet(
        "direct",
        cases(False),
        check_eval,
        rule="at least two rows with different expected fitnesses",
        quick=1200,
        thorough=40000,
    ),
    Facet(
        "actors",
        cases(True),
        check_split,
        rule="at least two rows with different expected fitnesses, evaluated by at least two actors",
        quick=300,
        thorough=5000,
        needs_ray=True,
    ),
    Facet(
        "number",
        number_cases,
        check_number,
        rule="at least two actors were made and asked",
        quick=200,
        thorough=3000,
        needs_ray=True,
    ),
    Facet(
        "callable",
        callable_cases,
        check_callable,
        rule="at least one extra batch dimension and at least two objectives",
        quick=400,
        thorough=10000,
    ),
]
