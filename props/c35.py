"""C35: a problem is what it was declared to be; contradictory declarations are refused."""

import numpy as np
import torch
from hypothesis import strategies as st

from evotorch import Problem
from evotorch.algorithms import CEM, CMAES, SNES, XNES, Cosyne, GeneticAlgorithm
from evotorch.core import SolutionBatch
from evotorch.decorators import vectorized
from evotorch.neuroevolution import GymNE, NEProblem, SupervisedNE, VecGymNE

from .common import DT, eq, must_raise, plain, require, same, seeds, show, with_fields
from .envs import NAME
from harness.core import Facet

QUICK_FACTOR = 3
TECHNIQUE = "property-based testing: generated declarations of problems (types, senses, lengths, bounds, extra data, seeds, statistics) and, from a valid declaration, single contradictory changes; compared with what was declared"
ASSUMPTIONS = ["bounds are multiples of 1/4 which all the generated types can represent"]

TYPES = ["float32", "float64", "float16", "int64", "int32", "bool", "object", None]


@st.composite
def bound_pair(draw, L, kind):
    """A pair of bounds, each scalar or a vector, the lower ones smaller"""
    lo = [draw(st.integers(-12, 0)) for _ in range(L)]
    hi = [draw(st.integers(1, 12)) for _ in range(L)]
    forms = [draw(st.sampled_from(["scalar", "list", "tensor", "array"])) for _ in range(2)]
    return {"lo": lo, "hi": hi, "forms": forms, "quarter": kind == "float"}


@st.composite
def declaration(draw):
    dtype = draw(st.sampled_from(TYPES))
    numeric = dtype != "object"
    kind = "bool" if dtype == "bool" else "int" if dtype in ("int64", "int32") else "float"
    L = draw(st.integers(1, 4))
    nobj = draw(st.sampled_from([1, 1, 1, 2, 3]))
    c = {
        "dtype": dtype,
        "dtype form": draw(st.sampled_from(["torch", "text", "numpy"])),
        "L": L if numeric else None,
        "senses": [draw(st.sampled_from(["min", "max"])) for _ in range(nobj)],
        "single as list": draw(st.booleans()),
        "senses form": draw(st.sampled_from(["list", "tuple"])),
        "initial": draw(st.none() | bound_pair(L, kind)) if numeric and kind != "bool" else None,
        "bounds": draw(st.none() | bound_pair(L, kind)) if numeric and kind != "bool" else None,
        "eval": draw(st.sampled_from([None, None, "float32", "float64", "float16"])),
        "data": draw(st.sampled_from([None, 0, 1, 3])),
        "seed": draw(st.sampled_from([None, 0, 1, 2**33])),
        "stats": draw(st.sampled_from([None, True, False])),
        "function": draw(st.sampled_from(["none", "plain", "vectorized", "decorated"])),
        "subs": draw(st.sampled_from([None, "count", "size"])),
        "device": draw(st.sampled_from([None, "cpu", torch.device("cpu").type])),
    }
    c["wrong"] = draw(st.sampled_from(WRONG))
    c["n"] = draw(st.integers(0, 5))
    return c


def type_given(name, form):
    if name is None:
        return None
    if name == "object":
        return object
    return {"torch": DT.get(name, torch.float16), "text": name, "numpy": np.dtype(name)}[form]


def torch_type(name):
    return torch.float32 if name is None else torch.float16 if name == "float16" else DT[name]


def bounds_given(b, dtype):
    """The pair as given, and what it means"""
    out, want = [], []
    for values, form in zip((b["lo"], b["hi"]), b["forms"]):
        v = [x / 4 for x in values] if b["quarter"] else [x for x in values]
        if form == "scalar":
            out.append(v[0])
            want.append(torch.tensor(v[0], dtype=dtype))
        else:
            want.append(torch.tensor(v, dtype=dtype))
            out.append(v if form == "list" else torch.tensor(v) if form == "tensor" else np.array(v))
    return tuple(out), want


def plain_function(x):
    return torch.as_tensor(0.0)


def many(x):
    return torch.zeros(len(x))


decorated = vectorized(many)
decorated = decorated if decorated is not many else vectorized(lambda x: torch.zeros(len(x)))


def arguments(c):
    numeric = c["dtype"] != "object"
    kw = {}
    senses = list(c["senses"]) if c["senses form"] == "list" else tuple(c["senses"])
    if len(c["senses"]) == 1 and not c["single as list"]:
        senses = c["senses"][0]
    kw["objective_sense"] = senses
    f = {"none": None, "plain": plain_function, "vectorized": lambda x: torch.zeros(len(x)), "decorated": decorated}[c["function"]]
    if f is not None:
        kw["objective_func"] = f
    if c["function"] == "vectorized":
        kw["vectorized"] = True
    if c["dtype"] is not None:
        kw["dtype"] = type_given(c["dtype"], c["dtype form"])
    if numeric:
        kw["solution_length"] = c["L"]
    want = {}
    for name, key in (("initial", "initial_bounds"), ("bounds", "bounds")):
        if c[name] is not None:
            kw[key], want[name] = bounds_given(c[name], torch_type(c["dtype"]))
    if c["eval"] is not None:
        kw["eval_dtype"] = type_given(c["eval"], c["dtype form"])
    for name, key in (("data", "eval_data_length"), ("seed", "seed"), ("stats", "store_solution_stats"), ("device", "device")):
        if c[name] is not None:
            kw[key] = c[name]
    if c["subs"]:
        kw["num_subbatches" if c["subs"] == "count" else "subbatch_size"] = 2
    return kw, want


def one_bound(got, want, what):
    if want is None:
        require(got is None, lambda: f"{what}: {show(got)} although none were declared")
        return
    require(isinstance(got, torch.Tensor), lambda: f"{what}: {got!r}")
    same(got, want, what, dtype=True)


def check_valid(c, ctx):
    kw, want = arguments(c)
    p = Problem(**kw)
    numeric = c["dtype"] != "object"
    dt = torch_type(c["dtype"]) if numeric else object
    nobj = len(c["senses"])
    ev = torch_type(c["eval"]) if c["eval"] is not None else (dt if dt in (torch.float64, torch.float16) else torch.float32)
    q = c["data"] or 0
    eq(p.dtype, dt, "type of the values")
    eq(p.eval_dtype, ev, "type of the fitnesses")
    eq(str(p.device), "cpu", "device")
    require(p.is_on_cpu() is True, "on the cpu")
    eq(p.solution_length, c["L"], "solution length")
    eq(list(p.senses), c["senses"], "senses")
    eq(p.objective_sense if nobj == 1 else list(p.objective_sense), c["senses"][0] if nobj == 1 else c["senses"], "objective sense")
    eq((p.is_single_objective, p.is_multi_objective), (nobj == 1, nobj > 1), "single and multi objective")
    eq(list(p.get_obj_order_descending()), [s == "max" for s in c["senses"]], "descending")
    eq(p.eval_data_length, q, "length of the extra data")
    eq(p.stores_solution_stats, c["stats"], "storing the best and the worst")
    eq(p.has_own_generator, c["seed"] is not None, "own generator")
    require((p.generator is None) == (c["seed"] is None), "generator")
    eq((p.num_actors, p.is_main, p.is_remote, p.actor_index), (0, True, False, None), "no actors")
    eq(dict(p.status), {}, "status before anything was evaluated")
    # bounds
    strict, initial = want.get("bounds"), want.get("initial", want.get("bounds"))
    for what, b in (("strict", strict), ("initial", initial)):
        lo, hi = (p.lower_bounds, p.upper_bounds) if what == "strict" else (p.initial_lower_bounds, p.initial_upper_bounds)
        one_bound(lo, b and b[0], f"{what} lower bounds")
        one_bound(hi, b and b[1], f"{what} upper bounds")
    for key in ("bounds", "initial_bounds"):
        for x in kw.get(key, ()):
            if isinstance(x, (torch.Tensor, np.ndarray)) and x.ndim:
                x[:] = 100
    if isinstance(kw["objective_sense"], list):
        kw["objective_sense"][0] = "max" if c["senses"][0] == "min" else "min"
        kw["objective_sense"].append("min")
        eq(list(p.senses), c["senses"], "senses after the caller changed theirs")
    for what, b in (("strict", strict), ("initial", initial)):
        lo, hi = (p.lower_bounds, p.upper_bounds) if what == "strict" else (p.initial_lower_bounds, p.initial_upper_bounds)
        one_bound(lo, b and b[0], f"{what} lower bounds after the caller changed theirs")
        one_bound(hi, b and b[1], f"{what} upper bounds after the caller changed theirs")
    # requirements on problems
    for fn, ok, what in (
        (p.ensure_numeric, numeric, "numeric"),
        (p.ensure_unbounded, strict is None, "unbounded"),
        (p.ensure_single_objective, nobj == 1, "single objective"),
    ):
        if ok:
            fn()
        else:
            must_raise(fn, f"a problem which is not {what}", ValueError)
    for i in range(-nobj - 2, nobj + 2):
        if -nobj <= i < nobj:
            eq(p.normalize_obj_index(i), i % nobj, f"index {i} of {nobj} objectives")
        else:
            must_raise(lambda: p.normalize_obj_index(i), f"objective {i} of {nobj}", IndexError)
    if nobj == 1:
        eq(p.normalize_obj_index(), 0, "the only objective")
    else:
        must_raise(lambda: p.normalize_obj_index(), "no objective given", ValueError)
    # new batches
    for b in (p.generate_batch(c["n"], empty=True), SolutionBatch(p, c["n"], empty=True)):
        eq(len(b), c["n"], "size of a new batch")
        if numeric:
            eq((tuple(b.values.shape), b.values.dtype), ((c["n"], c["L"]), dt), "values of a new batch")
        require(b.values.dtype is dt or b.values.dtype == dt, "type of the values of a new batch")
        eq((tuple(b.evals.shape), b.evals.dtype), ((c["n"], nobj + q), ev), "fitnesses of a new batch")
        require(bool(torch.isnan(b.evals).all()), "a new batch has fitnesses")
        eq(list(b.senses), c["senses"], "senses of a new batch")
        for i in (-nobj - 1, nobj, nobj + 1):
            for get, what in (
                (lambda: b.access_evals(i), "fitnesses"),
                (lambda: b.utility(i, check_nans=False), "utilities"),
                (lambda: b.argsort(i), "order"),
                (lambda: b.argbest(i), "best"),
                (lambda: b.take_best(1, obj_index=i), "best solutions"),
            ):
                must_raise(get, f"{what} by the objective {i} of {nobj} in a batch with {q} further columns", IndexError)
    if numeric and initial is not None:
        b = p.generate_batch(c["n"] + 1)
        v = b.values.to(torch.float64)
        require(bool((v >= initial[0].to(torch.float64)).all() and (v <= initial[1].to(torch.float64)).all()), lambda: f"values {show(b.values)} outside of {show(initial[0])}, {show(initial[1])}")
    if numeric and initial is None and c["dtype"] != "bool":
        must_raise(lambda: p.generate_batch(2), "values without any bounds")
    # generators
    p.manual_seed(5)
    require(p.has_own_generator, "a generator after seeding")
    p.manual_seed(None)
    require(not p.has_own_generator and p.generator is None, "a generator after giving it up")
    if strict is not None or nobj > 1 or not numeric:
        ctx.hit("several objectives" if nobj > 1 else "bounded" if strict is not None else "objects")
    else:
        ctx.label("plain")


# ---- contradictory declarations: each change makes a valid declaration invalid, or does not apply (False)


def w_no_length(c, kw):
    if c["dtype"] == "object":
        return False
    kw["solution_length"] = None


def w_object_length(c, kw):
    if c["dtype"] != "object":
        return False
    kw["solution_length"] = 3


def w_object_bounds(c, kw):
    if c["dtype"] != "object":
        return False
    kw["bounds" if c["n"] % 2 else "initial_bounds"] = (0, 1)


def w_object_device(c, kw):
    if c["dtype"] != "object":
        return False
    kw["device"] = "meta"
    kw.pop("seed", None)


def w_sense(c, kw):
    s = list(c["senses"])
    s[c["n"] % len(s)] = ["maximize", "Min", "", "minmax", "mx"][c["n"] % 5]
    kw["objective_sense"] = s if len(s) > 1 or c["single as list"] else s[0]


def w_no_sense(c, kw):
    kw["objective_sense"] = []


def w_bound_length(c, kw):
    if c["dtype"] in ("object", "bool"):
        return False
    v = [0] * (c["L"] + 1)
    if c["n"] % 5 < 2 and c["L"] > 0:
        v = v[:-2]
    other = [1] * c["L"]
    kw["bounds" if c["n"] % 2 else "initial_bounds"] = (v, other) if c["n"] % 3 else (0, [1] * (c["L"] + 2))


def w_bound_shape(c, kw):
    if c["dtype"] in ("object", "bool"):
        return False
    m = torch.ones(1, c["L"])
    kw["bounds" if c["n"] % 2 else "initial_bounds"] = (-1, m) if c["n"] % 3 else (-m, 1)


def w_vectorized(c, kw):
    if c["function"] == "none":
        kw["vectorized"] = bool(c["n"] % 2)
    elif c["function"] == "decorated":
        kw["vectorized"] = bool(c["n"] % 2)
    else:
        return False


def w_subs(c, kw):
    kw["num_subbatches"] = 2
    kw["subbatch_size"] = 1 + c["n"]


def w_gpus(c, kw):
    kw["actor_config"] = {"num_gpus": 1}
    kw["num_gpus_per_actor"] = 1 + c["n"]


def w_gpu_text(c, kw):
    kw["num_gpus_per_actor"] = ["some", "any", "min", "Max", ""][c["n"] % 5]


def w_eval_type(c, kw):
    kw["eval_dtype"] = object


WRONGS = [w_no_length, w_object_length, w_object_bounds, w_object_device, w_sense, w_no_sense, w_bound_length, w_bound_shape, w_vectorized, w_subs, w_gpus, w_gpu_text, w_eval_type]
WRONG = [f.__name__[2:] for f in WRONGS]


def check_wrong(c, ctx):
    kw, _ = arguments(c)
    Problem(**kw)
    change = dict(zip(WRONG, WRONGS))[c["wrong"]]
    if change(c, kw) is False:
        return
    text = ", ".join(f"{k}={v!r}" for k, v in kw.items())
    must_raise(lambda: Problem(**kw), f"a problem declared with {text}", (TypeError,) if c["wrong"] == "eval_type" else (ValueError,))
    ctx.hit(c["wrong"])


# ---- what algorithms require of problems

ALGOS = {
    "snes": lambda p: SNES(p, stdev_init=1.0, popsize=4),
    "cem": lambda p: CEM(p, stdev_init=1.0, popsize=4, parenthood_ratio=0.5),
    "xnes": lambda p: XNES(p, stdev_init=1.0, popsize=4),
    "cmaes": lambda p: CMAES(p, stdev_init=1.0, popsize=4),
    "ga": lambda p: GeneticAlgorithm(p, operators=[lambda x: x], popsize=4),
    "cosyne": lambda p: Cosyne(p, popsize=4, tournament_size=2, mutation_stdev=0.1),
}


@st.composite
def algo_case(draw):
    return {
        "algo": draw(st.sampled_from(list(ALGOS))),
        "dtype": draw(st.sampled_from(["float32", "float32", "float32", "float64", "object"])),
        "bounded": draw(st.booleans()),
        "nobj": draw(st.sampled_from([1, 1, 2])),
        "sense": draw(st.sampled_from(["min", "max"])),
    }


class Objects(Problem):
    def _fill(self, values):
        for i in range(len(values)):
            values[i] = [i]


def check_algo(c, ctx):
    senses = [c["sense"]] * c["nobj"]

    def f(x):
        return torch.zeros(c["nobj"]) if c["nobj"] > 1 else 0.0

    if c["dtype"] == "object":
        p = Objects(senses, f, dtype=object)
    else:
        p = Problem(senses, f, solution_length=2, dtype=DT[c["dtype"]], **{"bounds" if c["bounded"] else "initial_bounds": (-1, 1)})
    bounded = c["bounded"] and c["dtype"] != "object"
    gaussian = c["algo"] in ("snes", "cem", "xnes", "cmaes")
    if c["algo"] == "ga":
        fine = True
    elif gaussian:
        fine = c["dtype"] != "object" and not bounded
    else:
        fine = c["dtype"] != "object"
    what = f"{c['algo']} with {'objects' if c['dtype'] == 'object' else 'bounds' if bounded else 'no bounds'}, {c['nobj']} objectives"
    if gaussian and c["nobj"] > 1:
        # without naming one of them
        fine = False
    if fine:
        if c["algo"] == "cosyne" and c["nobj"] > 1:
            return
        ALGOS[c["algo"]](p).run(1)
        ctx.hit("accepted")
    else:
        must_raise(lambda: ALGOS[c["algo"]](p), what, (ValueError, TypeError))
        ctx.hit("refused")


# -- problems made for networks ---------------------------------------------------------------------------------------

PIECES = []


def noting(cls):
    class Noting(cls):
        def _evaluate_batch(self, batch):
            PIECES.append(len(batch))
            super()._evaluate_batch(batch)

    Noting.__name__ = Noting.__qualname__ = "Noting" + cls.__name__
    return Noting


NotingNEProblem, NotingSupervisedNE, NotingGymNE, NotingVecGymNE = map(noting, (NEProblem, SupervisedNE, GymNE, VecGymNE))
NETWORK = "Linear(2, 1)"


def norm_of(network):
    return sum(float(p.detach().double().pow(2).sum()) for p in network.parameters())


def check_network_problem(c, ctx):
    kw = {}
    if c["actors"]:
        kw["num_actors"] = c["actors"]
        if c["split"]:
            kw[c["split"][0]] = c["split"][1]
    lo, hi = c["bounds"], c["bounds"] + 0.5
    kind = c["kind"]
    if c["bounded"] and kind != "vecgym":
        kw["initial_bounds"] = (lo, hi) if c["form"] else [torch.full((3,), lo), torch.full((3,), hi)]
    else:
        lo, hi = -1e-5, 1e-5
    edt = torch.float32
    q = 0
    senses = ["max"]
    if kind == "ne":
        senses = ["min"]
        if c["edt"]:
            edt = DT[c["edt"]]
            kw["eval_dtype"] = c["edt"] if c["form"] else edt
        if c["seeded"]:
            kw["seed"] = c["seed"]
        p = NotingNEProblem("min", NETWORK, norm_of, **kw)
        if c["seeded"] and not c["actors"]:
            same(p.generate_values(3), NEProblem("min", NETWORK, norm_of, **kw).generate_values(3), "values generated with the same seed")
    elif kind == "supervised":
        senses = ["min"]
        X = torch.arange(8.0).reshape(4, 2)
        p = NotingSupervisedNE(torch.utils.data.TensorDataset(X, X[:, :1]), NETWORK, torch.nn.MSELoss(), minibatch_size=2, **kw)
    elif kind == "gym":
        p = NotingGymNE(NAME, NETWORK, env_config=dict(obs=2, act=1, seed=1), **kw)
    else:
        p = NotingVecGymNE(NAME, NETWORK, env_config=dict(obs=2, act=1, seed=1), **kw)
    eq(p.senses, senses, "senses")
    eq(p.solution_length, 3, "solution length")
    eq(p.eval_data_length, q, "length of the additional data")
    require(p.dtype == torch.float32, lambda: f"dtype {p.dtype}")
    require(p.eval_dtype == edt, lambda: f"fitness dtype {p.eval_dtype}, declared {edt}")
    require(p.lower_bounds is None and p.upper_bounds is None, "strict bounds which were not declared")
    b = p.generate_batch(c["n"])
    v = plain(b.values)
    require(bool(((v >= lo - 1e-9) & (v <= hi + 1e-9)).all()), lambda: f"generated {show(v)}, declared initial bounds {lo}, {hi}")
    if v.numel() >= 6:
        require(float(v.max() - v.min()) > 0, lambda: f"all generated values are equal: {show(v)}")
    del PIECES[:]
    try:
        p.evaluate(b)
    finally:
        if c["actors"]:
            p.kill_actors()
    n = c["n"]
    if not c["actors"]:
        want = [n]
    else:
        k = c["actors"]
        if c["split"] and c["split"][0] == "subbatch_size":
            k = -(-n // c["split"][1])
            want = [c["split"][1]] * (n // c["split"][1]) + ([n % c["split"][1]] if n % c["split"][1] else [])
        else:
            k = c["split"][1] if c["split"] else c["actors"]
            want = [n // k + (1 if i < n % k else 0) for i in range(k)]
    eq(sorted(x for x in PIECES if x), sorted(x for x in want if x), "sizes of the pieces evaluated")
    e = plain(b.evals)
    require(e.dtype == edt and tuple(e.shape) == (n, 1) and bool(torch.isfinite(e).all()), lambda: f"fitnesses {show(e)}")
    if kind == "ne":
        same(e[:, 0].double(), v.double().pow(2).sum(-1), "fitnesses", rtol=1e-2, atol=1e-3)
    ctx.hit(kind, "split" if c["actors"] and c["split"] else None)


network_cases = with_fields(
    kind=st.sampled_from(["ne", "supervised", "gym", "vecgym"]),
    n=st.integers(1, 9),
    actors=st.sampled_from([0, 2, 2, 3]),
    split=st.sampled_from([None, ["num_subbatches", 3], ["num_subbatches", 5], ["subbatch_size", 1], ["subbatch_size", 2], ["subbatch_size", 3]]),
    bounded=st.booleans(),
    bounds=st.sampled_from([-0.5, 0.0, 1.0, -2.0]),
    form=st.booleans(),
    edt=st.sampled_from([None, "float64", "float16", "float32"]),
    seeded=st.booleans(),
    seed=seeds,
)

FACETS = [
    Facet("declared settings", declaration(), check_valid, quick=260, thorough=5000, rule="several objectives, strict bounds or objects"),
    Facet("contradictory declarations", declaration(), check_wrong, quick=260, thorough=4000, rule="the contradiction applies to the declaration"),
    Facet("requirements of algorithms", algo_case(), check_algo, quick=60, thorough=300, rule="any"),
    Facet("problems for networks", network_cases, check_network_problem, needs_ray=True, quick=70, thorough=900, rule="any"),
]
