"""C19: clones and pickled copies are equal to and independent from the original."""

import copy
import pickle
from collections import OrderedDict, defaultdict, namedtuple

import numpy as np
import torch
from hypothesis import strategies as st

from evotorch import Problem, SolutionBatch
from evotorch.tools import ObjectArray, ReadOnlyTensor, as_immutable, as_read_only_tensor
from evotorch.tools.cloning import deep_clone
from evotorch.tools.immutable import ImmutableDict, ImmutableList, ImmutableSet

from .c09 import KINDS as DISTS
from .c18 import bits, build as build_tree, change, freeze
from .common import DT, eq, must_raise, plain, rand_grid, require, same, seeds, senses, with_fields
from .searchers import CENTERED, MULTI, SINGLE, make_problem, make_searcher
from harness.core import Facet

QUICK_FACTOR = 5
TECHNIQUE = "property-based testing: generated object graphs with shared and cyclic references, and generated histories of problems and batches; the copy's fingerprint (content, types and identity structure) must equal the original's, and stay so when every part of the other one is changed"
ASSUMPTIONS = ["the copies are made of objects built from the supported types; cycles which pass through a tuple are not generated"]

Pair = namedtuple("Pair", ["first", "second"])
F64 = torch.float64


class Custom:
    """An object of a kind unknown to the library"""

    def __init__(self):
        self.parts = []


# -- object graphs ----------------------------------------------------------------------------------------------------

LEAF = ["atom", "tensor", "view", "rotensor", "array", "roarray", "set", "bytes", "immutable", "objects"]
HOLDER = ["list", "dict", "odict", "ddict", "nparray"]
FIXED = ["tuple", "pair"]


@st.composite
def graph_case(draw):
    n = draw(st.integers(1, 9))
    nodes = []
    for i in range(n):
        kind = draw(st.sampled_from(LEAF + HOLDER * 2 + FIXED + ["custom"] if i else LEAF))
        refs = draw(st.lists(st.integers(0, i - 1), max_size=4)) if i and kind not in LEAF else []
        nodes.append({"kind": kind, "v": draw(st.integers(0, 40)), "refs": refs})
    return {
        "nodes": nodes,
        "back": draw(st.lists(st.tuples(st.integers(0, n - 1), st.integers(0, n - 1)).map(list), max_size=4)),
        "how": draw(st.sampled_from(["deep_clone", "deep_clone", "fail", "return", "within"])),
        "change": draw(st.sampled_from(["copy", "original"])),
    }


def leaf(node):
    v, kind = node["v"], node["kind"]
    if kind == "atom":
        return [None, True, 3, -2.5, "text", "", 2**70, 1j, Ellipsis, np.float32(0.5), np.int64(3)][v % 11]
    if kind == "tensor":
        return rand_grid(v, [(), (0,), (3,), (2, 2)][v % 4], dtype=[torch.float32, torch.int64, torch.bool][v % 3])
    if kind == "view":
        return rand_grid(v, (4, 3))[v % 2 :: 2, 1:]
    if kind == "rotensor":
        base = rand_grid(v, (3,))
        return as_read_only_tensor(base) if v % 2 else [base, as_read_only_tensor(base)]
    if kind == "array":
        return rand_grid(v, (2, v % 3), dtype=F64).numpy().copy()
    if kind == "roarray":
        a = rand_grid(v, (3,), dtype=F64).numpy().copy()
        a.flags.writeable = False
        return a
    if kind == "set":
        return {v, "x"}
    if kind == "bytes":
        return bytearray([v, 1]) if v % 2 else bytes([v])
    if kind == "immutable":
        return as_immutable([{"a": [v], "t": torch.ones(2)}, {1, 2}, np.arange(2.0)][: v % 3 + 1] if v % 2 else {"k": [v, {"z": (1, 2)}]})
    if kind == "objects":
        o = ObjectArray(3)
        o[0], o[1] = [v], {"k": torch.full((2,), float(v))}
        return [o, [o, o.get_read_only_view()], o.get_read_only_view()][v % 3]
    raise AssertionError(kind)


def build_graph(case):
    objs = []
    holders = set()
    refs = [list(n["refs"]) for n in case["nodes"]]
    for i, node in enumerate(case["nodes"]):
        kind = node["kind"]
        parts = [objs[r] for r in refs[i]]
        if kind in LEAF:
            x = leaf(node)
        elif kind == "list":
            x = parts
        elif kind in ("dict", "odict", "ddict"):
            x = {"dict": dict, "odict": OrderedDict, "ddict": lambda: defaultdict(list)}[kind]()
            for j, p in enumerate(parts):
                x[("t", j) if j == 2 else f"k{j}" if j % 2 else j] = p
        elif kind == "nparray":
            x = np.empty(len(parts) + 1, dtype=object)
            for j, p in enumerate(parts):
                x[j] = p
        elif kind == "tuple":
            x = tuple(parts)
        elif kind == "pair":
            x = Pair((parts + [None, None])[0], (parts + [None, None])[1])
        else:
            x = Custom()
            x.parts.extend(parts)
        objs.append(x)
        if kind in HOLDER or kind == "custom":
            holders.add(i)

    def reach(a):
        seen, todo = set(), [a]
        while todo:
            k = todo.pop()
            if k not in seen:
                seen.add(k)
                todo.extend(refs[k])
        return seen

    for a, b in case["back"]:
        if a not in holders or case["nodes"][a]["kind"] == "custom":
            continue
        between = {k for k in reach(b) if a in reach(k)}
        if not between <= {i for i in holders if case["nodes"][i]["kind"] != "custom"}:
            continue
        if any(n["kind"] == "custom" for n in case["nodes"]) and any(case["nodes"][k]["kind"] == "nparray" for k in between):
            continue  # (copy.deepcopy cannot copy an array which contains itself)
        refs[a].append(b)
        x = objs[a]
        if isinstance(x, list):
            x.append(objs[b])
        elif isinstance(x, dict):
            x[f"back{b}"] = objs[b]
        else:
            x[len(x) - 1] = objs[b]
    for x, node in zip(objs, case["nodes"]):
        if node["kind"] == "nparray" and node["v"] % 4 == 0:
            x.flags.writeable = False
    return objs[-1] if case["nodes"][-1]["kind"] not in LEAF else list(objs)


def fingerprint_of(root, flags=True):
    """Content, types and identity structure of an object graph."""
    number, out = {}, []

    def go(x):
        if x is None or isinstance(x, (bool, int, float, complex, str, bytes)) or x is Ellipsis or isinstance(x, np.generic):
            return ("atom", type(x).__name__, repr(x))
        if id(x) in number:
            return ("ref", number[id(x)])
        i = number[id(x)] = len(out)
        out.append(None)
        kind = type(x).__name__
        if isinstance(x, torch.Tensor):
            body = (str(x.dtype), tuple(x.shape), bits(x))
        elif isinstance(x, np.ndarray) and x.dtype != np.dtype(object):
            body = (str(x.dtype), x.shape, x.tobytes(), flags and x.flags.writeable)
        elif isinstance(x, np.ndarray):
            body = (x.shape, flags and x.flags.writeable, tuple(go(v) for v in x.flat))
        elif isinstance(x, bytearray):
            body = bytes(x)
        elif isinstance(x, (dict, ImmutableDict)):
            body = tuple((repr(k), go(x[k])) for k in list(x)) + (getattr(x, "default_factory", None),)
        elif isinstance(x, (set, ImmutableSet)):
            body = tuple(sorted((type(v).__name__, repr(v)) for v in x))
        elif isinstance(x, ObjectArray):
            body = (x.is_read_only, tuple(go(v) for v in x))
        elif isinstance(x, (list, tuple, ImmutableList)):
            body = tuple(go(v) for v in x)
        elif isinstance(x, Custom):
            body = go(x.parts)
        else:
            raise AssertionError(kind)
        out[i] = (kind, body)
        return ("ref", i)

    top = go(root)
    return top, tuple(out)


def mutable_parts(root):
    seen, todo, out = set(), [root], []
    while todo:
        x = todo.pop()
        if id(x) in seen:
            continue
        seen.add(id(x))
        if isinstance(x, (dict, ImmutableDict)):
            todo.extend(x[k] for k in x)
        elif isinstance(x, (list, tuple, ImmutableList, ObjectArray)):
            todo.extend(x)
        elif isinstance(x, np.ndarray) and x.dtype == np.dtype(object):
            todo.extend(x.flat)
        elif isinstance(x, Custom):
            todo.append(x.parts)
        if isinstance(x, ReadOnlyTensor) or (isinstance(x, np.ndarray) and not x.flags.writeable) or (isinstance(x, ObjectArray) and x.is_read_only):
            continue
        if isinstance(x, (torch.Tensor, np.ndarray, dict, list, set, bytearray, ObjectArray)):
            out.append(x)
    return out


def change_everything(root):
    for x in mutable_parts(root):
        if isinstance(x, bytearray):
            x.append(7)
        else:
            change(x)


def check_graph(case, ctx):
    x = build_graph(case)
    how = case["how"]
    custom = any(isinstance(p, Custom) for p in all_objects(x))

    def fingerprint(z):
        return fingerprint_of(z, not custom)  # (copy.deepcopy does not keep arrays read-only)

    before = fingerprint(x)
    if how == "fail":
        if custom:
            must_raise(lambda: deep_clone(x, otherwise_fail=True), "deep_clone(otherwise_fail=True) with an object of unknown type", TypeError)
            ctx.hit("rejected")
            return
        y = deep_clone(x, otherwise_fail=True)
    elif how == "return":
        y = deep_clone(x, otherwise_return=True)
    elif how == "within":
        # cloning several things together keeps what they share
        both = deep_clone([x, {"same": x}], otherwise_deepcopy=True)
        y = both[0]
        require(both[1]["same"] is y, "a shared object was cloned twice")
    else:
        y = deep_clone(x, otherwise_deepcopy=True)
    require((how == "return" and custom) or fingerprint(y) == before, lambda: f"clone of {x!r} is {y!r}")
    require(fingerprint(x) == before, "cloning changed the original")
    if how == "return" and custom:
        olds = {id(p) for p in all_objects(x) if isinstance(p, Custom)}
        news = {id(p) for p in all_objects(y) if isinstance(p, Custom)}
        require(news <= olds, "deep_clone(otherwise_return=True) copied an object of unknown type")
        ctx.hit("returned")
        return
    mine = {id(p) for p in mutable_parts(x)}
    for p in mutable_parts(y):
        require(id(p) not in mine, lambda: f"the clone shares {p!r} with the original")
    if case["change"] == "copy":
        change_everything(y)
        require(fingerprint(x) == before, lambda: f"changing the clone changed the original into {x!r}")
    else:
        change_everything(x)
        require(fingerprint(y) == before, lambda: f"changing the original changed the clone into {y!r}")
    shared = before[1] and str(before).count("'ref'") > len(before[1])
    if len(mine) >= 2:
        ctx.hit("shared or cyclic" if shared else "tree")
    ctx.label("custom" if custom else "known types")


def all_objects(root):
    seen, todo = {}, [root]
    while todo:
        x = todo.pop()
        if id(x) in seen:
            continue
        seen[id(x)] = x
        if isinstance(x, dict):
            todo.extend(x.values())
        elif isinstance(x, (list, tuple)):
            todo.extend(x)
        elif isinstance(x, np.ndarray) and x.dtype == np.dtype(object):
            todo.extend(x.flat)
    return list(seen.values())


# -- copies of the library's objects ----------------------------------------------------------------------------------

HOW = ["clone", "copy", "deepcopy", "pickle", "deep_clone", "joint"]


def duplicate(x, how):
    if how == "clone":
        return x.clone()
    if how == "copy":
        return copy.copy(x)
    if how == "deepcopy":
        return copy.deepcopy(x)
    if how == "pickle":
        return pickle.loads(pickle.dumps(x))
    if how == "deep_clone":
        return deep_clone(x, otherwise_fail=True)
    a, b = deep_clone((x, [x]), otherwise_deepcopy=True)
    require(b[0] is a, "an object shared by two containers was cloned twice")
    return a


def values_of(batch):
    v = batch.values
    return [freeze(i) for i in v] if isinstance(v, ObjectArray) else bits(v)


def batch_print(b):
    return (len(b), values_of(b), tuple(b.evals.shape), str(b.evals.dtype), bits(b.evals), str(b.dtype), b.solution_length if b.dtype is not object else None)


def sol_print(s):
    v = s.values
    return (freeze(v) if not isinstance(v, torch.Tensor) else bits(v), bits(s.evals))


def status_print(status):
    out = {}
    for k in sorted(status.keys()):
        v = status[k]
        if isinstance(v, (list, tuple)):
            out[k] = [sol_print(i) if hasattr(i, "evals") else repr(i) for i in v]
        elif hasattr(v, "evals"):
            out[k] = sol_print(v)
        elif isinstance(v, torch.Tensor):
            out[k] = bits(v)
        else:
            out[k] = repr(v)
    return out


class Sum:
    """A fitness for solutions which are vectors or lists"""

    def __init__(self, nobj, data):
        self.nobj, self.data = nobj, data

    def __call__(self, x):
        s = sum(float(i) for i in x)
        r = [s * (k + 1) - k * 3 for k in range(self.nobj)]
        out = torch.tensor(r) if self.nobj > 1 else torch.tensor(r[0])
        return (out, torch.tensor([s] * self.data)) if self.data else out


class ListProblem(Problem):
    def _fill(self, values):
        for i in range(len(values)):
            values[i] = [int(k) for k in torch.randint(0, 9, (i % 3 + 1,), generator=self.generator)]


class Counting(Problem):
    """A problem which refers to itself, by an attribute and by a hook"""

    def count_batches(self, batch):
        self.batches = getattr(self, "batches", 0) + 1
        return {"batches": self.batches}


class BoolProblem(Problem):
    def _fill(self, values):
        values[...] = torch.randint(0, 2, values.shape, generator=self.generator).bool()


def seen_hook(batch):
    return None


def status_hook(batch):
    return {"mean": float(plain(batch.evals[:, 0]).mean())}


@st.composite
def problem_case(draw):
    return {
        "senses": draw(st.lists(senses, min_size=1, max_size=2)),
        "dtype": draw(st.sampled_from(["float32", "float64", "int64", "object", "bool"])),
        "L": draw(st.integers(1, 4)),
        "data": draw(st.integers(0, 2)),
        "seed": draw(seeds),
        "seeded": draw(st.booleans()),
        "bounds": draw(st.booleans()),
        "ops": draw(st.lists(st.sampled_from(["evaluate", "evaluate one", "generate", "evaluate partly"]), max_size=4)),
        "hooks": draw(st.booleans()),
        "how": draw(st.sampled_from(HOW)),
        "then": draw(st.sampled_from(["copy", "original"])),
        "n": draw(st.integers(1, 6)),
        "part": draw(st.sampled_from(["whole", "slice", "stepped", "picked", "one"])),
        "stats": draw(st.booleans()),
    }


def make(case):
    kw = {}
    if case["seeded"]:
        kw["seed"] = case["seed"]
    if case["data"]:
        kw["eval_data_length"] = case["data"]
    ss = case["senses"] if len(case["senses"]) > 1 else case["senses"][0]
    f = Sum(len(case["senses"]), case["data"])
    kw["store_solution_stats"] = case["stats"]
    if case["dtype"] == "object":
        return ListProblem(ss, f, dtype=object, **kw)
    if case["dtype"] == "bool":
        return BoolProblem(ss, f, dtype=torch.bool, solution_length=case["L"], **kw)
    lo = torch.arange(case["L"]) - 2
    key = "bounds" if case["bounds"] else "initial_bounds"
    kw[key] = (lo, lo + 5)
    return Counting(ss, f, dtype=DT[case["dtype"]], solution_length=case["L"], **kw)


def settings(p):
    b = lambda x: None if x is None else bits(x)  # noqa: E731
    return (
        tuple(p.senses), str(p.dtype), str(p.eval_dtype), str(p.device), p.eval_data_length, p.stores_solution_stats,
        p.solution_length if p.dtype is not object else None,
        b(p.lower_bounds), b(p.upper_bounds), b(p.initial_lower_bounds), b(p.initial_upper_bounds),
        len(p.before_eval_hook), len(p.after_eval_hook), p.num_actors, p.is_main,
    )  # fmt: skip


def check_problem(case, ctx):
    p = make(case)
    if case["hooks"]:
        p.before_eval_hook.append(seen_hook)
        p.after_eval_hook.append(status_hook)
    if isinstance(p, Counting):
        p.after_eval_hook.append(p.count_batches)
        p.myself = [p]
    torch.manual_seed(case["seed"])
    batch = p.generate_batch(case["n"])
    for op in case["ops"]:
        if op == "evaluate":
            p.evaluate(batch)
        elif op == "evaluate one":
            p.evaluate(batch[0])
        elif op == "evaluate partly":
            p.evaluate(batch[: max(1, len(batch) // 2)])
        else:
            p.evaluate(p.generate_batch(2))
    how = case["how"]
    # the problem
    was, status = settings(p), status_print(p.status)
    c = duplicate(p, how)
    eq(type(c), type(p), f"type of the {how}")
    eq(settings(c), was, f"settings of the {how}")
    eq(status_print(c.status), status, f"status of the {how}")
    if isinstance(p, Counting):
        require(c.myself[0] is c, lambda: f"the {how} of a problem which refers to itself refers to another problem")
        require(c.after_eval_hook[-1].__self__ is c, lambda: f"the hook of the {how} of a problem belongs to another problem")
    probe = SolutionBatch(p, popsize=2, empty=True)
    if case["dtype"] == "object":
        probe.set_values([[1, 2], [3]])
    else:
        probe.set_values(torch.ones(2, case["L"]).to(p.dtype))
    probe2 = probe.clone()
    other = copy.deepcopy(c)
    if case["seeded"]:
        a, b = p.generate_batch(3), c.generate_batch(3)
        eq(values_of(b), values_of(a), f"solutions generated by the seeded problem and by its {how}")
    was_other = (settings(other), status_print(other.status))
    first, second = (c, p) if case["then"] == "copy" else (p, c)
    first.evaluate(probe)
    eq(status_print(second.status), status, f"status after evaluating with the {'copy' if first is c else 'original'}")
    second.evaluate(probe2)
    eq(bits(probe2.evals), bits(probe.evals), f"evaluation by the problem and by its {how}")
    eq(status_print(second.status), status_print(first.status), "status after evaluating the same solutions in both")
    first.before_eval_hook.append(seen_hook)
    eq(len(second.before_eval_hook), 1 if case["hooks"] else 0, "number of hooks of the other one after adding a hook")
    eq((settings(other), status_print(other.status)), was_other, "a third copy, after using the others")
    # batches and solutions
    part = {"whole": batch, "slice": batch[len(batch) // 2 :], "stepped": batch[::2], "picked": batch[[0, len(batch) - 1]], "one": batch[len(batch) - 1]}[case["part"]]
    look = sol_print if case["part"] == "one" else batch_print
    was = look(part)
    d = duplicate(part, how)
    eq(type(d), type(part), f"type of the {how}")
    eq(look(d), was, f"{how} of a {case['part']} batch")
    first, second = (d, part) if case["then"] == "copy" else (part, d)
    spoil(first, case)
    eq(look(second), was, f"batch after changing the {'copy' if first is d else 'original'}")
    # a problem and what belongs to it, copied together
    if how in ("deep_clone", "joint", "deepcopy"):
        both = [p, part, {"again": part}]
        q = copy.deepcopy(both) if how == "deepcopy" else deep_clone(both, otherwise_deepcopy=True)
        require(q[0] is not p and q[1] is not part, "the copy is the original itself")
        require(q[2]["again"] is q[1], "a shared batch was copied twice")
        eq((settings(q[0]), look(q[1])), (settings(p), look(part)), "a problem and a batch, copied together")
    ctx.label(how, case["dtype"], case["part"])
    if case["ops"]:
        ctx.hit("used")


def spoil(x, case):
    if case["dtype"] == "object":
        if case["part"] == "one":
            x.set_values([77])
        else:
            x.set_values([[77]] * len(x))
    elif case["dtype"] == "bool":
        v = x.access_values()
        v ^= True
    else:
        v = x.access_values()
        v += 3
    x.access_evals()[...] = 55.0


# -- size of pickled views --------------------------------------------------------------------------------------------


@st.composite
def size_case(draw):
    return {"seed": draw(seeds), "k": draw(st.integers(1, 3)), "at": draw(st.integers(0, 1900)), "what": draw(st.sampled_from(["batch", "solution", "sliced twice"])), "dtype": draw(st.sampled_from(["float32", "float64"]))}


def check_size(case, ctx):
    p = Problem("min", Sum(1, 0), solution_length=5, initial_bounds=(-1, 1), dtype=DT[case["dtype"]], seed=case["seed"])
    big = p.generate_batch(2000)
    small = p.generate_batch(case["k"])
    if case["what"] == "solution":
        view, alone = big[case["at"]], small[0]
    elif case["what"] == "batch":
        view, alone = big[case["at"] : case["at"] + case["k"]], small
    else:
        view, alone = big[case["at"] :][: case["k"]], small
    n, m = len(pickle.dumps(view)), len(pickle.dumps(alone))
    require(n <= 2 * m + 500, lambda: f"pickling a view of {case['k']} of 2000 solutions took {n} bytes; a batch of that many takes {m}")
    back = pickle.loads(pickle.dumps(view))
    (eq(sol_print(back), sol_print(view), "unpickled view") if case["what"] == "solution" else eq(batch_print(back), batch_print(view), "unpickled view"))
    ctx.hit(case["what"])


# -- distributions ----------------------------------------------------------------------------------------------------


@st.composite
def dist_case(draw):
    return {
        "kind": draw(st.sampled_from(sorted(DISTS))),
        "L": draw(st.integers(1, 4)),
        "seed": draw(seeds),
        "dtype": draw(st.sampled_from(["float32", "float64"])),
        "how": draw(st.sampled_from(HOW)),
        "then": draw(st.sampled_from(["copy", "original"])),
    }


def check_dist(case, ctx):
    L, dt = case["L"], DT[case["dtype"]]
    mu = rand_grid(case["seed"], (L,), dtype=dt)
    sigma = rand_grid(case["seed"] + 1, (L,), 1, 8, dtype=dt)
    if case["kind"] == "full":
        sigma = torch.diag(sigma)
    d = DISTS[case["kind"]]({"mu": mu.clone(), "sigma": sigma.clone()})
    c = duplicate(d, case["how"])
    eq(type(c), type(d), "type of the copy")
    require(c is not d, "the copy is the original itself")

    def look(x):
        return tuple((k, bits(v) if isinstance(v, torch.Tensor) else repr(v)) for k, v in sorted(x.parameters.items())) + (str(x.dtype), str(x.device), x.solution_length)

    was = look(d)
    eq(look(c), was, f"{case['how']} of a distribution")
    a = d.sample(4, generator=torch.Generator().manual_seed(case["seed"]))
    b = c.sample(4, generator=torch.Generator().manual_seed(case["seed"]))
    eq(bits(b), bits(a), "samples of the copy")
    first, second = (c, d) if case["then"] == "copy" else (d, c)
    first.mu.as_subclass(torch.Tensor).add_(1)
    first.sigma.as_subclass(torch.Tensor).mul_(2)
    eq(look(second), was, "distribution after changing the other one")
    m = d.modified_copy(mu=mu + 3)
    same(m.mu, mu + 3, "mu of a modified copy")
    eq(look(second), was, "distribution after making a modified copy")
    ctx.hit(case["kind"])


# -- problems in a search ---------------------------------------------------------------------------------------------


@st.composite
def run_case(draw):
    multi = draw(st.integers(0, 3)) == 0
    return {
        "kind": draw(st.sampled_from(MULTI if multi else SINGLE)),
        "senses": draw(st.lists(senses, min_size=2, max_size=2)) if multi else [draw(senses)],
        "seed": draw(seeds),
        "n": draw(st.integers(4, 7)),
        "before": draw(st.integers(0, 3)),
        "after": draw(st.integers(1, 2)),
        "how": draw(st.sampled_from(HOW)),
    }


def check_run(case, ctx):
    p, fit = make_problem(case["kind"], case["senses"], 2, case["seed"], problem_seed=case["seed"])
    s = make_searcher(case["kind"], p, case["n"])
    for _ in range(case["before"]):
        s.step()
    was, status = settings(p), status_print(p.status)
    pop = s.population if case["before"] else None
    keep = None if pop is None else batch_print(pop)
    c = duplicate(p, case["how"])
    cpop = None if pop is None else duplicate(pop, case["how"])
    eq(settings(c), was, "settings of the copy")
    eq(status_print(c.status), status, "status of the copy")
    for _ in range(case["after"]):
        s.step()
    eq(status_print(c.status), status, "status of the copy after the search went on")
    if keep is not None:
        eq(batch_print(cpop), keep, "copied population after the search went on")
    status = status_print(p.status)
    center = status_print(s.status)
    # the copy is a working problem with a life of its own
    t = make_searcher(case["kind"], c, case["n"])
    t.step()
    eq(status_print(p.status), status, "status of the original after searching with the copy")
    eq(status_print(s.status), center, "status of the search after searching with the copy")
    ctx.label(case["kind"])
    if case["before"]:
        ctx.hit("during a run")


FACETS = [
    Facet("object graphs", graph_case(), check_graph, quick=500, thorough=10000, rule="the graph has at least two mutable parts, or an object of unknown type and the matching policy"),
    Facet("problems and batches", problem_case(), check_problem, quick=250, thorough=4000, rule="the problem was used before it was copied"),
    Facet("size of pickled views", size_case(), check_size, quick=25, thorough=300, rule="any"),
    Facet("distributions", dist_case(), check_dist, quick=80, thorough=1500, rule="any"),
    Facet("copies during a run", run_case(), check_run, quick=80, thorough=1500, rule="at least one step before the copy"),
]
