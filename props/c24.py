"""C24: tensor making, conversion and clipping tools."""

import math
import random
from collections import OrderedDict, namedtuple
from collections.abc import Mapping

import numpy as np
import torch
from hypothesis import strategies as st

from evotorch import Problem, tools
from evotorch.tools import ObjectArray, misc
from evotorch.tools.tensormaker import TensorMakerMixin

from .common import DT, eq, must_raise, plain, rand_grid, require, same, seeds, show
from harness.core import Facet

QUICK_FACTOR = 5
TECHNIQUE = "property-based testing: generated sizes, data types, values, bounds and ways of calling; results compared with directly written expectations (shapes, types, contents, identity of outputs)"
ASSUMPTIONS = ["bounds do not cross each other, and values to be modified are within them", "data types are those known to both PyTorch and numpy"]

NAMES = ["float32", "float64", "float16", "int64", "int32", "int16", "uint8", "bool"]
FLOATS = ["float32", "float64", "float16"]
NP = {n: getattr(np, "bool_" if n == "bool" else n) for n in NAMES}
PY = {"float64": float, "int64": int, "bool": bool}


def spelled(name, how):
    """The data type `name` in one of its spellings."""
    if how == "torch":
        return getattr(torch, name)
    if how == "text":
        return name
    if how == "numpy":
        return np.dtype(NP[name])
    if how == "numpy class":
        return NP[name]
    return PY.get(name, name)


HOW = ["torch", "text", "numpy", "numpy class", "python"]


class Maker(TensorMakerMixin):
    def __init__(self, dtype, eval_dtype, length, seed):
        self.dtype, self.eval_dtype, self.solution_length = dtype, eval_dtype, length
        self.device = torch.device("cpu")
        self.generator = torch.Generator().manual_seed(seed)


# ---------------------------------------------------------------- making


@st.composite
def make_case(draw):
    return {
        "kind": draw(st.sampled_from(["zeros", "ones", "nan", "I", "empty", "tensor", "uniform", "gaussian", "randint"])),
        "via": draw(st.sampled_from(["function", "problem", "maker"])),
        "form": draw(st.sampled_from(["ints", "tuple", "list", "size", "scalar", "num_solutions", "out"])),
        "shape": draw(st.lists(st.integers(0, 3), min_size=1, max_size=3)),
        "dtype": draw(st.one_of(st.none(), st.sampled_from(NAMES))),
        "how": draw(st.sampled_from(HOW)),
        "own": draw(st.sampled_from(["float32", "float64", "int64"])),
        "own_eval": draw(st.sampled_from(["float32", "float64"])),
        "use_eval": draw(st.booleans()),
        "length": draw(st.integers(1, 4)),
        "read_only": draw(st.booleans()),
        "seed": draw(seeds),
        "zero_dim_out": draw(st.booleans()),
    }


def source(case):
    own, ev = getattr(torch, case["own"]), getattr(torch, case["own_eval"])
    if case["via"] == "problem":
        return Problem("min", lambda x: x.sum(), solution_length=case["length"], initial_bounds=(-1, 1), dtype=own, eval_dtype=ev, seed=case["seed"])
    return Maker(own, ev, case["length"], case["seed"])


def check_make(case, ctx):
    kind, via, form = case["kind"], case["via"], case["form"]
    src = None if via == "function" else source(case)
    name = "make_" + kind
    fn = getattr(tools if src is None else src, name)
    shape = list(case["shape"])
    dname = case["dtype"]
    if kind in ("nan", "gaussian") and dname not in FLOATS + [None]:
        dname = "float32"
    if kind == "nan" and dname is None and via != "function" and case["own"] == "int64" and not case["use_eval"]:
        dname = "float64"
    if kind == "gaussian" and dname is None and via != "function" and case["own"] == "int64" and not case["use_eval"]:
        dname = "float64"
    if kind == "randint" and dname == "bool":
        dname = None
    kw = {}
    want_dtype = None
    if form == "out" and kind not in ("tensor", "empty"):
        pass
    elif dname is not None:
        kw["dtype"] = spelled(dname, case["how"])
        want_dtype = getattr(torch, dname)
    elif src is not None and case["use_eval"]:
        kw["use_eval_dtype"] = True
        want_dtype = src.eval_dtype
    elif kind == "randint":
        want_dtype = torch.int64
    elif src is not None:
        want_dtype = src.dtype
    else:
        want_dtype = torch.float32
    extra = {}
    if kind == "randint":
        extra["n"] = 5
    # the size
    args = []
    out = None
    if kind == "tensor":
        data = rand_grid(case["seed"], shape, lo=0, hi=3, div=1).tolist()
        if dname is None and src is None:
            want_dtype = torch.tensor(data).dtype
        got = fn(data, **kw, read_only=case["read_only"])
        eq(tuple(got.shape), tuple(torch.tensor(data).shape), "shape of make_tensor")
        eq(got.dtype, want_dtype, "data type of make_tensor")
        same(got.to(torch.float64) if not case["read_only"] else plain(got).to(torch.float64), torch.tensor(data, dtype=want_dtype).to(torch.float64), "content")
        eq(isinstance(got, tools.ReadOnlyTensor), case["read_only"], "is it read-only")
        ctx.hit("make_tensor")
        return
    if kind == "I":
        n = shape[0]
        if form == "tuple":
            args, shape = [(n,)], [n, n]
        elif form == "num_solutions" and src is not None:
            shape = [case["length"]] * 2
        elif form == "out":
            shape = [n, n]
        else:
            args, shape = [n], [n, n]
    elif form == "ints":
        args = shape
    elif form == "tuple":
        args = [tuple(shape)]
    elif form == "list":
        args = [shape]
    elif form == "size":
        args = [torch.Size(shape)]
    elif form == "scalar":
        args, shape = [()], []
    elif form == "num_solutions":
        if src is None:
            args = shape
        else:
            kw["num_solutions"] = shape[0]
            shape = [shape[0], case["length"]]
    if form == "out" and kind != "empty":
        if kind != "I" and case["zero_dim_out"]:
            shape = []
        odt = getattr(torch, dname or case["own_eval"])
        out = torch.full(shape, 1, dtype=odt)
        kw = {"out": out}
        want_dtype = odt
    elif form == "out":
        args = shape
    got = fn(*args, **kw, **extra)
    what = f"{name} ({via}, {form})"
    if out is not None:
        require(got is out, f"{what}: the result is not the given output")
    eq(tuple(got.shape), tuple(shape), f"{what}: shape")
    eq(got.dtype, want_dtype, f"{what}: data type")
    g = plain(got).to(torch.float64)
    if kind == "zeros":
        require((g == 0).all(), f"{what}: content {show(got)}")
    elif kind == "ones":
        require((g == 1).all(), f"{what}: content {show(got)}")
    elif kind == "nan":
        require(torch.isnan(g).all(), f"{what}: content {show(got)}")
    elif kind == "I":
        same(g, torch.eye(shape[0], dtype=torch.float64), f"{what}: content")
    elif kind == "uniform":
        require(((g >= 0) & (g <= 1)).all(), f"{what}: content {show(got)}")
    elif kind == "randint":
        require(((g >= 0) & (g < 5) & (g == g.round())).all(), f"{what}: content {show(got)}")
    elif kind == "gaussian":
        require(torch.isfinite(g).all(), f"{what}: content {show(got)}")
    if kind in ("uniform", "gaussian", "randint"):
        # the generator decides the values
        again = Maker(torch.float32, torch.float32, 3, case["seed"] + 5)
        rest = {k: v for k, v in kw.items() if k != "out"}
        res = []
        for g_ in (again, torch.Generator().manual_seed(case["seed"] + 5)):
            if out is not None:
                res.append(fn(*args, **rest, **extra, out=torch.zeros_like(out), generator=g_))
            else:
                res.append(fn(*args, **rest, **extra, generator=g_))
        same(res[0], res[1], f"{what}: values with equal generators")
    if out is None and "num_solutions" not in kw:
        far = fn(*args, **kw, **extra, device=["meta", torch.device("meta")][case["seed"] % 2])
        eq((far.device.type, tuple(far.shape), far.dtype), ("meta", tuple(shape), want_dtype), f"{what}: device, shape and data type on another device")
    # conflicting arguments
    if out is not None and src is None and kind in ("zeros", "ones", "nan"):
        must_raise(lambda: fn((), out=out), f"{name} with an empty size and an output", ValueError)
    if out is not None and src is None:
        must_raise(lambda: fn(out=out, device="cpu", **extra), f"{name} with a device and an output", ValueError)
    if kind == "I" and src is None:
        must_raise(lambda: fn(), "make_I without a size and an output", ValueError)
        must_raise(lambda: fn((2, 3)), "make_I with two sizes", ValueError)
        must_raise(lambda: fn(()), "make_I with an empty size", ValueError)
        if out is not None:
            must_raise(lambda: fn(3, out=out), "make_I with a size and an output", ValueError)
    if out is not None and shape and src is None and kind != "I":
        must_raise(lambda: fn(*shape, out=out, **extra), f"{name} with a size and an output", ValueError)
        must_raise(lambda: fn(out=out, dtype=torch.float32, **extra), f"{name} with a data type and an output", ValueError)
    if src is not None and kind != "I":
        must_raise(lambda: fn(2, num_solutions=3, **extra), f"{name} with a size and a number of solutions", ValueError)
        must_raise(lambda: fn(2, dtype="float32", use_eval_dtype=True, **extra), f"{name} with two data types", ValueError)
    ctx.hit(kind)
    ctx.label(form, via)


# ---------------------------------------------------------------- conversions

Pair = namedtuple("Pair", ["a", "b"])


@st.composite
def convert_case(draw):
    return {
        "what": draw(st.sampled_from(["dtype", "predicate", "vector", "as_tensor", "numpy_copy", "empty_like", "ensure", "cast", "objects"])),
        "dtype": draw(st.sampled_from(NAMES)),
        "other": draw(st.sampled_from(NAMES)),
        "how": draw(st.sampled_from(HOW)),
        "form": draw(st.sampled_from(["python", "numpy", "numpy0", "torch", "list", "tuple", "array1", "tensor1", "array2", "text", "none", "mixed"])),
        "shape": draw(st.lists(st.integers(1, 3), min_size=0, max_size=3)),
        "n": draw(st.integers(0, 4)),
        "flag": draw(st.booleans()),
        "pick": draw(st.integers(0, 5)),
        "seed": draw(seeds),
    }


def kind_of(name):
    return "bool" if name == "bool" else "float" if name.startswith("float") else "int"


def content(case, dtype=None, shape=None):
    name = case["dtype"] if dtype is None else dtype
    t = rand_grid(case["seed"], case["shape"] if shape is None else shape, lo=0, hi=4, div=1)
    return t.to(getattr(torch, name))


def check_convert(case, ctx):
    what, name, how, form = case["what"], case["dtype"], case["how"], case["form"]
    k = kind_of(name)
    if what == "dtype":
        d = spelled(name, how)
        eq(tools.to_torch_dtype(d), getattr(torch, name), f"to_torch_dtype({d!r})")
        eq(tools.to_numpy_dtype(d), np.dtype(NP[name]), f"to_numpy_dtype({d!r})")
        eq(tools.to_torch_dtype(tools.to_numpy_dtype(d)), getattr(torch, name), f"there and back of {d!r}")
        eq(tools.is_dtype_integer(d), k == "int", f"is_dtype_integer({d!r})")
        eq(tools.is_dtype_float(d), k == "float", f"is_dtype_float({d!r})")
        eq(tools.is_dtype_bool(d), k == "bool", f"is_dtype_bool({d!r})")
        eq(tools.is_dtype_real(d), k != "bool", f"is_dtype_real({d!r})")
        eq(tools.is_dtype_object(d), False, f"is_dtype_object({d!r})")
        for o in (object, "object", "O"):
            eq(tools.is_dtype_object(o), True, f"is_dtype_object({o!r})")
            eq(tools.to_numpy_dtype(o), np.dtype(object), f"to_numpy_dtype({o!r})")
            must_raise(lambda: tools.to_torch_dtype(o), f"to_torch_dtype({o!r})", TypeError)
        ctx.hit("dtype")
    elif what == "predicate":
        v = content(case, shape=[])
        x = {"python": v.item(), "numpy": NP[name](v.item()), "numpy0": v.numpy(), "torch": v, "text": "3", "none": None, "list": [v.item()], "tuple": (v.item(),), "array1": v.reshape(1).numpy(), "tensor1": v.reshape(1), "array2": v.reshape(1, 1).numpy(), "mixed": {"a": 1}}[form]
        scalar = form in ("python", "numpy", "numpy0", "torch")
        eq(tools.is_integer(x), scalar and k == "int", f"is_integer({x!r})")
        eq(tools.is_real(x), scalar and k != "bool", f"is_real({x!r})")
        eq(tools.is_bool(x), scalar and k == "bool", f"is_bool({x!r})")
        seq = form in ("list", "tuple", "array1", "tensor1", "array2", "mixed")
        eq(tools.is_sequence(x), seq, f"is_sequence({x!r})")
        ctx.hit("predicate " + form)
    elif what == "vector":
        v = content(case, shape=[case["n"]])
        x = {"list": v.tolist(), "tuple": tuple(v.tolist()), "array1": v.numpy(), "tensor1": v, "array2": v.reshape(1, -1).numpy(), "torch": torch.stack([v, v]), "mixed": v.tolist() + ["a"], "numpy": [NP[name](i) for i in v.tolist()], "numpy0": [i for i in v], "python": 3, "text": None, "none": None}[form]
        good = form in ("list", "tuple", "array1", "tensor1", "numpy", "numpy0")
        untyped = form in ("list", "tuple", "numpy", "numpy0") and case["n"] == 0
        eq(tools.is_integer_vector(x), good and (untyped or k == "int"), f"is_integer_vector({x!r})")
        eq(tools.is_real_vector(x), good and (untyped or k != "bool"), f"is_real_vector({x!r})")
        eq(tools.is_bool_vector(x), good and (untyped or k == "bool"), f"is_bool_vector({x!r})")
        ctx.hit("vector " + form)
    elif what == "as_tensor":
        v = content(case)
        x = {"list": v.tolist(), "torch": v, "tensor1": v, "numpy": v.numpy(), "array1": v.numpy()}.get(form, v.tolist())
        got = tools.as_tensor(x)
        same(got, torch.as_tensor(x), "as_tensor without a data type", dtype=True)
        if form in ("torch", "tensor1"):
            require(got is x, "as_tensor without a data type copied the tensor")
            require(tools.as_tensor(x, dtype=spelled(name, how)) is x, "as_tensor with the same data type copied the tensor")
            eq(tools.as_tensor(x, device="meta").device.type, "meta", "device")
        d = spelled(case["other"], how)
        got = tools.as_tensor(x, dtype=d)
        eq(got.dtype, getattr(torch, case["other"]), f"as_tensor(dtype={d!r})")
        same(got, v.to(getattr(torch, case["other"])), "content")
        p = Maker(getattr(torch, case["other"]), torch.float64, 3, 1)
        eq(p.as_tensor(x).dtype, p.dtype, "data type of a maker's as_tensor")
        eq(p.as_tensor(x, use_eval_dtype=True).dtype, torch.float64, "evaluation data type of a maker's as_tensor")
        ctx.hit("as_tensor")
    elif what == "numpy_copy":
        v = content(case)
        ro = case["flag"]
        src = {"list": v.tolist(), "tuple": tuple(v.tolist()) if v.ndim else v.tolist(), "numpy": v.numpy().copy(), "array1": v.numpy().copy()}.get(form)
        if src is None:
            src = tools.as_read_only_tensor(v.clone()) if ro else v.clone()
        d = spelled(case["other"], how) if case["pick"] % 2 else None
        got = tools.numpy_copy(src, dtype=d)
        require(isinstance(got, np.ndarray) and got.flags.writeable, "numpy_copy does not give a writable array")
        if d is not None:
            eq(got.dtype, np.dtype(NP[case["other"]]), f"numpy_copy(dtype={d!r})")
            same(torch.as_tensor(got), v.to(getattr(torch, case["other"])), "content")
        else:
            same(torch.as_tensor(got), torch.as_tensor(np.array(v.tolist())) if isinstance(src, (list, tuple)) else v, "content")
        before = v.clone()
        if got.size:
            got[...] = 1 - got if got.dtype != bool else ~got
            if isinstance(src, torch.Tensor):
                same(plain(src), before, "the source after changing its copy")
            elif isinstance(src, np.ndarray):
                same(torch.as_tensor(src), before, "the source after changing its copy")
        ctx.hit("numpy_copy")
    elif what == "empty_like":
        v = content(case)
        d = spelled(case["other"], how) if case["flag"] else None
        kw = {} if d is None else {"dtype": d}
        pick = case["pick"]
        want = list(v.shape)
        if pick in (1, 2):
            kw["shape"] = [(2, 5), (3,)][pick - 1]
            want = list(kw["shape"])
        elif pick == 3 and v.ndim:
            kw["length"] = case["n"]
            want[0] = case["n"]
        elif pick == 4:
            must_raise(lambda: tools.empty_tensor_like(v, shape=(2,), length=3), "shape and length", ValueError)
        got = tools.empty_tensor_like(v, **kw)
        eq(list(got.shape), want, "shape of empty_tensor_like")
        eq(got.dtype, v.dtype if d is None else getattr(torch, case["other"]), "data type of empty_tensor_like")
        if got.numel():
            require(tools.storage_ptr(got) != tools.storage_ptr(v), "empty_tensor_like shares the source's memory")
        ctx.hit("empty_tensor_like")
    elif what == "ensure":
        L = case["n"] + 1
        v = content(case, shape=[] if case["flag"] else [L])
        x = v if form in ("torch", "tensor1") else v.numpy() if form in ("numpy", "array1") else v.tolist()
        d = spelled(case["other"], how)
        got = tools.ensure_tensor_length_and_dtype(x, L, d)
        eq(tuple(got.shape), (L,), "shape")
        eq(got.dtype, getattr(torch, case["other"]), "data type")
        same(got, v.to(got.dtype).expand(L), "content")
        got = tools.ensure_tensor_length_and_dtype(x, L, d, allow_scalar=True)
        eq(tuple(got.shape), tuple(v.shape), "shape when scalars are allowed")
        p = Maker(getattr(torch, case["other"]), torch.float64, L, 1)
        same(p.ensure_tensor_length_and_dtype(x), v.to(p.dtype).expand(L), "by a maker", dtype=True)
        same(p.ensure_tensor_length_and_dtype(x, allow_scalar=True), v.to(p.dtype), "by a maker when scalars are allowed", dtype=True)
        same(p.ensure_tensor_length_and_dtype(x, use_eval_dtype=True), v.to(torch.float64).expand(L), "by a maker, for evaluation results", dtype=True)
        if v.ndim == 0:
            same(p.ensure_tensor_length_and_dtype(x, length=L + 2), v.to(p.dtype).expand(L + 2), "by a maker, with a length", dtype=True)
        else:
            must_raise(lambda: p.ensure_tensor_length_and_dtype(x, length=L + 2), "another length for a maker", ValueError)
        if not case["flag"]:
            must_raise(lambda: tools.ensure_tensor_length_and_dtype(x, L + 1, d, about="test"), "another length", ValueError)
            must_raise(lambda: tools.ensure_tensor_length_and_dtype([x, x] if isinstance(x, list) else content(case, shape=[1, L]), L, d), "two dimensions", ValueError)
        ctx.hit("ensure")
    elif what == "cast":
        v = content(case)
        w = content(case, shape=[2])
        inner = [v, "text", 3]
        tree = OrderedDict([("a", v), ("b", inner), ("c", (v, None, {"x": w})), ("d", Pair(w, 2.5)), ("e", inner), ("s", {1, 2})])
        d = spelled(case["other"], how)
        got = misc.cast_tensors_in_container(tree, dtype=d)
        od = getattr(torch, case["other"])
        cv, cw = v.to(od), w.to(od)
        same(got["a"], cv, "a", dtype=True)
        same(got["b"][0], cv, "b", dtype=True)
        require(got["b"][1:] == ["text", 3] and got["s"] == {1, 2}, "other values changed")
        require(isinstance(got["c"], tuple) and isinstance(got["d"], Pair), "kinds of containers changed")
        same(got["c"][2]["x"], cw, "c", dtype=True)
        same(got["d"].a, cw, "d", dtype=True)
        eq(got["d"].b, 2.5, "d")
        require(got["b"] is got["e"], "sharing within the container was lost")
        same(tree["a"], content(case), "the original", dtype=True)
        require(got is not tree and got["b"] is not inner, "the container itself was changed")
        eq(misc.dtype_of_container(tree), getattr(torch, name), "data type of the container")
        eq(misc.dtype_of_container(got), od, "data type of the new container")
        eq(misc.device_of_container(tree), torch.device("cpu"), "device of the container")
        eq(misc.dtype_of_container([1, "a", {"x": None}]), None, "data type of a container without tensors")
        if name != case["other"]:
            must_raise(lambda: misc.dtype_of_container([v, {"k": (cv,)}]), "different data types", ValueError)
        cyc = [v]
        cyc.append(cyc)
        g = misc.cast_tensors_in_container(cyc, dtype=d)
        require(g[1] is g and g[0].dtype == od, "a list containing itself")
        eq(misc.dtype_of_container(cyc), getattr(torch, name), "data type of a list containing itself")
        ctx.hit("containers")
    else:
        objs = [[1], "a", None, {"k": 2}, 3.5][: case["n"]]
        for o in (object, "object", "O"):
            a = tools.make_tensor(objs, dtype=o, read_only=case["flag"])
            require(isinstance(a, ObjectArray) and len(a) == len(objs), f"make_tensor(dtype={o!r})")
            eq([dict(x) if isinstance(x, Mapping) else list(x) if tools.is_sequence(x) else x for x in a], objs, "objects")
            eq(a.is_read_only, case["flag"], "read-only")
            b = tools.as_tensor(objs, dtype=o)
            require(isinstance(b, ObjectArray) and len(b) == len(objs) and tools.as_tensor(b) is b and tools.as_tensor(b, dtype=o) is b, f"as_tensor(dtype={o!r})")
            e = tools.make_empty(case["n"], dtype=o)
            require(isinstance(e, ObjectArray) and len(e) == case["n"] and all(x is None for x in e), f"make_empty(dtype={o!r})")
            eq(len(tools.make_empty((case["n"],), dtype=o)), case["n"], "make_empty with a tuple")
            must_raise(lambda: tools.make_empty(3, dtype=o, device="meta"), "objects on another device", ValueError)
            must_raise(lambda: tools.as_tensor(b, device="meta"), "objects to another device", ValueError)
            m = 4
            for kw, n in ((dict(shape=m), m), (dict(shape=(m,)), m), (dict(length=m), m), ({}, len(b)), (dict(length=2, dtype=o, device="cpu"), 2)):
                x = tools.empty_tensor_like(b, **kw)
                require(isinstance(x, ObjectArray) and len(x) == n, lambda: f"empty_tensor_like of objects with {kw}")
            must_raise(lambda: tools.empty_tensor_like(b, shape=(2, 2)), "two dimensions of objects", ValueError)
            must_raise(lambda: tools.empty_tensor_like(b, dtype="float32"), "numbers from objects", ValueError)
            c = tools.numpy_copy(b)
            require(c.dtype == object and len(c) == len(objs), "numpy_copy of objects")
        ctx.hit("objects")


# ---------------------------------------------------------------- bounding


@st.composite
def bound_case(draw):
    return {
        "tool": draw(st.sampled_from(["modify_tensor", "modify_vector", "clip_tensor"])),
        "n": draw(st.integers(1, 4)),
        "batch": draw(st.lists(st.integers(1, 3), max_size=2)),
        "lb": draw(st.sampled_from([None, "scalar", "vector", "list", "batch"])),
        "ub": draw(st.sampled_from([None, "scalar", "vector", "list", "batch"])),
        "max_change": draw(st.sampled_from([None, "scalar", "vector", "batch"])),
        "in_place": draw(st.booleans()),
        "dtype": draw(st.sampled_from(["float32", "float64"])),
        "seed": draw(seeds),
        "inside": draw(st.booleans()),
    }


def check_bound(case, ctx):
    tool = case["tool"]
    dt = DT[case["dtype"]]
    shape = case["batch"] + [case["n"]] if tool != "modify_tensor" or case["seed"] % 2 else [case["n"]]
    r = random.Random(case["seed"])
    lo = torch.tensor([r.choice([-2.0, -1.0, -0.5]) for _ in range(case["n"])], dtype=dt)
    hi = torch.tensor([r.choice([0.5, 1.0, 3.0]) for _ in range(case["n"])], dtype=dt)
    target = rand_grid(case["seed"] + 1, shape, lo=-16, hi=16, div=4, dtype=dt)
    original = rand_grid(case["seed"] + 2, shape, lo=-2, hi=2, div=4, dtype=dt)

    def bound(form, vec, scalar):
        """(as given, values in the full shape)"""
        if form is None:
            return None, None
        if form == "scalar":
            return scalar, torch.full(shape, scalar, dtype=dt)
        full = vec.expand(shape).clone()
        if tool == "modify_tensor":
            return (full.tolist() if form == "list" else full.clone()), full
        if form == "batch":
            return full.clone(), full
        if form == "list" and tool == "clip_tensor":
            return vec.tolist(), full
        return vec.clone(), full

    lb, flb = bound(case["lb"], lo, -0.5)
    ub, fub = bound(case["ub"], hi, 0.75)
    ratios = torch.tensor([r.choice([0.0, 0.25, 1.0, 2.0]) for _ in range(case["n"])], dtype=dt)
    mc, fmc = bound(case["max_change"], ratios, r.choice([0.25, 0.5, 1.5]))
    inf = torch.full(shape, float("inf"), dtype=dt)
    L = -inf if flb is None else flb
    U = inf if fub is None else fub
    if tool == "clip_tensor":
        got = tools.clip_tensor(target.clone(), lb, ub)
        want = torch.minimum(torch.maximum(target, L), U)
        same(got, want, "clipped", dtype=True)
        x = target.clone()
        got = tools.clip_tensor(x, lb, ub, ensure_copy=case["in_place"])
        same(got, want, "clipped", dtype=True)
        if case["in_place"] or lb is not None or ub is not None:
            require(tools.storage_ptr(got) != tools.storage_ptr(x), "clip_tensor gave the tensor itself")
        else:
            require(got is x, "clip_tensor copied although nothing was to be done")
        same(x, target, "the tensor after clipping")
        ctx.hit("clip") if lb is not None or ub is not None else ctx.label("no bounds")
        return
    original = torch.minimum(torch.maximum(original, L), U)  # within the bounds
    if fmc is not None:
        amount = original.abs() * fmc
        wl, wu = torch.maximum(L, original - amount), torch.minimum(U, original + amount)
    else:
        wl, wu = L, U
    want = torch.minimum(torch.maximum(target, wl), wu)
    o, t = original.clone(), target.clone()
    if tool == "modify_vector":
        if (lb is None) != (ub is None):
            must_raise(lambda: tools.modify_vector(o, t, lb=lb, ub=ub, max_change=mc), "only one bound", ValueError)
            ctx.hit("only one bound")
            return
        got = tools.modify_vector(o, t, lb=lb, ub=ub, max_change=mc)
        same(o, original, "the original after modify_vector")
        # vectors of another length are refused, also those which could be stretched
        n = case["n"]
        other = torch.full((1 if n > 1 and case["inside"] else n + 1,), 0.5, dtype=dt)
        for what, f in (
            ("lower bounds", lambda: tools.modify_vector(o, t, lb=-other, ub=1.0)),
            ("upper bounds", lambda: tools.modify_vector(o, t, lb=-1.0, ub=other)),
            ("largest changes", lambda: tools.modify_vector(o, t, max_change=other)),
            ("an original", lambda: tools.modify_vector(other, t, max_change=0.5)),
        ):
            must_raise(f, f"{what} of length {len(other)} for vectors of length {n}", ValueError)
    else:
        got = tools.modify_tensor(o, t, lb=lb, ub=ub, max_change=mc, in_place=case["in_place"])
        if case["in_place"]:
            require(got is o, "the result is not the original though in place")
        else:
            same(o, original, "the original after modify_tensor")
            require(tools.storage_ptr(got) not in (tools.storage_ptr(o), tools.storage_ptr(t)), "the result of modify_tensor is not an independent copy")
        if lb is not None and not isinstance(lb, list) and case["n"] > 1 and len(shape) == 1:
            must_raise(lambda: tools.modify_tensor(o, t, lb=torch.zeros(case["n"] + 1, dtype=dt)), "bounds of another length", IndexError)
    same(t, target, "the target")
    same(got, want, f"{tool}({show(original)}, {show(target)}, lb={lb}, ub={ub}, max_change={mc})", dtype=True, rtol=1e-6)
    if fmc is not None and (lb is not None or ub is not None):
        ctx.hit("bounds and largest change")
    elif fmc is not None or lb is not None or ub is not None:
        ctx.hit("bounds or largest change")


# ---------------------------------------------------------------- numbers


@st.composite
def number_case(draw):
    return {"work": draw(st.integers(0, 60)), "actors": draw(st.integers(1, 12)), "radius": draw(st.sampled_from([0.5, 1.0, 3.0, 10, 100.0])), "length": draw(st.integers(1, 1000)), "rows": draw(st.integers(0, 4)), "cols": draw(st.integers(0, 4)), "seed": draw(seeds)}


def check_number(case, ctx):
    parts = tools.split_workload(case["work"], case["actors"])
    eq(sum(parts), case["work"], f"sum of the parts {parts}")
    eq(len(parts), case["actors"], "number of parts")
    require(max(parts) - min(parts) <= 1, lambda: f"uneven parts {parts}")
    s = tools.stdev_from_radius(case["radius"], case["length"])
    norm = math.sqrt(sum(s * s for _ in range(case["length"])))
    require(abs(norm - case["radius"]) < 1e-6 * case["radius"], lambda: f"norm of the standard deviations {norm}, radius {case['radius']}")
    eq(tools.to_stdev_init(solution_length=case["length"], radius_init=case["radius"]), s, "to_stdev_init from a radius")
    vec = rand_grid(case["seed"], [3])
    same(tools.to_stdev_init(solution_length=3, stdev_init=vec), vec, "to_stdev_init from standard deviations")
    must_raise(lambda: tools.to_stdev_init(solution_length=3), "no values", ValueError)
    must_raise(lambda: tools.to_stdev_init(solution_length=3, stdev_init=1.0, radius_init=1.0), "both values", ValueError)
    x = rand_grid(case["seed"], [case["rows"], case["cols"]])
    m = rand_grid(case["seed"] + 1, [case["rows"]])
    same(tools.multiply_rows_by_scalars(m, x), m[:, None] * x, "multiply_rows_by_scalars")
    same(tools.rowwise_sum(x), torch.stack([sum(x[:, j].tolist(), 0.0) * torch.ones(()) for j in range(case["cols"])]) if case["cols"] else torch.zeros(0), "rowwise_sum", rtol=1e-5, atol=1e-5)
    r = tools.ErroneousResult.call(lambda a, b=0: a // b, 3, b=case["work"] % 2)
    if case["work"] % 2:
        eq(r, 3, "result of a call")
    else:
        require(isinstance(r, tools.ErroneousResult) and not r and isinstance(r.error, ZeroDivisionError), "result of a failing call")
    ctx.hit("uneven" if case["work"] % case["actors"] else "even")


FACETS = [
    Facet("making", make_case(), check_make, quick=600, thorough=10000, rule="every case makes a tensor"),
    Facet("conversions", convert_case(), check_convert, quick=500, thorough=8000, rule="every case converts or classifies a value"),
    Facet("bounding", bound_case(), check_bound, quick=400, thorough=6000, rule="a bound or a largest change is given"),
    Facet("numbers", number_case(), check_number, quick=80, thorough=800, rule="any"),
]
