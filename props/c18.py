"""C18: read-only tensors and immutable containers never change through themselves."""

import copy
import pickle
import warnings
from collections import OrderedDict

import numpy as np
import torch
from hypothesis import strategies as st

from evotorch.tools import ObjectArray, ReadOnlyTensor, as_immutable, as_read_only_tensor, mutable_copy, read_only_tensor
from evotorch.tools.immutable import ImmutableContainer, ImmutableDict, ImmutableList, ImmutableSet

from .common import Violation, eq, must_raise, plain, rand_grid, require, same, seeds, show, with_fields
from harness.core import Facet

QUICK_FACTOR = 3
TECHNIQUE = "property-based testing: generated chains of views followed by any mutating operation which the tensor library offers (found by reflection, and known to mutate because it does so on an ordinary tensor); generated nested containers compared with their originals at every level"
ASSUMPTIONS = [
    "escapes which the tensor library itself offers around every subclass (as_subclass, storages, dlpack, vmap, memory of numpy arrays wrapped again, swap_tensors, set_) are not counted as operations on a read-only tensor"
]

DTYPES = {
    "float32": torch.float32,
    "float64": torch.float64,
    "int64": torch.int64,
    "uint8": torch.uint8,
    "bool": torch.bool,
    "complex64": torch.complex64,
}
FLOATS = {"float32", "float64"}


def content(seed, shape, dtype):
    t = rand_grid(seed, shape, 1, 9, 1.0, torch.float64)
    if dtype == "bool":
        return t > 4
    if dtype == "complex64":
        return torch.complex(t, t.flip(0) if t.ndim else t).to(torch.complex64)
    return t.to(DTYPES[dtype])


# -- views ------------------------------------------------------------------------------------------------------------
# every entry takes a tensor and two small numbers; the same function is applied to the ordinary and to the read-only one

VIEWS = {
    "item0": lambda x, a, b: x[a % len(x)],
    "slice": lambda x, a, b: x[a % len(x) :],
    "step": lambda x, a, b: x[:: (b % 2) + 1],
    "ellipsis": lambda x, a, b: x[..., a % x.shape[-1]],
    "none": lambda x, a, b: x[None],
    "pair": lambda x, a, b: x[:, : (b % x.shape[1]) + 1],
    "all": lambda x, a, b: x[:],
    "mask": lambda x, a, b: x[torch.arange(len(x)) % 2 == 0],
    "mask_full": lambda x, a, b: x[torch.ones(x.shape, dtype=torch.bool)],
    "list": lambda x, a, b: x[[a % len(x), b % len(x)]],
    "index_tensor": lambda x, a, b: x[torch.tensor([a % len(x)])],
    "reshape": lambda x, a, b: x.reshape(-1),
    "reshape_t": lambda x, a, b: x.transpose(0, -1).reshape(-1),
    "torch_reshape": lambda x, a, b: torch.reshape(x, (-1, 1)),
    "view": lambda x, a, b: x.view(-1),
    "view_as": lambda x, a, b: x.view_as(x),
    "transpose": lambda x, a, b: x.transpose(0, -1),
    "T": lambda x, a, b: x.T if x.ndim == 2 else x,
    "flatten": lambda x, a, b: x.flatten(),
    "ravel": lambda x, a, b: torch.ravel(x),
    "unsqueeze": lambda x, a, b: x.unsqueeze(a % (x.ndim + 1)),
    "squeeze": lambda x, a, b: x.squeeze(),
    "expand": lambda x, a, b: x.expand(2, *x.shape),
    "narrow": lambda x, a, b: x.narrow(0, a % len(x), 1),
    "select": lambda x, a, b: torch.select(x, 0, a % len(x)),
    "unbind": lambda x, a, b: x.unbind()[a % len(x)],
    "iterate": lambda x, a, b: [r for r in x][a % len(x)],
    "split": lambda x, a, b: torch.split(x, 1)[a % len(x)],
    "chunk": lambda x, a, b: x.chunk(2)[0],
    "permute": lambda x, a, b: x.permute(*reversed(range(x.ndim))),
    "movedim": lambda x, a, b: torch.movedim(x, 0, -1),
    "diagonal": lambda x, a, b: x.diagonal(),
    "detach": lambda x, a, b: x.detach(),
    "data": lambda x, a, b: x.data,
    "contiguous": lambda x, a, b: x.contiguous(),
    "to": lambda x, a, b: x.to(x.dtype),
    "to_device": lambda x, a, b: x.to("cpu"),
    "cpu": lambda x, a, b: x.cpu(),
    "type": lambda x, a, b: x.type(x.dtype),
    "as_tensor": lambda x, a, b: torch.as_tensor(x),
    "atleast": lambda x, a, b: torch.atleast_2d(x),
    "broadcast": lambda x, a, b: torch.broadcast_to(x, (2, *x.shape)),
    "real": lambda x, a, b: x.real,
    "unfold": lambda x, a, b: x.unfold(0, 1, 1),
    "as_strided": lambda x, a, b: x.as_strided((1,), (1,)),
    "take_along": lambda x, a, b: torch.index_select(x, 0, torch.tensor([a % len(x)])),
    "add": lambda x, a, b: x + x,
    "where": lambda x, a, b: torch.where(x == x, x, x),
    "again": lambda x, a, b: as_read_only_tensor(x) if isinstance(x, ReadOnlyTensor) else x,
}

# -- mutations --------------------------------------------------------------------------------------------------------

SKIP = {
    # not about the content, not usable on an ordinary tensor alone, or escapes of the library itself
    "set_", "swap_", "requires_grad_", "share_memory_", "rename_", "names_", "retain_grad_", "detach_", "apply_", "map_", "map2_",
    "record_stream_", "resize_", "resize_as_", "resize_as_sparse_", "sparse_resize_", "sparse_resize_and_clear_", "_coalesced_",
    "as_strided_", "unsqueeze_", "squeeze_", "t_", "transpose_", "swapaxes_", "swapdims_", "rename_",
}  # fmt: skip
METHODS = sorted(n for n in dir(torch.Tensor) if n.endswith("_") and not n.startswith("_") and n not in SKIP)
TORCH_FUNCS = sorted(n for n in dir(torch) if n.endswith("_") and not n.startswith("_") and n not in SKIP)
NNF = sorted(n for n in dir(torch.nn.functional) if n.endswith("_") and not n.startswith("_"))
INPLACE_NNF = ["relu", "relu6", "elu", "selu", "celu", "hardtanh", "leaky_relu", "rrelu", "silu", "mish", "hardsigmoid", "hardswish", "threshold", "dropout"]  # fmt: skip
INIT = ["uniform_", "normal_", "constant_", "ones_", "zeros_", "eye_", "xavier_uniform_", "kaiming_normal_", "orthogonal_", "trunc_normal_", "sparse_"]  # fmt: skip
DUNDERS = ["__iadd__", "__isub__", "__imul__", "__itruediv__", "__ifloordiv__", "__imod__", "__ipow__", "__iand__", "__ior__", "__ixor__", "__ilshift__", "__irshift__", "__imatmul__"]  # fmt: skip
OUT_ONE = ["add", "sub", "mul", "maximum", "minimum", "matmul", "pow", "true_divide", "fmod", "eq", "logical_or", "bitwise_and"]  # fmt: skip
OUT_UNARY = ["abs", "neg", "sin", "exp", "sqrt", "clamp_min", "round", "sign", "cumsum", "sum", "mean", "sort", "max", "min", "topk", "mode", "median", "logical_not", "bitwise_not"]  # fmt: skip
ATTRS = ["data", "real", "imag"]


def arguments(x, seed):
    """Argument lists to try on an ordinary tensor, from the simplest on."""
    y = content(seed + 1, x.shape, {v: k for k, v in DTYPES.items()}[x.dtype])
    one = True if x.dtype == torch.bool else 2
    mask = torch.zeros(x.shape, dtype=torch.bool)
    if x.numel():
        mask.view(-1)[0] = True
    n = len(x) if x.ndim else 1
    idx = torch.zeros((1,), dtype=torch.int64)
    src = y[:1] if x.ndim else y
    return [
        (y,),
        (one,),
        (),
        (mask, one),
        (mask, y.reshape(-1)),
        (0, idx, one),
        (0, idx, src),
        (0, torch.zeros(x.shape, dtype=torch.int64), y),
        (0, torch.zeros(x.shape, dtype=torch.int64), one),
        (0, torch.zeros(x.shape, dtype=torch.int64), y, "sum"),
        (y, y),
        (y, one),
        (1.0, 2.0),
        (0,),
        (2, 0, 1),
        (0.5,),
        (torch.zeros(n, dtype=torch.int64), src.reshape(-1)[:1].expand(n) if src.numel() else src.reshape(-1)),
        ((idx,), src),
        (n, n),
        (float("nan"), 0.0, 0.0),
    ]


def mutations():
    out = []
    for n in METHODS:
        out.append(["method", n])
        out.append(["unbound", n])
    out += [["torch", n] for n in TORCH_FUNCS]
    out += [["nnf", n] for n in NNF]
    out += [["nnf_inplace", n] for n in INPLACE_NNF]
    out += [["init", n] for n in INIT]
    out += [["operator", n] for n in DUNDERS] * 3
    out += [["unbound", n] for n in DUNDERS]
    out += [["unbound_setitem", n] for n in ("all", "first")]
    out += [["setitem", n] for n in ("all", "first", "mask", "list", "ellipsis", "last", "del")] * 4
    out += [["out", n] for n in OUT_ONE + OUT_UNARY] * 2
    out += [["out_tuple", n] for n in ("sort", "max", "min", "topk", "mode", "median")] * 3
    out += [["attr", n] for n in ATTRS] * 2
    out += [["numpy", n] for n in ("numpy", "asarray", "array_out", "sort", "fill", "copyto")] * 4
    out += [["grad_out", "stack"], ["grad_out", "cat"], ["grad_out", "rand"], ["grad_out", "randn"], ["grad_out", "arange"], ["grad_out", "full"]] * 2
    return out


MUTATIONS = mutations()
KINDS = sorted({k for k, _ in MUTATIONS})
BY_KIND = {k: [n for kk, n in MUTATIONS if kk == k] for k in KINDS}


def mutate(x, kind, name, args):
    """Applies the operation to x (an ordinary or a read-only tensor) with the given arguments."""
    y = args[0] if args and isinstance(args[0], torch.Tensor) else None
    if kind == "method":
        getattr(x, name)(*args)
    elif kind == "unbound":
        getattr(torch.Tensor, name)(x, *args)
    elif kind == "torch":
        getattr(torch, name)(x, *args)
    elif kind == "nnf":
        getattr(torch.nn.functional, name)(x, *args)
    elif kind == "nnf_inplace":
        extra = (0.5, 7.0) if name == "threshold" else ()
        getattr(torch.nn.functional, name)(x, *extra, inplace=True)
    elif kind == "init":
        getattr(torch.nn.init, name)(x, *args)
    elif kind == "operator":
        other = args[0]
        ns = {"x": x, "o": other}
        op = {"iadd": "+", "isub": "-", "imul": "*", "itruediv": "/", "ifloordiv": "//", "imod": "%", "ipow": "**", "iand": "&", "ior": "|", "ixor": "^", "ilshift": "<<", "irshift": ">>", "imatmul": "@"}[name.strip("_")]  # fmt: skip
        exec(f"x {op}= o", ns)
        if name == "__imatmul__":
            raise TypeError
    elif kind in ("setitem", "unbound_setitem"):
        val = y.reshape(-1)[0] if y is not None and y.numel() else args[0]
        if name == "del":
            del x[0]
        key = {"all": slice(None), "first": 0, "mask": torch.ones(x.shape, dtype=torch.bool), "list": [0], "ellipsis": Ellipsis, "last": -1}[name]
        if kind == "setitem":
            x[key] = val
        else:
            torch.Tensor.__setitem__(x, key, val)
    elif kind == "out":
        if name in OUT_ONE:
            getattr(torch, name)(y, y, out=x)
        else:
            more = {"clamp_min": (3,), "cumsum": (0,), "topk": (1,)}.get(name, ())
            getattr(torch, name)(y, *more, out=x)
    elif kind == "out_tuple":
        more = {"topk": (1,)}.get(name, (0,))
        if name == "sort":
            more = ()
        getattr(torch, name)(y, *more, out=(x, torch.empty(0, dtype=torch.int64)))
    elif kind == "attr":
        setattr(x, name, y if not y.is_complex() or name == "data" else y.real)
    elif kind == "grad_out":
        if name == "stack":
            torch.stack(tuple(y), out=x)
        elif name == "cat":
            torch.cat(tuple(y.split(1)), out=x)
        elif name == "arange":
            torch.arange(len(x), out=x)
        elif name == "full":
            torch.full(tuple(x.shape), 7, out=x)
        else:
            getattr(torch, name)(tuple(x.shape), out=x)
    elif kind == "numpy":
        if name == "numpy":
            x.numpy()[...] = 7
        elif name == "asarray":
            np.asarray(x)[...] = 7
        elif name == "array_out":
            np.add(1, 1, out=x.numpy())
        elif name == "sort":
            x.numpy().sort()
        elif name == "fill":
            x.numpy().fill(7)
        elif name == "copyto":
            np.copyto(x.numpy(), 7)
    else:
        raise AssertionError(kind)


@st.composite
def op_case(draw):
    kind = draw(st.sampled_from(KINDS + ["method"] * 8 + ["unbound"] * 6))
    return {
        "seed": draw(seeds),
        "shape": draw(st.lists(st.integers(1, 3), min_size=1, max_size=3)),
        "dtype": draw(st.sampled_from(["float32"] * 4 + ["float64"] * 2 + ["int64", "int64", "uint8", "bool", "complex64"])),
        "views": draw(st.lists(st.tuples(st.sampled_from(sorted(VIEWS)), st.integers(0, 3), st.integers(0, 3)).map(list), max_size=3)),
        "kind": kind,
        "op": draw(st.sampled_from(BY_KIND[kind])),
        "make": draw(st.sampled_from(["as_read_only_tensor", "read_only_tensor", "as_immutable", "sliced", "deepcopy"])),
    }


def bits(x):
    x = plain(x)
    if x.is_complex():
        x = torch.view_as_real(x.resolve_conj())
    return x.contiguous().cpu().numpy().tobytes()


def make_read_only(how, base):
    if how == "as_read_only_tensor":
        return as_read_only_tensor(base)
    if how == "read_only_tensor":
        return read_only_tensor(base)
    if how == "as_immutable":
        return as_immutable(base)
    if how == "deepcopy":
        return copy.deepcopy(as_read_only_tensor(base))
    return as_read_only_tensor(base)[:]


def chain(x, views):
    """x after each of the views which apply to it."""
    done = []
    for name, a, b in views:
        try:
            y = VIEWS[name](x, a, b)
        except Violation:
            raise
        except Exception:  # this view does not exist for tensors of this shape or type
            continue
        if y.numel() == 0:
            continue
        x = y
        done.append((name, a, b))
    return x, done


def check_op(case, ctx):
    base = content(case["seed"], case["shape"], case["dtype"])
    ordinary = base.clone()
    ro = make_read_only(case["make"], base)
    require(isinstance(ro, torch.Tensor), lambda: f"{case['make']} gave a {type(ro).__name__}")
    same_bits(ro, ordinary, f"{case['make']}(...)")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        target, done = chain(ordinary, case["views"])
        view = ro
        for name, a, b in done:
            view = VIEWS[name](view, a, b)
        same_bits(view, target, f"read-only tensor after {[d[0] for d in done]}")
        before = bits(ro)
        # which arguments does the operation take, and does it change an ordinary tensor?
        mutates = False
        for args in arguments(plain(target), case["seed"]):
            trial = plain(target)
            old = bits(trial)
            try:
                torch.manual_seed(0)
                mutate(trial, case["kind"], case["op"], args)
            except Exception:
                continue
            if bits(trial) != old:
                mutates = True
                break
        if not mutates:
            ctx.label("does not change an ordinary tensor")
            return
        shares = bits(ro) != b"" and view.untyped_storage().data_ptr() == ro.untyped_storage().data_ptr()
        if case["kind"] == "numpy" and (view.is_conj() or view.is_neg()):
            return
        try:
            mutate(view, case["kind"], case["op"], args)
            ctx.label("returned")
        except Exception:
            ctx.label("raised")
    require(
        bits(ro) == before,
        lambda: f"{case['kind']} {case['op']} with {len(args)} arguments changed the content of the read-only tensor to {show(ro)}",
    )
    same_bits(base, ordinary, "the tensor behind the read-only one")
    ctx.label(case["kind"], "view" if done else "itself")
    if shares:
        ctx.hit(case["kind"])


def same_bits(x, y, what):
    require(isinstance(x, torch.Tensor), lambda: f"{what}: expected a tensor, got {type(x).__name__}")
    require(tuple(x.shape) == tuple(y.shape), lambda: f"{what}: shape {tuple(x.shape)}, expected {tuple(y.shape)}")
    require(x.dtype == y.dtype, lambda: f"{what}: dtype {x.dtype}, expected {y.dtype}")
    require(bits(x) == bits(y), lambda: f"{what}: got {show(x)}, expected {show(y)}")


# -- reading and copying ----------------------------------------------------------------------------------------------

READS = {
    "sum": lambda x, y: x.sum(),
    "mean": lambda x, y: x.mean(dim=0),
    "std": lambda x, y: torch.std(x),
    "add": lambda x, y: x + y,
    "radd": lambda x, y: y + x,
    "rsub": lambda x, y: 3 - x,
    "mul": lambda x, y: x * y,
    "div": lambda x, y: x / y,
    "rdiv": lambda x, y: 1 / x,
    "pow": lambda x, y: x**2,
    "floordiv": lambda x, y: x // y,
    "mod": lambda x, y: x % y,
    "matmul": lambda x, y: x @ y.T,
    "neg": lambda x, y: -x,
    "abs": lambda x, y: abs(-x),
    "lt": lambda x, y: x < y,
    "eq": lambda x, y: x == y,
    "ne": lambda x, y: x != y,
    "ge": lambda x, y: x >= y,
    "and": lambda x, y: (x > 4) & (y > 4),
    "invert": lambda x, y: ~(x > 4),
    "max": lambda x, y: torch.max(x, dim=-1).values,
    "argsort": lambda x, y: x.argsort(),
    "sort": lambda x, y: torch.sort(x, dim=0)[0],
    "stack": lambda x, y: torch.stack([x, y]),
    "cat": lambda x, y: torch.cat([y, x]),
    "where": lambda x, y: torch.where(x > y, x, y),
    "clamp": lambda x, y: x.clamp(2, 5),
    "float": lambda x, y: x.float(),
    "int": lambda x, y: x.to(torch.int32),
    "exp": lambda x, y: torch.exp(x),
    "norm": lambda x, y: torch.linalg.norm(x.double()),
    "repeat": lambda x, y: x.repeat(2, *([1] * (x.ndim - 1))),
    "roll": lambda x, y: torch.roll(x, 1, 0),
    "gather": lambda x, y: torch.gather(x, 0, torch.zeros(x.shape, dtype=torch.int64)),
    "mask": lambda x, y: x[x > y],
    "index": lambda x, y: x[torch.tensor([0, 0])],
    "zeros_like": lambda x, y: torch.zeros_like(x),
    "new_full": lambda x, y: x.new_full((2,), 3),
    "einsum": lambda x, y: torch.einsum("...i,...i->...", x.double(), y.double()),
    "into": lambda x, y: y.clone().add_(x),
    "out": lambda x, y: torch.add(x, y, out=torch.empty_like(y)),
    "setslice": lambda x, y: assign(y.clone(), x),
    "tolist": lambda x, y: torch.tensor(x.tolist(), dtype=x.dtype),
    "numpy": lambda x, y: torch.from_numpy(x.numpy().copy()),
    "nparray": lambda x, y: torch.from_numpy(np.array(x)),
    "np_sum": lambda x, y: torch.tensor(float(np.sum(np.asarray(x, dtype="float64")))),
    "item": lambda x, y: torch.tensor(x.reshape(-1)[0].item()),
    "len": lambda x, y: torch.tensor(len(x)),
    "bool": lambda x, y: torch.tensor(bool((x == x).all())),
    "iter": lambda x, y: torch.stack([r for r in x]),
    "contains": lambda x, y: torch.tensor(3 in x),
    "numel": lambda x, y: torch.tensor([x.numel(), x.ndim, x.dim(), x.shape[0], x.size(0)]),
    "softmax": lambda x, y: torch.softmax(x.double(), 0),
    "reshape": lambda x, y: x.reshape(-1, 1),
    "transposed": lambda x, y: x.transpose(0, -1).contiguous(),
    "cumsum": lambda x, y: x.cumsum(0),
    "isnan": lambda x, y: torch.isnan(x),
    "complex": lambda x, y: torch.nan_to_num(x),
}


def assign(z, x):
    z[...] = x
    return z


@st.composite
def read_case(draw):
    return {
        "seed": draw(seeds),
        "shape": draw(st.lists(st.integers(1, 4), min_size=1, max_size=3)),
        "dtype": draw(st.sampled_from(["float32", "float64", "int64", "uint8"])),
        "read": draw(st.sampled_from(sorted(READS))),
        "copy": draw(st.sampled_from(["clone", "clone_ro", "copy", "deepcopy", "pickle", "nested deepcopy"])),
        "strided": draw(st.booleans()),
    }


def check_read(case, ctx):
    shape, dtype = case["shape"], case["dtype"]
    full = content(case["seed"], [2 * shape[0], *shape[1:]], dtype)
    x = full[::2] if case["strided"] else full[: shape[0]]
    y = content(case["seed"] + 1, shape, dtype)
    ro = as_read_only_tensor(x)
    f = READS[case["read"]]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            want = f(plain(x), y.clone())
        except Exception:
            want = None
        if want is not None:
            got = f(ro, y.clone())
            require(got.dtype == want.dtype, lambda: f"{case['read']}: dtype {got.dtype}, expected {want.dtype}")
            same(got, want, case["read"], rtol=1e-6, atol=1e-9)
            ctx.hit(case["read"])
    same_bits(ro, x, "the tensor which was read")
    for fn in (as_read_only_tensor, read_only_tensor):
        for name, form in (("tensor", x), ("list", x.tolist()), ("array", x.numpy()), ("read-only tensor", ro)):
            for t in (None, torch.float64, torch.int32, torch.bool):
                kw = {} if t is None else {"dtype": t}
                got = fn(form, **kw)
                want = torch.as_tensor(plain(x) if name == "read-only tensor" else form, **kw)
                require(isinstance(got, ReadOnlyTensor) and got.dtype == want.dtype, lambda: f"{fn.__name__} of a {name} with dtype {t} gave {type(got)} of {got.dtype}")
                same_bits(got, want, f"{fn.__name__} of a {name} with dtype {t}")
    # as_read_only_tensor gives a view: changing the original is visible
    expected = plain(x)
    how = case["copy"]
    if how == "clone":
        c = ro.clone()
    elif how == "clone_ro":
        c = ro.clone(preserve_read_only=True)
    elif how == "copy":
        c = copy.copy(ro)
    elif how == "deepcopy":
        c = copy.deepcopy(ro)
    elif how == "nested deepcopy":
        c = copy.deepcopy({"a": [ro]})["a"][0]
    else:
        c = pickle.loads(pickle.dumps(ro))
    same_bits(c, expected, f"{how} of a read-only tensor")
    if how == "clone":
        require(not isinstance(c, ReadOnlyTensor), "a clone of a read-only tensor is read-only")
        c[...] = 0
        c.add_(5)
        same_bits(ro, expected, "read-only tensor after changing its clone")
    else:
        require(isinstance(c, ReadOnlyTensor), lambda: f"{how} of a read-only tensor is not read-only")
        must_raise(lambda: c.add_(1), f"adding in place to a {how}")
    full.fill_(0)
    same_bits(ro, full[::2] if case["strided"] else full[: shape[0]], "read-only view of a tensor changed afterwards")
    if how != "clone":
        same_bits(c, expected, f"{how} after changing the original")


# -- containers -------------------------------------------------------------------------------------------------------

KEYS = st.one_of(st.sampled_from(["a", "b", "c", "key"]), st.integers(-2, 3), st.sampled_from([["t", 1, 2], ["t", "x", 0], ["t", ["t", 1], "y"]]))
LEAVES = st.one_of(
    st.none(),
    st.booleans(),
    st.integers(-5, 5),
    st.sampled_from([0.5, -1.25, "", "hello", "x"]),
    st.tuples(st.sampled_from(["tensor", "array", "objects", "rotensor", "roarray"]), st.integers(0, 50)).map(lambda p: {p[0]: p[1]}),
    st.lists(st.sampled_from([0, 1, 2, 3, "a", "b"]), max_size=4).map(lambda p: {"set": p}),
)
TREES = st.recursive(
    LEAVES,
    lambda kids: st.one_of(
        st.lists(kids, max_size=4).map(lambda p: {"list": p}),
        st.lists(kids, max_size=3).map(lambda p: {"tuple": p}),
        st.lists(st.tuples(KEYS, kids).map(list), max_size=3).map(lambda p: {"dict": p}),
        st.lists(st.tuples(KEYS, kids).map(list), max_size=3).map(lambda p: {"odict": p}),
        st.lists(kids, max_size=3).map(lambda p: {"objects_of": p}),
        st.lists(kids, max_size=3).map(lambda p: {"nparray_of": p}),
        st.lists(kids, max_size=3).map(lambda p: {"fixed_nparray_of": p}),
        kids.map(lambda p: {"shared": p}),
    ),
    max_leaves=8,
)


def key_of(k):
    return tuple(key_of(i) for i in k[1:]) if isinstance(k, list) else k


def build(spec):
    """The object described by the spec."""
    if not isinstance(spec, dict):
        return spec
    (kind, v), *_ = spec.items()
    if kind == "tensor":
        return rand_grid(v, (v % 4,))
    if kind == "rotensor":
        return as_read_only_tensor(rand_grid(v, (2, v % 3)))
    if kind == "array":
        return rand_grid(v, (v % 3 + 1, 2), dtype=torch.float64).numpy().copy()
    if kind == "roarray":
        a = rand_grid(v, (v % 4,), dtype=torch.float64).numpy().copy()
        a.flags.writeable = False
        return a
    if kind == "objects":
        o = ObjectArray(2)
        o[0] = [v, "x"]
        o[1] = v
        return o
    if kind == "set":
        return set(v)
    if kind == "list":
        return [build(i) for i in v]
    if kind == "tuple":
        return tuple(build(i) for i in v)
    if kind in ("dict", "odict"):
        d = {} if kind == "dict" else OrderedDict()
        for k, i in v:
            d[key_of(k)] = build(i)
        return d
    if kind == "objects_of":
        o = ObjectArray(len(v))
        for i, item in enumerate(v):
            o[i] = build(item)
        return o
    if kind in ("nparray_of", "fixed_nparray_of"):
        a = np.empty(len(v), dtype=object)
        for i, item in enumerate(v):
            a[i] = build(item)
        if kind == "fixed_nparray_of":
            a.flags.writeable = False
        return a
    if kind == "shared":
        x = build(v)
        return [x, {"again": x}]
    raise AssertionError(kind)


def freeze(x):
    """A description of the content which disregards how containers are represented (list or tuple or object array …)."""
    if isinstance(x, torch.Tensor):
        return ("tensor", str(x.dtype), tuple(x.shape), bits(x))
    if isinstance(x, np.ndarray) and x.dtype != np.dtype(object):
        return ("array", str(x.dtype), tuple(x.shape), x.tobytes())
    if isinstance(x, (ObjectArray, np.ndarray)):
        return ("objects", tuple(freeze(i) for i in x))
    if isinstance(x, (dict, ImmutableDict)):
        return ("dict", tuple((type(k).__name__, k, freeze(x[k])) for k in x))
    if isinstance(x, (set, ImmutableSet)):
        return ("set", tuple(sorted((type(k).__name__, k) for k in x)))
    if isinstance(x, (list, tuple, ImmutableList)):
        return ("list", tuple(freeze(i) for i in x))
    return (type(x).__name__, x)


def walk(x, path="value"):
    yield path, x
    if isinstance(x, (dict, ImmutableDict)):
        for k in x:
            yield from walk(x[k], f"{path}[{k!r}]")
    elif isinstance(x, (list, tuple, ImmutableList, ObjectArray)) or (isinstance(x, np.ndarray) and x.dtype == np.dtype(object)):
        for i, v in enumerate(x):
            yield from walk(v, f"{path}[{i}]")


def attempts(x):
    """Ways of changing x, as pairs of a name and a function."""
    if isinstance(x, torch.Tensor):
        return [("fill_", lambda: x.fill_(9)), ("x[...] =", lambda: x.__setitem__(Ellipsis, 9)), ("out=", lambda: torch.add(x, 1, out=x))]
    if isinstance(x, np.ndarray):
        return [("fill", lambda: x.fill(9)), ("x[...] =", lambda: x.__setitem__(Ellipsis, 9))]
    if isinstance(x, ObjectArray):
        return [("x[0] =", lambda: x.__setitem__(0, 9)), ("x[:] =", lambda: x.__setitem__(slice(None), [9] * len(x))), ("set_item", lambda: x.set_item(0, 9)), ("slice", lambda: x[:].__setitem__(0, 9))]  # fmt: skip
    if isinstance(x, ImmutableDict):
        k = next(iter(x), "k")
        return [("x[k] =", lambda: setkey(x, k)), ("del", lambda: delkey(x, k)), ("update", lambda: x.update({k: 9})), ("pop", lambda: x.pop(k)), ("clear", lambda: x.clear()), ("setdefault", lambda: x.setdefault("new", 9))]  # fmt: skip
    if isinstance(x, ImmutableSet):
        return [("add", lambda: x.add(99)), ("discard", lambda: x.discard(0)), ("clear", lambda: x.clear()), ("update", lambda: x.update([99]))]
    if isinstance(x, ImmutableList):
        return [("x[0] =", lambda: setkey(x, 0)), ("del", lambda: delkey(x, 0)), ("append", lambda: x.append(9)), ("extend", lambda: x.extend([9])), ("pop", lambda: x.pop()), ("sort", lambda: x.sort()), ("clear", lambda: x.clear()), ("reverse", lambda: x.reverse()), ("insert", lambda: x.insert(0, 9)), ("slice", lambda: x[:].append(9)), ("iadd", lambda: iadd(x))]  # fmt: skip
    return []


def setkey(x, k):
    x[k] = 9


def delkey(x, k):
    del x[k]


def iadd(x):
    x += [9]


def change(x):
    """Changes a mutable object."""
    if isinstance(x, torch.Tensor):
        if x.numel():
            x.fill_(77)
    elif isinstance(x, np.ndarray):
        if x.dtype == np.dtype(object):
            x[:] = None
        else:
            x.fill(77)
    elif isinstance(x, (dict, OrderedDict)):
        x.clear()
        x["changed"] = 1
    elif isinstance(x, set):
        x.add("changed")
    elif isinstance(x, list):
        x.append("changed")
    elif isinstance(x, ObjectArray) and len(x):
        x[0] = "changed"


def change_all(x):
    for _, part in list(walk(x)):
        if isinstance(part, ReadOnlyTensor) or (isinstance(part, np.ndarray) and not part.flags.writeable):
            continue
        if isinstance(part, ObjectArray) and part.is_read_only:
            continue
        change(part)


def expect_immutable(x, content_of, what):
    for path, part in walk(x, what):
        require(
            part is None
            or isinstance(part, (str, bool, int, float, ReadOnlyTensor, ImmutableContainer))
            or (isinstance(part, np.ndarray) and not part.flags.writeable)
            or (isinstance(part, ObjectArray) and part.is_read_only),
            lambda: f"{path} is a {type(part).__name__}, which can be changed",
        )
        for name, f in attempts(part):
            try:
                f()
            except Exception:
                pass
            require(freeze(x) == content_of, lambda: f"{path} was changed by {name}: {x!r}")


def expect_mutable(x, what):
    for path, part in walk(x, what):
        require(not isinstance(part, (ReadOnlyTensor, ImmutableContainer, ObjectArray)), lambda: f"{path} is a {type(part).__name__} in a mutable copy")
        if isinstance(part, np.ndarray):
            require(part.flags.writeable, lambda: f"{path} is a read-only array in a mutable copy")


@st.composite
def container_case(draw):
    return {"tree": draw(TREES), "how": draw(st.sampled_from(["as_immutable", "as_immutable", "copy", "deepcopy", "pickle", "clone_ro", "twice"]))}


def check_container(case, ctx):
    x = build(case["tree"])
    want = freeze(x)
    writable = [p.flags.writeable for _, p in walk(x) if isinstance(p, np.ndarray)]
    im = as_immutable(x)
    eq([p.flags.writeable for _, p in walk(x) if isinstance(p, np.ndarray)], writable, "which arrays of the original can be written to")
    require(freeze(im) == want, lambda: f"as_immutable({x!r}) gave {im!r}")
    how = case["how"]
    if how == "twice":
        im2 = as_immutable(im)
        require(im2 is im or not isinstance(im, ImmutableContainer), "as_immutable of an immutable container is not itself")
    elif how == "copy":
        im = copy.copy(im)
    elif how == "deepcopy":
        im = copy.deepcopy(im)
    elif how == "pickle":
        im = pickle.loads(pickle.dumps(im))
    elif how == "clone_ro" and isinstance(im, ImmutableContainer):
        im = im.clone(preserve_read_only=True)
    if not isinstance(im, np.ndarray):  # (how a bare array is copied is numpy's own business)
        expect_immutable(im, want, how)
    require(freeze(im) == want, lambda: f"{how} of the immutable counterpart of {x!r} is {im!r}")
    # the mutable copy
    m = mutable_copy(im)
    require(freeze(m) == want, lambda: f"mutable_copy of {im!r} gave {m!r}")
    expect_mutable(m, "mutable copy")
    expected_type = {"list": list, "tuple": list, "dict": dict, "odict": dict, "set": set, "shared": list, "tensor": torch.Tensor, "array": np.ndarray, "objects": np.ndarray, "objects_of": np.ndarray, "nparray_of": np.ndarray}  # fmt: skip
    if isinstance(case["tree"], dict):
        kind = next(iter(case["tree"]))
        if kind in expected_type:
            require(type(m) is expected_type[kind], lambda: f"mutable copy of a {kind} is a {type(m).__name__}")
    change_all(m)
    require(freeze(im) == want, "changing the mutable copy changed the immutable one")
    # independence from the original
    change_all(x)
    require(freeze(im) == want, lambda: f"changing the original changed its immutable counterpart into {im!r}")
    parts = sum(1 for _ in walk(im))
    ctx.label(how)
    if parts >= 3:
        ctx.hit("nested")


# -- behaviour of the containers --------------------------------------------------------------------------------------

ATOMS = st.one_of(st.integers(-3, 3), st.sampled_from(["a", "b", "c"]), st.sampled_from([0.5, None]))


@st.composite
def behave_case(draw):
    return {
        "list": draw(st.lists(ATOMS, max_size=5)),
        "other": draw(st.lists(ATOMS, max_size=5)),
        "equal": draw(st.booleans()),
        "keys": draw(st.lists(KEYS, max_size=5)),
        "shared": draw(st.sampled_from(["list", "dict", "tensor", "array"])),
    }


def check_behave(case, ctx):
    a = case["list"]
    b = list(a) if case["equal"] else case["other"]
    x = as_immutable(a)
    eq(list(x), a, "iterating an immutable list")
    eq(len(x), len(a), "length")
    eq(x == b, a == b, f"{a} == {b}")
    eq(x != b, a != b, f"{a} != {b}")
    eq(x == as_immutable(b), a == b, f"{a} == {b}, both immutable")
    eq(list(x + b), a + b, "sum")
    eq(list(b + x), b + a, "sum from the right")
    require(isinstance(x + b, ImmutableList), "the sum is not immutable")
    for v in [-3, 0, "a", "zz", None]:
        eq(v in x, v in a, f"{v!r} in {a}")
        eq(x.count(v), a.count(v), "count")
    for i in range(-len(a), len(a)):
        eq(x[i], a[i], f"element {i}")
    eq(list(x[1:3]), a[1:3], "slice")
    eq(list(reversed(x)), a[::-1], "reversed")
    must_raise(lambda: x[len(a)], "index out of range", IndexError)
    # sets
    s, t = set(a), set(b)
    xs, xt = as_immutable(s), as_immutable(t)
    eq(len(xs), len(s), "size of a set")
    eq(set(xs), s, "elements of a set")
    for v in [-3, 0, "a", "zz", None, 0.5]:
        eq(v in xs, v in s, f"{v!r} in {s}")
    eq(xs == xt, s == t, f"{s} == {t}")
    eq(set(xs & xt), s & t, "intersection")
    eq(set(xs | xt), s | t, "union")
    eq(set(xs - xt), s - t, "difference")
    eq(xs <= xt, s <= t, "subset")
    # dictionaries
    d = {}
    for i, k in enumerate(case["keys"]):
        d[key_of(k)] = i
    xd = as_immutable(d)
    eq(list(xd), list(d), "keys")
    eq(list(xd.keys()), list(d.keys()), "keys()")
    eq(list(xd.values()), list(d.values()), "values()")
    eq(list(xd.items()), list(d.items()), "items()")
    eq(len(xd), len(d), "number of items")
    for k in list(d) + ["missing", 77, ("m", 1)]:
        eq(k in xd, k in d, f"{k!r} in dict")
        eq(xd.get(k, "default"), d.get(k, "default"), f"get({k!r})")
    must_raise(lambda: xd["missing"], "missing key", KeyError)
    eq(dict(xd), d, "dict(...)")
    eq(xd == d, True, "equality with the dict")
    eq(xd == {**d, "extra": 1}, False, "equality with a larger dict")
    eq(dict(ImmutableDict(d, extra=5).items()), {**d, "extra": 5} if "extra" not in d else d, "keyword items")
    inner = [1, torch.zeros(2)]
    kd = ImmutableDict(d, extra=inner)
    inner.append(2)
    inner[1][0] = 7
    if "extra" not in d:
        expect_immutable(kd, freeze({**d, "extra": [1, torch.zeros(2)]}), "keyword items")
    must_raise(lambda: as_immutable({0.5: 1}), "a float as a key", TypeError)
    must_raise(lambda: as_immutable([object()]), "an object of unsupported type", TypeError)
    # shared parts and cycles
    part = {"list": [1], "dict": {"a": 1}, "tensor": torch.ones(2), "array": np.ones(2)}[case["shared"]]
    outer = [part, {"k": part}, part]
    outer.append(outer)
    im = as_immutable(outer)
    require(im[0] is im[2] and im[1]["k"] is im[0], f"a shared {case['shared']} became separate objects")
    require(im[3] is im, "a list within itself does not refer to the immutable list")
    m = mutable_copy(im)
    require(m[0] is m[2] and m[1]["k"] is m[0] and m[3] is m, "mutable copy lost the shared references")
    back = copy.deepcopy(im)
    require(back[0] is back[2] and back[1]["k"] is back[0] and back[3] is back, "deep copy lost the shared references")
    if a and d:
        ctx.hit("non-empty")


FACETS = [
    Facet("mutating operations", op_case(), check_op, quick=900, thorough=20000, rule="the operation changes an ordinary tensor, and it was aimed at the read-only tensor or at a view sharing its memory"),
    Facet("reading and copying", read_case(), check_read, quick=250, thorough=4000, rule="the reading operation applies to a tensor of the shape and type"),
    Facet("nested containers", container_case(), check_container, quick=350, thorough=6000, rule="the container has at least three parts"),
    Facet("container behaviour", behave_case(), check_behave, quick=100, thorough=1500, rule="non-empty list and dictionary"),
]
