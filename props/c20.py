"""C20: object arrays behave as one-dimensional arrays of immutable private values."""

import copy
import pickle

import numpy as np
import torch
from hypothesis import strategies as st

from evotorch.tools import ObjectArray, as_read_only_tensor, as_tensor, clone, make_empty, make_tensor

from .c18 import TREES, attempts, build, change_all, expect_immutable, expect_mutable, freeze, walk
from .common import Violation, eq, must_raise, require
from harness.core import Facet

QUICK_FACTOR = 5
TECHNIQUE = "property-based testing: generated programs of indexing, slicing, assignment and copying, compared after every step with a model made of Python lists and a shared memory"

INDEX = ["int", "np_int", "tensor_int"]
PICK = ["slice", "step", "mask", "np_mask", "list", "index_tensor", "np_index"]
OPS = [
    "get", "set", "set", "pick", "pick", "set_many", "set_many", "repeat", "clone", "copy", "deepcopy", "pickle", "numpy", "read_only",
    "set_read_only", "iterate", "spoil_read", "spoil_given", "wrong_index", "wrong_length", "slice_of", "overlap", "as_read_only",
]  # fmt: skip


@st.composite
def program(draw):
    n = draw(st.integers(0, 5))
    ops = []
    for _ in range(draw(st.integers(1, 8))):
        op = draw(st.sampled_from(OPS))
        o = {"op": op, "on": draw(st.integers(0, 6)), "a": draw(st.integers(-6, 6)), "b": draw(st.integers(-6, 6)), "c": draw(st.integers(1, 3))}
        if op in ("set", "set_many", "pick", "get", "wrong_length", "slice_of"):
            o["how"] = draw(st.sampled_from(INDEX if op in ("get", "set") else PICK))
        if op in ("set", "spoil_given"):
            o["value"] = draw(TREES)
        if op in ("set_many", "wrong_length"):
            o["values"] = draw(st.lists(TREES, min_size=6, max_size=6))
            o["given"] = draw(st.sampled_from(["list", "tuple", "objects", "nparray", "generator"]))
        ops.append(o)
    return {"n": n, "init": draw(st.lists(TREES, min_size=n, max_size=n)), "ops": ops, "make": draw(st.sampled_from(["size", "tuple", "numpy", "make_tensor", "make_empty", "as_tensor"]))}


class Model:
    """A one-dimensional array: positions in a memory which may be shared with other arrays"""

    def __init__(self, memory, at, read_only=False):
        self.memory, self.at, self.read_only = memory, list(at), read_only

    def values(self):
        return [self.memory[i] for i in self.at]


def fresh(values, read_only=False):
    return Model(list(values), range(len(values)), read_only)


def key_for(how, o, n):
    """The index object and the list of positions which it means."""
    if how in ("slice", "step"):
        k = slice(o["a"], o["b"], 1 if how == "slice" else o["c"])
        return k, list(range(n))[k]
    if how in ("mask", "np_mask"):
        bits = [bool((i * 3 + o["a"]) % 4 < 2) for i in range(n)]
        return (torch.tensor(bits, dtype=torch.bool) if how == "mask" else np.array(bits, dtype=bool)), [i for i in range(n) if bits[i]]
    pos = [] if n == 0 else [(o["a"] * k + o["b"]) % n for k in range(o["c"])]
    signed = [i - n if (i + o["c"]) % 2 else i for i in pos]
    if how == "list":
        return signed, pos
    if how == "index_tensor":
        return torch.tensor(signed, dtype=torch.int64), pos
    return np.array(signed, dtype=np.int64), pos


def int_key(how, i):
    return {"int": i, "np_int": np.int64(i), "tensor_int": torch.tensor(i)}[how]


def given_as(kind, values):
    if kind == "tuple":
        return tuple(values)
    if kind == "objects":
        a = ObjectArray(len(values))
        for i, v in enumerate(values):
            a[i] = v
        return a
    if kind == "nparray":
        a = np.empty(len(values), dtype=object)
        for i, v in enumerate(values):
            a[i] = v
        return a
    if kind == "generator":
        return (v for v in values)
    return list(values)


def compare(x, m, what):
    require(isinstance(x, ObjectArray), lambda: f"{what}: expected an object array, got {type(x).__name__}")
    want = m.values()
    eq(len(x), len(want), f"{what}: length")
    eq(tuple(x.shape), (len(want),), f"{what}: shape")
    eq([freeze(v) for v in x], want, f"{what}: elements")
    eq([freeze(x[i]) for i in range(len(x))], want, f"{what}: elements by index")
    eq(x.is_read_only, m.read_only, f"{what}: read-only")


def check_program(case, ctx):
    n = case["n"]
    first = [build(t) for t in case["init"]]
    how = case["make"]
    if how == "size":
        x = ObjectArray(n)
        eq([v for v in x], [None] * n, "a new object array")
        x[:] = first
    elif how == "tuple":
        x = ObjectArray((n,))
        for i, v in enumerate(first):
            x[i] = v
    elif how == "numpy":
        x = ObjectArray.from_numpy(given_as("nparray", first))
    elif how == "make_tensor":
        x = make_tensor(first, dtype=object)
    elif how == "as_tensor":
        x = as_tensor(first, dtype=object)
    else:
        x = make_empty(n, dtype=object)
        x[:] = first
    arrays = [(x, fresh([freeze(v) for v in first]))]
    for v in first:
        change_all(v)
    compare(*arrays[0], f"array made by {how}")
    eq((x.ndim, x.dim(), x.numel(), tuple(x.size()), x.dtype, x.device), (1, 1, n, (n,), object, torch.device("cpu")), "attributes")
    shared = False
    for step, o in enumerate(case["ops"]):
        x, m = arrays[o["on"] % len(arrays)]
        size, op = len(m.at), o["op"]
        what = f"step {step} ({op} {o.get('how', '')})"
        ctx.label(op)
        if op in ("get", "set") and size:
            i = o["a"] % size - (size if o["b"] < 0 else 0)
            k = int_key(o["how"], i)
            if op == "get":
                eq(freeze(x[k]), m.values()[i], what)
            else:
                v = build(o["value"])
                if m.read_only:
                    must_raise(lambda: x.__setitem__(k, v), what)
                else:
                    x[k] = v
                    m.memory[m.at[i]] = freeze(v)
                    change_all(v)
        elif op in ("pick", "slice_of"):
            k, pos = key_for(o["how"], o, size)
            if o["how"] == "list" and not k:
                continue
            view = o["how"] in ("slice", "step")
            new = ObjectArray(slice_of=(x, k)) if op == "slice_of" else x[k]
            nm = Model(m.memory, [m.at[i] for i in pos], m.read_only) if view else fresh([m.values()[i] for i in pos], m.read_only)
            if view and len(pos):
                shared = True
                eq(new.storage().data_ptr() == x.storage().data_ptr(), True, f"{what}: shares memory")
            if not view and len(pos):
                eq(new.storage().data_ptr() == x.storage().data_ptr(), False, f"{what}: shares memory")
            arrays.append((new, nm))
        elif op in ("set_many", "wrong_length"):
            k, pos = key_for(o["how"], o, size)
            if o["how"] == "list" and not k:
                continue
            need = len(pos) if op == "set_many" else len(pos) + (1 if o["c"] > 1 or not pos else -1)
            values = [build(o["values"][i % 6]) for i in range(need)]
            given = given_as(o["given"], values)
            if m.read_only or op == "wrong_length":
                must_raise(lambda: x.__setitem__(k, given), what)
            else:
                x[k] = given
                for i, v in zip(pos, values):
                    m.memory[m.at[i]] = freeze(v)
                for v in values:
                    change_all(v)
        elif op == "overlap" and size >= 2 and not m.read_only:
            if o["c"] == 1:
                x[1:] = x[:-1]
                vals = m.values()[:-1]
                for i, v in zip(m.at[1:], vals):
                    m.memory[i] = v
            else:
                x[:-1] = x[1:]
                vals = m.values()[1:]
                for i, v in zip(m.at[:-1], vals):
                    m.memory[i] = v
        elif op == "repeat":
            r = x.repeat(o["c"]) if o["a"] % 2 else x.repeat((o["c"],))
            arrays.append((r, fresh(m.values() * o["c"])))
        elif op in ("clone", "copy", "deepcopy", "pickle"):
            if op == "clone":
                new = x.clone(preserve_read_only=True) if o["c"] == 1 else clone(x)
            else:
                new = {"copy": copy.copy, "deepcopy": copy.deepcopy, "pickle": lambda z: pickle.loads(pickle.dumps(z))}[op](x)
            arrays.append((new, fresh(m.values(), m.read_only)))
            for _, part in walk(new):
                if isinstance(part, np.ndarray):
                    require(not part.flags.writeable, f"{what}: an array in the copy is writable")
        elif op == "numpy":
            a = x.numpy() if o["c"] == 1 else x.clone()
            require(isinstance(a, np.ndarray) and a.dtype == np.dtype(object), f"{what}: not an array of objects")
            eq([freeze(v) for v in a], m.values(), what)
            expect_mutable(a, what)
            change_all(a)
        elif op in ("read_only", "as_read_only"):
            new = x.get_read_only_view() if op == "read_only" else as_read_only_tensor(x)
            arrays.append((new, Model(m.memory, m.at, True)))
            shared = True
        elif op == "set_read_only":
            r = x.get_read_only_view()
            for name, f in attempts(r):
                must_raise(f, f"{what}: {name} on a read-only array")
        elif op == "iterate":
            eq([freeze(v) for v in list(x)], m.values(), what)
            eq([freeze(v) for v in reversed(x)], m.values()[::-1], what)
        elif op == "spoil_read":
            for i in range(size):
                v = x[i]
                if not (v is None or isinstance(v, (str, int, float))):
                    expect_immutable(v, m.values()[i], f"{what}: element {i}")
        elif op == "spoil_given" and size and not m.read_only:
            v = build(o["value"])
            x[:] = [v] * size
            for i in m.at:
                m.memory[i] = freeze(v)
            change_all(v)
        elif op == "wrong_index":
            for bad in (size, -size - 1, size + 3):
                must_raise(lambda: x[bad], f"{what}: index {bad} of {size}", IndexError)
                must_raise(lambda: x.__setitem__(bad, 1), f"{what}: assignment to index {bad} of {size}")
        for j, (y, ym) in enumerate(arrays):
            compare(y, ym, f"array {j} after {what}")
    if n >= 2 and len(arrays) > 1:
        ctx.hit("views" if shared else "copies")


# -- things built with one another ------------------------------------------------------------------------------------


@st.composite
def cyc_case(draw):
    return {"n": draw(st.integers(1, 4)), "i": draw(st.integers(0, 3)), "tree": draw(TREES), "how": draw(st.sampled_from(["pickle", "deepcopy", "clone"]))}


def check_shared(case, ctx):
    """Values put together keep what they share; what is read can be put into another array."""
    n = case["n"]
    part = build(case["tree"])
    want = freeze(part)
    a = ObjectArray(n + 1)
    a[:] = [[part, {"again": part}]] * (n + 1)
    for v in a:
        eq((freeze(v[0]), freeze(v[1]["again"])), (want, want), "elements")
    change_all(part)
    b = ObjectArray(n)
    b[:] = a[:n]
    b[case["i"] % n] = a[n][1]
    for j in range(n):
        eq(freeze(b[j]), ("dict", (("str", "again", want),)) if j == case["i"] % n else ("list", (want, ("dict", (("str", "again", want),)))), "element taken from another array")
    c = {"pickle": lambda: pickle.loads(pickle.dumps(b)), "deepcopy": lambda: copy.deepcopy(b), "clone": lambda: b.clone(preserve_read_only=True)}[case["how"]]()
    eq([freeze(v) for v in c], [freeze(v) for v in b], f"elements of the {case['how']}")
    b[:] = [None] * n
    require(all(v is not None for v in c), f"the {case['how']} changed with the original")
    for bad in ([1, 2], [(1, 2)], 5):
        must_raise(lambda: ObjectArray(slice_of=(bad, slice(None))), "a slice of something else", TypeError)
    must_raise(lambda: ObjectArray(), "no arguments", ValueError)
    must_raise(lambda: ObjectArray(2, slice_of=(a, slice(0, 1))), "both arguments", ValueError)
    must_raise(lambda: ObjectArray((2, 3)), "a two-dimensional size", ValueError)
    must_raise(lambda: ObjectArray.from_numpy(np.zeros(2)), "an array of numbers", ValueError)
    must_raise(lambda: ObjectArray.from_numpy([1]), "a list", TypeError)
    must_raise(lambda: a.repeat(2, 2), "two repetitions", ValueError)
    must_raise(lambda: a.__setitem__(0, object()), "an object of unsupported type", TypeError)
    if isinstance(case["tree"], dict):
        ctx.hit(case["how"])


FACETS = [
    Facet("programs", program(), check_program, quick=500, thorough=10000, rule="at least two elements and at least one array derived from another"),
    Facet("shared values", cyc_case(), check_shared, quick=100, thorough=1500, rule="the value is a container or an array"),
]
