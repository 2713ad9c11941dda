"""C21: tensor-based memories, dictionaries, lists and bags agree with one ordinary Python container per batch item."""

import itertools
import math

import torch
from hypothesis import strategies as st

from evotorch.tools.structures import CBag, CDict, CList, CMemory

from .common import DT, eq, must_raise, often, plain, rand_grid, require, same, seeds, show
from harness.core import Facet

TECHNIQUE = "property-based testing: generated programs on batched structures, compared after every operation with one ordinary Python container per batch item"

BATCHES = [[], [1], [2], [3], [4], [2, 3], [3, 1], [2, 1, 2], [2, 2, 3]]
F64 = torch.float64


def coords(shape):
    return list(itertools.product(*[range(n) for n in shape]))


def numbers(seed, shape, dtype, kind):
    """Values which are exact under a few operations in every type"""
    if dtype == "bool":
        return rand_grid(seed, shape, 0, 1, 1.0, torch.int64).bool()
    if kind == "divide":
        return (2.0 ** rand_grid(seed, shape, -1, 1, 1.0, F64)).to(DT[dtype])
    if kind == "multiply":
        return rand_grid(seed, shape, -2, 3, 1.0, F64).to(DT[dtype])
    if kind == "mod":
        return rand_grid(seed, shape, 2, 7, 1.0, F64).to(DT[dtype])
    return rand_grid(seed, shape, -9, 9, 1.0, F64).to(DT[dtype])


def apply(op, old, v, mod=None):
    if op == "set":
        return v.clone()
    if old.dtype == torch.bool:
        return old | v if op == "add" else old & v
    if op == "add":
        return old + v
    if op == "subtract":
        return old - v
    if op == "multiply":
        return old * v
    if op == "divide":
        return old / v
    return torch.remainder(old + v, mod)


@st.composite
def mask_for(draw):
    return draw(st.one_of(st.none(), st.integers(0, 255)))


def mask_tensor(bits, batch):
    if bits is None:
        return None, (lambda b: True)
    cs = coords(batch)
    flags = {b: bool((bits >> (i % 8)) & 1) for i, b in enumerate(cs)}
    t = torch.tensor([flags[b] for b in cs], dtype=torch.bool).reshape(batch)
    return t, (lambda b: flags[b])


def value_given(o, batch, vshape, dtype, kind):
    """The value as given to the method, and the value for each batch item."""
    how = o["value"]
    if how == "scalar":
        v = numbers(o["seed"], (), dtype, kind)
        given = v.item() if o["seed"] % 2 else v
        return given, (lambda b: v.expand(vshape).clone())
    if how == "common":
        v = numbers(o["seed"], vshape, dtype, kind)
        return (v.tolist() if kind in ("set", "add") and o["seed"] % 3 == 0 and len(vshape) else v), (lambda b: v.clone())
    v = numbers(o["seed"], list(batch) + list(vshape), dtype, kind)
    return v, (lambda b: v[b].clone())


# -- memories and dictionaries ----------------------------------------------------------------------------------------

MOPS = ["get", "set", "set", "set", "add", "subtract", "multiply", "divide", "circular", "invalid", "item"]
DOPS = ["get", "set", "set", "set", "add", "subtract", "multiply", "divide", "default", "default", "contains", "clear", "clear", "invalid", "item"]


@st.composite
def keyed_case(draw, kind):
    multi = draw(st.integers(0, 2)) == 0
    num_keys = draw(st.lists(st.integers(1, 3), min_size=2, max_size=3)) if multi else draw(often(1, 5, 20))
    offset = draw(st.sampled_from([None, None, 0, 1, 5, -2]))
    if multi and offset is not None and draw(st.booleans()):
        offset = [offset + i for i in range(len(num_keys))]
    ops = []
    for _ in range(draw(often(1, 9, 25))):
        ops.append(
            {
                "op": draw(st.sampled_from(MOPS if kind == "memory" else DOPS)),
                "seed": draw(seeds),
                "key": draw(st.sampled_from(["common", "common", "each"])),
                "value": draw(st.sampled_from(["scalar", "common", "each"])),
                "where": draw(mask_for()),
            }
        )
    return {
        "batch": draw(st.sampled_from(BATCHES)),
        "vshape": draw(st.sampled_from([[], [], [2], [1], [2, 3]])),
        "num_keys": num_keys,
        "offset": offset,
        "dtype": draw(st.sampled_from(["float32", "float32", "float64", "int64", "bool"])),
        "fill": draw(st.sampled_from([0, 1])),
        "verify": draw(st.booleans()),
        "ops": ops,
        "sizes": draw(st.booleans()),
    }


def verification(case):
    """Verification is on unless it is turned off."""
    return {} if case["verify"] and len(case["ops"]) % 2 else {"verify": case["verify"]}


def build_keyed(cls, case, **kw):
    b, v = case["batch"], case["vshape"]
    if b:
        if len(b) == 1 and case["sizes"]:
            kw["batch_size"] = b[0]
        elif case["sizes"]:
            kw["batch_size"] = list(b)
        else:
            kw["batch_shape"] = tuple(b)
    nk = case["num_keys"]
    off = case["offset"]
    return cls(*([tuple(v)] if case["sizes"] and v else v), num_keys=tuple(nk) if isinstance(nk, list) else nk, key_offset=tuple(off) if isinstance(off, list) else off, dtype=DT[case["dtype"]], **kw, **verification(case))


def key_lists(case):
    nk, off = case["num_keys"], case["offset"]
    sizes = nk if isinstance(nk, list) else [nk]
    offs = off if isinstance(off, list) else [off or 0] * len(sizes)
    return sizes, offs


def keys_given(o, case, multi):
    """The key as given, and the key (a tuple, without offsets) for each batch item."""
    sizes, offs = key_lists(case)
    g = torch.Generator().manual_seed(o["seed"] + 7)
    batch = case["batch"] if o["key"] == "each" else []
    per = {}
    flat = []
    for b in coords(batch):
        k = tuple(int(torch.randint(0, n, (), generator=g)) for n in sizes)
        per[b] = k
        flat.append([i + f for i, f in zip(k, offs)])
    t = torch.tensor(flat, dtype=torch.int64).reshape(list(batch) + [len(sizes)])
    if not multi:
        t = t[..., 0]
    given = t.tolist() if o["seed"] % 3 == 0 else t
    return given, (lambda b: per[b] if o["key"] == "each" else per[()])


def check_memory_data(m, model, case, what, exist=None):
    data = plain(m.data)
    sizes, _ = key_lists(case)
    eq(tuple(data.shape), tuple(case["batch"]) + tuple(sizes) + tuple(case["vshape"]), f"{what}: shape of the data")
    for b in coords(case["batch"]):
        for k in coords(sizes):
            if exist is not None and not exist[b][k]:
                continue
            got, want = data[b + k], model[b][k]
            require(torch.equal(got, want) or bool(torch.isclose(got.to(F64), want.to(F64), rtol=1e-5).all()), lambda: f"{what}: batch item {b}, key {k}: {show(got)}, expected {show(want)}")


def check_keyed(case, ctx, kind):
    dt = DT[case["dtype"]]
    multi = isinstance(case["num_keys"], list)
    sizes, offs = key_lists(case)
    batch, vshape = case["batch"], case["vshape"]
    if kind == "memory":
        m = build_keyed(CMemory, case, fill_with=bool(case["fill"]) if case["dtype"] == "bool" else case["fill"])
        exist = None
    else:
        m = build_keyed(CDict, case)
        exist = {b: {k: False for k in coords(sizes)} for b in coords(batch)}
        m.data[...] = torch.full(vshape, case["fill"]).to(dt)
    model = {b: {k: torch.full(vshape, case["fill"]).to(dt) for k in coords(sizes)} for b in coords(batch)}
    eq((tuple(m.batch_shape), m.batch_ndim, m.is_batched), (tuple(batch), len(batch), len(batch) > 0), "batch shape")
    eq((tuple(m.value_shape), m.value_ndim, m.dtype), (tuple(vshape), len(vshape), dt), "values")
    check_memory_data(m, model, case, "new structure", None)
    cls = CMemory if kind == "memory" else CDict
    nk = tuple(sizes) if multi else sizes[0]
    for why, kw in (
        ("two batch shapes", {"num_keys": nk, "batch_size": 2, "batch_shape": (3,)}),
        ("one size in a tuple of numbers of keys", {"num_keys": (3,)}),
        ("wrong number of offsets", {"num_keys": nk, "key_offset": tuple(offs) + (1,)}),
    ):
        must_raise(lambda: cls(**kw), why, RuntimeError)
    spare = list(batch) + [2, 7]
    some = offs if multi else offs[0]
    must_raise(lambda: m.get(torch.zeros(spare + [len(sizes)], dtype=torch.int64) + torch.tensor(some)), "keys of another shape", RuntimeError)
    must_raise(lambda: m.set_(some, torch.zeros(spare + list(vshape), dtype=dt)), "values of another shape", RuntimeError)
    must_raise(lambda: m.set_(some, 1, where=torch.ones(spare, dtype=torch.bool)), "a mask of another shape", RuntimeError)
    for step, o in enumerate(case["ops"]):
        op = o["op"]
        what = f"step {step}, {op}"
        if case["dtype"] == "bool" and op == "circular":
            must_raise(lambda: m.add_circular_(some, True, True), "circular addition of truth values", ValueError)
        if case["dtype"] == "bool" and op in ("subtract", "divide", "circular"):
            continue
        if op == "divide" and not dt.is_floating_point:
            continue
        key, key_of = keys_given(o, case, multi)
        where, on = mask_tensor(o["where"], batch)
        ctx.label(op)
        if op in ("get", "item"):
            if exist is not None and not all(exist[b][key_of(b)] for b in coords(batch)):
                continue
            got = m.get(key) if op == "get" else m[key]
            eq(tuple(got.shape), tuple(batch) + tuple(vshape), f"{what}: shape")
            for b in coords(batch):
                require(torch.equal(plain(got)[b], model[b][key_of(b)]), lambda: f"{what}: batch item {b}: {show(got[b])}, expected {show(model[b][key_of(b)])}")
        elif op == "contains":
            got = m.contains(key)
            eq(tuple(got.shape), tuple(batch), f"{what}: shape")
            for b in coords(batch):
                eq(bool(got[b]), exist[b][key_of(b)], f"{what}: batch item {b}")
        elif op == "default":
            d, default = value_given(o, batch, vshape, case["dtype"], "set")
            got = m.get(key, default=d)
            for b in coords(batch):
                want = model[b][key_of(b)] if exist[b][key_of(b)] else default(b)
                require(torch.equal(plain(got)[b], want), lambda: f"{what}: batch item {b}: {show(got[b])}, expected {show(want)}")
        elif op == "clear":
            m.clear() if where is None else m.clear(where)
            for b in coords(batch):
                if on(b):
                    exist[b] = dict.fromkeys(exist[b], False)
        elif op == "invalid":
            if not case["verify"]:
                continue
            bad = [s + f for s, f in zip(sizes, offs)] if o["seed"] % 2 else [f - 1 for f in offs]
            bad = bad if multi else bad[0]
            must_raise(lambda: m.get(bad), f"{what}: key {bad}", KeyError)
            must_raise(lambda: m.set_(bad, 1), f"{what}: setting key {bad}", KeyError)
            # only one part of the key, and only the key of one batch item
            t = torch.tensor(key)
            wrong = torch.tensor(bad)
            if multi:
                i = o["seed"] // 2 % len(sizes)
                part = t.clone()
                part[..., i] = wrong[i]
                must_raise(lambda: m.get(part), f"{what}: keys {part.tolist()}", KeyError)
                must_raise(lambda: m.set_(part, 1), f"{what}: setting keys {part.tolist()}", KeyError)
            if batch and o["key"] == "each":
                one = t.clone()
                one[coords(batch)[o["seed"] // 4 % len(coords(batch))]] = wrong
                must_raise(lambda: m.get(one), f"{what}: keys {one.tolist()}", KeyError)
                must_raise(lambda: m.set_(one, 1), f"{what}: setting keys {one.tolist()}", KeyError)
                ctx.hit("one invalid key")
            if batch and where is not None and o["key"] == "each":
                # an invalid key does not matter where the mask is off
                t = torch.tensor(key)
                t[~where] = torch.tensor(bad)
                does = ["set", "add", "multiply", "circular"][o["seed"] // 8 % (4 if exist is None and case["dtype"] != "bool" else 3)]
                v, value = value_given(o, batch, vshape, case["dtype"], does)
                if does == "circular":
                    md, mod = value_given({**o, "seed": o["seed"] + 1}, batch, vshape, case["dtype"], "mod")
                    m.add_circular_(t, v, md, where=where)
                else:
                    getattr(m, does + "_")(t, v, where=where)
                for b in coords(batch):
                    if on(b):
                        k = key_of(b)
                        model[b][k] = apply(does, model[b][k], value(b), mod(b) if does == "circular" else None).to(dt)
                        if exist is not None and does == "set":
                            exist[b][k] = True
                ctx.label("masked invalid key")
                if not bool(where.all()):
                    ctx.hit("masked invalid key")
        else:
            v, value = value_given(o, batch, vshape, case["dtype"], op)
            w = {} if where is None else {"where": where.tolist() if o["seed"] % 5 == 0 else where}
            if op == "circular":
                md, mod = value_given({**o, "seed": o["seed"] + 1}, batch, vshape, case["dtype"], "mod")
                m.add_circular_(key, v, md, **w)
            elif op == "set" and where is None and o["seed"] % 2:
                m[key] = v
            else:
                getattr(m, op + "_")(key, v, **w)
            for b in coords(batch):
                if on(b):
                    k = key_of(b)
                    model[b][k] = apply(op, model[b][k], value(b), mod(b) if op == "circular" else None).to(dt)
                    if exist is not None and op == "set":
                        exist[b][k] = True
            if len(coords(batch)) > 1:
                ctx.hit("masked" if where is not None else "batched")
        check_memory_data(m, model, case, f"after {what}", None)


def check_memory(case, ctx):
    check_keyed(case, ctx, "memory")


def check_dict(case, ctx):
    check_keyed(case, ctx, "dict")


# -- lists ------------------------------------------------------------------------------------------------------------

LOPS = ["append", "append", "append", "push", "appendleft", "appendleft", "pop", "popleft", "get", "get", "default", "set", "add", "multiply", "subtract", "divide", "clear", "item", "overfull", "underfull"]  # fmt: skip


@st.composite
def list_case(draw):
    n = draw(often(1, 4, 12))
    ops = []
    for _ in range(draw(often(3, 18, 45))):
        ops.append(
            {
                "op": draw(st.sampled_from(LOPS)),
                "seed": draw(seeds),
                "value": draw(st.sampled_from(["scalar", "common", "each"])),
                "where": draw(mask_for()),
                "i": draw(st.one_of(st.integers(-6, 6), st.integers(-6, 6), st.integers(-14, 14))),
                "each": draw(st.booleans()),
            }
        )
    return {
        "batch": draw(st.sampled_from(BATCHES)),
        "vshape": draw(st.sampled_from([[], [], [2], [2, 2]])),
        "max": n,
        "dtype": draw(st.sampled_from(["float32", "float32", "int64", "bool"])),
        "verify": draw(st.sampled_from([True, True, False])),
        "ops": ops,
    }


def check_list(case, ctx):
    dt, batch, vshape, top = DT[case["dtype"]], case["batch"], case["vshape"], case["max"]
    kw = {"batch_shape": tuple(batch)} if batch else {}
    x = CList(*vshape, max_length=top, dtype=dt, **kw, **verification(case))
    model = {b: [] for b in coords(batch)}
    eq((tuple(x.batch_shape), x.is_batched, x.max_length, tuple(x.value_shape), x.dtype), (tuple(batch), len(batch) > 0, top, tuple(vshape), dt), "attributes")
    wrapped = 0
    for step, o in enumerate(case["ops"]):
        op = o["op"]
        what = f"step {step}, {op}"
        where, on = mask_tensor(o["where"], batch)
        chosen = [b for b in coords(batch) if on(b)]
        w = {} if where is None else {"where": where}
        if op in ("append", "push", "appendleft"):
            v, value = value_given(o, batch, vshape, case["dtype"], "set")
            if any(len(model[b]) == top for b in chosen):
                if case["verify"]:
                    must_raise(lambda: getattr(x, op + "_")(v, **w), f"{what} to a full list", IndexError)
                    ctx.label("full")
                continue
            getattr(x, op + "_")(v, **w)
            for b in chosen:
                model[b].insert(0 if op == "appendleft" else len(model[b]), value(b))
        elif op in ("pop", "popleft"):
            if any(not model[b] for b in chosen):
                if case["verify"]:
                    must_raise(lambda: getattr(x, op + "_")(**w), f"{what} from an empty list", IndexError)
                    ctx.label("empty")
                continue
            got = getattr(x, op + "_")(**w)
            for b in chosen:
                want = model[b].pop(0 if op == "popleft" else -1)
                require(torch.equal(plain(got)[b], want), lambda: f"{what}: batch item {b}: {show(got[b])}, expected {show(want)}")
            wrapped += 1
        elif op == "clear":
            if o["seed"] % 3 == 0:
                x.clear() if where is None else x.clear(where)
                for b in chosen:
                    model[b] = []
        elif op in ("overfull", "underfull"):
            if not case["verify"]:
                continue
            if batch:
                must_raise(lambda: x.get(torch.zeros([*batch, 2], dtype=torch.int64)), f"{what}: indices of a wrong shape", ValueError)
            for i in ([top, top + 1, 2 * top] if op == "overfull" else [-top - 1, -2 * top, -2 * top - 1]):
                must_raise(lambda: x.get(i), f"{what}: index {i} of lists of at most {top}", IndexError)
                d = numbers(o["seed"], vshape, case["dtype"], "set")
                got = x.get(i, default=d)
                for b in coords(batch):
                    require(torch.equal(plain(got)[b], d), lambda: f"{what}: index {i} with a default: {show(got[b])}, expected {show(d)}")
        else:
            # indices, common or one for each item
            per = {b: o["i"] + (j if o["each"] else 0) for j, b in enumerate(coords(batch))}
            if o["each"] and batch:
                key = torch.tensor([per[b] for b in coords(batch)]).reshape(batch)
            else:
                key = o["i"]
            valid = {b: -len(model[b]) <= per[b] < len(model[b]) for b in coords(batch)}
            if op == "default":
                d, default = value_given(o, batch, vshape, case["dtype"], "set")
                got = x.get(key, default=d)
                for b in coords(batch):
                    want = model[b][per[b]] if valid[b] else default(b)
                    require(torch.equal(plain(got)[b], want), lambda: f"{what}: index {per[b]} of batch item {b}: {show(got[b])}, expected {show(want)}")
            elif op in ("get", "item"):
                if not all(valid.values()):
                    if case["verify"]:
                        must_raise(lambda: x.get(key) if op == "get" else x[key], f"{what}: index out of range", IndexError)
                        ctx.label("out of range")
                    continue
                got = x.get(key) if op == "get" else x[key]
                for b in coords(batch):
                    require(torch.equal(plain(got)[b], model[b][per[b]]), lambda: f"{what}: index {per[b]} of batch item {b}: {show(got[b])}, expected {show(model[b][per[b]])}")
            else:
                if case["dtype"] == "bool" and op in ("subtract", "divide") or (op == "divide" and not dt.is_floating_point):
                    continue
                v, value = value_given(o, batch, vshape, case["dtype"], op)
                if not all(valid[b] for b in chosen):
                    if case["verify"]:
                        must_raise(lambda: getattr(x, op + "_")(key, v, **w), f"{what}: index out of range", IndexError)
                    continue
                if op == "set" and where is None:
                    x[key] = v
                else:
                    getattr(x, op + "_")(key, v, **w)
                for b in chosen:
                    model[b][per[b]] = apply(op, model[b][per[b]], value(b)).to(dt)
        ctx.label(op)
        lengths = x.length
        eq(tuple(lengths.shape), tuple(batch), f"{what}: shape of the lengths")
        for b in coords(batch):
            eq(int(lengths[b]), len(model[b]), f"after {what}: length of batch item {b}")
            for i, want in enumerate(model[b]):
                got = x.get(i, default=numbers(1, (), case["dtype"], "set"))[b]
                require(bool(torch.isclose(plain(got).to(F64), want.to(F64)).all()), lambda: f"after {what}: element {i} of batch item {b}: {show(got)}, expected {show(want)}")
    if wrapped >= 2 and len(coords(batch)) > 1:
        ctx.hit("elements removed")


# -- bags -------------------------------------------------------------------------------------------------------------


@st.composite
def bag_case(draw):
    top = draw(st.integers(1, 8))
    big = draw(st.integers(0, 9)) == 0
    return {
        "batch": draw(st.sampled_from(BATCHES)),
        "max": top if not big else 200,
        "range": draw(st.sampled_from([None, [0, 5], [3, 9], [-4, 2], [10, 15], [1, 4], [2, 3], [100, 300]])) if not big else [0, 200],
        "dtype": draw(st.sampled_from([None, "int64", "int32", "int16"])),
        "pushes": draw(st.lists(st.tuples(seeds, mask_for(), st.booleans()).map(list), min_size=1, max_size=8 if not big else 12)),
        "pops": draw(st.lists(mask_for(), max_size=9)),
        "seed": draw(seeds),
        "again": draw(st.booleans()),
    }


def check_bag(case, ctx):
    batch, top = case["batch"], case["max"]
    lo, hi = case["range"] or [0, top]
    kw = {"batch_shape": tuple(batch)} if batch else {}
    if case["range"]:
        kw["value_range"] = (lo, hi)
    if case["dtype"]:
        kw["dtype"] = DT[case["dtype"]]

    def play(record):
        x = CBag(max_length=top, generator=torch.Generator().manual_seed(case["seed"]), **kw)
        eq((tuple(x.batch_shape), x.is_batched, x.dtype), (tuple(batch), len(batch) > 0, DT[case["dtype"] or "int64"]), "attributes")
        for turn in range(2 if case["again"] else 1):
            bags = {b: [] for b in coords(batch)}
            for seed, bits, each in case["pushes"]:
                where, on = mask_tensor(bits, batch)
                chosen = [b for b in coords(batch) if on(b)]
                w = {} if where is None else {"where": where}
                v = rand_grid(seed + turn, batch if each else [], lo, hi - 1, 1.0, torch.int64)
                given = v.item() if v.ndim == 0 and seed % 2 else v
                if any(len(bags[b]) == top for b in chosen):
                    must_raise(lambda: x.push_(given, **w), "push into a full bag", IndexError)
                    continue
                x.push_(given, **w)
                for b in chosen:
                    bags[b].append(int(v[b]) if each else int(v))
            for b in coords(batch):
                eq(int(x.length[b]), len(bags[b]), f"size of bag {b}")
            popped = False
            for bits in case["pops"]:
                where, on = mask_tensor(bits, batch)
                chosen = [b for b in coords(batch) if on(b)]
                w = {} if where is None else {"where": where}
                if any(not bags[b] for b in chosen):
                    must_raise(lambda: x.pop_(**w), "pop from an empty bag", IndexError)
                    continue
                got = x.pop_(**w)
                popped = True
                for b in chosen:
                    item = int(got[b])
                    require(item in bags[b], lambda: f"bag {b} gave {item}, while it had {sorted(bags[b])}")
                    bags[b].remove(item)
                    record.append(item)
                for b in coords(batch):
                    eq(int(x.length[b]), len(bags[b]), f"size of bag {b} after a pop")
            if popped:
                must_raise(lambda: x.push_(lo), "push after the first pop", RuntimeError)
            x.clear()
            require(not bool((x.length != 0).any()), "a cleared bag is not empty")
            if any(len(v) for v in bags.values()) or popped:
                ctx.hit("popped" if popped else "pushed")

    must_raise(lambda: CBag(max_length=top, dtype=[torch.float32, torch.int8, "bool"][case["seed"] % 3]), "a bag of another data type", RuntimeError)
    must_raise(lambda: CBag(max_length=top, batch_size=2, batch_shape=(2,)), "two batch shapes", RuntimeError)
    first, second = [], []
    play(first)
    play(second)
    eq(second, first, "the same program with the same seed")


@st.composite
def uniform_case(draw):
    return {"n": draw(st.integers(2, 4)), "top": draw(st.integers(4, 7)), "seed": draw(seeds), "range": draw(st.sampled_from([None, [5, 20]]))}


def check_uniform(case, ctx):
    """Over many bags, every order of the items is equally frequent."""
    N, n = 4000, case["n"]
    lo = 0 if case["range"] is None else case["range"][0]
    kw = {} if case["range"] is None else {"value_range": tuple(case["range"])}
    x = CBag(max_length=case["top"], batch_size=N, generator=torch.Generator().manual_seed(case["seed"]), **kw)
    for i in range(n):
        x.push_(lo + i)
    order = torch.stack([x.pop_() for _ in range(n)], dim=-1) - lo
    eq(sorted(set(order.sum(-1).tolist())), [n * (n - 1) // 2], "sum of the items of each bag")
    counts = {}
    for row in order.tolist():
        counts[tuple(row)] = counts.get(tuple(row), 0) + 1
    perms = list(itertools.permutations(range(n)))
    p = 1 / len(perms)
    sd = math.sqrt(N * p * (1 - p))
    for q in perms:
        require(abs(counts.get(q, 0) - N * p) <= 7 * sd + 1, lambda: f"order {q} came out {counts.get(q, 0)} times of {N}; expected about {N * p:.0f}")
    ctx.hit("orders")


FACETS = [
    Facet("memories", keyed_case("memory"), check_memory, quick=300, thorough=6000, rule="a modification of a batched memory"),
    Facet("dictionaries", keyed_case("dict"), check_dict, quick=300, thorough=6000, rule="a modification of a batched dictionary"),
    Facet("lists", list_case(), check_list, quick=300, thorough=6000, rule="batched, and at least two elements were removed (so that positions wrap around)"),
    Facet("bags", bag_case(), check_bag, quick=150, thorough=3000, rule="something was pushed"),
    Facet("orders of a bag", uniform_case(), check_uniform, quick=15, thorough=200, rule="any"),
]
