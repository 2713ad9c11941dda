"""C30: hooks as lists of functions, and status values computed on demand."""

import torch
from hypothesis import strategies as st

from evotorch.algorithms.searchalgorithm import LazyReporter
from evotorch.tools import ReadOnlyTensor
from evotorch.tools.hook import Hook

from .common import must_raise, require
from harness.core import Facet

TECHNIQUE = "property-based testing: generated sequences of list operations and calls on a hook, compared after every action with a plain Python list of the same functions and with an independent merge of their results; generated sequences of reads, clears and updates of on-demand status values, with counted getters"
ASSUMPTIONS = ["functions in a hook do not modify the hook while it is being called"]

LISTOPS = [
    "append", "append", "append", "insert", "insert", "extend", "iadd", "set", "set slice", "del", "del slice", "pop", "pop last", "remove",
    "reverse", "clear", "index", "count", "contains", "get", "get slice", "iterate", "bool",
]
CALLS = ["call", "call", "call", "call", "accumulate dict", "accumulate sequence", "call slice"]
ANSWERS = ["none", "dict", "dict", "dict", "list", "list", "tuple", "generator", "empty dict", "empty list", "mapping", "number", "text"]


class OwnMapping(dict):
    pass


class Fn:
    """A function with a record of its calls, which returns a fixed kind of answer"""

    def __init__(self, i, answer, keys, log):
        self.i, self.answer, self.keys, self.log = i, answer, keys, log
        self.made = None

    def value(self):
        """What this function contributes: None, ('dict', d), ('list', l) or ('bad', None)"""
        a = self.answer
        if a == "none":
            return None
        if a in ("dict", "mapping"):
            return "dict", {k: (self.i, k) for k in self.keys}
        if a == "empty dict":
            return "dict", {}
        if a in ("list", "tuple", "generator"):
            return "list", [(self.i, k) for k in self.keys]
        if a == "empty list":
            return "list", []
        if a == "text":
            return "list", list("ab")
        return "bad", None

    def __call__(self, *args, **kwargs):
        self.log.append((self.i, args, dict(kwargs)))
        v = self.value()
        if v is None:
            return None
        kind, x = v
        if kind == "bad":
            return 7
        if self.answer == "mapping":
            x = OwnMapping(x)
        elif self.answer == "tuple":
            x = tuple(x)
        elif self.answer == "generator":
            return (y for y in x)
        elif self.answer == "text":
            return "ab"
        self.made = x
        return x

    def intact(self):
        v = self.value()
        if self.made is None or v is None:
            return True
        return list(self.made) == list(v[1]) and (v[0] != "dict" or dict(self.made) == v[1])

    def __repr__(self):
        return f"fn{self.i}"


def merged(fns):
    """(how many functions are called, the result or TypeError)"""
    out = None
    for n, f in enumerate(fns):
        v = f.value()
        if v is None:
            continue
        kind, x = v
        if kind == "bad":
            return n + 1, TypeError
        if out is None:
            out = (kind, dict(x) if kind == "dict" else list(x))
        elif out[0] != kind:
            return n + 1, TypeError
        elif kind == "dict":
            out[1].update(x)
        else:
            out[1].extend(x)
    return len(fns), out


@st.composite
def hook_case(draw):
    flavour = draw(st.sampled_from(["any", "dicts", "lists", "nothing"]))
    allowed = {"any": ANSWERS, "dicts": ["none", "dict", "dict", "mapping", "empty dict"], "lists": ["none", "list", "tuple", "generator", "empty list"], "nothing": ["none"]}[flavour]
    nfn = draw(st.integers(1, 5))
    args = st.lists(st.integers(0, 9), max_size=3)
    kwargs = st.dictionaries(st.sampled_from(["p", "q", "r"]), st.integers(0, 9), max_size=3)
    op = st.sampled_from(LISTOPS + CALLS + CALLS)
    small = st.integers(-5, 5)
    return {
        "fns": [[draw(st.sampled_from(allowed)), draw(st.lists(st.sampled_from(["a", "b", "c"]), min_size=1, max_size=2, unique=True))] for _ in range(nfn)],
        "start": draw(st.none() | st.lists(st.integers(0, nfn - 1), max_size=3)),
        "args": draw(st.none() | args),
        "kwargs": draw(st.none() | kwargs),
        "ops": [
            [draw(op), draw(st.integers(0, nfn - 1)), draw(st.lists(st.integers(0, nfn - 1), max_size=3)), [draw(st.none() | small), draw(st.none() | small), draw(st.sampled_from([None, None, 1, 2, -1]))], draw(small), draw(args), draw(kwargs)]
            for _ in range(draw(st.integers(2, 14)))
        ],
    }


def check_hook(c, ctx):
    log = []
    fns = [Fn(i, a, keys, log) for i, (a, keys) in enumerate(c["fns"])]
    start = None if c["start"] is None else [fns[i] for i in c["start"]]
    pre_args, pre_kwargs = c["args"], c["kwargs"]
    kw = {}
    if pre_args is not None:
        kw["args"] = list(pre_args)
    if pre_kwargs is not None:
        kw["kwargs"] = dict(pre_kwargs)
    hook = Hook(start, **kw)
    model = [] if start is None else list(start)
    pre_args, pre_kwargs = tuple(pre_args or ()), dict(pre_kwargs or {})

    def call(h, funcs, how, args, kwargs, what):
        log.clear()
        for f in fns:
            f.made = None
        n, expected = merged(funcs)
        if how == "accumulate dict":
            run = lambda: h.accumulate_dict(*args, **kwargs)
            expected = ("dict", {}) if expected is None else (TypeError if expected is not TypeError and expected[0] == "list" else expected)
        elif how == "accumulate sequence":
            run = lambda: h.accumulate_sequence(*args, **kwargs)
            expected = ("list", []) if expected is None else (TypeError if expected is not TypeError and expected[0] == "dict" else expected)
        else:
            run = lambda: h(*args, **kwargs)
        if expected is TypeError:
            must_raise(run, f"{what}: results which cannot be merged", TypeError)
            ctx.label("not mergeable")
        else:
            out = run()
            if expected is None:
                require(out is None, f"{what}: {out!r} returned although no function returned anything")
            else:
                kind = dict if expected[0] == "dict" else list
                require(type(out) is kind and out == expected[1], f"{what}: {out!r} returned instead of {expected[1]!r}")
                if kind is dict:
                    require(list(out) == list(expected[1]), f"{what}: keys in the order {list(out)}")
                if out:
                    ctx.hit(expected[0])
        allkw = dict(pre_kwargs)
        allkw.update(kwargs)
        want = [(f.i, pre_args + tuple(args), allkw) for f in funcs[:n]]
        require(log == want, f"{what}: calls {log} instead of {want}")
        for f in fns:
            require(f.intact(), f"{what}: what a function returned was modified")

    for op, i, many, (a, b, step), k, args, kwargs in c["ops"]:
        f, group, sl = fns[i], [fns[j] for j in many], slice(a, b, step)
        what = f"after {op}"
        if op in ("call", "accumulate dict", "accumulate sequence"):
            call(hook, model, op, args, kwargs, op)
        elif op == "call slice":
            part = hook[sl]
            require(isinstance(part, Hook), "a slice of a hook is not a hook")
            call(part, model[sl], "call", args, kwargs, op)
            part.append(f)
        elif op == "append":
            hook.append(f)
            model.append(f)
        elif op == "insert":
            hook.insert(k, f)
            model.insert(k, f)
        elif op == "extend":
            hook.extend(iter(group))
            model.extend(group)
        elif op == "iadd":
            before = hook
            hook += group
            require(hook is before, "in-place addition made another hook")
            model += group
        elif op in ("set", "del", "get", "pop"):
            inside = -len(model) <= k < len(model)
            if not inside:
                def act():
                    if op == "set":
                        hook[k] = f
                    elif op == "del":
                        del hook[k]
                    elif op == "get":
                        return hook[k]
                    else:
                        return hook.pop(k)
                must_raise(act, f"{op} with index {k} of {len(model)}", IndexError)
            elif op == "set":
                hook[k] = f
                model[k] = f
            elif op == "del":
                del hook[k]
                del model[k]
            elif op == "get":
                require(hook[k] is model[k], "wrong function at an index")
            else:
                require(hook.pop(k) is model.pop(k), "wrong function popped")
        elif op == "set slice":
            if step is not None and step != 1:
                n = len(model[sl])
                group = [f] * n
            hook[sl] = group
            model[sl] = group
        elif op == "del slice":
            del hook[sl]
            del model[sl]
        elif op == "get slice":
            part = hook[sl]
            require(isinstance(part, Hook) and [x.i for x in part] == [x.i for x in model[sl]], "wrong slice")
            require(list(part.args) == list(pre_args) and dict(part.kwargs) == pre_kwargs, "a slice lost the registered arguments")
            part.clear()
        elif op == "pop last":
            if model:
                require(hook.pop() is model.pop(), "wrong function popped")
            else:
                must_raise(hook.pop, "popping from an empty hook", IndexError)
        elif op == "remove":
            if f in model:
                hook.remove(f)
                model.remove(f)
            else:
                must_raise(lambda: hook.remove(f), "removing an absent function", ValueError)
        elif op == "reverse":
            hook.reverse()
            model.reverse()
        elif op == "clear":
            hook.clear()
            model.clear()
        elif op == "index":
            if f in model:
                require(hook.index(f) == model.index(f), "wrong index")
            else:
                must_raise(lambda: hook.index(f), "index of an absent function", ValueError)
        elif op == "count":
            require(hook.count(f) == model.count(f), "wrong count")
        elif op == "contains":
            require((f in hook) == (f in model), "wrong membership")
        elif op == "iterate":
            require([x.i for x in reversed(hook)] == [x.i for x in reversed(model)], "wrong order in reverse")
        elif op == "bool":
            require(bool(hook) == bool(model), "wrong truth value")
            require(isinstance(repr(hook), str) and all(repr(x) in repr(hook) for x in model), "functions missing in the printed hook")
        if op in LISTOPS:
            ctx.label(op)
        require(len(hook) == len(model), f"{what}: {len(hook)} functions instead of {len(model)}")
        require(all(x is y for x, y in zip(hook, model)), f"{what}: functions {list(hook)} instead of {model}")
        require(list(hook.args) == list(pre_args) and dict(hook.kwargs) == pre_kwargs, f"{what}: registered arguments changed")
    if start is not None:
        require([x.i for x in start] == c["start"], "the list given by the user was modified")


STATUS_OPS = ["read", "read", "read", "read", "view", "get value", "clear", "clear", "update", "update", "add", "has", "computed", "keys", "print", "dict", "missing"]


@st.composite
def status_case(draw):
    keys = st.sampled_from(["a", "b", "c", "d", "e"])
    return {
        "start": draw(st.lists(keys, max_size=4, unique=True)),
        "kinds": draw(st.lists(st.sampled_from(["int", "tensor", "list", "none"]), min_size=5, max_size=5)),
        "ops": draw(st.lists(st.tuples(st.sampled_from(STATUS_OPS), keys, st.lists(keys, max_size=3, unique=True)).map(list), min_size=3, max_size=16)),
    }


def check_status(c, ctx):
    state = {"t": 0}
    counts = {}
    kind_of = dict(zip("abcde", c["kinds"]))

    def value(k, t, source):
        kind = kind_of[k]
        n = ord(k) * 1000 + t * 10 + source
        return {"int": n, "tensor": torch.tensor([n, n + 1]), "list": [n], "none": None}[kind]

    def maker(k, source):
        def get():
            counts[k] = counts.get(k, 0) + 1
            return value(k, state["t"], source)

        return get

    rep = LazyReporter(**{k: maker(k, 0) for k in c["start"]})
    #: the model: per key its getter (source or None) and the value known
    order = list(c["start"])
    source = {k: 0 for k in order}
    known = {}
    view = rep.status

    def matches(got, want):
        if isinstance(want, torch.Tensor):
            return isinstance(got, torch.Tensor) and torch.equal(got.as_subclass(torch.Tensor), want)
        return type(got) is type(want) and got == want

    def expect(k):
        if k not in known:
            known[k] = None if source[k] is None else value(k, state["t"], source[k])
            if source[k] is not None:
                return known[k], 1
        return known[k], 0

    def read(get, k, what):
        before = counts.get(k, 0)
        want, calls = expect(k)
        got = get()
        require(matches(got, want), f"{what} of {k}: {got!r} instead of {want!r}")
        require(counts.get(k, 0) - before == calls, f"{what} of {k}: computed {counts.get(k, 0) - before} times instead of {calls}")
        return got

    fresh = 1
    for op, k, many in c["ops"]:
        state["t"] += 1
        if op in ("read", "view", "get value"):
            s = view if op == "view" else rep.status
            if k not in source:
                must_raise(lambda: s[k], f"reading the missing key {k}", KeyError)
                require(s.get(k, "nothing") == "nothing", "a missing key has a value")
                continue
            if op == "get value":
                read(lambda: rep.get_status_value(k), k, "value")
            else:
                cached = k in known
                got = read(lambda: s[k], k, "status")
                if isinstance(got, torch.Tensor):
                    require(isinstance(got, ReadOnlyTensor), "a tensor shown in the status is not read-only")
                    must_raise(lambda: got.__setitem__(0, 1), "writing onto a tensor in the status", (TypeError, ValueError))
                ctx.hit("again" if cached else "computed")
        elif op == "clear":
            rep.clear_status()
            known.clear()
            ctx.label("clear")
        elif op == "update":
            new = {j: (j, state["t"]) for j in many}
            given = dict(new)
            rep.update_status(given)
            require(given == new, "the given dictionary was modified")
            for j in many:
                if j not in source:
                    order.append(j)
                    source[j] = None
                known[j] = new[j]
        elif op == "add":
            # a value known already may or may not be kept when its getter is replaced
            many = [j for j in many if j not in known]
            rep.add_status_getters({j: maker(j, fresh) for j in many})
            for j in many:
                if j not in source:
                    order.append(j)
                source[j] = fresh
            fresh += 1
        elif op == "has":
            require((k in view) == (k in source) and rep.has_status_key(k) == (k in source), f"presence of {k}")
        elif op == "computed":
            require(rep.is_status_computed(k) == (k in known), f"whether {k} is computed")
        elif op == "keys":
            require(list(view) == order and list(rep.iter_status_keys()) == order and len(view) == len(order), f"keys {list(view)} instead of {order}")
        elif op == "print":
            before = dict(counts)
            text = str(rep.status)
            require(counts == before, "printing the status computed values")
            require(all(j in text for j in order), "keys missing in the printed status")
            require(repr(rep.status).count("not yet computed") == len([j for j in order if j not in known]), "wrong number of values shown as not yet computed")
        elif op == "dict":
            before = dict(counts)
            wants = {j: expect(j) for j in order}
            got = dict(rep.status)
            require(list(got) == order, "keys of the status as dictionary")
            for j, (want, calls) in wants.items():
                require(matches(got[j], want), f"{j}: {got[j]!r} instead of {want!r}")
                require(counts.get(j, 0) - before.get(j, 0) == calls, f"{j} was computed {counts.get(j, 0) - before.get(j, 0)} times instead of {calls}")
            if order:
                ctx.hit("dict")
        elif op == "missing":
            must_raise(lambda: rep.get_status_value("zzz"), "reading a missing key", KeyError)


FACETS = [
    Facet("hook", hook_case(), check_hook, rule="non-trivial: the hook was called and returned a non-empty dictionary or list", quick=800, thorough=15000),
    Facet("status", status_case(), check_status, rule="non-trivial: at least one value was read from the status", quick=800, thorough=15000),
]
