"""C26: networks in text form, with flat parameters, as functions, and step by step."""

import copy

import torch
from hypothesis import strategies as st
from torch import nn

from evotorch.neuroevolution.net import (
    MultiLayered,
    NetParsingError,
    Policy,
    StatefulModule,
    count_parameters,
    fill_parameters,
    make_functional_module,
    parameter_vector,
    str_to_net,
)
from evotorch.neuroevolution.net.layers import LSTM, RNN, Round
from evotorch.neuroevolution.net.statefulmodule import ensure_stateful
from evotorch.neuroevolution.net.vecrl import reset_tensors

from .common import eq, must_raise, often, plain, rand_grid, require, same, seeds, show
from .nets import F64, Ref, count, is_recurrent, layer_list, out_size, text
from harness.core import Facet

QUICK_FACTOR = 5
TECHNIQUE = "property-based testing: generated layer lists, parameters, input sequences and resets; the outputs and states compared with an independent definition of every layer in float64"
ASSUMPTIONS = ["inputs of step functions (rounding, binning) which are closer to a step than 0.001 are not judged", "parameters follow the order in which the layers are written, and within a layer the order of its definition"]


@st.composite
def net_case(draw, **kw):
    n_in = draw(often(1, 4, 8))
    return {
        "layers": draw(layer_list(n_in, **kw)),
        "seed": draw(seeds),
        "style": draw(st.integers(0, 4)),
        "consts": draw(st.booleans()),
        "length": draw(often(1, 4, 10)),
        "resets": draw(st.lists(st.integers(1, 3), max_size=2)),
    }


def vector_of(case, k=0):
    return rand_grid(case["seed"] + 11 * k + 3, (count(case["layers"]),), -12, 12, 8.0)


def inputs_of(case, length, batch=(), k=0):
    return rand_grid(case["seed"] + 101 + k, (length, *batch, case["layers"][0][2]), -12, 12, 8.0)


def written(case):
    layers = case["layers"]
    consts = {}
    names = ()
    if case["consts"]:
        consts = {"obs_size": layers[0][2], "cfg": {"k": layers[-1][3]}, "dims": (layers[0][3], 7)}
        names = [("obs_size", layers[0][2]), ("cfg['k']", layers[-1][3]), ("dims[0]", layers[0][3])]
    parts = [text(l, names) for l in layers]
    s = case["style"]
    if s == 0:
        t = " >> ".join(parts)
    elif s == 1:
        t = "\n    >> ".join(parts)
    elif s == 2:
        t = "\n\n  " + ">>".join(parts) + "  \n"
    elif s == 3 and len(parts) > 1:
        t = parts[0] + " >> (" + " >> ".join(parts[1:]) + ")"
    else:
        t = "(" + " >> ".join(parts) + ")"
    return t, consts


def build(case):
    t, consts = written(case)
    return str_to_net(t, **consts)


def agree(got, want, what):
    require(tuple(got.shape) == tuple(want.shape), lambda: f"{what}: shape {tuple(got.shape)}, expected {tuple(want.shape)}")
    g, w = plain(got).to(F64), want
    ok = ((g - w).abs() <= 1e-3 + 1e-3 * w.abs()).all()
    require(ok, lambda: f"{what}: {show(got)}, expected {show(want)}")


def kinds(case, ctx):
    ctx.label(*sorted({l[0] for l in case["layers"]}))


# ---------------------------------------------------------------- text, flat parameters, steps


def check_text(case, ctx):
    t, consts = written(case)
    net = str_to_net(t, **consts)
    layers = case["layers"]
    eq(count_parameters(net), count(layers), f"number of parameters of {t}")
    names = [type(m).__name__ for m in (net if isinstance(net, MultiLayered) else [net])]
    eq(names, [l[0] for l in layers], f"layers of {t}")
    v = vector_of(case)
    fill_parameters(net, v)
    same(parameter_vector(net), v, f"parameters of {t} after filling", dtype=True)
    keep = parameter_vector(net)
    w = vector_of(case, 1)
    fill_parameters(net, w)
    same(keep, v, "the parameter vector taken earlier") if len(v) and len(list(net.parameters())) > 1 else None
    same(parameter_vector(net), w, "parameters after filling again")
    if len(v):
        must_raise(lambda: fill_parameters(net, torch.cat([v, v[:1]])), "too many parameters", IndexError)
        must_raise(lambda: fill_parameters(net, v[:-1]), "too few parameters")
    fill_parameters(net, v)
    ref = Ref(layers, v)
    # step by step
    xs = inputs_of(case, case["length"])
    state = ref.fresh()
    h = None
    runner = ensure_stateful(copy.deepcopy(net))
    require(isinstance(runner, StatefulModule) and ensure_stateful(runner) is runner, "ensure_stateful")
    runner.reset()
    for m in net.modules():
        if type(m).__name__ == "LocomotorNet":
            m.reset()
    for i, x in enumerate(xs):
        if i in case["resets"]:
            state, h = ref.fresh(), None
            runner.reset()
            for m in net.modules():
                if type(m).__name__ == "LocomotorNet":
                    m.reset()
        want, state = ref.step(x, state)
        if ref.risky:
            ctx.label("broken off")
            return
        with torch.no_grad():
            out = net(x) if h is None else net(x, h)
            sout = runner(x)
        if isinstance(out, tuple):
            out, h = out
            require(is_recurrent(layers), "a state is returned by a network which is not recurrent")
        else:
            require(not is_recurrent(layers), "no state is returned by a recurrent network")
        agree(out, want, f"output of {t} at step {i}")
        agree(sout, want, f"output of the stateful form of {t} at step {i}")
    if not is_recurrent(layers) and not any(l[0] in ("Slice", "LocomotorNet") for l in layers):
        with torch.no_grad():
            out = net(xs)
        agree(out, torch.stack([ref.step(x, {})[0] for x in xs]), f"outputs of {t} for a batch") if not ref.risky else None
    kinds(case, ctx)
    ctx.hit("recurrent" if is_recurrent(layers) else "feed-forward") if len(layers) > 1 else ctx.label("single layer")


# ---------------------------------------------------------------- functions of flat parameters


def check_functional(case, ctx):
    layers = case["layers"]
    net = build(case)
    v = vector_of(case)
    fill_parameters(net, vector_of(case, 5))
    f = make_functional_module(net)
    eq(f.parameter_length, count(layers), "parameter length")
    ref = Ref(layers, v)
    xs = inputs_of(case, case["length"])
    state, h = {}, None
    for i, x in enumerate(xs):
        if i in case["resets"]:
            state, h = {}, None
        want, state = ref.step(x, state)
        if ref.risky:
            return
        out = f(v, x) if h is None else f(v, x, h)
        if isinstance(out, tuple):
            out, h = out
        agree(out, want, f"functional output at step {i}")
    same(parameter_vector(net), vector_of(case, 5), "the parameters of the original network")
    with torch.no_grad():
        for p in net.parameters():
            p.zero_()
    agree(f(v, xs[0])[0] if is_recurrent(layers) else f(v, xs[0]), Ref(layers, v).step(xs[0], {})[0], "functional output after changing the original network")
    must_raise(lambda: f(v[:-1], xs[0]), "a short parameter vector", ValueError)
    must_raise(lambda: f(v[None], xs[0]), "a parameter matrix", ValueError)
    # gradients with respect to the parameters
    if not is_recurrent(layers):
        g = v.clone().requires_grad_()
        out = f(g, xs[0])
        fill_parameters(net, v)
        if out.requires_grad:
            out.sum().backward()
            net.zero_grad()
            net(xs[0]).sum().backward()
            want = torch.cat([(torch.zeros_like(p) if p.grad is None else p.grad).reshape(-1) for p in net.parameters()])
            same(g.grad, want, "gradient of the functional form", rtol=1e-3, atol=1e-3)
        out = make_functional_module(net, disable_autograd_tracking=True)(g, xs[0])
        require(not out.requires_grad, "gradients are tracked although that is disabled")
    kinds(case, ctx)
    ctx.hit("functional")


# ---------------------------------------------------------------- policies


@st.composite
def policy_case(draw):
    c = draw(net_case())
    c["n"] = draw(often(1, 4, 10))
    c["single"] = draw(st.integers(0, 4)) == 0
    c["actions"] = draw(st.lists(st.sampled_from(["step", "step", "step", "reset", "reset some", "change", "change some", "change some, keep states"]), min_size=2, max_size=7))
    c["which"] = [draw(st.lists(st.booleans(), min_size=c["n"], max_size=c["n"])) for _ in c["actions"]]
    c["form"] = draw(st.sampled_from(["mask", "indices", "list", "bools", "tuple"]))
    c["give"] = draw(st.sampled_from(["text", "module", "factory"]))
    return c


def chosen(which, form):
    idx = [i for i, w in enumerate(which) if w]
    if form == "mask":
        return torch.tensor(which)
    if form == "indices":
        return torch.tensor(idx, dtype=torch.int64)
    if form == "list":
        return idx
    if form == "bools":
        return list(which)
    return tuple(idx)


def check_policy(case, ctx):
    layers = case["layers"]
    t, consts = written(case)
    if case["give"] == "text":
        pol = Policy(t, **consts)
    elif case["give"] == "module":
        pol = Policy(str_to_net(t, **consts))
        must_raise(lambda: Policy(str_to_net(t, **consts), a=1), "a module with arguments", ValueError)
    else:
        pol = Policy(lambda **kw: str_to_net(t, **kw), **consts)
    eq(pol.parameter_length, count(layers), "parameter length")
    must_raise(lambda: pol(inputs_of(case, 1)[0]), "a call before giving parameters", ValueError)
    n = 1 if case["single"] else case["n"]
    params = [vector_of(case, k) for k in range(n)]
    given = params[0].clone() if case["single"] else torch.stack(params)
    first = given.clone()
    pol.set_parameters(given)
    refs = [Ref(layers, v) for v in params]
    states = [{} for _ in range(n)]
    fresh = 50
    some = False
    last = None
    for i, (action, which) in enumerate(zip(case["actions"], case["which"])):
        which = which[:n]
        idx = [k for k in range(n) if which[k]]
        if "some" in action and (case["single"] or not idx):
            continue
        if action == "step":
            xs = inputs_of(case, 1, () if case["single"] else (n,), k=i)[0]
            out = pol(xs)
            rows = [xs] if case["single"] else list(xs)
            for k in range(n):
                want, states[k] = refs[k].step(rows[k], states[k])
                if refs[k].risky:
                    return
                agree(out if case["single"] else out[k], want, f"output of policy {k} in action {i} of {case['actions']}")
            if last is not None:
                same(last[0], last[1], "the output of an earlier step")
            last = (out, plain(out).clone())
        elif action == "reset":
            pol.reset()
            require(pol.h is None, "there is a state after resetting")
            states = [{} for _ in range(n)]
        elif action == "reset some":
            def leaves(h):
                if isinstance(h, torch.Tensor):
                    return [h]
                return [t for v in (h.values() if isinstance(h, dict) else h or ()) for t in leaves(v)]

            held = [(t, plain(t).clone()) for t in leaves(pol.h)]
            pol.reset(chosen(which, case["form"]))
            for t, before in held:
                same(t, before, "a state obtained before resetting")
            for k in idx:
                states[k] = {}
            some = True
        elif action == "change":
            params = [vector_of(case, fresh + k) for k in range(n)]
            fresh += n
            given = params[0].clone() if case["single"] else torch.stack(params)
            first = given.clone()
            pol.set_parameters(given)
            refs = [Ref(layers, v) for v in params]
            states = [{} for _ in range(n)]
        else:
            new = [vector_of(case, fresh + k) for k in idx]
            fresh += len(idx)
            pol.set_parameters(torch.stack(new), chosen(which, case["form"]), reset="keep" not in action)
            for k, v in zip(idx, new):
                params[k] = v
                refs[k] = Ref(layers, v)
                if "keep" not in action:
                    states[k] = {}
            some = True
        want = params[0] if case["single"] else torch.stack(params)
        same(pol.parameters, want, "parameters of the policy")
        same(given, first, "the parameters given by the caller")
    # as a module
    vec = vector_of(case, 3)
    mine = vec.clone()
    m = pol.to_torch_module(mine)
    same(parameter_vector(m), vec, "parameters of the module made")
    mine += 1.0
    same(parameter_vector(m), vec, "parameters of the module after changing the vector")
    x = inputs_of(case, 1)[0]
    ref = Ref(layers, vec)
    want, _ = ref.step(x, {})
    if not ref.risky:
        with torch.no_grad():
            out = m(x)
        agree(out[0] if isinstance(out, tuple) else out, want, "output of the module made")
    kinds(case, ctx)
    ctx.label(case["form"])
    ctx.hit("some changed or reset" if some and is_recurrent(layers) else "recurrent" if is_recurrent(layers) else "feed-forward") if case["actions"].count("step") else ctx.label("no step")


# ---------------------------------------------------------------- modules with buffers, resetting of tensors, errors


class Scaled(nn.Module):
    """A module with parameters of several shapes, a shared layer, and buffers"""

    def __init__(self, n):
        super().__init__()
        self.a = nn.Linear(n, n)
        self.scale = nn.Parameter(torch.tensor(1.0))
        self.register_buffer("shift", torch.zeros(n))
        self.register_buffer("order", torch.arange(n - 1, -1, -1))
        self.b = nn.Linear(n, 2, bias=False)

    def forward(self, x):
        return self.b(torch.tanh(self.a(self.a(x)[self.order])) * self.scale + self.shift)


@st.composite
def other_case(draw):
    return {"what": draw(st.sampled_from(["buffers", "reset", "errors", "layers", "types"])), "n": draw(st.integers(1, 4)), "seed": draw(seeds), "which": draw(st.lists(st.booleans(), min_size=4, max_size=4)), "form": draw(st.sampled_from(["mask", "indices", "list", "bools", "tuple", "int"]))}


def check_other(case, ctx):
    n, seed = case["n"], case["seed"]
    if case["what"] == "buffers":
        net = Scaled(n)
        k = count_parameters(net)
        eq(k, n * n + n + 1 + 2 * n, "number of parameters")
        with torch.no_grad():
            net.shift[:] = rand_grid(seed, (n,), -8, 8, 8.0)
        shift = net.shift.clone()
        f = make_functional_module(net)
        eq(len(f.buffers), 2, "number of buffers")
        same(f.buffers[0], shift, "buffer")
        v = rand_grid(seed + 1, (k,), -8, 8, 8.0)
        vs = rand_grid(seed + 2, (3, k), -8, 8, 8.0)
        x = rand_grid(seed + 3, (3, n), -8, 8, 8.0)
        with torch.no_grad():
            net.shift.zero_()  # (the functional form has its own)
        other = Scaled(n)
        other.shift[:] = shift
        for i in range(3):
            fill_parameters(other, vs[i])
            with torch.no_grad():
                same(f(vs[i], x[i]), other(x[i]), "functional form with buffers", rtol=1e-5, atol=1e-6)
        pol = Policy(other)
        pol.set_parameters(vs)
        out = pol(x)
        for i in range(3):
            fill_parameters(other, vs[i])
            with torch.no_grad():
                same(out[i], other(x[i]), "policy with buffers", rtol=1e-4, atol=1e-5)
        same(parameter_vector(other), vs[2], "parameter order")
        ctx.hit("buffers")
    elif case["what"] == "types":
        kind = [RNN, LSTM][case["which"][0]]
        dt = [torch.float32, torch.float64][case["which"][1]]
        net = kind(n, 3, dtype=dt) if dt != torch.float32 else kind(n, 3)
        require(all(p.dtype == dt for p in net.parameters()), lambda: f"types of the parameters of {kind.__name__}: {[p.dtype for p in net.parameters()]}, expected {dt}")
        x = rand_grid(seed, (n,), -8, 8, 8.0, dtype=dt)
        y, h = net(x)
        z, _ = net(x, h)
        eq((y.dtype, z.dtype), (dt, dt), f"types of the outputs of {kind.__name__}")
        ctx.hit("types")
    elif case["what"] == "reset":
        a = rand_grid(seed, (4, 2), 1, 9, 1.0)
        b = rand_grid(seed + 1, (4,), 1, 9, 1.0)
        c = rand_grid(seed + 2, (4, 2, 3), 1, 9, 1.0)
        tree = [a.clone(), {"x": b.clone(), "y": (c.clone(), "text", None)}]
        which = case["which"]
        form = case["form"]
        if form == "int":
            i = seed % 4
            which = [k == i for k in range(4)]
            ind = i
        else:
            ind = chosen(which, form)
        reset_tensors(tree, ind)
        for got, t in ((tree[0], a), (tree[1]["x"], b), (tree[1]["y"][0], c)):
            want = t.clone()
            for k in range(4):
                if which[k]:
                    want[k] = 0
            same(got, want, f"reset with {ind!r}")
        ctx.hit(form)
    elif case["what"] == "errors":
        must_raise(lambda: str_to_net(f"Lin{seed}(3, 4)"), "an unknown layer", NetParsingError)
        must_raise(lambda: str_to_net("Linear(3, 4) + Tanh()"), "another operator", NetParsingError)
        must_raise(lambda: str_to_net("Linear(3, k)"), "an unknown constant", NetParsingError)
        must_raise(lambda: str_to_net("Linear(3, k[5])", k=[1]), "a wrong index", NetParsingError)
        must_raise(lambda: str_to_net("Linear(3, 1 + k)", k=1), "an expression", NetParsingError)
        must_raise(lambda: str_to_net("3"), "a number", NetParsingError)
        must_raise(lambda: str_to_net("Linear(3, 4) >> "), "an unfinished text")
        ctx.hit("errors")
    else:
        parts = [nn.Linear(n, 3), nn.Tanh(), nn.Linear(3, 2)]
        m = MultiLayered(*parts[:2])
        m.append(parts[2])
        eq(len(m), 3, "number of layers")
        require(all(x is y for x, y in zip(m, parts)) and m[1] is parts[1], "layers")
        x = rand_grid(seed, (n,), -8, 8, 8.0)
        with torch.no_grad():
            same(m(x), parts[2](parts[1](parts[0](x))), "layers in order", rtol=1e-6)
        k = seed % 5 - 2
        y = rand_grid(seed + 1, (n,), -2000, 2000, 1.0) + 0.25
        same(Round(k)(y), torch.tensor([round(float(v), k) for v in y]), f"rounding to {k} digits", rtol=1e-5, atol=1e-3)
        same(str_to_net(f"Round({k})")(y), torch.tensor([round(float(v), k) for v in y]), f"rounding to {k} digits", rtol=1e-5, atol=1e-3)
        ctx.hit("layers")


FACETS = [
    Facet("text, flat parameters and steps", net_case(locomotor=True), check_text, quick=320, thorough=6000, rule="at least two layers"),
    Facet("functions of flat parameters", net_case(), check_functional, quick=160, thorough=3000, rule="compared to the end"),
    Facet("policies", policy_case(), check_policy, quick=260, thorough=5000, rule="at least one step taken"),
    Facet("buffers, resets and errors", other_case(), check_other, quick=60, thorough=500, rule="any"),
]
