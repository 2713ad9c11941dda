"""C11: optimizers follow their published update rules over any gradient sequence."""

import torch
from hypothesis import strategies as st

from evotorch.algorithms.functional import adam, adam_ask, adam_tell, clipup, clipup_ask, clipup_tell, sgd, sgd_ask, sgd_tell
from evotorch.optimizers import SGD, Adam, ClipUp, get_optimizer_class

from .common import DT, check_shape, eq, must_raise, often, plain, rand_grid, require, same, seeds, with_fields
from .optref import RefAdam, RefClipUp, RefSGD
from harness.core import Facet

QUICK_FACTOR = 5
TECHNIQUE = "property-based testing: generated gradient histories, every step compared with the published rule in double precision"
ASSUMPTIONS = ["the gradient given to ClipUp is not the zero vector (its rule divides by the norm of the gradient)"]

F64 = torch.float64
TOL = {"float32": 2e-4, "float64": 1e-10}


def pick(c, k, values):
    return values[c["h"][k] % len(values)]


def configure(c):
    """(keyword arguments of the class, reference) for the generated choice"""
    L = c["L"]
    lr = pick(c, 0, [0.5, 0.125, 2.0, 0.01])
    if c["kind"] == "clipup":
        kw, ref = {"stepsize": lr}, {}
        if c["given"] & 1:
            kw["momentum"] = ref["momentum"] = pick(c, 1, [0.5, 0.0, 0.99, 1.0])
        if c["given"] & 2:
            kw["max_speed"] = ref["max_speed"] = pick(c, 2, [lr * 1.5, lr * 0.5, lr * 4, lr])
        return kw, RefClipUp(L, lr, **ref)
    if c["kind"] == "adam":
        kw, ref = {}, {}
        if c["given"] & 1:
            kw["stepsize"] = ref["lr"] = lr
        if c["given"] & 2:
            kw["beta1"] = ref["beta1"] = pick(c, 1, [0.5, 0.0, 0.99, 0.9])
            kw["beta2"] = ref["beta2"] = pick(c, 2, [0.5, 0.75, 0.99, 0.9])
        if c["given"] & 4:
            kw["epsilon"] = ref["eps"] = pick(c, 3, [0.5, 1e-3, 1e-6, 2.0])
        if c["given"] & 8:
            kw["amsgrad"] = ref["amsgrad"] = bool(c["h"][4] & 1)
        return kw, RefAdam(L, **ref)
    kw, ref = {"stepsize": lr}, {}
    if c["given"] & 1:
        kw["momentum"] = ref["momentum"] = pick(c, 1, [0.5, 0.25, 0.99, 0.9])
        if c["given"] & 2:
            kw["nesterov"] = ref["nesterov"] = True
        elif c["given"] & 4:
            kw["dampening"] = ref["dampening"] = pick(c, 2, [0.5, 0.25, 0.0, 1.0])
    return kw, RefSGD(L, lr, **ref)


def gradient(c, s):
    kind = c["shapes"][s]
    L = c["L"]
    g = rand_grid(c["seed"] + s, (L,), -16, 16, 4.0, F64)
    if kind == 1:
        g = g * 2.0**40
    elif kind == 2:
        g = g * 2.0**-20
    elif kind == 3:
        g = torch.zeros(L, dtype=F64)
        g[c["seed"] % L] = 1.0
    elif kind == 4:
        g = torch.zeros(L, dtype=F64)
    elif kind == 5:
        g = rand_grid(c["seed"], (L,), -16, 16, 4.0, F64)
    if c["kind"] == "clipup" and float(g.norm()) == 0:
        g = torch.ones(L, dtype=F64)
    return g


def objects(c, ctx):
    dt, L = DT[c["dtype"]], c["L"]
    kw, ref = configure(c)
    cls = {"clipup": ClipUp, "adam": Adam, "sgd": SGD}[c["kind"]]
    if c["byname"]:
        names = {"clipup": ["clipup", "clipsgd", "clipsga"], "adam": ["adam"], "sgd": ["sgd", "sga"]}[c["kind"]]
        name = names[c["seed"] % len(names)]
        conf = {k: v for k, v in kw.items() if k != "stepsize"}
        kept = dict(conf)
        cls = get_optimizer_class(name, conf) if conf else get_optimizer_class(name)
        opt = cls(solution_length=L, dtype=dt if c["seed"] % 2 else c["dtype"], **({"stepsize": kw["stepsize"]} if "stepsize" in kw else {}))
        eq(conf, kept, "the given configuration")
        if c["kind"] == "clipup":
            # what is given when making the optimizer has precedence
            late = get_optimizer_class(name, {"stepsize": 7.0, "momentum": 0.125})(solution_length=L, dtype=dt, stepsize=0.25)
            eq((late.param_groups[0]["lr"], late.param_groups[0]["momentum"]), (0.25, 0.125), "settings given to the class and when making the optimizer")
    else:
        opt = cls(solution_length=L, dtype=dt if c["seed"] % 2 else c["dtype"], **kw)
    tol = TOL[c["dtype"]]
    past = []
    for s in range(len(c["shapes"])):
        g = gradient(c, s)
        if c["shapes"][s] == 6:
            arg = 1.5
            g = torch.full((L,), 1.5, dtype=F64)
        else:
            arg = g.to(dt)
        if c["kind"] == "clipup" and c["group"] and s == len(c["shapes"]) // 2:
            # hyperparameters changed on the fly
            pg = opt.param_groups[0]
            require(pg["lr"] == ref.lr and pg["momentum"] == ref.momentum and pg["max_speed"] == ref.max_speed, "parameter group does not show the hyperparameters")
            pg["lr"] = ref.lr = ref.lr * 2
            pg["max_speed"] = ref.max_speed = ref.max_speed / 2
            if c["seed"] % 3:
                pg["momentum"] = ref.momentum = pick(c, 3, [0.25, 0.0, 0.75, 1.0])
            eq(sorted(pg), ["lr", "max_speed", "momentum"], "names in the parameter group")
            for k, v in (("lr", -1.0), ("max_speed", -0.5), ("momentum", -0.1), ("momentum", 1.5)):
                must_raise(lambda: pg.__setitem__(k, v), f"setting {k} to {v}", ValueError)
        d = opt.ascent(arg)
        e = ref.step(g)
        check_shape(d, (L,), "ascent vector")
        eq(d.dtype, dt, "dtype of the ascent vector")
        same(d, e, f"ascent vector of step {s + 1}", rtol=tol, atol=tol * max(1e-6, float(e.abs().max())))
        if isinstance(arg, torch.Tensor):
            same(arg, g, "the given gradient")
        if c["kind"] == "clipup":
            require(float(plain(d).to(F64).norm()) <= ref.max_speed * (1 + 1e-5), lambda: f"speed {float(d.norm())} exceeds {ref.max_speed}")
        past.append((d, plain(d)))
        if c["damage"]:
            # what is returned belongs to the caller
            d.mul_(0).add_(7)
            past[-1] = (d, plain(d))
    for i, (d, p) in enumerate(past):
        same(d, p, f"ascent vector of step {i + 1} after the later steps")
    must_raise(lambda: opt.ascent(torch.ones(L + 1, dtype=dt)), "a gradient of a wrong length", ValueError)
    if len(past) >= 3:
        ctx.hit(c["kind"])
    else:
        ctx.label(c["kind"])


def functional(c, ctx):
    """The functional version gives the trajectory of the object-oriented one"""
    dt, L = DT[c["dtype"]], c["L"]
    c = dict(c, given=c["given"] & {"clipup": 3, "adam": 7, "sgd": 1}[c["kind"]])
    kw, ref = configure(c)
    if c["kind"] == "adam" and "stepsize" not in kw:
        kw["stepsize"] = ref.lr = 0.001
    cls = {"clipup": ClipUp, "adam": Adam, "sgd": SGD}[c["kind"]]
    init, ask, tell = {"clipup": (clipup, clipup_ask, clipup_tell), "adam": (adam, adam_ask, adam_tell), "sgd": (sgd, sgd_ask, sgd_tell)}[c["kind"]]
    opt = cls(solution_length=L, dtype=dt, **kw)
    fkw = dict(kw)
    fkw["center_learning_rate"] = fkw.pop("stepsize")
    x = rand_grid(c["seed"] + 77, (L,), dtype=dt)
    state = init(center_init=x, **fkw)
    y = plain(x).to(F64)
    z = plain(x)
    tol = 5e-4 if dt == torch.float32 else 1e-9
    for s in range(len(c["shapes"])):
        g = gradient(dict(c, shapes=[0 if k == 1 else k for k in c["shapes"]]), s)
        state = tell(state, follow_grad=g.to(dt))
        y = y + ref.step(g)
        z = z + opt.ascent(g.to(dt))
        scale = max(1.0, float(y.abs().max()))
        same(ask(state), y, f"center after {s + 1} steps", rtol=tol, atol=tol * scale)
        same(ask(state), z, f"center after {s + 1} steps, functional against object-oriented", rtol=tol, atol=tol * scale)
    if len(c["shapes"]) >= 3:
        ctx.hit(c["kind"])
    else:
        ctx.label(c["kind"])


def invalid(c, ctx):
    L = c["L"]
    for kw in ({"stepsize": -0.1}, {"stepsize": 0.1, "momentum": -0.1}, {"stepsize": 0.1, "momentum": 1.1}, {"stepsize": 0.1, "max_speed": -1.0}):
        must_raise(lambda: ClipUp(solution_length=L, dtype="float32", **kw), f"ClipUp with {kw}", ValueError)
    must_raise(lambda: Adam(solution_length=L, dtype="float32", beta1=0.5), "Adam with only one beta", ValueError)
    must_raise(lambda: Adam(solution_length=L, dtype="float32", beta2=0.5), "Adam with only one beta", ValueError)
    must_raise(lambda: get_optimizer_class("foo"), "an unknown optimizer name", ValueError)
    ctx.hit()


kinds = st.sampled_from(["clipup", "adam", "sgd"])
fields = dict(
    kind=kinds,
    L=often(1, 5, 40),
    dtype=st.sampled_from(["float32", "float64"]),
    seed=seeds,
    h=st.lists(st.integers(0, 3), min_size=5, max_size=5),
    given=st.integers(0, 15),
    shapes=st.lists(st.integers(0, 6), min_size=1, max_size=12).map(list) | st.lists(st.integers(0, 6), min_size=12, max_size=40),
)
FACETS = [
    Facet(
        "objects",
        with_fields(**fields, byname=st.booleans(), group=st.booleans(), damage=st.booleans()),
        objects,
        rule="at least three gradients",
        quick=600,
        thorough=8000,
    ),
    Facet("functional", with_fields(**fields), functional, rule="at least three gradients", quick=200, thorough=3000),
    Facet("invalid", with_fields(L=st.integers(1, 9)), invalid, rule="every case", quick=5, thorough=9),
]
