"""C10: functional algorithms: a batch of searches equals the searches run one by one."""

import itertools

import torch
from hypothesis import strategies as st

from evotorch.algorithms.functional import (
    adam,
    adam_ask,
    adam_tell,
    cem,
    cem_ask,
    cem_tell,
    clipup,
    clipup_ask,
    clipup_tell,
    pgpe,
    pgpe_ask,
    pgpe_tell,
    sgd,
    sgd_ask,
    sgd_tell,
)

from . import optref
from .c09 import RANKINGS, draw_fitnesses, grads_ref, mirror_ok, moments_ok
from .common import DT, check_shape, eq, must_raise, often, plain, rand_grid, require, same, seeds, with_fields
from harness.core import Facet

QUICK_FACTOR = 5
TECHNIQUE = "property-based testing: generated ask/tell histories on batched states compared item by item with double-precision references run one by one"

F64 = torch.float64
TOL = {"float32": 1e-3, "float64": 1e-9}


def bshape(c, name):
    """The batch dimensions of an argument: none, the rightmost one, or all of them"""
    b = tuple(c["batch"])
    k = c["pat"].get(name, 0)
    return () if k == 0 else (b[-1:] if k == 1 else b)


def items(c):
    return list(itertools.product(*[range(n) for n in c["batch"]]))


def at(x, c, idx, inner):
    """The part of (possibly unbatched) x which belongs to the batch item idx"""
    shape = tuple(c["batch"]) + (tuple(x.shape[len(x.shape) - inner :]) if inner else ())
    return x.expand(shape)[idx] if idx else x.expand(shape)


def wide(*shapes):
    return max(shapes, key=len)


def positive(seed, shape, lo=1, hi=16, div=8.0):
    return rand_grid(seed, shape, lo, hi, div, F64)


def freeze(state):
    """The tensors of a state (a nested tuple), as copies"""
    if isinstance(state, torch.Tensor):
        return plain(state)
    if isinstance(state, tuple):
        return tuple(freeze(x) for x in state)
    return state


def same_state(state, kept, what):
    if isinstance(state, torch.Tensor):
        same(state, kept, what)
    elif isinstance(state, tuple):
        eq(len(state), len(kept), what)
        for a, b in zip(state, kept):
            same_state(a, b, what)
    elif not callable(state):
        eq(state, kept, what)


def expandable(x, c, inner_shape, what):
    full = tuple(c["batch"]) + tuple(inner_shape)
    n = x.ndim - len(inner_shape)
    require(
        n >= 0 and tuple(x.shape) == full[len(full) - x.ndim :],
        lambda: f"{what}: shape {tuple(x.shape)} does not fit to the batch {tuple(c['batch'])} and {tuple(inner_shape)}",
    )


# -- optimizers ------------------------------------------------------------------------------------------------------

OPT = {
    "adam": (adam, adam_ask, adam_tell),
    "clipup": (clipup, clipup_ask, clipup_tell),
    "sgd": (sgd, sgd_ask, sgd_tell),
}


def opt_setup(c, dt):
    """(arguments for the functional optimizer, the same in double precision)"""
    kind = c["opt"]
    h = {"center_learning_rate": positive(c["seed"] + 1, bshape(c, "lr"), 1, 16, 16.0)}
    if kind == "adam":
        if c["extra"] & 1:
            h["beta1"] = positive(c["seed"] + 2, bshape(c, "h1"), 1, 15, 16.0)
            h["beta2"] = positive(c["seed"] + 3, bshape(c, "h2"), 1, 15, 16.0)
        if c["extra"] & 2:
            h["epsilon"] = positive(c["seed"] + 4, bshape(c, "h3"), 1, 16, 64.0)
    elif kind == "clipup":
        if c["extra"] & 1:
            h["momentum"] = positive(c["seed"] + 2, bshape(c, "h1"), 1, 15, 16.0)
        if c["extra"] & 2:
            h["max_speed"] = positive(c["seed"] + 3, bshape(c, "h2"), 1, 16, 16.0)
            if c["extra"] & 4:
                del h["center_learning_rate"]
    else:
        if c["extra"] & 1:
            h["momentum"] = positive(c["seed"] + 2, bshape(c, "h1"), 1, 15, 16.0)
    return h


def opt_ref(kind, h, c, idx, L):
    g = {k: float(at(v, c, idx, 0)) for k, v in h.items()}
    if kind == "adam":
        kw = {a: g[b] for a, b in (("beta1", "beta1"), ("beta2", "beta2"), ("eps", "epsilon")) if b in g}
        return optref.RefAdam(L, g["center_learning_rate"], **kw)
    if kind == "clipup":
        ms = g.get("max_speed")
        lr = g.get("center_learning_rate", None if ms is None else ms / 2)
        return optref.RefClipUp(L, lr, g.get("momentum", 0.9), ms)
    return optref.RefSGD(L, g["center_learning_rate"], g.get("momentum", 0.0))


def as_arg(v, dt, scalars):
    return float(v) if (scalars and v.ndim == 0) else v.to(dt)


def optimizers(c, ctx):
    dt, L = DT[c["dtype"]], c["L"]
    init, ask, tell = OPT[c["opt"]]
    h = opt_setup(c, dt)
    center = rand_grid(c["seed"], bshape(c, "center") + (L,), dtype=F64)
    center_arg = center.to(dt)
    state = init(center_init=center_arg, **{k: as_arg(v, dt, c["scalars"]) for k, v in h.items()})
    idxs = items(c)
    refs = {i: opt_ref(c["opt"], h, c, i, L) for i in idxs}
    pos = {i: at(center, c, i, 1).clone() for i in idxs}
    same(ask(state), center, "center asked from the initial state")
    tol = TOL[c["dtype"]]
    gb = bshape(c, "grad")
    for s in range(c["steps"]):
        g = rand_grid(c["seed"] + 100 + s, gb + (L,), -16, 16, 4.0, F64)
        g[..., 0] += 0.0625  # never the zero vector
        garg = g.to(dt)
        kept = freeze(state)
        old = state
        state = tell(state, follow_grad=garg)
        same_state(old, kept, "the state given to tell")
        same(garg, g, "the gradient given to tell")
        x = ask(state)
        expandable(x, c, (L,), "center")
        eq(x.dtype, dt, "dtype of the center")
        for i in idxs:
            pos[i] = pos[i] + refs[i].step(at(g, c, i, 1))
            same(at(plain(x), c, i, 1), pos[i], f"center of item {i} after step {s + 1}", rtol=tol, atol=tol)
    same(center_arg, center, "the given initial center")
    if len(idxs) > 1 and c["steps"] > 1:
        ctx.hit(c["opt"])
    else:
        ctx.label(c["opt"])


# -- distribution based ----------------------------------------------------------------------------------------------


def limits(c):
    """The limits of the standard deviation; None where not given"""
    L = c["L"]
    out = {}
    for name, bit, off, (lo, hi, div) in (("stdev_min", 1, 21, (1, 8, 16.0)), ("stdev_max", 2, 22, (8, 32, 8.0)), ("stdev_max_change", 4, 23, (1, 12, 16.0))):
        if c["limits"] & bit:
            b = bshape(c, name)
            if not b and c["scalars"]:
                out[name] = positive(c["seed"] + off, (), lo, hi, div)
            else:
                out[name] = positive(c["seed"] + off, b + (L,), lo, hi, div)
    return out


def lim_at(x, c, i, L):
    return x.expand(L) if x.ndim == 0 else at(x, c, i, 1)


def stdev_ref(orig, target, lim, default_change=None):
    mc = lim.get("stdev_max_change", default_change)
    if mc is not None:
        d = orig.abs() * mc
        target = torch.minimum(torch.maximum(target, orig - d), orig + d)
    target = torch.maximum(target, lim.get("stdev_min", torch.zeros_like(target)))
    if "stdev_max" in lim:
        target = torch.minimum(target, lim["stdev_max"])
    return target


def init_stdev(c):
    """(arguments, initial standard deviation as a batchable vector in double precision)"""
    L = c["L"]
    b = bshape(c, "stdev")
    if c["radius"]:
        r = positive(c["seed"] + 9, b, 4, 24, 4.0)
        return {"radius_init": r}, (r / L**0.5)[..., None].expand(b + (L,))
    if not b and c["scalars"]:
        s = positive(c["seed"] + 9, (), 4, 24, 8.0)
        return {"stdev_init": s}, s.expand(L)
    s = positive(c["seed"] + 9, b + (L,), 4, 24, 8.0)
    return {"stdev_init": s}, s


def make_data(c, s, b, mu, n, symmetric):
    """Values (b + (n, L)) and distinct fitnesses (b + (n,)), b being the batch shape"""
    L = c["L"]
    x = rand_grid(c["seed"] + 200 + s, b + (n, L), dtype=F64)
    mu = mu.expand(b + (L,))[..., None, :]
    x = mu + x
    if symmetric:
        x[..., 1::2, :] = 2 * mu - x[..., 0::2, :]
    count = 1
    for k in b:
        count *= k
    f = torch.stack([draw_fitnesses(dict(c, seed=c["seed"] + 300 + 17 * s + 31 * k), n) for k in range(count)])
    return x, f.reshape(b + (n,))


def check_ask(pop, c, mu, sigma, n, symmetric, dt, what):
    L = c["L"]
    b = wide(tuple(mu.shape[:-1]), tuple(sigma.shape[:-1]))
    check_shape(pop, b + (n, L), what)
    eq(pop.dtype, dt, f"dtype of the {what}")
    p = plain(pop).reshape((-1, n, L)).to(F64)
    m, s = mu.expand(b + (L,)).reshape(-1, L), sigma.expand(b + (L,)).reshape(-1, L)
    for i in range(len(p)):
        z = p[i]
        if symmetric:
            mirror_ok(z, m[i], dict(rtol=1e-4, atol=1e-4), what)
            z = z[0::2]
        moments_ok(z, m[i], torch.diag(s[i] ** 2), what)
    if len(p) > 1:
        e = (p - m[:, None]) / s[:, None]
        require(not torch.allclose(e[0], e[1], rtol=1e-3, atol=1e-3), f"{what}: two items of the batch got the same noise")


def center_of(state):
    return state.center if hasattr(state, "center") else state.optimizer_state.center


def run_cem(c, ctx):
    dt, L, n = DT[c["dtype"]], c["L"], c["n"] + 2
    ratio = [0.5, 0.75, 1.0, 0.4][c["ratio"]]
    if int(n * ratio + 1e-9) < 2:
        ratio = 1.0
    lim = limits(c)
    skw, sigma = init_stdev(c)
    center = rand_grid(c["seed"], bshape(c, "center") + (L,), dtype=F64)
    kw = {k: as_arg(v, dt, c["scalars"]) for k, v in {**skw, **lim}.items()}
    state = cem(center_init=center.to(dt), parenthood_ratio=ratio, objective_sense=c["sense"], **kw)
    tol = TOL[c["dtype"]]
    idxs = items(c)
    same(state.center, center, "initial center")
    eq(state.stdev.dtype, dt, "dtype of the initial standard deviation")
    check_ask(cem_ask(state, popsize=200), c, center, sigma, 200, False, dt, "population")
    if c["radius"]:
        same(state.stdev.expand(sigma.shape), sigma, "initial standard deviation", rtol=tol, atol=tol)
    mu = {i: at(center, c, i, 1) for i in idxs}
    sg = {i: at(sigma, c, i, 1) for i in idxs}
    b = wide(tuple(center.shape[:-1]), tuple(sigma.shape[:-1]))
    cur = center
    for s in range(c["steps"]):
        x, f = make_data(c, s, b, cur, n, False)
        xa, fa = x.to(dt), f.to(dt)
        kept, old = freeze(state), state
        state = cem_tell(state, xa, fa)
        same_state(old, kept, "the state given to tell")
        same(xa, x.to(dt), "the population given to tell")
        same(fa, f, "the fitnesses given to tell")
        expandable(state.center, c, (L,), "center")
        expandable(state.stdev, c, (L,), "standard deviation")
        for i in idxs:
            xi, fi = at(xa.to(F64), c, i, 2), at(f, c, i, 1)
            g = grads_ref("separable", mu[i], sg[i], xi, fi, "raw", c["sense"], {"parenthood_ratio": ratio})
            li = {k: lim_at(v, c, i, L) for k, v in lim.items()}
            mu[i] = mu[i] + g["mu"]
            sg[i] = stdev_ref(sg[i], sg[i] + g["sigma"], li)
            same(at(plain(state.center), c, i, 1), mu[i], f"center of item {i} after step {s + 1}", rtol=tol, atol=tol)
            same(at(plain(state.stdev), c, i, 1), sg[i], f"standard deviation of item {i} after step {s + 1}", rtol=tol, atol=tol)
        if any(bool((sg[i] == 0).any()) for i in idxs):
            return
        b = wide(tuple(state.center.shape[:-1]), tuple(state.stdev.shape[:-1]))
        cur = plain(state.center).to(F64)
    if c["steps"]:
        check_ask(cem_ask(state, popsize=200), c, cur, plain(state.stdev).to(F64), 200, False, dt, "population after the updates")
    if len(idxs) > 1 and c["steps"]:
        ctx.hit(*lim, "radius" if c["radius"] else "stdev")
    else:
        ctx.label(*lim)


def run_pgpe(c, ctx):
    dt, L = DT[c["dtype"]], c["L"]
    sym = c["symmetric"]
    n = 2 * (c["n"] // 2) + 2 if sym else c["n"] + 2
    lim = limits(c)
    skw, sigma = init_stdev(c)
    center = rand_grid(c["seed"], bshape(c, "center") + (L,), dtype=F64)
    h = opt_setup(dict(c, extra=c["extra"] & 3), dt)
    slr = positive(c["seed"] + 40, bshape(c, "slr"), 1, 16, 16.0)
    conf = {k: as_arg(v, dt, c["scalars"]) for k, v in h.items()}
    lr = conf.pop("center_learning_rate")
    conf_kept = dict(conf)
    kw = {k: as_arg(v, dt, c["scalars"]) for k, v in {**skw, **lim}.items()}
    if not (c["limits"] & 4) and c["none_change"]:
        kw["stdev_max_change"] = None
    opt = OPT[c["opt"]] if c["custom"] else c["opt"]
    if not (c["default_clipup"] and c["opt"] == "clipup"):
        kw["optimizer"] = opt
    if conf:
        kw["optimizer_config"] = conf
    method = c["ranking"] or "centered"
    if c["ranking"]:
        kw["ranking_method"] = method
    if not sym or c["say_symmetric"]:
        kw["symmetric"] = sym
    state = pgpe(center_init=center.to(dt), center_learning_rate=lr, stdev_learning_rate=as_arg(slr, dt, c["scalars"]), objective_sense=c["sense"], **kw)
    eq(conf, conf_kept, "the given optimizer configuration")
    idxs = items(c)
    tol = TOL[c["dtype"]]
    same(center_of(state), center, "initial center")
    check_ask(pgpe_ask(state, popsize=200), c, center, sigma, 200, sym, dt, "population")
    mu = {i: at(center, c, i, 1) for i in idxs}
    sg = {i: at(sigma, c, i, 1) for i in idxs}
    refs = {i: opt_ref(c["opt"], h, c, i, L) for i in idxs}
    by = "num_directions" if sym else "num_solutions"
    b = wide(tuple(center.shape[:-1]), tuple(sigma.shape[:-1]))
    cur = center
    default_change = None if ("stdev_max_change" in kw and kw["stdev_max_change"] is None) else 0.2
    for s in range(c["steps"]):
        x, f = make_data(c, s, b, cur, n, sym)
        xa, fa = x.to(dt), f.to(dt)
        kept, old = freeze(state), state
        state = pgpe_tell(state, xa, fa)
        same_state(old, kept, "the state given to tell")
        same(xa, x.to(dt), "the population given to tell")
        same(fa, f, "the fitnesses given to tell")
        new_c, new_s = plain(center_of(state)), plain(state.stdev)
        expandable(new_c, c, (L,), "center")
        expandable(new_s, c, (L,), "standard deviation")
        for i in idxs:
            xi, fi = at(xa.to(F64), c, i, 2), at(f, c, i, 1)
            g = grads_ref("symmetric" if sym else "separable", mu[i], sg[i], xi, fi, method, c["sense"], {"divide_mu_grad_by": by, "divide_sigma_grad_by": by})
            if c["opt"] != "sgd" and float(g["mu"].abs().min()) < 1e-6:
                # direction of a vanishing gradient: undefined (ClipUp) or ill-conditioned (Adam)
                return
            li = {k: lim_at(v, c, i, L) for k, v in lim.items()}
            mu[i] = mu[i] + refs[i].step(g["mu"])
            sg[i] = stdev_ref(sg[i], sg[i] + float(at(slr, c, i, 0)) * g["sigma"], li, default_change)
            scale = 1 + float(mu[i].abs().max())
            same(at(new_c, c, i, 1), mu[i], f"center of item {i} after step {s + 1}", rtol=tol, atol=tol * scale)
            same(at(new_s, c, i, 1), sg[i], f"standard deviation of item {i} after step {s + 1}", rtol=tol, atol=tol * scale)
            if bool((sg[i] <= 1e-3).any()) or scale > 1e3 or float(sg[i].max()) > 1e3:
                return
        b = wide(tuple(new_c.shape[:-1]), tuple(new_s.shape[:-1]))
        cur = new_c.to(F64)
    if c["steps"]:
        check_ask(pgpe_ask(state, popsize=200), c, cur, plain(state.stdev).to(F64), 200, sym, dt, "population after the updates")
    if len(idxs) > 1 and c["steps"]:
        ctx.hit(c["opt"], method, "symmetric" if sym else "plain")
    else:
        ctx.label(c["opt"])


def errors(c, ctx):
    L = c["L"]
    x = rand_grid(c["seed"], (L,), dtype=torch.float32)
    base = dict(center_init=x, objective_sense="min")
    p = dict(center_learning_rate=0.1, stdev_learning_rate=0.1)
    for fn, kw in ((cem, dict(parenthood_ratio=0.5)), (pgpe, p)):
        must_raise(lambda: fn(**base, **kw), "neither stdev nor radius given", ValueError)
        must_raise(lambda: fn(**base, **kw, stdev_init=1.0, radius_init=1.0), "both stdev and radius given", ValueError)
        must_raise(lambda: fn(**{**base, "objective_sense": "foo"}, **kw, stdev_init=1.0), "a wrong sense", ValueError)
        must_raise(lambda: fn(**base, **kw, stdev_init=torch.ones(L + 1)), "a stdev of wrong length", ValueError)
        must_raise(lambda: fn(**base, **kw, stdev_init=1.0, stdev_min=torch.ones(L + 1)), "a stdev_min of wrong length", ValueError)
        must_raise(lambda: fn(**{**base, "center_init": torch.tensor(1.0)}, **kw, stdev_init=1.0), "a scalar center", ValueError)
    must_raise(lambda: pgpe(**base, **p, stdev_init=1.0, optimizer="foo"), "an unknown optimizer", ValueError)
    must_raise(lambda: clipup(center_init=x), "ClipUp without a learning rate or a maximum speed", ValueError)
    s = pgpe(**base, **p, stdev_init=1.0)
    must_raise(lambda: pgpe_ask(s, popsize=2 * c["n"] + 1), "an odd symmetric population", ValueError)
    ctx.hit()


pats = st.sampled_from([2, 2, 2, 1, 1, 0, 0])
batches = st.lists(st.sampled_from([2, 3, 2, 1]), min_size=0, max_size=2).filter(lambda b: True)


def fields(names, **kw):
    return with_fields(
        L=often(1, 3, 12),
        dtype=st.sampled_from(["float64", "float32", "float64"]),
        seed=seeds,
        batch=st.sampled_from([[2], [3], [2, 3], [3, 2], [1, 2], [], [2, 2], [1]]),
        pat=st.fixed_dictionaries({k: pats for k in names}),
        steps=often(1, 4, 12),
        scalars=st.booleans(),
        opt=st.sampled_from(sorted(OPT)),
        extra=st.integers(0, 7),
        **kw,
    )


dist_kw = dict(
    n=often(2, 8, 40),
    limits=st.integers(0, 7),
    radius=st.booleans(),
    sense=st.sampled_from(["min", "max"]),
    offset=st.integers(0, 40),
)
SNAMES = ["center", "stdev", "stdev_min", "stdev_max", "stdev_max_change"]

FACETS = [
    Facet("optimizers", fields(["center", "lr", "h1", "h2", "h3", "grad"]), optimizers, rule="more than one batch item, at least two steps", quick=250, thorough=4000),
    Facet("cem", fields(SNAMES, ratio=st.integers(0, 3), **dist_kw), run_cem, rule="more than one batch item", quick=250, thorough=4000),
    Facet(
        "pgpe",
        fields(
            SNAMES + ["lr", "slr", "h1", "h2", "h3"],
            symmetric=st.booleans(),
            say_symmetric=st.booleans(),
            none_change=st.booleans(),
            custom=st.booleans(),
            default_clipup=st.booleans(),
            ranking=st.sampled_from(RANKINGS),
            **dist_kw,
        ),
        run_pgpe,
        rule="more than one batch item",
        quick=250,
        thorough=4000,
    ),
    Facet("errors", with_fields(L=st.integers(2, 5), n=st.integers(1, 5), seed=seeds), errors, rule="every case", quick=10, thorough=50),
]
