"""C09: search distributions sample, differentiate and update by their formulas."""

import math

import torch
from hypothesis import strategies as st

from evotorch.distributions import (
    ExpGaussian,
    ExpSeparableGaussian,
    SeparableGaussian,
    SymmetricSeparableGaussian,
    make_functional_grad_estimator,
    make_functional_sampler,
)
from evotorch.optimizers import SGD

from . import rankref
from .common import DT, check_shape, eq, must_raise, often, plain, rand_grid, randn, require, same, seeds, with_fields
from harness.core import Facet

QUICK_FACTOR = 5
TECHNIQUE = "property-based testing: gradients, updates and samples of generated distributions compared with the written formulas in double precision"

KINDS = {
    "separable": SeparableGaussian,
    "symmetric": SymmetricSeparableGaussian,
    "exp": ExpSeparableGaussian,
    "full": ExpGaussian,
}
RANKINGS = [None, "raw", "centered", "linear", "nes", "normalized"]
DIVIDE = [None, "num_solutions", "num_directions", "total_weight", "weight_stdev"]
F64 = torch.float64
TOL = {"float32": dict(rtol=2e-4, atol=2e-4), "float64": dict(rtol=1e-9, atol=1e-9)}

kinds = st.sampled_from(sorted(KINDS))
dtypes = st.sampled_from(["float32", "float64"])


def params(c):
    """mu (L,), sigma (L,) or (L, L), in double precision; exactly representable in float32."""
    L = c["L"]
    mu = rand_grid(c["seed"], (L,), dtype=F64)
    s = rand_grid(c["seed"] + 1, (L,), 1, 16, dtype=F64)
    if c["kind"] != "full" or c.get("diag", False):
        return mu, s
    # well conditioned, not symmetric
    return mu, torch.diag(s) + 0.25 * torch.triu(rand_grid(c["seed"] + 2, (L, L), -4, 4, dtype=F64), 1)


def build(c, **opts):
    mu, sigma = params(c)
    dt = DT[c["dtype"]]
    p = {"mu": mu.to(dt), "sigma": sigma.to(dt), **opts}
    given = dict(p)
    dist = KINDS[c["kind"]](p)
    require(set(p) == set(given) and all(p[k] is given[k] for k in given), "the given parameter dictionary was modified")
    A = torch.diag(sigma) if sigma.ndim == 1 and c["kind"] == "full" else sigma
    return dist, mu, A


def check_untouched(dist, mu, sigma, what):
    same(dist.mu, mu, f"{what}: mu of the original distribution", dtype=False)
    same(dist.sigma, sigma, f"{what}: sigma of the original distribution", dtype=False)


def draw_fitnesses(c, n):
    """Distinct fitnesses with uneven gaps, in a shuffled order"""
    gaps = torch.randint(1, 6, (n,), generator=torch.Generator().manual_seed(c["seed"] + 3))
    vals = (torch.cumsum(gaps, 0).to(F64) - c["offset"]) / 2
    perm = torch.randperm(n, generator=torch.Generator().manual_seed(c["seed"] + 4))
    return vals[perm]


def utilities(f, method, higher):
    """The weights given by the ranking method: greater is better"""
    n = len(f)
    x = f if higher else -f
    method = "raw" if method is None else method
    if method == "raw":
        return x
    if method == "normalized":
        return (x - x.mean()) / x.std()
    w = torch.as_tensor(rankref.definition(method, n), dtype=F64)
    w, _ = torch.sort(w)
    out = torch.empty(n, dtype=F64)
    out[torch.argsort(x)] = w
    return out


def divide(g, how, w):
    if how is None:
        return g
    if how == "num_solutions":
        return g / len(w)
    if how == "num_directions":
        return g / (len(w) // 2)
    if how == "total_weight":
        return g / w.abs().sum()
    return g / w.std()


def grads_ref(kind, mu, A, x, f, method, sense, opts):
    w = utilities(f, method, sense == "max")
    n = len(f)
    noise = x - mu
    if "parenthood_ratio" in opts:
        k = math.floor(n * opts["parenthood_ratio"])
        best = torch.argsort(w, descending=True)[:k]
        e = x[best]
        return {"mu": e.mean(0) - mu, "sigma": e.std(0) - A}
    if kind == "exp":
        if method != "nes":
            w = w / w.abs().sum()
        return {"mu": w @ noise, "sigma": w @ ((noise / A) ** 2 - 1)}
    if method not in ("centered", "normalized"):
        w = w - w.mean()
    if kind == "full":
        z = torch.linalg.solve(A, noise.T).T
        M = sum(w[i] * (torch.outer(z[i], z[i]) - torch.eye(len(mu), dtype=F64)) for i in range(n))
        return {"d": w @ z, "M": M}
    dm, ds = opts.get("divide_mu_grad_by"), opts.get("divide_sigma_grad_by")
    if kind == "separable":
        gm = w @ noise
        gs = w @ ((noise**2 - A**2) / A)
    else:
        gm = torch.zeros_like(mu)
        gs = torch.zeros_like(mu)
        for d in range(n // 2):
            plus, minus, e = w[2 * d], w[2 * d + 1], noise[2 * d]
            gm = gm + (plus - minus) / 2 * e
            gs = gs + (plus + minus) / 2 * (e**2 - A**2) / A
    return {"mu": divide(gm, dm, w), "sigma": divide(gs, ds, w)}


def options(c):
    o = {}
    if c["kind"] in ("separable", "symmetric"):
        if c["elite"] and c["ranking"] != "nes":
            n = c["n"]
            o["parenthood_ratio"] = [0.5, 0.3, 0.75, 1.0, 0.4][c["elite"] - 1]
            if math.floor(n * o["parenthood_ratio"]) < 2:
                o["parenthood_ratio"] = 1.0
        else:
            for name, k in (("mu", "dm"), ("sigma", "ds")):
                if DIVIDE[c[k]] is not None:
                    o[f"divide_{name}_grad_by"] = DIVIDE[c[k]]
    return o


def sample_set(c, mu, A, n):
    x = mu + rand_grid(c["seed"] + 5, (n, c["L"]), dtype=F64)
    if c["kind"] == "symmetric":
        x[1::2] = 2 * mu - x[0::2]
    return x


def length(c):
    return c["n"] + (c["n"] % 2 if c["kind"] == "symmetric" else 0)


GRAD_FIELDS = dict(
    kind=kinds,
    L=often(1, 4, 12),
    n=often(2, 10, 60),
    dtype=dtypes,
    seed=seeds,
    offset=st.integers(0, 40),
    ranking=st.sampled_from(RANKINGS),
    sense=st.sampled_from(["min", "max"]),
    elite=st.integers(0, 5),
    dm=st.integers(0, 4),
    ds=st.integers(0, 4),
    diag=st.booleans(),
)


def gradients(c, ctx):
    c = dict(c, n=length(c))
    n = c["n"]
    opts = options(c)
    dist, mu, A = build(c, **opts)
    x = sample_set(c, mu, A, n)
    f = draw_fitnesses(c, n)
    if c["kind"] == "exp" and c["ranking"] in (None, "raw") and f.abs().sum() == 0:
        return
    dt = DT[c["dtype"]]
    xs, fs = x.to(dt), f.to(dt)
    g = dist.compute_gradients(xs, fs, objective_sense=c["sense"], ranking_method=c["ranking"])
    exp = grads_ref(c["kind"], mu, A, x, f, c["ranking"], c["sense"], opts)
    eq(sorted(g), sorted(exp), "names of the gradients")
    for k in exp:
        scale = max(1.0, float(exp[k].abs().max()))
        tol = dict(TOL[c["dtype"]])
        tol["atol"] *= scale
        same(g[k], exp[k], f"gradient of {k}", **tol)
        require(g[k].dtype == dt, lambda: f"gradient of {k} has dtype {g[k].dtype}")
    same(xs, x, "the given samples")
    same(fs, f, "the given fitnesses")
    check_untouched(dist, mu, A, "compute_gradients")
    # fitnesses of another float type are as good
    g2 = dist.compute_gradients(xs, f.to(torch.float32), objective_sense=c["sense"], ranking_method=c["ranking"])
    for k in exp:
        same(g2[k], g[k], f"gradient of {k} with float32 fitnesses", rtol=1e-5, atol=1e-5)
    if c["n"] >= 4:
        ctx.hit(c["kind"], str(c["ranking"]), *opts)
    else:
        ctx.label(c["kind"])


def update(c, ctx):
    c = dict(c, n=length(c))
    opts = options(c)
    dist, mu, A = build(c, **opts)
    L = c["L"]
    dt = DT[c["dtype"]]
    full = c["kind"] == "full"
    names = ("d", "M") if full else ("mu", "sigma")
    gm = rand_grid(c["seed"] + 6, (L,), -8, 8, dtype=F64)
    gs = rand_grid(c["seed"] + 7, (L, L) if full else (L,), -2, 2, 8.0, dtype=F64)
    if full:
        gs = (gs + gs.T) / 2
    grads = {names[0]: gm.to(dt), names[1]: gs.to(dt)}
    kept = {k: plain(v) for k, v in grads.items()}
    lrs = [0.5, 2.0, 0.25]
    kw = {}
    lr = [1.0, 1.0]
    lr_names = ("mu", "sigma") if (full and c["alias"]) else names
    how = c["how"]
    steps = [gm, gs]
    if how == 1:
        lr = [lrs[c["offset"] % 3], lrs[c["offset"] // 3 % 3]]
        kw["learning_rates"] = {lr_names[0]: lr[0], lr_names[1]: lr[1]}
    elif how == 2:
        lr[0] = lrs[c["offset"] % 3]
        kw["learning_rates"] = {lr_names[0]: lr[0]}
    elif how == 3:
        # an optimizer for one, a learning rate for the other
        kw["optimizers"] = {names[0]: SGD(solution_length=L, dtype=dt, stepsize=0.5)}
        kw["learning_rates"] = {lr_names[1]: 0.25}
        lr = [0.5, 0.25]
    kept_lr = dict(kw.get("learning_rates", {}))
    new = dist.update_parameters(grads, **kw)
    eq(dict(kw.get("learning_rates", {})), kept_lr, "the given dictionary of learning rates after the update")
    a, b = lr[0] * gm, lr[1] * gs
    if full:
        emu = mu + A @ a
        esig = A @ torch.linalg.matrix_exp(0.5 * b)
    elif c["kind"] == "exp":
        emu, esig = mu + a, A * torch.exp(0.5 * b)
    else:
        emu, esig = mu + a, A + b
    tol = TOL[c["dtype"]]
    require(type(new) is KINDS[c["kind"]], lambda: f"the update gave a {type(new).__name__}")
    require(new is not dist, "the update gave the same object")
    for k, (x, e) in {"mu": (new.mu, emu), "sigma": (new.sigma, esig)}.items():
        scale = max(1.0, float(e.abs().max()))
        same(x, e, f"updated {k}", rtol=tol["rtol"], atol=tol["atol"] * scale)
        require(x.dtype == dt, lambda: f"updated {k} has dtype {x.dtype}")
    eq({k: v for k, v in new.parameters.items() if isinstance(v, (str, float))}, opts, "options of the new distribution")
    if full:
        same(new.sigma_inv, torch.linalg.inv(esig), "updated inverse of sigma", rtol=1e-3 if dt == torch.float32 else 1e-8, atol=1e-3 if dt == torch.float32 else 1e-8)
    check_untouched(dist, mu, A, "update_parameters")
    for k in kept:
        same(grads[k], kept[k], f"the given gradient {k}")
    # the new distribution is independent from the old one
    before = plain(dist.mu)
    new.mu = new.mu + 1
    same(dist.mu, before, "mu of the old distribution after changing the new one")
    if how:
        ctx.hit(c["kind"], f"how{how}")
    else:
        ctx.label(c["kind"])


def moments_ok(x, mu, cov, what):
    """Mean and covariance of N samples of a Gaussian within 7 standard errors"""
    n = len(x)
    x = x.to(F64)
    d = x - mu
    sd = cov.diagonal().sqrt()
    z = d.mean(0) / (sd / math.sqrt(n))
    require(bool((z.abs() < 7).all()), lambda: f"{what}: mean of {n} samples is {x.mean(0).tolist()}, expected {mu.tolist()}")
    got = d.T @ d / n
    # var of a product moment: s_ii s_jj + s_ij^2
    se = ((torch.outer(cov.diagonal(), cov.diagonal()) + cov**2) / n).sqrt()
    dev = (got - cov).abs() / se
    require(bool((dev < 7.5).all()), lambda: f"{what}: covariance of {n} samples is {got.tolist()}, expected {cov.tolist()}")


def cov_of(c, A):
    if c["kind"] == "full":
        return A @ A.T
    return torch.diag(A**2)


def mirror_ok(x, mu, tol, what):
    s = x[0::2].to(F64) + x[1::2].to(F64)
    same(s, (2 * mu).expand_as(s), f"{what}: sum of the two ends of every direction", **tol)


def sampling(c, ctx):
    dist, mu, A = build(c)
    dt = DT[c["dtype"]]
    L, sym = c["L"], c["kind"] == "symmetric"
    n = 2 * c["n"] if sym else c["n"]
    g = torch.Generator().manual_seed(c["seed"]) if c["gen"] else None
    kw = {} if g is None else {"generator": g}
    x = dist.sample(n, **kw)
    check_shape(x, (n, L), "samples")
    eq(x.dtype, dt, "dtype of the samples")
    if sym:
        mirror_ok(x, mu, TOL[c["dtype"]], "samples")
        must_raise(lambda: dist.sample(n + 1), "an odd number of symmetric samples", ValueError)
    if g is not None:
        y = dist.sample(n, generator=torch.Generator().manual_seed(c["seed"]))
        same(y, x, "samples with the same generator seed")
    N = 1000
    out = torch.full((N, L), 7.5, dtype=dt)
    r = dist.sample(out=out, **kw)
    if r is not None:
        same(r, out, "the returned samples and the output tensor")
    big = plain(out)
    z = big
    if sym:
        mirror_ok(z, mu, TOL[c["dtype"]], "samples")
        z = z[0::2]
    moments_ok(z, mu, cov_of(c, A), "samples")
    if L > 1:
        must_raise(lambda: dist.sample(out=torch.empty((4, L + 1), dtype=dt)), "an output tensor of a wrong width", ValueError)
    must_raise(lambda: dist.sample(4, out=torch.empty((4, L), dtype=dt)), "sample with both a number and an output tensor", ValueError)
    must_raise(lambda: dist.sample(), "sample with nothing", ValueError)
    check_untouched(dist, mu, A, "sample")
    w = dist.sample(n)
    require(n * L < 2 or not bool((plain(w) == plain(x)).all()), "two consecutive samplings gave identical samples")
    ctx.hit(c["kind"])


def fsampling(c, ctx):
    """Samplers as pure functions, with any batch shapes of the parameters, in agreement with their laws"""
    cls = KINDS[c["kind"]]
    dt = DT[c["dtype"]]
    L, sym = c["L"], c["kind"] == "symmetric"
    full = c["kind"] == "full"
    batch = tuple(c["batch"])
    mu_b = batch[: c["mu_nb"]]
    s_b = batch if c["s_full"] else ()
    # leading dimensions broadcast from the left
    nb = max(len(mu_b), len(s_b))
    shape = batch[:nb]
    if len(mu_b) and len(s_b):
        mu_b = s_b = shape
    mus = rand_grid(c["seed"], mu_b + (L,), dtype=F64)
    if full:
        sig = rand_grid(c["seed"] + 1, s_b + (L,), 1, 16, dtype=F64)
        sig = torch.diag_embed(sig) + 0.25 * torch.triu(rand_grid(c["seed"] + 2, s_b + (L, L), -4, 4, dtype=F64), 1)
    else:
        sig = rand_grid(c["seed"] + 1, s_b + (L,), 1, 16, dtype=F64)
    N = 400
    mode = c["mode"]
    if mode == 3 and (full or not hasattr(cls, "functional_sample") or cls.functional_sample is NotImplemented):
        mode = 0
    if mode == 0:
        f = make_functional_sampler(cls, required_parameters=["mu", "sigma"])
        x = f(N, mus.to(dt), sig.to(dt))
    elif mode == 1:
        f = make_functional_sampler(cls, required_parameters=["sigma", "mu"])
        x = f(N, mu=mus.to(dt), sigma=sig.to(dt))
    elif mode == 2:
        sig = sig[tuple(0 for _ in s_b)] if s_b else sig
        s_b = ()
        f = make_functional_sampler(cls, required_parameters=["mu"], fixed_parameters={"sigma": sig.to(dt)})
        x = f(N, mus.to(dt))
    else:
        x = cls.functional_sample(N, {"mu": mus.to(dt), "sigma": sig.to(dt)})
    shape = mu_b if len(mu_b) >= len(s_b) else s_b
    check_shape(x, shape + (N, L), "batched samples")
    eq(x.dtype, dt, "dtype of the samples")
    mus = mus.expand(shape + (L,)) if not mu_b else mus
    sig = sig.expand(shape + sig.shape[-2 if full else -1 :]) if not s_b else sig
    flat = plain(x).reshape((-1, N, L))
    fm, fs = mus.reshape((-1, L)), sig.reshape((-1,) + ((L, L) if full else (L,)))
    for i in range(len(flat)):
        z = flat[i]
        if sym:
            mirror_ok(z, fm[i], TOL[c["dtype"]], f"batch item {i}")
            z = z[0::2]
        moments_ok(z, fm[i], fs[i] @ fs[i].T if full else torch.diag(fs[i] ** 2), f"batch item {i}")
    if len(flat) > 1:
        zz = [((flat[i].to(F64) - fm[i]) / (1.0 if full else fs[i])) for i in range(2)]
        if not full:
            require(not torch.allclose(zz[0], zz[1], rtol=1e-3, atol=1e-3), "two items of the batch got the same noise")
        ctx.hit(c["kind"], f"batch{len(shape)}")
    else:
        ctx.label(c["kind"])
    if mode in (0, 1):
        a, b = (mus, sig) if mode == 0 else (sig, mus)
        argument_errors(lambda *q, **k: f(N, *q, **k), {"mu": mus.to(dt), "sigma": sig.to(dt)}, (a.to(dt), b.to(dt)), "sampler")
    if not full and L > 1:
        g = make_functional_sampler(cls, required_parameters=["mu", "sigma"])
        must_raise(lambda: g(N, mus.to(dt), torch.ones(L + 1, dtype=dt)), "a sigma which is longer than mu")
        must_raise(lambda: g(N, mus.to(dt), torch.ones(1, dtype=dt)), "a sigma of length 1 for more variables")
        must_raise(lambda: g(N, mus.to(dt)[..., :1], torch.ones(L, dtype=dt)), "a mu of length 1 for more variables")


def argument_errors(call, named, ordered, what):
    """Parameters are given all by their names or all by their positions"""
    first = "mu" if ordered[0] is named["mu"] or ordered[0].shape == named["mu"].shape else "sigma"
    second = {"mu": "sigma", "sigma": "mu"}[first]
    must_raise(lambda: call(), f"{what}: no parameters", TypeError)
    must_raise(lambda: call(ordered[0]), f"{what}: a missing parameter", TypeError)
    must_raise(lambda: call(*ordered, ordered[1]), f"{what}: one parameter too many", TypeError)
    must_raise(lambda: call(**{first: named[first]}), f"{what}: a missing parameter", TypeError)
    must_raise(lambda: call(ordered[0], **{second: named[second]}), f"{what}: parameters by position and by name", TypeError)
    must_raise(lambda: call(ordered[0], **named), f"{what}: parameters by position and by name", TypeError)
    must_raise(lambda: call(*ordered, **{second: named[second]}), f"{what}: a parameter given twice", TypeError)
    must_raise(lambda: call(**named, other=named["mu"]), f"{what}: an unknown parameter")


def fgradients(c, ctx):
    """The functional gradient estimator on a batch gives what the distribution objects give one by one"""
    c = dict(c, n=length(c))
    n, L = c["n"], c["L"]
    cls = KINDS[c["kind"]]
    full = c["kind"] == "full"
    dt = DT[c["dtype"]]
    opts = options(c)
    B = c["B"]
    cs = [dict(c, seed=c["seed"] + 50 * i) for i in range(B)]
    ps = [params(dict(k, diag=False)) for k in cs]
    mu = torch.stack([p[0] for p in ps])
    A = torch.stack([p[1] for p in ps])
    if c["shared"]:
        A = A[0].expand_as(A)
    x = torch.stack([sample_set(k, p[0], None, n) for k, p in zip(cs, ps)])
    f = torch.stack([draw_fitnesses(k, n) for k in cs])
    if c["kind"] == "exp" and c["ranking"] in (None, "raw") and bool((f.abs().sum(-1) == 0).any()):
        return
    exp = [grads_ref(c["kind"], mu[i], A[i], x[i], f[i], c["ranking"], c["sense"], opts) for i in range(B)]
    A_arg = (A[0] if c["shared"] else A).to(dt)
    late = c["late"]
    common = dict(required_parameters=["mu", "sigma"], fixed_parameters=opts or None)
    if late:
        est = make_functional_grad_estimator(cls, **common, objective_sense="min" if c["sense"] == "max" else "max", ranking_method="raw")
        call = dict(objective_sense=c["sense"], ranking_method=c["ranking"])
    else:
        est = make_functional_grad_estimator(cls, **common, objective_sense=c["sense"], ranking_method=c["ranking"])
        call = {}
    if c["kwparams"]:
        g = est(x.to(dt), f.to(dt), mu=mu.to(dt), sigma=A_arg, **call)
    else:
        g = est(x.to(dt), f.to(dt), mu.to(dt), A_arg, **call)
    tol = TOL[c["dtype"]]
    for k in exp[0]:
        e = torch.stack([q[k] for q in exp])
        scale = max(1.0, float(e.abs().max()))
        same(g[k], e, f"batched gradient of {k}", rtol=tol["rtol"], atol=tol["atol"] * scale)

    # a function given: samples are drawn, evaluated and differentiated
    def fn(pop):
        return (pop**2).sum(-1) + pop[..., 0]

    est2 = make_functional_grad_estimator(
        cls, **common, objective_sense=c["sense"], ranking_method=c["ranking"], function=fn, return_samples=True, return_fitnesses=True
    )
    r = est2(n, mu.to(dt), A_arg)
    check_shape(r.samples, (B, n, L), "samples of the estimator")
    same(r.fitnesses, fn(r.samples), "fitnesses of the estimator", rtol=1e-4, atol=1e-4)
    xs, fs = plain(r.samples).to(F64), plain(r.fitnesses).to(F64)
    for i in range(B):
        # the same samples and fitnesses, given to the distribution object
        p = {"mu": mu[i].to(dt), "sigma": (A[i]).to(dt), **opts}
        ref = cls(p).compute_gradients(r.samples[i], r.fitnesses[i], objective_sense=c["sense"], ranking_method=c["ranking"])
        if c["kind"] == "symmetric":
            mirror_ok(xs[i], mu[i], TOL[c["dtype"]], f"batch item {i}")
        for k in ref:
            scale = max(1.0, float(plain(ref[k]).abs().max()))
            same(r.grads[k][i], ref[k], f"gradient of {k} for item {i}", rtol=1e-3, atol=1e-3 * scale)
    for rs, rf in ((True, False), (False, True), (False, False)):
        e3 = make_functional_grad_estimator(
            cls, **common, objective_sense=c["sense"], ranking_method=c["ranking"], function=fn, return_samples=rs, return_fitnesses=rf
        )
        r3 = e3(n, mu.to(dt), A_arg)
        if rs:
            check_shape(r3.samples, (B, n, L), "samples of the estimator")
        if rf:
            check_shape(r3.fitnesses, (B, n), "fitnesses of the estimator")
        gr = r3.grads if rs or rf else r3
        eq(sorted(gr), sorted(exp[0]), "names of the gradients")
        eq((hasattr(r3, "samples"), hasattr(r3, "fitnesses")), (rs, rf), "what the estimator returns besides the gradients")
    given = dict(mu=mu.to(dt), sigma=A_arg)
    argument_errors(lambda *q, **k: est(x.to(dt), f.to(dt), *q, **k, **call), given, (given["mu"], given["sigma"]), "gradient estimator")
    must_raise(lambda: est(x.to(dt), f[..., : n - 1].to(dt), *given.values(), **call), "fewer fitnesses than samples")
    est4 = make_functional_grad_estimator(cls, **common)
    must_raise(lambda: est4(x.to(dt), f.to(dt), mu.to(dt), A_arg), "an estimator without an objective sense", ValueError)
    if B > 1:
        ctx.hit(c["kind"], str(c["ranking"]))
    else:
        ctx.label(c["kind"])


def conversions(c, ctx):
    opts = options(c)
    dist, mu, A = build(c, **opts)
    L, full = c["L"], c["kind"] == "full"
    other = torch.float64 if c["dtype"] == "float32" else torch.float32
    eq(dist.solution_length, L, "solution length")
    eq(dist.dtype, DT[c["dtype"]], "dtype")
    q = dist.modified_copy(dtype=other)
    eq(q.dtype, other, "dtype of the copy")
    same(q.mu, mu, "mu of the copy")
    same(q.sigma, A, "sigma of the copy")
    require(q.mu.dtype == other and q.sigma.dtype == other, "parameters of the copy do not have the requested dtype")
    mu2 = rand_grid(c["seed"] + 11, (L,), dtype=F64)
    s2 = rand_grid(c["seed"] + 12, (L,), 1, 16, dtype=F64)
    r = dist.modified_copy(mu=mu2.to(DT[c["dtype"]]))
    same(r.mu, mu2, "mu of the modified copy")
    same(r.sigma, A, "sigma of the modified copy")
    s = dist.modified_copy(sigma=s2.to(DT[c["dtype"]]))
    same(s.mu, mu, "mu of the modified copy")
    e2 = torch.diag(s2) if full else s2
    same(s.sigma, e2, "sigma of the modified copy")
    if full:
        same(s.sigma_inv, torch.linalg.inv(e2), "inverse of sigma of the modified copy", rtol=1e-4, atol=1e-4)
        same(dist.sigma_inv, torch.linalg.inv(A), "inverse of sigma", rtol=1e-3, atol=1e-3)
        same(dist.cov, A @ A.T, "covariance", rtol=1e-4, atol=1e-4)
        z = rand_grid(c["seed"] + 13, (3, L), dtype=F64).to(DT[c["dtype"]])
        x = dist.to_global_coordinates(z)
        same(x, mu + z.to(F64) @ A.T, "global coordinates", rtol=1e-4, atol=1e-3)
        same(dist.to_local_coordinates(x), z, "local coordinates of the global coordinates", rtol=1e-3, atol=1e-2)
    for k, v in opts.items():
        for d in (q, r, s):
            eq(d.parameters.get(k), v, f"option {k} of the copy")
    check_untouched(dist, mu, A, "modified_copy")
    require(dist.to("cpu").solution_length == L, "to(device)")
    same(dist.to("cpu").mu, mu, "mu after to(cpu)")
    if c["kind"] in ("separable", "symmetric", "exp"):
        d0, d1 = dist, KINDS[c["kind"]]({"mu": mu2.to(DT[c["dtype"]]), "sigma": s2.to(DT[c["dtype"]])})
        N0 = torch.distributions.Normal(mu, A)
        N1 = torch.distributions.Normal(mu2, s2)
        kl = torch.distributions.kl_divergence(N0, N1).sum()
        require(abs(float(d0.relative_entropy(d1)) - float(kl)) <= 1e-3 + 1e-3 * abs(float(kl)), lambda: f"relative entropy {float(d0.relative_entropy(d1))}, expected {float(kl)}")
        if c["seed"] % 3 == 0:
            # many and very small (or large) standard deviations
            n = 40 + c["seed"] % 60
            e0, e1 = (10.0 ** rand_grid(c["seed"] + j, (n,), -12, -4, dtype=F64).mul(1.0 if c["seed"] % 2 else -1.0) for j in (14, 15))
            m0, m1 = (e0 * rand_grid(c["seed"] + j, (n,), -4, 4, dtype=F64) for j in (16, 17))
            d0, d1 = ({"mu": m.to(torch.float32), "sigma": e.to(torch.float32)} for m, e in ((m0, e0), (m1, e1)))
            kl = float(torch.distributions.kl_divergence(*(torch.distributions.Normal(d["mu"].to(F64), d["sigma"].to(F64)) for d in (d0, d1))).sum())
            got = float(KINDS[c["kind"]](d0).relative_entropy(KINDS[c["kind"]](d1)))
            require(abs(got - kl) <= 1e-2 + 1e-3 * abs(kl), lambda: f"relative entropy of {n}-dimensional distributions is {got}, expected {kl}")
    kw = dict(parameters={"mu": mu, "sigma": A[..., :L]})
    cls = KINDS[c["kind"]]
    must_raise(lambda: cls({"mu": mu}), "a missing sigma")
    must_raise(lambda: cls({"mu": mu, "sigma": A, "foo": 1}), "an unknown parameter", ValueError)
    must_raise(lambda: cls({"mu": torch.zeros(L + 1), "sigma": torch.ones(L)}), "mismatching lengths", ValueError)
    must_raise(lambda: cls({"mu": mu, "sigma": A}, solution_length=L + 1), "a wrong solution length", ValueError)
    del kw
    x = mu.expand(4, L).to(DT[c["dtype"]])
    must_raise(lambda: dist.compute_gradients(x, torch.arange(3.0), objective_sense="min"), "mismatching fitnesses", ValueError)
    must_raise(lambda: dist.compute_gradients(x, torch.arange(4.0), objective_sense="foo"), "a wrong sense", ValueError)
    new_sigma = torch.diag(s2) if full else s2
    dist.mu = mu2.tolist()
    dist.sigma = new_sigma.tolist()
    same(dist.mu, mu2, "mu after setting it")
    same(dist.sigma, new_sigma, "sigma after setting it")
    if full:
        same(dist.sigma_inv, torch.linalg.inv(new_sigma), "inverse of sigma after setting sigma", rtol=1e-4, atol=1e-4)
    if L > 1:
        ctx.hit(c["kind"])
    else:
        ctx.label(c["kind"])


FACETS = [
    Facet("gradients", with_fields(**GRAD_FIELDS), gradients, rule="at least four samples", quick=600, thorough=8000),
    Facet(
        "update",
        with_fields(**{**GRAD_FIELDS, "how": st.integers(0, 3), "alias": st.booleans()}),
        update,
        rule="learning rates or optimizers given",
        quick=400,
        thorough=5000,
    ),
    Facet(
        "sampling",
        with_fields(kind=kinds, L=often(1, 4, 12), n=often(1, 6, 40), dtype=dtypes, seed=seeds, gen=st.booleans(), diag=st.booleans()),
        sampling,
        rule="every case: the empirical mean and covariance of 1000 samples are tested",
        quick=200,
        thorough=2500,
    ),
    Facet(
        "fsampling",
        with_fields(
            kind=kinds,
            L=st.integers(1, 3),
            dtype=dtypes,
            seed=seeds,
            batch=st.lists(st.sampled_from([2, 3, 1]), min_size=1, max_size=2),
            mu_nb=st.sampled_from([2, 1, 0]),
            s_full=st.booleans(),
            mode=st.integers(0, 3),
        ),
        fsampling,
        rule="a batch of more than one parameter set",
        quick=200,
        thorough=2500,
    ),
    Facet(
        "fgradients",
        with_fields(**{**GRAD_FIELDS, "B": st.integers(1, 4), "shared": st.booleans(), "late": st.booleans(), "kwparams": st.booleans()}),
        fgradients,
        rule="a batch of more than one distribution",
        quick=150,
        thorough=2500,
    ),
    Facet("conversions", with_fields(**GRAD_FIELDS), conversions, rule="more than one variable", quick=200, thorough=2500),
]

for f in FACETS:
    f.breakdowns = 0
