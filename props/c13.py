"""C13: CMA-ES updates its mean, step size and covariance by the published equations."""

import math

import torch
from hypothesis import strategies as st

from evotorch import Problem
from evotorch.algorithms import CMAES

from .c12 import EVALUATED, Fitness, sampled_ok, standardize
from .common import DT, check_shape, close, eq, must_raise, often, plain, rand_grid, require, same, seeds, with_fields
from harness.core import Facet

QUICK_FACTOR = 3
TECHNIQUE = "property-based testing: every generation of generated searches compared with the published equations computed in double precision from the observed population"
ASSUMPTIONS = [
    "no two fitnesses of a generation are equal",
    "population sizes of at least 2; positive learning rates for the covariance",
    "a trajectory is followed as long as the covariance stays clearly positive definite and the numbers stay within a moderate range",
]

F64 = torch.float64


class Reference:
    """Evolution paths, step size and covariance in double precision"""

    def __init__(self, c, kw, d, n):
        self.d, self.n = d, n
        self.mu_n = mu = n // 2
        self.sep = c["separable"]
        raw = math.log((n + 1) / 2) - torch.log(torch.arange(1, n + 1, dtype=F64))
        pos, neg = raw[:mu], raw[mu:]
        me = float(pos.sum() ** 2 / (pos**2).sum())

        def given(name, default):
            v = kw.get(name)
            return kw.get(name + "_ratio", 1.0) * (default if v is None else v)

        self.cs = given("c_sigma", (me + 2) / (d + me + 3))
        self.damp = given("damp_sigma", 1 + 2 * max(0.0, math.sqrt((me - 1) / (d + 1)) - 1) + self.cs)
        if self.sep:
            self.cc = given("c_c", (1 + 1 / d + me / d) / (math.sqrt(d) + 1 / d + 2 * me / d))
            self.c1 = given("c_1", 1 / (d + 2 * math.sqrt(d) + me / d))
            self.cmu = given("c_mu", min(1 - self.c1, (0.25 + me + 1 / me - 2) / (d + 4 * math.sqrt(d) + me / 2)))
        else:
            self.cc = given("c_c", (4 + me / d) / (d + 4 + 2 * me / d))
            self.c1 = given("c_1", min(1, n / 6) * 2 / ((d + 1.3) ** 2 + me))
            self.cmu = given("c_mu", min(1 - self.c1, 2 * (0.25 + me - 2 + 1 / me) / ((d + 2) ** 2 + me)))
        self.cm = kw.get("c_m", 1.0)
        self.me = me
        pos = pos / pos.sum()
        self.active = kw.get("active", True)
        if self.active:
            men = float(neg.sum() ** 2 / (neg**2).sum())
            alpha = min(1 + self.c1 / self.cmu, 1 + 2 * men / (me + 2), (1 - self.cmu - self.c1) / (d * self.cmu))
            neg = alpha * neg / neg.abs().sum()
        else:
            neg = torch.zeros_like(neg)
        self.w = torch.cat([pos, neg])
        self.ps = torch.zeros(d, dtype=F64)
        self.pc = torch.zeros(d, dtype=F64)
        self.C = torch.eye(d, dtype=F64)
        self.A = torch.eye(d, dtype=F64)
        self.chi = math.sqrt(d) * (1 - 1 / (4 * d) + 1 / (21 * d * d))
        self.squared = kw.get("csa_squared", False)
        q = 1 / max(1e-8, 10 * d * (self.c1 + self.cmu))
        #: the covariance is decomposed every so many generations (None: too close to tell)
        self.freq = 1
        if kw.get("limit_C_decomposition", True):
            self.freq = max(1, math.floor(q))
            if q > 0.5 and abs(q - round(q)) < 1e-4 * q:
                self.freq = None
        self.lo, self.hi = kw.get("stdev_min"), kw.get("stdev_max")
        self.t = 0

    def step(self, m, sigma, x, order):
        """The next mean and step size, given the solutions in the order from best to worst. None: too close to tell"""
        d = self.d
        y = (x[order] - m) / sigma
        z = torch.linalg.solve(self.A, y.T).T
        mu = self.mu_n
        wp = self.w[:mu, None]
        dz, dy = (wp * z[:mu]).sum(0), (wp * y[:mu]).sum(0)
        m2 = m + self.cm * sigma * dy
        self.ps = (1 - self.cs) * self.ps + math.sqrt(self.cs * (2 - self.cs) * self.me) * dz
        nps = float(self.ps.norm())
        e = (nps**2 / d - 1) / 2 if self.squared else nps / self.chi - 1
        s2 = sigma * math.exp(min(self.cs / self.damp * e, 700))
        # stalling: generations are counted with or without the current one
        bound = d * (2 + 4 / (d + 1))
        sides = {(nps**2 / (1 - (1 - self.cs) ** k)) / bound < tol for k in (2 * self.t + 1, 2 * self.t + 2) for tol in (1 - 1e-4, 1 + 1e-4)}
        if len(sides) > 1:
            return None
        h = 1.0 if sides.pop() else 0.0
        self.pc = (1 - self.cc) * self.pc + h * math.sqrt(self.cc * (2 - self.cc) * self.me) * dy
        w = self.w
        if self.active:
            w = torch.where(w > 0, w, d * w / (z**2).sum(-1))
        c1a = self.c1 * (1 - (1 - h) * self.cc * (2 - self.cc))
        C = (1 - c1a - self.cmu * float(self.w.sum())) * self.C
        C = C + self.c1 * torch.outer(self.pc, self.pc)
        C = C + self.cmu * (y.T * w) @ y
        if self.sep:
            C = torch.diag(C.diagonal())
        if self.lo is not None or self.hi is not None:
            sd = s2 * C.diagonal().clamp_min(0).sqrt()
            scale = sd.clamp(self.lo, self.hi) / sd
            # the correlations are kept
            C = scale[:, None] * C * scale
        self.C = C
        ev = torch.linalg.eigvalsh(C)
        if not bool(torch.isfinite(ev).all()) or float(ev[0]) < 1e-4 * float(ev[-1]) or not 1e-4 < s2 < 1e4:
            return None
        self.t += 1
        if self.t % self.freq == 0:
            self.A = torch.linalg.cholesky(C)
        self.h = h
        return m2, s2


def settings(c):
    kw = {}
    g = c["given"]
    for i, (name, values) in enumerate(
        [
            ("c_m", [0.5, 1.25]),
            ("c_sigma", [0.25, 0.5]),
            ("damp_sigma", [1.5, 3.0]),
            ("c_c", [0.25, 0.5]),
            ("c_1", [0.125, 0.0625]),
            ("c_mu", [0.125, 0.25]),
        ]
    ):
        if g >> i & 1:
            kw[name] = values[c["pick"] >> i & 1]
    for i, (name, values) in enumerate(
        [
            ("c_sigma_ratio", [0.5, 1.25]),
            ("damp_sigma_ratio", [0.75, 2.0]),
            ("c_c_ratio", [0.5, 1.25]),
            ("c_1_ratio", [0.0078125, 0.75]),
            ("c_mu_ratio", [0.015625, 0.75]),
        ]
    ):
        if c["ratios"] >> i & 1:
            kw[name] = values[c["pick"] >> (i + 6) & 1]
    if c["flags"] & 1:
        kw["active"] = False
    if c["flags"] & 2:
        kw["csa_squared"] = True
    if c["flags"] & 4:
        kw["limit_C_decomposition"] = False
    if c["separable"]:
        kw["separable"] = True
    s = c["sigma"] / 4
    kw["stdev_init"] = s
    if c["limits"] & 1:
        kw["stdev_min"] = s * 0.875
    if c["limits"] & 2:
        kw["stdev_max"] = s * 1.125
    return kw


def make_problem(c, **more):
    fit = Fitness(c["seed"] + 8, c["L"], len(c["senses"]))
    senses = c["senses"] if len(c["senses"]) > 1 else c["senses"][0]
    return Problem(
        senses, fit, vectorized=True, solution_length=c["L"], initial_bounds=(-1, 1), dtype=DT[c["dtype"]],
        seed=c["seed"] if c["seeded"] else None, **more,
    )


def steps(c, ctx):
    EVALUATED.clear()
    L, dt = c["L"], DT[c["dtype"]]
    problem = make_problem(c)
    kw = settings(c)
    n = c["n"]
    if n is None:
        n = 4 + math.floor(3 * math.log(L))
    else:
        kw["popsize"] = n
    ref = Reference(c, kw, L, n)
    center = rand_grid(c["seed"] + 2, (L,), -8, 8, 4.0, F64)
    how = c["center"]
    if how == "list":
        kw["center_init"] = center.tolist()
    elif how == "tensor":
        kw["center_init"] = center.to(dt)
    elif how == "solution":
        b = problem.generate_batch(2)
        b.set_values(center.to(dt).expand(2, L))
        kw["center_init"] = b[1]
    obj = 0
    if len(c["senses"]) > 1:
        obj = c["obj"]
        kw["obj_index"] = obj
    searcher = CMAES(problem, **kw)
    m, s = plain(searcher.status["center"]).to(F64), float(searcher.status["stepsize"])
    check_shape(m, (L,), "initial center")
    if how == "none":
        require(bool(((m >= -1) & (m <= 1)).all()), lambda: f"initial center {m.tolist()} outside the initial bounds")
    else:
        same(m, center, "initial center", atol=1e-6)
    close(s, kw["stdev_init"], "initial step size")
    zs = []
    t = 3e-3 if c["dtype"] == "float32" else 1e-4
    moved = False
    for k in range(c["steps"]):
        EVALUATED.clear()
        searcher.step()
        eq(len(EVALUATED), 1, "evaluations of a batch per generation")
        pop = searcher.population
        eq(len(pop), n, "population size")
        x, f = plain(pop.values).to(F64), plain(pop.evals)[:, : len(c["senses"])].to(F64)
        same(x, EVALUATED[0][0], "evaluated solutions")
        same(f, EVALUATED[0][1], "fitnesses", rtol=1e-5, atol=1e-5)
        zs.append(standardize(x, m, ref.A * s))
        order = torch.argsort(f[:, obj], descending=c["senses"][obj] == "max")
        if c["dtype"] == "float32" and len(f[:, obj].unique()) < n:
            break
        if ref.freq is None:
            break
        step = ref.step(m, s, x, order)
        if step is None:
            ctx.label("left")
            break
        if not ref.h:
            ctx.label("stalled")
        m2, s2 = plain(searcher.status["center"]).to(F64), float(searcher.status["stepsize"])
        eq(searcher.status["center"].dtype, dt, "dtype of the center")
        same(m2, step[0], f"center after generation {k + 1}", rtol=t, atol=t * (1 + s * float(ref.A.abs().max())))
        close(s2, step[1], f"step size after generation {k + 1}", rtol=t)
        C = getattr(searcher, "C", None)
        if isinstance(C, torch.Tensor):
            C = plain(C).to(F64)
            C = torch.diag(C) if C.ndim == 1 else C
            same(C, ref.C, f"covariance after generation {k + 1}", rtol=t, atol=t * float(ref.C.abs().max()))
            sd = s2 * C.diagonal().sqrt()
            for lim, ok in ((ref.lo, lambda: sd >= ref.lo * (1 - 1e-5)), (ref.hi, lambda: sd <= ref.hi * (1 + 1e-5))):
                require(lim is None or bool(ok().all()), lambda: f"standard deviations {sd.tolist()} outside the limits {ref.lo}, {ref.hi}")
        moved = True
        if abs(math.log(s2 / s)) > 1:
            # rounding errors of the next steps would be multiplied
            ctx.label("wild")
            break
        m, s = m2, s2
    sampled_ok(zs, False, "CMA-ES")
    if moved:
        ctx.hit("separable" if ref.sep else "full", how)
        if ref.freq is not None and ref.freq > 1:
            ctx.label("rarely decomposed")


@st.composite
def step_cases(draw):
    nobj = draw(st.sampled_from([1, 1, 1, 2]))
    return draw(
        with_fields(
            L=often(1, 6, 14),
            n=st.one_of(st.none(), st.integers(2, 5), st.integers(6, 30), st.integers(31, 200)),
            sigma=st.integers(2, 12),
            separable=st.booleans(),
            flags=st.integers(0, 7),
            given=st.one_of(st.just(0), st.integers(0, 63)),
            ratios=st.one_of(st.just(0), st.integers(0, 31)),
            pick=st.integers(0, 2**11 - 1),
            limits=st.sampled_from([0, 0, 1, 2, 3]),
            center=st.sampled_from(["none", "list", "tensor", "solution"]),
            dtype=st.sampled_from(["float64", "float64", "float64", "float32"]),
            senses=st.lists(st.sampled_from(["min", "max"]), min_size=nobj, max_size=nobj),
            obj=st.integers(0, nobj - 1),
            seeded=st.booleans(),
            steps=often(1, 8, 20),
            seed=seeds,
        )
    )


# -- the sampling ------------------------------------------------------------------------------------------------------


def sampling(c, ctx):
    """With a large population, the samples have the covariance of the search distribution"""
    EVALUATED.clear()
    L, n = c["L"], 1500
    problem = make_problem(c)
    kw = {"stdev_init": c["sigma"] / 4, "separable": c["separable"], "popsize": n, "c_1": 0.25, "c_mu": 0.5, "limit_C_decomposition": c["lim"]}
    searcher = CMAES(problem, **kw)
    ref = Reference(c, kw, L, n)
    m, s = plain(searcher.status["center"]).to(F64), float(searcher.status["stepsize"])
    for k in range(c["steps"]):
        searcher.step()
        x, f = plain(searcher.population.values).to(F64), plain(searcher.population.evals)[:, 0].to(F64)
        z = standardize(x, m, ref.A * s)
        cov = z.T @ z / n
        dev = (cov - torch.eye(L, dtype=F64)).abs() * math.sqrt(n) / (1 + torch.eye(L, dtype=F64) * (math.sqrt(2) - 1))
        require(bool((dev < 7.5).all()), lambda: f"generation {k + 1}: covariance of the standardized samples is {cov.tolist()}")
        require(bool((z.mean(0).abs() * math.sqrt(n) < 7).all()), lambda: f"generation {k + 1}: mean of the standardized samples is {z.mean(0).tolist()}")
        step = ref.step(m, s, x, torch.argsort(f, descending=c["senses"][0] == "max"))
        if step is None:
            break
        m, s = plain(searcher.status["center"]).to(F64), float(searcher.status["stepsize"])
        same(m, step[0], "center", rtol=1e-4, atol=1e-4 * (1 + s))
        if k:
            ctx.hit()


sampling_cases = with_fields(
    L=st.integers(1, 4),
    sigma=st.integers(2, 12),
    separable=st.booleans(),
    lim=st.booleans(),
    dtype=st.just("float64"),
    senses=st.sampled_from([["min"], ["max"]]),
    seeded=st.booleans(),
    steps=st.integers(2, 5),
    seed=seeds,
)


# -- longer runs with default coefficients -------------------------------------------------------------------------------


def sound(c, ctx):
    """With the default coefficients the covariance stays positive definite, whatever the population size"""
    EVALUATED.clear()
    problem = make_problem(c)
    kw = {"popsize": c["n"]} if c["n"] is not None else {}
    if c["separable"]:
        kw["separable"] = True
    searcher = CMAES(problem, stdev_init=c["sigma"] / 4, active=c["active"], **kw)
    for k in range(c["steps"]):
        searcher.step()
        EVALUATED.clear()
        x = plain(searcher.population.values)
        require(bool(torch.isfinite(x).all()), lambda: f"generation {k + 1}: not all solutions are finite: {x[:3].tolist()}")
        s, m = float(searcher.status["stepsize"]), plain(searcher.status["center"])
        require(math.isfinite(s) and s > 0, lambda: f"generation {k + 1}: step size {s}")
        require(bool(torch.isfinite(m).all()), lambda: f"generation {k + 1}: center {m.tolist()}")
        spread = x.to(F64).std(0) if len(x) > 1 else torch.ones(1)
        require(bool((spread > 0).all()), lambda: f"generation {k + 1}: no variance in the population")
        if not 1e-9 < s < 1e9 or float(spread.max()) > 1e9 or float(spread.min()) < 1e-9 * max(1.0, float(m.abs().max())):
            ctx.label("left")
            break
    if k > 3:
        ctx.hit("separable" if c["separable"] else "full")


sound_cases = with_fields(
    L=often(1, 6, 20),
    n=st.one_of(st.none(), st.integers(2, 30), st.integers(31, 300)),
    sigma=st.integers(2, 12),
    separable=st.booleans(),
    active=st.booleans(),
    dtype=st.just("float64"),
    senses=st.sampled_from([["min"], ["max"]]),
    seeded=st.booleans(),
    steps=often(5, 30, 80),
    seed=seeds,
)


# -- rejections ----------------------------------------------------------------------------------------------------------


def rejected(c, ctx):
    L = c["L"]
    problem = make_problem(c)
    kind = c["kind"]
    if kind == "short":
        must_raise(lambda: CMAES(problem, stdev_init=1.0, center_init=[0.5] * (L + c["more"])), "a center of another length")
    elif kind == "bounded":
        bounded = Problem(c["senses"][0], lambda x: x.sum(-1), vectorized=True, solution_length=L, bounds=(-1.0, 1.0))
        must_raise(lambda: CMAES(bounded, stdev_init=1.0), "a bounded problem")
    elif kind == "object":
        objs = Problem(c["senses"][0], lambda x: 0.0, dtype=object)
        must_raise(lambda: CMAES(objs, stdev_init=1.0), "a problem with objects")
    else:
        two = make_problem(dict(c, senses=["min", "max"]))
        must_raise(lambda: CMAES(two, stdev_init=1.0), "no objective index with two objectives")
    ctx.hit(kind)


rejected_cases = with_fields(
    L=st.integers(2, 5),
    more=st.sampled_from([-1, 1, 2]),
    kind=st.sampled_from(["short", "bounded", "object", "two"]),
    dtype=st.just("float64"),
    senses=st.sampled_from([["min"], ["max"]]),
    seeded=st.booleans(),
    seed=seeds,
)

FACETS = [
    Facet("steps", step_cases(), steps, rule="at least one generation compared with the equations", quick=500, thorough=10000),
    Facet("sampling", sampling_cases, sampling, rule="at least one generation sampled with an adapted covariance", quick=40, thorough=600),
    Facet("longer runs", sound_cases, sound, rule="at least five generations", quick=80, thorough=1500),
    Facet("rejected", rejected_cases, rejected, rule="an illegal setting given", quick=20, thorough=100),
]

for f in FACETS:
    f.breakdowns = 0
