"""C12: SNES, PGPE, CEM and XNES steps equal their documented distribution updates."""

import math

import torch
from hypothesis import strategies as st

from evotorch import Problem
from evotorch.algorithms import CEM, PGPE, SNES, XNES
from evotorch.optimizers import SGD, Adam, ClipUp

from .c09 import grads_ref
from .common import DT, check_shape, close, eq, must_raise, often, plain, rand_grid, require, same, seeds, with_fields
from .optref import RefAdam, RefClipUp, RefSGD
from harness.core import Facet

QUICK_FACTOR = 3
TECHNIQUE = "property-based testing: every generation of generated searches compared with the documented update computed in double precision from the observed population"
ASSUMPTIONS = ["the initial standard deviation lies within the configured limits", "no two fitnesses of a generation are equal"]

F64 = torch.float64
#: the solutions evaluated so far, with their fitnesses (actors run inside this process)
EVALUATED = []


class Fitness:
    """A bumpy function with a different value for practically every solution"""

    def __init__(self, seed, L, nobj):
        self.w = rand_grid(seed, (nobj, L), 1, 16, 8.0, F64)
        self.p = rand_grid(seed + 1, (nobj, L), -8, 8, 4.0, F64)

    def __call__(self, xs):
        x = xs.as_subclass(torch.Tensor).to(F64)
        cols = [((x - p) ** 2 * w).sum(-1) * 0.25 + (3 * torch.sin(2 * x * w)).sum(-1) for w, p in zip(self.w, self.p)]
        f = torch.stack(cols, dim=-1)
        EVALUATED.append((plain(xs).to(F64), f))
        return f.to(xs.dtype)


class CountingProblem(Problem):
    """Each evaluation costs a number of interactions depending on the solution"""

    def __init__(self, senses, fitness, **kw):
        super().__init__(senses, **kw)
        self.fitness = fitness
        self.count = 0
        self.after_eval_hook.append(self._report)

    @staticmethod
    def cost(x):
        return (1 + (x[:, 0].abs() * 7).floor().to(torch.int64) % 5).sum().item()

    def _report(self, batch):
        return {"total_interaction_count": self.count}

    def _get_local_interaction_count(self):
        return self.count

    def _evaluate_batch(self, batch):
        x = batch.values
        self.count += self.cost(plain(x).to(F64))
        batch.set_evals(self.fitness(x))


def opt_setup(c, L, dt, lr):
    """(optimizer arguments, reference or None)"""
    kind = ["none", "clipup", "adam", "sgd"][c["opt"]]
    conf, ref = {}, None
    if kind == "none":
        return {"optimizer": None}, None
    if kind == "clipup":
        if c["conf"] & 1:
            conf["momentum"] = 0.5
        if c["conf"] & 2:
            conf["max_speed"] = lr * 1.25
        ref = RefClipUp(L, lr, conf.get("momentum", 0.9), conf.get("max_speed"))
    elif kind == "adam":
        if c["conf"] & 1:
            conf["beta1"], conf["beta2"] = 0.5, 0.75
        if c["conf"] & 2:
            conf["epsilon"] = 0.25
        ref = RefAdam(L, lr, conf.get("beta1", 0.9), conf.get("beta2", 0.999), conf.get("epsilon", 1e-8))
    else:
        if c["conf"] & 1:
            conf["momentum"] = 0.5
        ref = RefSGD(L, lr, conf.get("momentum", 0.0))
    if c["conf"] & 4:
        cls = {"clipup": ClipUp, "adam": Adam, "sgd": SGD}[kind]
        return {"optimizer": cls(solution_length=L, dtype=dt, stepsize=lr, **conf)}, ref
    return {"optimizer": kind, **({"optimizer_config": conf} if conf else {})}, ref


def vec(c, off, scalar, lo, hi, div):
    return rand_grid(c["seed"] + off, () if scalar else (c["L"],), lo, hi, div, F64)


def as_given(v, c):
    if v.ndim == 0:
        return float(v)
    return v.tolist() if c["aslist"] else v.to(DT[c["dtype"]])


class Setup:
    """The keyword arguments of a searcher, and its documented settings"""

    def __init__(self, c, problem):
        L, dt = c["L"], DT[c["dtype"]]
        algo = c["algo"]
        self.algo = algo
        kw = {}
        # initial distribution
        if c["radius"]:
            r = float(vec(c, 3, True, 4, 16, 4.0))
            kw["radius_init"] = r
            self.sigma = torch.full((L,), r / math.sqrt(L), dtype=F64)
        else:
            s = vec(c, 3, c["scalars"], 8, 16, 8.0)
            kw["stdev_init"] = as_given(s, c)
            self.sigma = s.expand(L)
        self.mu = None
        if c["given"] & 1:
            self.mu = rand_grid(c["seed"] + 4, (L,), -8, 8, 4.0, F64)
            kw["center_init"] = as_given(self.mu, c)
        # population
        self.sym = algo == "PGPE" and c["sym"]
        n = c["n"]
        if self.sym:
            n += n % 2
        self.ranking = {"PGPE": "centered", "SNES": "nes", "XNES": "nes", "CEM": None}[algo]
        if algo != "CEM" and c["given"] & 2:
            self.ranking = [None, "raw", "centered", "linear", "nes", "normalized"][c["ranking"]]
            kw["ranking_method"] = self.ranking
        self.opts = {}
        self.opt = None
        if algo == "CEM":
            self.opts["parenthood_ratio"] = kw["parenthood_ratio"] = [0.5, 0.75, 1.0, 0.6][c["ratio"]]
            n = max(n, 4)
            kw["popsize"] = n
            self.lr = (1.0, 1.0)
        elif algo == "PGPE":
            kw["popsize"] = n
            kw["symmetric"] = self.sym
            if self.sym and c["given"] & 4:
                del kw["symmetric"]
            self.lr = (0.25, 0.5)
            kw["center_learning_rate"], kw["stdev_learning_rate"] = self.lr
            by = "num_directions" if self.sym else "num_solutions"
            self.opts = {"divide_mu_grad_by": by, "divide_sigma_grad_by": by}
        else:
            base = 0.2 * (3 + math.log(L)) / math.sqrt(L) if algo == "SNES" else 0.6 * (3 + math.log(L)) / (L * math.sqrt(L))
            lr = [1.0, base]
            if c["given"] & 4:
                kw["popsize"] = n
            else:
                n = 4 + math.floor(3 * math.log(L))
            if c["given"] & 8:
                kw["center_learning_rate"] = lr[0] = 0.5
            if c["given"] & 16:
                kw["stdev_learning_rate"] = 0.75
                lr[1] = 0.75 * base
                if c["given"] & 32:
                    kw["scale_learning_rate"] = False
                    lr[1] = 0.75
            self.lr = tuple(lr)
        self.n = n
        if algo != "CEM":
            okw, self.opt = opt_setup(c, L, dt, self.lr[0])
            if algo == "PGPE" and c["opt"] == 1 and not c["conf"]:
                okw = {}  # the default of PGPE
            kw.update(okw)
        # limits on the standard deviation
        self.lim = {}
        if algo != "XNES":
            for name, bit, off, (lo, hi, div) in (("stdev_min", 1, 5, (1, 4, 8.0)), ("stdev_max", 2, 6, (32, 64, 8.0)), ("stdev_max_change", 4, 7, (1, 8, 16.0))):
                if c["limits"] & bit:
                    v = vec(c, off, c["limit_scalar"], lo, hi, div)
                    if name == "stdev_min" and bool((self.sigma < v).any()):
                        continue
                    kw[name] = as_given(v, c)
                    self.lim[name] = v
            if algo == "PGPE" and "stdev_max_change" not in self.lim:
                if c["limits"] & 8:
                    kw["stdev_max_change"] = None
                else:
                    self.lim["stdev_max_change"] = torch.tensor(0.2, dtype=F64)
        self.obj = 0
        if len(c["senses"]) > 1:
            self.obj = c["obj"] % len(c["senses"])
            kw["obj_index"] = self.obj - (len(c["senses"]) if c["obj"] >= 2 else 0)
        self.sense = c["senses"][self.obj]
        self.kw = kw
        self.kind = {"PGPE": "symmetric" if self.sym else "separable", "SNES": "exp", "XNES": "full", "CEM": "separable"}[algo]

    def grads(self, mu, A, x, f):
        return grads_ref(self.kind, mu, A, x, f, self.ranking, self.sense, self.opts)

    def update(self, mu, A, g):
        """New center and standard deviation by following the gradients"""
        a = g["d"] if self.kind == "full" else g["mu"]
        a = self.lr[0] * a if self.opt is None else self.opt.step(a)
        b = self.lr[1] * (g["M"] if self.kind == "full" else g["sigma"])
        if self.kind == "full":
            return mu + A @ a, A @ torch.linalg.matrix_exp(0.5 * b)
        if self.kind == "exp":
            s = A * torch.exp(0.5 * b)
        else:
            s = A + b
        if "stdev_max_change" in self.lim:
            d = A.abs() * self.lim["stdev_max_change"]
            s = torch.minimum(torch.maximum(s, A - d), A + d)
        if "stdev_min" in self.lim:
            s = torch.maximum(s, self.lim["stdev_min"].expand_as(s))
        if "stdev_max" in self.lim:
            s = torch.minimum(s, self.lim["stdev_max"].expand_as(s))
        return mu + a, s

    def limits_ok(self, old, new):
        eps = 1e-5
        if "stdev_min" in self.lim:
            require(bool((new >= self.lim["stdev_min"] * (1 - eps)).all()), lambda: f"standard deviation {new.tolist()} below its minimum")
        if "stdev_max" in self.lim:
            require(bool((new <= self.lim["stdev_max"] * (1 + eps)).all()), lambda: f"standard deviation {new.tolist()} above its maximum")
        if "stdev_max_change" in self.lim:
            d = old.abs() * self.lim["stdev_max_change"]
            require(bool(((new - old).abs() <= d * (1 + eps) + 1e-9).all()), lambda: f"standard deviation changed from {old.tolist()} to {new.tolist()}")


def ill(setup, g, f):
    """Whether the result depends on rounding errors"""
    if len(set(f.tolist())) < len(f):
        return True
    a = g["d"] if setup.kind == "full" else g["mu"]
    if isinstance(setup.opt, RefClipUp) and float(a.norm()) < 1e-3:
        return True
    if isinstance(setup.opt, RefAdam) and float(a.abs().min()) < 1e-3:
        return True
    return any(not bool(torch.isfinite(v).all()) for v in g.values())


def wild(mu, s):
    """Whether the search has left the range in which rounding errors stay small"""
    big = float(mu.abs().max()) + float(s.abs().max())
    if not (big < 1e4 and float(s.abs().max()) > 1e-4):
        return True
    if s.ndim == 1:
        # without a minimum, following the gradient can lead to a standard deviation which is not positive
        return not float(s.min()) > 0
    return not float(torch.linalg.cond(s)) < 100


def tolerance(c, mu, s, g):
    t = 5e-3 if c["dtype"] == "float32" else 1e-7
    return dict(rtol=t, atol=t * (1 + float(mu.abs().max()) + float(s.abs().max())))


def sampled_ok(z, sym, what):
    """Standardized samples, gathered over the run"""
    z = torch.cat(z)
    require(bool((z.abs() < 8).all()), lambda: f"{what}: a sample lies {float(z.abs().max())} standard deviations away from the center")
    n = len(z)
    if n >= 20:
        require(bool((z.mean(0).abs() * math.sqrt(n) < 7).all()), lambda: f"{what}: mean of the standardized samples is {z.mean(0).tolist()} over {n}")
        v = (z**2).mean(0)
        # chi-square with n degrees of freedom, by the Wilson-Hilferty approximation
        h = (v ** (1 / 3) - (1 - 2 / (9 * n))) / math.sqrt(2 / (9 * n))
        require(bool((h.abs() < 7).all()), lambda: f"{what}: variance of the standardized samples is {v.tolist()} over {n}")


def standardize(x, mu, A):
    return torch.linalg.solve(A, (x - mu).T).T if A.ndim == 2 else (x - mu) / A


def make_problem(c, cls=Problem, **kw):
    fit = Fitness(c["seed"] + 8, c["L"], len(c["senses"]))
    senses = c["senses"] if len(c["senses"]) > 1 else c["senses"][0]
    common = dict(solution_length=c["L"], initial_bounds=(-1, 1), dtype=DT[c["dtype"]], seed=c["seed"] if c["seeded"] else None, **kw)
    if cls is Problem:
        return Problem(senses, fit, vectorized=True, **common)
    return cls(senses, fit, **common)


ALGOS = {"PGPE": PGPE, "SNES": SNES, "XNES": XNES, "CEM": CEM}


def observe(searcher, c, full):
    mu = plain(searcher.status["center"])
    s = plain(searcher.status["stdev"])
    L = c["L"]
    check_shape(mu, (L,), "center")
    check_shape(s, (L, L) if full and s.ndim == 2 else (L,), "standard deviation")
    require(mu.dtype == DT[c["dtype"]] and s.dtype == DT[c["dtype"]], "center or standard deviation does not have the dtype of the problem")
    return mu.to(F64), s.to(F64)


def pop_ok(searcher, setup, c, mu, A, zs):
    pop = searcher.population
    x, f = plain(pop.values).to(F64), plain(pop.evals)[:, : len(c["senses"])].to(F64)
    want = Fitness(c["seed"] + 8, c["L"], len(c["senses"]))(plain(pop.values)).to(F64)
    same(f, want, "fitnesses of the population", rtol=1e-5, atol=1e-5)
    z = standardize(x, mu, A)
    if setup.sym:
        same(x[0::2] + x[1::2], (2 * mu).expand(len(x) // 2, c["L"]), "sum of the two ends of every direction", rtol=1e-4, atol=1e-4 * (1 + float(mu.abs().max()) + float(A.max())))
        z = z[0::2]
    zs.append(z)
    return x, f[:, setup.obj]


def steps(c, ctx, actors={}, more={}):
    EVALUATED.clear()
    problem = make_problem(c, **actors)
    setup = Setup(c, problem)
    searcher = ALGOS[c["algo"]](problem, **setup.kw, **more)
    full = setup.kind == "full"
    zs = []
    old = None
    for k in range(c["steps"]):
        searcher.step()
        mu, A = observe(searcher, c, full)
        if old is None:
            if setup.mu is not None:
                same(mu, setup.mu, "initial center")
            else:
                require(bool(((mu >= -1) & (mu <= 1)).all()), lambda: f"initial center {mu.tolist()} outside the initial bounds")
            e = torch.diag(setup.sigma) if A.ndim == 2 else setup.sigma
            same(A, e, "initial standard deviation", rtol=1e-5, atol=1e-5)
        else:
            emu, eA = old
            same(mu, emu, f"center of generation {k + 1}", **tol)
            same(A, eA, f"standard deviation of generation {k + 1}", **tol)
            if not full:
                setup.limits_ok(last[1], A)
        n = setup.n
        eq(len(searcher.population), n, "population size")
        x, f = pop_ok(searcher, setup, c, mu, A, zs)
        close(searcher.status["mean_eval"], f.mean(), "mean_eval", rtol=1e-4, atol=1e-4)
        g = setup.grads(mu, A, x, f)
        if ill(setup, g, f):
            break
        last = (mu, A)
        old = setup.update(mu, A, g)
        tol = tolerance(c, *old, g)
        if wild(*old):
            break
    sampled_ok(zs, setup.sym, "population")
    if len(zs) >= 2:
        ctx.hit(c["algo"], *setup.lim, *(["optimizer"] if setup.opt else []))
    else:
        ctx.label(c["algo"])


def budget(c, ctx):
    """Populations grown until the number of interactions or the maximum population size is reached"""
    EVALUATED.clear()
    problem = make_problem(c, CountingProblem)
    setup = Setup(c, problem)
    target = c["target"]
    kw = dict(setup.kw, num_interactions=target)
    pmax = None
    if c["pmax"]:
        pmax = kw["popsize_max"] = setup.n * (1 + c["pmax"]) - 1
    searcher = ALGOS[c["algo"]](problem, **kw)
    full = setup.kind == "full"
    zs, old = [], None
    grown = 0
    for k in range(min(c["steps"], 4)):
        searcher.step()
        mu, A = observe(searcher, c, full)
        if old is not None:
            same(mu, old[0], f"center of generation {k + 1}", **tol)
            same(A, old[1], f"standard deviation of generation {k + 1}", **tol)
        x, f = pop_ok(searcher, setup, c, mu, A, zs)
        n = setup.n
        require(len(x) % n == 0, lambda: f"population of size {len(x)}, made of batches of {n}")
        m = len(x) // n
        eq(searcher.status["popsize"], len(x), "popsize in the status")
        made = [CountingProblem.cost(x[: (i + 1) * n]) for i in range(m)]
        for i in range(m):
            enough = made[i] >= target or (pmax is not None and (i + 1) * n >= pmax)
            if i < m - 1:
                require(not enough, lambda: f"sampling went on after {made[i]} interactions with {(i + 1) * n} solutions (target {target}, at most {pmax})")
            else:
                require(enough, lambda: f"sampling ended after {made[i]} interactions with {(i + 1) * n} solutions (target {target}, at most {pmax})")
        grown = max(grown, m)
        g = setup.grads(mu, A, x, f)
        if ill(setup, g, f):
            break
        old = setup.update(mu, A, g)
        tol = tolerance(c, *old, g)
        if wild(*old):
            break
    sampled_ok(zs, setup.sym, "population")
    if grown > 1:
        ctx.hit(c["algo"])
    else:
        ctx.label(c["algo"])


def distributed(c, ctx):
    """Each actor samples and differentiates on its own; the gradients are averaged"""
    kw = {}
    n_actors = 2 + c["conf"] % 2
    mode = c["split"]
    EVALUATED.clear()
    c = dict(c, seeded=True)
    full = c["algo"] == "XNES"
    if mode == 1:
        kw["num_subbatches"] = 3
    elif mode == 2:
        kw["subbatch_size"] = 4
    problem = make_problem(c, CountingProblem if c["target"] else Problem, num_actors=n_actors, **kw)
    setup = Setup(c, problem)
    skw = dict(setup.kw, distributed=True)
    n = setup.n
    if mode == 2:
        n = skw["popsize"] = max(8, n - n % 4)
    elif c["algo"] == "CEM":
        n = skw["popsize"] = max(12, n)
    else:
        n = skw["popsize"] = max(6, n + n % 2)
    weighted = not c["target"]  # the default
    pmax = None
    if c["target"]:
        skw["num_interactions"] = c["target"]
        if c["pmax"]:
            pmax = skw["popsize_max"] = n * (1 + c["pmax"])
    if c["given"] & 8:
        weighted = skw["popsize_weighted_grad_avg"] = bool(c["given"] & 16)
    searcher = ALGOS[c["algo"]](problem, **skw)
    mu = A = None
    zs = []
    if setup.mu is None:
        mu = plain(searcher.status["center"]).to(F64)
        require(bool(((mu >= -1) & (mu <= 1)).all()), "initial center outside the initial bounds")
    else:
        mu = setup.mu
    A = torch.diag(setup.sigma) if full else setup.sigma
    done = 0
    for k in range(min(c["steps"], 4)):
        del EVALUATED[:]
        searcher.step()
        got = list(EVALUATED)
        if c["target"]:
            got, lone = merged(got, n, c["target"], pmax)
        else:
            lone = [len(x) for x, _ in got]
        sizes = sorted(len(x) for x, _ in got)
        tasks = {0: n_actors, 1: 3, 2: n // 4}[mode]
        eq(len(sizes), tasks, "number of batches sampled by the actors")
        if mode == 2:
            require(all(s == 4 for s in lone), lambda: f"sizes {lone}, expected 4 each")
        else:
            share = [n // tasks + (1 if i < n % tasks else 0) for i in range(tasks)]
            if setup.sym:
                share = [s + s % 2 for s in share]
            eq(sorted(lone), sorted(share), "sizes of the batches sampled by the actors")
        total = sum(sizes)
        avg = None
        bad = False
        mean = 0.0
        for x, f in got:
            f = f.to(DT[c["dtype"]]).to(F64)[:, setup.obj]
            z = standardize(x, mu, A)
            zs.append(z[0::2] if setup.sym else z)
            mean += float(f.sum()) / total
            if len(x) < 2:
                bad = True
                break
            g = setup.grads(mu, A, x, f)
            bad = bad or len(set(f.tolist())) < len(f) or any(not bool(torch.isfinite(v).all()) for v in g.values())
            w = len(x) / total if weighted else 1 / len(sizes)
            avg = {k2: w * v + (0 if avg is None else avg[k2]) for k2, v in g.items()}
        if bad or ill(setup, avg, torch.arange(2.0)):
            break
        mu, A = setup.update(mu, A, avg)
        if not bool(torch.isfinite(A).all() and torch.isfinite(mu).all()) or max(float(A.abs().max()), float(mu.abs().max())) > 1e6:
            break  # (raw fitnesses as utilities can lead anywhere)
        tol = tolerance(c, mu, A, avg)
        gm, gA = observe(searcher, c, full)
        same(gm, mu, f"center after {k + 1} distributed steps", **tol)
        same(gA, A, f"standard deviation after {k + 1} distributed steps", **tol)
        close(searcher.status["mean_eval"], mean, "mean_eval", rtol=1e-3, atol=1e-3)
        done += 1
        mu, A = gm, gA
        if wild(mu, A):
            break
    sampled_ok(zs, setup.sym, "populations of the actors")
    if done:
        ctx.hit(c["algo"], "grown" if c["target"] and sizes != sorted(lone) else None)
    else:
        ctx.label(c["algo"])


def undistributed(c, ctx):
    """Actors which only evaluate do not change the search"""
    actors = dict(num_actors=2 + c["conf"] % 2, **([{}, dict(num_subbatches=3), dict(subbatch_size=4)][c["split"]]))
    steps(dict(c, steps=min(c["steps"], 3)), ctx, actors, dict(distributed=False) if c["given"] & 8 else {})


def merged(got, n, target, pmax):
    """The batches sampled one after another for the same share of the work, put together. A share which is a part s/n
    of the population has that part of the interactions (and of the maximum population size) as its goal, rounded up."""
    res, first = [], []
    open_ = False
    for x, f in got:
        if not open_:
            s = len(x)
            first.append(s)
            res.append((x, f))
        else:
            eq(len(x), s, "size of a further batch of the same share")
            res[-1] = (torch.cat([res[-1][0], x]), torch.cat([res[-1][1], f]))
        x = res[-1][0]
        enough = CountingProblem.cost(x) >= math.ceil(s * target / n) or (pmax is not None and len(x) >= math.ceil(s * pmax / n))
        open_ = not enough
    require(not open_, "sampling ended before the number of interactions or the maximum population size was reached")
    return res, first


def errors(c, ctx):
    problem = make_problem(c)
    bounded = Problem("min", lambda x: x.sum(), solution_length=c["L"], bounds=(-1, 1))
    must_raise(lambda: PGPE(problem, popsize=2 * c["n"] + 1, center_learning_rate=0.1, stdev_learning_rate=0.1, stdev_init=1.0), "an odd symmetric population", ValueError)
    must_raise(lambda: SNES(problem, stdev_init=1.0, popsize_weighted_grad_avg=True), "weighted gradient averaging when not distributed", ValueError)
    must_raise(lambda: SNES(problem), "neither stdev_init nor radius_init", ValueError)
    must_raise(lambda: SNES(problem, stdev_init=1.0, radius_init=1.0), "both stdev_init and radius_init", ValueError)
    must_raise(lambda: SNES(bounded, stdev_init=1.0), "a bounded problem")
    must_raise(lambda: SNES(problem, stdev_init=[1.0] * (c["L"] + 1)), "a stdev_init of a wrong length", ValueError)
    must_raise(lambda: SNES(problem, stdev_init=1.0, center_init=[1.0] * (c["L"] + 1)), "a center_init of a wrong length", ValueError)
    must_raise(lambda: SNES(problem, stdev_init=1.0, optimizer="foo"), "an unknown optimizer", ValueError)
    ctx.hit()


fields = dict(
    algo=st.sampled_from(sorted(ALGOS)),
    L=often(1, 4, 10),
    n=often(2, 12, 50),
    seed=seeds,
    seeded=st.booleans(),
    dtype=st.sampled_from(["float64", "float64", "float32"]),
    senses=st.sampled_from([["min"], ["max"], ["min", "max"], ["max", "min"], ["max"]]),
    obj=st.integers(0, 3),
    steps=often(2, 6, 15),
    radius=st.booleans(),
    scalars=st.booleans(),
    aslist=st.booleans(),
    given=st.integers(0, 63),
    sym=st.booleans(),
    ranking=st.integers(0, 5),
    ratio=st.integers(0, 3),
    opt=st.integers(0, 3),
    conf=st.integers(0, 7),
    limits=st.integers(0, 15),
    limit_scalar=st.booleans(),
)

FACETS = [
    Facet("steps", with_fields(**fields), steps, rule="at least one update of the distribution", quick=250, thorough=4000),
    Facet("budget", with_fields(**fields, target=st.integers(1, 100), pmax=st.integers(0, 3)), budget, rule="a population grown beyond the initial batch", quick=120, thorough=1500),
    Facet(
        "distributed",
        with_fields(**fields, split=st.integers(0, 2), target=st.sampled_from([0, 0, 20, 40, 60, 90]), pmax=st.integers(0, 3)),
        distributed,
        rule="at least one update of the distribution",
        needs_ray=True,
        quick=50,
        thorough=600,
    ),
    Facet(
        "actors which only evaluate",
        with_fields(**fields, split=st.integers(0, 2)),
        undistributed,
        rule="at least one update of the distribution",
        needs_ray=True,
        quick=25,
        thorough=300,
    ),
    Facet("errors", with_fields(**{**fields, "senses": st.just(["min"])}), errors, rule="every case", quick=5, thorough=20),
]
