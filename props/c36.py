"""C36: sampling solutions from a search distribution through a problem and computing its gradients."""

import math

import torch
from hypothesis import strategies as st

from evotorch import Problem

from .c09 import build, grads_ref
from .c12 import F64, EVALUATED, CountingProblem, Fitness, merged
from .common import DT, close, eq, must_raise, often, plain, require, same, seeds, with_fields
from harness.core import Facet

QUICK_FACTOR = 5
TECHNIQUE = "property-based testing: the gradients returned for generated distributions and problems compared with those computed in double precision from the solutions which were evaluated"
ASSUMPTIONS = ["no two fitnesses of a share of the work are equal"]

RANKINGS = [None, "raw", "centered", "linear", "nes", "normalized"]


def make(c, **kw):
    fit = Fitness(c["seed"] + 8, c["L"], len(c["senses"]))
    senses = c["senses"] if len(c["senses"]) > 1 else c["senses"][0]
    common = dict(solution_length=c["L"], initial_bounds=(-1, 1), dtype=DT[c["dtype"]], seed=c["seed"], **kw)
    if c["target"]:
        return CountingProblem(senses, fit, **common)
    return Problem(senses, fit, vectorized=True, **common)


def one(c, res, x, f, mu, A, obj, what):
    """The result for a share of the work which evaluated the solutions x, with the fitnesses f"""
    if c["stats"]:
        eq(sorted(res), ["gradients", "mean_eval", "num_solutions"], f"items of {what}")
        eq(int(res["num_solutions"]), len(x), f"num_solutions of {what}")
        f_obj = f.to(DT[c["dtype"]]).to(F64)[:, obj]
        close(float(res["mean_eval"]), float(f_obj.mean()), f"mean_eval of {what}", rtol=1e-4, atol=1e-3)
        g = res["gradients"]
    else:
        f_obj = f.to(DT[c["dtype"]]).to(F64)[:, obj]
        g = res
    names = ["M", "d"] if c["kind"] == "full" else ["mu", "sigma"]
    eq(sorted(g), names, f"names of the gradients of {what}")
    for k in names:
        require(g[k].dtype == DT[c["dtype"]], lambda: f"gradient of {k} has dtype {g[k].dtype}")
    if len(x) < 2 or len(set(f_obj.tolist())) < len(x):
        return False
    exp = grads_ref(c["kind"], mu, A, x, f_obj, c["ranking"], c["senses"][obj], {})
    if any(not bool(torch.isfinite(v).all()) for v in exp.values()):
        return False
    tol = 2e-3 if "float32" in (c["dtype"], c["dist_dtype"]) else 1e-8
    for k in names:
        scale = max(1.0, float(exp[k].abs().max()), float(f_obj.abs().max()) if c["ranking"] in (None, "raw") else 1.0)
        same(g[k], exp[k], f"gradient of {k} of {what}", rtol=tol, atol=tol * scale * len(x))
    return True


def gradients(c, ctx):
    actors = c.get("actors", 0)
    kw = {}
    if actors:
        kw["num_actors"] = actors
        if c["split"] == 1:
            kw["num_subbatches"] = 3
        elif c["split"] == 2:
            kw["subbatch_size"] = 4
    EVALUATED.clear()
    problem = make(c, **kw)
    # the distribution may have another dtype than the problem
    dist, mu, A = build(dict(c, dtype=c["dist_dtype"]))
    if c["dtype"] == "float32":
        mu, A = mu.to(torch.float32).to(F64), A.to(torch.float32).to(F64)
    symmetric = c["kind"] == "symmetric"
    n = c["n"] * 2 if symmetric and not actors else c["n"]
    if actors:
        n = 4 * (1 + n % 4) if c["split"] == 2 else n + 4
    nobj = len(c["senses"])
    obj = c["obj"] % nobj
    call = {}
    given = [None, obj, obj - nobj][c["how"]]
    if given is None and nobj > 1:
        must_raise(lambda: problem.sample_and_compute_gradients(dist, n, ensure_even_popsize=symmetric), "no objective index for several objectives")
        given = obj
    if given is not None or c["explicit"]:
        call["obj_index"] = given
    if c["ranking"] is not None or c["explicit"]:
        call["ranking_method"] = c["ranking"]
    if not c["stats"] or c["explicit"]:
        call["with_stats"] = c["stats"]
    if symmetric or c["explicit"]:
        call["ensure_even_popsize"] = symmetric
    pmax = None
    if c["target"]:
        call["num_interactions"] = c["target"]
        if c["pmax"]:
            pmax = call["popsize_max"] = n * (1 + c["pmax"])
    order = []
    problem.before_grad_hook.append(lambda: order.append("before"))
    problem.after_grad_hook.append(lambda r: (order.append(r), {"asked": len(order)})[1])
    done = 0
    for k in range(1 + c["seed"] % 2):
        del EVALUATED[:]
        order.clear()
        res = problem.sample_and_compute_gradients(dist, n, **call)
        got = list(EVALUATED)
        require(len(order) == 2 and order[0] == "before" and order[1] is res, "the hooks before and after were not each called once, the latter with the result")
        eq(problem.status.get("asked"), 2, "the item reported by the hook in the status of the problem")
        if c["target"]:
            got, lone = merged(got, n, c["target"], pmax)
        else:
            lone = [len(x) for x, _ in got]
        if actors:
            tasks = {0: actors, 1: 3, 2: n // 4}[c["split"]]
            share = [n // tasks + (1 if i < n % tasks else 0) for i in range(tasks)] if c["split"] < 2 else [4] * tasks
            if symmetric:
                share = [s + s % 2 for s in share]
            eq(sorted(lone), sorted(s for s in share if s or not c["target"]), "sizes of the batches sampled by the actors")
            require(isinstance(res, list), lambda: f"a list of results expected, got {type(res)}")
            eq(len(res), tasks, "number of results")
            if c["stats"]:
                eq(sorted(int(r["num_solutions"]) for r in res), sorted(len(x) for x, _ in got), "numbers of solutions")
        else:
            eq(lone, [n], "sizes of the sampled batches")
            res = [res]
        # results arrive in the order in which the workers finish
        left = list(res)
        for x, f in got:
            errors = []
            for r in left:
                try:
                    ok = one(c, r, x, f, mu, A, obj, "the result")
                except Exception as e:
                    errors.append(e)
                else:
                    left = [q for q in left if q is not r]
                    done += ok
                    break
            else:
                raise errors[0]
            z = torch.linalg.solve(A, (x - mu).T).T if A.ndim == 2 else (x - mu) / A
            if symmetric:
                same(x[0::2] + x[1::2], (2 * mu).expand(len(x) // 2, c["L"]), "sum of the two ends of every direction", rtol=1e-4, atol=1e-3)
            require(float(z.abs().max()) < 12 if len(z) else True, "a solution which is not from the distribution")
    same(plain(dist.parameters["mu"]).to(F64), mu, "mean of the distribution afterwards", rtol=1e-6, atol=1e-6)
    same(plain(dist.parameters["sigma"]).to(F64), A, "deviation of the distribution afterwards", rtol=1e-6, atol=1e-6)
    if done:
        ctx.hit(c["kind"], "without statistics" if not c["stats"] else None, "grown" if c["target"] and [len(x) for x, _ in got] != lone else None, "default objective" if "obj_index" not in call else None)
    else:
        ctx.label(c["kind"])


def refused(c, ctx):
    problem = make(dict(c, target=0))
    dist, _, _ = build(dict(c, dtype=c["dist_dtype"]))
    n = c["n"] * 2
    must_raise(lambda: problem.sample_and_compute_gradients(dist, n, obj_index=0, popsize_max=n), "a maximum population size without an interaction goal", ValueError)
    must_raise(lambda: problem.sample_and_compute_gradients(dist, n + 1, obj_index=0, ensure_even_popsize=True), "an odd number of solutions where an even one is to be ensured", ValueError)
    must_raise(lambda: problem.sample_and_compute_gradients(dist, n, obj_index=len(c["senses"])), "an objective index out of range", IndexError)
    must_raise(lambda: problem.sample_and_compute_gradients(dist, n, obj_index=0, ranking_method="best"), "an unknown ranking method")
    if c["actors"]:
        par = make(dict(c, target=0), num_actors=c["actors"], subbatch_size=3)
        for m in (4, 5, 7, 8):
            must_raise(lambda: par.sample_and_compute_gradients(dist, m, obj_index=0), "a number of solutions which is not a multiple of the size of the shares", ValueError)
        ctx.hit("actors")
    else:
        ctx.hit()


fields = dict(
    kind=st.sampled_from(["separable", "symmetric", "exp", "full"]),
    L=often(1, 4, 10),
    n=often(2, 8, 40),
    seed=seeds,
    dtype=st.sampled_from(["float64", "float64", "float32"]),
    dist_dtype=st.sampled_from(["float32", "float64"]),
    senses=st.sampled_from([["min"], ["max"], ["min", "max"], ["max", "min"], ["max", "min", "min"]]),
    obj=st.integers(0, 2),
    how=st.integers(0, 2),
    explicit=st.booleans(),
    ranking=st.sampled_from(RANKINGS),
    stats=st.booleans(),
    target=st.sampled_from([0, 0, 0, 10, 30, 60]),
    pmax=st.integers(0, 3),
    elite=st.just(0),
    dm=st.just(0),
    ds=st.just(0),
)

FACETS = [
    Facet("gradients", with_fields(**fields), gradients, rule="at least one share of at least two solutions with different fitnesses", quick=250, thorough=4000),
    Facet(
        "with actors",
        with_fields(**fields, actors=st.integers(2, 3), split=st.integers(0, 2)),
        gradients,
        rule="at least one share of at least two solutions with different fitnesses",
        needs_ray=True,
        quick=60,
        thorough=800,
    ),
    Facet("refused", with_fields(**fields, actors=st.sampled_from([0, 2])), refused, rule="every case", needs_ray=True, quick=12, thorough=80),
]
