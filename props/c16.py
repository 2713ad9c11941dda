"""C16: search runs count steps, fire hooks and report status consistently."""

import datetime
from collections.abc import Mapping

import torch
from hypothesis import strategies as st

from evotorch import Solution
from evotorch.tools import ReadOnlyTensor

from .common import close, eq, must_raise, often, plain, require, same, seeds, with_fields
from .searchers import CENTERED, MULTI, SINGLE, make_problem, make_searcher, popsize_of
from harness.core import Facet

TECHNIQUE = "property-based testing: generated scripts of steps, runs, hook registrations and status reads, compared with a model of the call sequence and with statistics recomputed from the population"
F64 = torch.float64


def solution_ok(s, x, f, what):
    require(isinstance(s, Solution), lambda: f"{what}: expected a solution, got {type(s).__name__}")
    same(s.values, x, f"{what}: decision values")
    same(s.evals[: len(f)], f, f"{what}: evaluations")


def best_index(f, sense):
    return int(torch.argmax(f) if sense == "max" else torch.argmin(f))


def snapshot(v):
    """Independent plain copy of a status entry"""
    if isinstance(v, Solution):
        return ("solution", plain(v.values), plain(v.evals))
    if isinstance(v, torch.Tensor):
        return ("tensor", plain(v))
    if isinstance(v, list):
        return ("list",) + tuple(b for a in v for b in snapshot(a))
    return ("value", v)


def unchanged(snap, v, what):
    now = snapshot(v)
    eq(now[0], snap[0], f"{what}: kind of entry")
    for a, b in zip(now[1:], snap[1:]):
        if isinstance(b, torch.Tensor):
            same(a, b, f"{what}: value kept by the receiver")
        else:
            require(a == b or (a != a and b != b), lambda: f"{what}: value kept by the receiver changed from {b!r} to {a!r}")


class Model:
    def __init__(self, c):
        self.c = c
        self.problem, self.fit = make_problem(c["kind"], c["senses"], c["L"], c["seed"], c["dtype"])
        self.searcher = make_searcher(c["kind"], self.problem, c["n"], c["obj"])
        self.n = popsize_of(c["kind"], c["n"])
        self.steps = 0
        self.log = []
        self.hooks = {"before": [], "after": [], "log": [], "end": []}
        self.kept = []
        self.extra = {}
        self.started = None
        self.best = None

    def hook_of(self, where):
        s = self.searcher
        return {"before": s.before_step_hook, "after": s.after_step_hook, "log": s.log_hook, "end": s.end_of_run_hook}[where]

    def register(self, where, ident, gives):
        model = self

        def plain_hook():
            model.log.append((where, ident, model.searcher.step_count))
            if where == "before" and model.searcher.step_count:
                eq(model.searcher.status["iter"], model.searcher.step_count, "iteration in the status before a step")
            return model.entries(ident, gives, model.searcher.step_count) if where == "after" else None

        def status_hook(status):
            model.log.append((where, ident, model.searcher.step_count))
            require(isinstance(status, Mapping), lambda: f"{where} hook received {type(status).__name__}, expected a dictionary")
            eq(status["iter"], model.searcher.step_count, f"{where} hook: iteration in the status")
            live = model.searcher.status
            eq(sorted(status), sorted(live), f"{where} hook: keys of the status")
            for k in status:
                unchanged(snapshot(status[k]), live[k], f"{where} hook: {k}")
            for k, v in model.entries_of_step(model.searcher.step_count).items():
                eq(status.get(k), v, f"{where} hook: entry {k} made by an after-step hook")
            model.kept.append((model.searcher.step_count, status, {k: snapshot(v) for k, v in status.items()}))

        self.hook_of(where).append(plain_hook if where in ("before", "after") else status_hook)
        self.hooks[where].append((ident, gives))

    def entries(self, ident, gives, step):
        if gives == 0:
            return None
        d = {f"x{ident}": (ident, step)}
        if gives >= 2:
            d["shared"] = (ident, step, "shared")
        if gives == 3:
            d["mean_eval"] = 1000.0 + ident
        return d

    def entries_of_step(self, step):
        r = {}
        for ident, gives in self.hooks["after"]:
            r.update(self.entries(ident, gives, step) or {})
        return r

    def expected_calls(self, num, run):
        calls = []
        for i in range(num):
            k = self.steps + i
            calls += [("before", h, k) for h, _ in self.hooks["before"]]
            calls += [("after", h, k + 1) for h, _ in self.hooks["after"]]
            calls += [("log", h, k + 1) for h, _ in self.hooks["log"]]
        if run:
            calls += [("end", h, self.steps + num) for h, _ in self.hooks["end"]]
        return calls

    def advance(self, num, run, reset=None):
        want = self.expected_calls(num, run)
        self.log.clear()
        before = datetime.datetime.now()
        if run:
            if reset is None:
                self.searcher.run(num)
            else:
                self.searcher.run(num, reset_first_step_datetime=reset)
            if reset in (None, True):
                self.started = None
        else:
            for _ in range(num):
                self.searcher.step()
        after = datetime.datetime.now()
        self.steps += num
        eq(self.log, want, "calls of the hooks (kind, hook, steps taken)")
        t = self.searcher.first_step_datetime
        if self.started is None:
            require(t is not None and before <= t <= after, lambda: f"time of the first step is {t}, the steps were made between {before} and {after}")
            self.started = t
        else:
            eq(t, self.started, "time of the first step")
        self.extra = self.entries_of_step(self.steps)

    def status_ok(self, ctx):
        c, s = self.c, self.searcher
        status = s.status
        k = self.steps
        eq(s.step_count, k, "number of steps")
        eq(s.steps_count, k, "number of steps")
        eq(status["iter"], k, "reported iteration")
        pop = s.population
        eq(len(pop), self.n, "size of the population")
        x, f = plain(pop.values), plain(pop.evals)
        want = self.fit.compute(x)[0]
        same(f[:, : len(c["senses"])], want, "fitnesses in the population", rtol=1e-4, atol=1e-4)
        for key, v in self.extra.items():
            eq(status[key], v, f"entry {key} made by an after-step hook")
        nobj = len(c["senses"])
        single = nobj == 1 or (c["obj"] is not None and c["kind"] in CENTERED)
        for j, sense in enumerate(c["senses"]):
            if single and nobj > 1 and j != c["obj"]:
                continue
            pre = "" if single else f"obj{j}_"
            col = f[:, j]
            i = best_index(col, sense)
            require(all(pre + w in status for w in ("pop_best", "pop_best_eval", "mean_eval", "median_eval")), lambda: f"missing status entries, there are only {list(status)}")
            pb = status[pre + "pop_best"]
            solution_ok(pb, x[i], f[i, :nobj], pre + "pop_best")
            eq(status[pre + "pop_best_eval"], float(col[i]), pre + "pop_best_eval")
            if pre + "mean_eval" not in self.extra:
                close(status[pre + "mean_eval"], float(col.to(F64).mean()), pre + "mean_eval", rtol=1e-4, atol=1e-4)
            srt = col.sort().values
            m = status[pre + "median_eval"]
            require(float(srt[(len(srt) - 1) // 2]) <= m <= float(srt[len(srt) // 2]), lambda: f"{pre}median_eval: got {m}, the middle values are {float(srt[(len(srt) - 1) // 2])} and {float(srt[len(srt) // 2])}")
            # best and worst so far, over everything that was evaluated
            allx = torch.cat([a for a, _ in self.fit.seen])
            allf = torch.cat([b for _, b in self.fit.seen])
            for name, sg in (("best", sense), ("worst", "min" if sense == "max" else "max")):
                b = best_index(allf[:, j], sg)
                sol = status[name] if nobj == 1 else status[name][j]
                close(sol.evals[j], float(allf[b, j]), name, rtol=1e-6)
                rows = (allx == plain(sol.values)).all(-1)
                require(bool(rows.any()) and float(allf[rows][0, j]) == float(allf[b, j]), lambda: f"{name}: the values are not those of the solution with this fitness")
                if nobj == 1:
                    close(status[f"{name}_eval"], float(allf[b, j]), f"{name}_eval", rtol=1e-6)
        # the mapping itself
        keys = list(status)
        eq(len(status), len(keys), "length of the status")
        eq(len(set(keys)), len(keys), "number of distinct status keys")
        require(all(q in status for q in keys) and "no such entry" not in status, "membership of the status keys")
        must_raise(lambda: status["no such entry"], "an unknown status key", KeyError)
        if c["kind"] in CENTERED:
            same(status["center"], plain(s.status["center"]), "center read twice")
            require(isinstance(status["center"], ReadOnlyTensor), "the center in the status is a modifiable tensor")
        repr(status)

    def kept_ok(self):
        for step, status, snaps in self.kept:
            for k, snap in snaps.items():
                unchanged(snap, status[k], f"status given at step {step}: {k}")


def script(c, ctx):
    m = Model(c)
    ident = 0
    for a in c["script"]:
        if a[0] == "step":
            m.advance(1, False)
            m.status_ok(ctx)
        elif a[0] == "steps":
            # the status of the earlier steps is never looked at
            m.advance(a[1], False)
            m.status_ok(ctx)
        elif a[0] == "run":
            m.advance(a[1], True, a[2])
            m.status_ok(ctx)
        elif a[0] == "hook":
            ident += 1
            m.register(a[1], ident, a[2])
            ctx.label(a[1])
        elif a[0] == "unhook" and m.hooks[a[1]]:
            i = a[2] % len(m.hooks[a[1]])
            del m.hook_of(a[1])[i]
            del m.hooks[a[1]][i]
    m.kept_ok()
    if m.steps and ident:
        ctx.hit(c["kind"])


@st.composite
def cases(draw):
    nobj = draw(st.sampled_from([1, 1, 2]))
    kind = draw(st.sampled_from(SINGLE if nobj == 1 else MULTI + CENTERED))
    where = st.sampled_from(["before", "after", "after", "log", "end"])
    action = st.one_of(
        st.just(["step"]),
        st.tuples(st.just("steps"), often(2, 3, 12)).map(list),
        st.tuples(st.just("run"), often(1, 3, 12), st.sampled_from([None, True, False])).map(list),
        st.tuples(st.just("hook"), where, st.integers(0, 3)).map(list),
        st.tuples(st.just("hook"), where, st.integers(0, 3)).map(list),
        st.tuples(st.just("unhook"), where, st.integers(0, 3)).map(list),
    )
    acts = draw(st.lists(action, min_size=1, max_size=8))
    acts.append(["run", 1, None])
    return draw(
        with_fields(
            kind=st.just(kind),
            L=st.integers(1, 4) if kind not in ("ga", "ga-once", "steady", "cosyne") else st.integers(2, 4),
            n=often(4, 9, 30),
            senses=st.lists(st.sampled_from(["min", "max"]), min_size=nobj, max_size=nobj),
            obj=st.integers(0, nobj - 1) if (kind in CENTERED and nobj > 1) else st.none(),
            dtype=st.sampled_from(["float32", "float64"]),
            script=st.just(acts),
            seed=seeds,
        )
    )


FACETS = [
    Facet("scripts", cases(), script, rule="at least one step taken with at least one hook registered", quick=450, thorough=8000),
]
