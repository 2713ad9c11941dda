"""C17: loggers record exactly the scheduled generations with that generation's status."""

import contextlib
import io
import math
import os
import pickle
import tempfile
import types

import torch
from hypothesis import strategies as st

import evotorch.logging as evologging
from evotorch import Solution
from evotorch.algorithms import PGPE, SNES, GeneticAlgorithm
from evotorch.logging import Logger, PandasLogger, PicklingLogger, ScalarLogger, StdOutLogger
from evotorch.neuroevolution import NEProblem
from evotorch.operators import GaussianMutation

from .c16 import snapshot
from .common import eq, must_raise, often, plain, require, same, seeds, unpickled, with_fields
from .searchers import CENTERED, MULTI, SINGLE, make_problem, make_searcher
from harness.core import Facet

TECHNIQUE = "property-based testing: generated scripts of steps, runs and logger attachments, compared with a model of the schedule and with the status recorded independently at every step"
ASSUMPTIONS = ["the loggers for external services are driven with stand-ins for the service's run or client object"]


def due(count, interval, after_first):
    """Is the count-th step (from 1) since the attachment logged?"""
    return (count - 1) % interval == 0 if after_first else count % interval == 0


def is_scalar(v):
    if isinstance(v, (Solution, list, tuple, dict, set)):
        return False
    if isinstance(v, torch.Tensor):
        return v.ndim == 0
    return True


def value_same(a, b):
    if isinstance(a, float) and isinstance(b, float) and math.isnan(a) and math.isnan(b):
        return True
    if isinstance(a, torch.Tensor) or isinstance(b, torch.Tensor):
        return float(a) == float(b)
    return a == b


class Everything(Logger):
    def __init__(self, *a, **kw):
        super().__init__(*a, **kw)
        self.got = []

    def _log(self, status):
        self.got.append(status)


class Scalars(ScalarLogger):
    def __init__(self, *a, **kw):
        super().__init__(*a, **kw)
        self.got = []

    def _log(self, status):
        self.got.append(status)


class FakeClient:
    """Stands for an MLflow client"""

    def __init__(self):
        self.got = []

    def log_metric(self, run_id, key, value, step=None):
        self.got.append((run_id, key, value, step))


class FakeSacredRun:
    """Stands for a Sacred run"""

    def __init__(self):
        self.got = []
        self.result = None

    def log_scalar(self, key, value, *more):
        self.got.append((key, value))


class FakeSeries:
    def __init__(self, log, key):
        self.sink, self.key = log, key

    def log(self, v):
        self.sink.append((self.key, v))

    append = log


class FakeRun:
    """Stands for a Neptune run"""

    def __init__(self):
        self.got = []

    def __getitem__(self, key):
        return FakeSeries(self.got, key)


class Attached:
    def __init__(self, model, spec):
        self.kind, self.interval, self.first = spec["kind"], spec["interval"], spec["first"]
        self.at = model.steps
        s = model.searcher
        kw = {"interval": self.interval, "after_first_step": self.first}
        if spec["defaults"] and self.kind != "pickle":
            kw = {k: v for k, v in kw.items() if v is not False and v != 1 or v is True}
        self.group = "g" if spec["group"] else None
        k = self.kind
        if k == "all":
            self.logger = Everything(s, **kw)
        elif k == "scalar":
            self.logger = Scalars(s, **kw)
        elif k == "pandas":
            self.logger = PandasLogger(s, **kw)
        elif k == "stdout":
            self.leading = [("iter",), ("mean_eval", "iter"), ()][spec["leading"]]
            if spec["leading"]:
                kw["leading_keys"] = self.leading
            self.logger = StdOutLogger(s, **kw)
        elif k == "mlflow":
            self.client = FakeClient()
            self.logger = evologging.MlflowLogger(s, self.client, "run 7", **kw)
        elif k == "mlflow-global":
            self.logger = evologging.MlflowLogger(s, **kw)
        elif k == "mlflow-run":
            self.client = FakeClient()
            run = evologging.mlflow.entities.Run()
            run.info = types.SimpleNamespace(run_id="run 8")
            self.logger = evologging.MlflowLogger(s, self.client, run, **kw)
        elif k == "sacred":
            self.run = FakeSacredRun()
            self.result = [None, "note", "iter"][spec["leading"]]
            if self.result:
                kw["result"] = self.result
            self.logger = evologging.SacredLogger(s, self.run, **kw)
        elif k == "neptune":
            self.run = FakeRun()
            if self.group:
                kw["group"] = self.group
            self.logger = evologging.NeptuneLogger(s, self.run, **kw)
        elif k == "wandb":
            if self.group:
                kw["group"] = self.group
            self.logger = evologging.WandbLogger(s, False, **kw)

    def expected(self, model):
        return [t for t in range(self.at + 1, model.steps + 1) if due(t - self.at, self.interval, self.first)]


class Model:
    def __init__(self, c):
        self.problem, self.fit = make_problem(c["kind"], c["senses"], c["L"], c["seed"], c["dtype"])
        self.searcher = make_searcher(c["kind"], self.problem, c["n"], c["obj"])
        self.steps = 0
        self.truth = {}
        self.printed = []
        self.wandb = []
        self.attached = []
        self.searcher.log_hook.append(self.note)
        self.searcher.after_step_hook.append(lambda: {"note": f"step {self.searcher.step_count}", "vector": [1, 2], "flag": True})

    def note(self, status):
        self.truth[self.searcher.step_count] = {k: (v, snapshot(v)) for k, v in status.items()}

    def scalars(self, t):
        return {k: v for k, (v, _) in self.truth[t].items() if is_scalar(v)}


@contextlib.contextmanager
def intercepted(model):
    """Text printed, and what would be sent to the service"""
    out = io.StringIO()
    w = getattr(evologging, "wandb", None)
    old = getattr(w, "log", None) if w is not None else None
    if w is not None:
        w.log = lambda d, *a, **k: model.wandb.append(dict(d))
    try:
        with contextlib.redirect_stdout(out):
            yield
    finally:
        if w is not None:
            w.log = old
        model.printed.append(out.getvalue())


def dict_same(got, want, what):
    eq(sorted(map(str, got)), sorted(map(str, want)), f"{what}: keys")
    for k in want:
        require(value_same(got[k], want[k]), lambda: f"{what}: {k} is {got[k]!r}, expected {want[k]!r}")


def verify(a, m, ctx):
    steps = a.expected(m)
    what = f"{a.kind} logger attached after step {a.at} with interval {a.interval}{' (after the first step)' if a.first else ''}"
    if a.kind in ("all", "scalar"):
        got = a.logger.got
        eq([d["iter"] for d in got], steps, f"{what}: steps logged")
        for d, t in zip(got, steps):
            if a.kind == "scalar":
                dict_same(d, m.scalars(t), f"{what}: step {t}")
            else:
                eq(sorted(d), sorted(m.truth[t]), f"{what}: step {t}: keys")
    elif a.kind == "pandas":
        if not steps:
            return
        df = a.logger.to_dataframe(index=None)
        eq(list(df["iter"]), steps, f"{what}: rows")
        for (_, r), t in zip(df.iterrows(), steps):
            dict_same({k: v for k, v in r.items()}, m.scalars(t), f"{what}: row of step {t}")
        df = a.logger.to_dataframe()
        eq(list(df.index), steps, f"{what}: index of the data frame")
        require("iter" not in df.columns, f"{what}: the index is also a column")
        eq([str(v) for v in df["note"]], [f"step {t}" for t in steps], f"{what}: column")
        df2 = a.logger.to_dataframe(index="note")
        eq(list(df2.index), [f"step {t}" for t in steps], f"{what}: chosen index of the data frame")
    elif a.kind in ("mlflow", "mlflow-run"):
        want = [("run 7" if a.kind == "mlflow" else "run 8", k, v, t - a.at) for t in steps for k, v in m.scalars(t).items()]
        eq([(r, k) for r, k, _, _ in a.client.got], [(r, k) for r, k, _, _ in want], f"{what}: metrics sent")
        for g, w in zip(a.client.got, want):
            require(value_same(g[2], w[2]), lambda: f"{what}: sent {g}, expected {w}")
        eq([g[3] for g in a.client.got], [w[3] for w in want], f"{what}: steps of the metrics sent")
    elif a.kind == "sacred":
        want = [(k, v) for t in steps for k, v in m.scalars(t).items()]
        eq([k for k, _ in a.run.got], [k for k, _ in want], f"{what}: scalars logged")
        require(all(value_same(g[1], w[1]) for g, w in zip(a.run.got, want)), lambda: f"{what}: logged {a.run.got}, expected {want}")
        if steps:
            eq(a.run.result, a.result and m.scalars(steps[-1])[a.result], f"{what}: result of the run")
    elif a.kind == "neptune":
        pre = "g/" if a.group else ""
        want = [(pre + k, v) for t in steps for k, v in m.scalars(t).items()]
        eq([k for k, _ in a.run.got], [k for k, _ in want], f"{what}: series logged to")
        require(all(value_same(g[1], w[1]) for g, w in zip(a.run.got, want)), lambda: f"{what}: logged {a.run.got}, expected {want}")
    if steps:
        ctx.label(a.kind)
        if a.interval > 1:
            ctx.label("interval")
    return


def parse(text):
    """The blocks of key : value lines"""
    return [[tuple(p.strip() for p in line.split(" : ", 1)) for line in block.split("\n")] for block in text.split("\n\n") if block.strip()]


def printed_ok(m):
    text = "".join(m.printed)
    loggers = [a for a in m.attached if a.kind == "stdout"]
    blocks = parse(text)
    want = []
    for t in range(1, m.steps + 1):
        for a in loggers:
            if t in a.expected(m):
                want.append((a, t))
    eq(len(blocks), len(want), "number of printed reports")
    for b, (a, t) in zip(blocks, want):
        sc = m.scalars(t)
        lead = [k for k in a.leading if k in sc]
        keys = lead + [k for k in sc if k not in lead]
        eq([k for k, _ in b], keys, f"printed report of step {t}: keys")
        eq([v for _, v in b], [str(sc[k]) for k in keys], f"printed report of step {t}: values")


def wandb_ok(m):
    loggers = [a for a in m.attached if a.kind == "mlflow-global"]
    want = [(a, t) for t in range(1, m.steps + 1) for a in loggers if t in a.expected(m)]
    sent = evologging.mlflow.sent
    eq(len(sent), len(want), "number of metrics sent")
    for (d, step), (a, t) in zip(sent, want):
        dict_same(d, m.scalars(t), f"metrics of step {t}")
        eq(step, t - a.at, "step of the metrics")
    loggers = [a for a in m.attached if a.kind == "wandb"]
    want = [(a, t) for t in range(1, m.steps + 1) for a in loggers if t in a.expected(m)]
    eq(len(m.wandb), len(want), "number of reports sent")
    for d, (a, t) in zip(m.wandb, want):
        pre = "g/" if a.group else ""
        dict_same(d, {pre + k: v for k, v in m.scalars(t).items()}, f"report of step {t}")


def records(c, ctx):
    m = Model(c)
    evologging.mlflow.sent.clear()
    logged = False
    for act in c["script"]:
        if act["do"] == "attach":
            m.attached.append(Attached(m, act))
        else:
            with intercepted(m):
                if act["do"] == "run":
                    m.searcher.run(act["n"])
                else:
                    for _ in range(act["n"]):
                        m.searcher.step()
            m.steps += act["n"]
    for a in m.attached:
        verify(a, m, ctx)
        logged = logged or bool(a.expected(m))
    printed_ok(m)
    wandb_ok(m)
    if logged:
        ctx.hit()
    if len(m.attached) > 1:
        ctx.label("several loggers")


@st.composite
def record_cases(draw):
    nobj = draw(st.sampled_from([1, 1, 1, 2]))
    kind = draw(st.sampled_from(SINGLE if nobj == 1 else MULTI + CENTERED))
    attach = with_fields(
        do=st.just("attach"),
        kind=st.sampled_from(["all", "scalar", "pandas", "pandas", "stdout", "mlflow", "mlflow-global", "mlflow-run", "neptune", "wandb", "sacred"]),
        interval=st.sampled_from([1, 1, 2, 3, 4, 5]),
        first=st.booleans(),
        defaults=st.booleans(),
        group=st.booleans(),
        leading=st.integers(0, 2),
    )
    move = with_fields(do=st.sampled_from(["run", "step"]), n=often(1, 5, 25))
    script = [draw(attach)] + draw(st.lists(st.one_of(attach, move), max_size=5)) + [draw(move)]
    return draw(
        with_fields(
            kind=st.just(kind),
            L=st.integers(2, 3),
            n=st.integers(4, 6),
            senses=st.lists(st.sampled_from(["min", "max"]), min_size=nobj, max_size=nobj),
            obj=st.integers(0, nobj - 1) if (kind in CENTERED and nobj > 1) else st.none(),
            dtype=st.sampled_from(["float32", "float64"]),
            script=st.just(script),
            seed=seeds,
        )
    )


# -- pickle files --------------------------------------------------------------------------------------------------------


class Net(NEProblem):
    def __init__(self, seed):
        super().__init__("max", "Linear(2, 3) >> Tanh() >> Linear(3, 1)", initial_bounds=(-1, 1), seed=seed)

    def _evaluate_network(self, network):
        with torch.no_grad():
            return network(torch.tensor([0.5, -1.0])).sum()

    def to_policy(self, solution):
        return self.parameterize_net(solution).cpu()


ITEMS = [
    None,
    "mean_eval",
    ["best", "worst", "iter"],
    ["center", "stdev", "missing"],
    ["pop_best_eval", "pop_best"],
    [],
]


def make_search(c):
    if c["kind"] == "net-snes":
        p = Net(c["seed"])
        return p, SNES(p, stdev_init=0.5, popsize=c["n"])
    if c["kind"] == "net-ga":
        p = Net(c["seed"])
        return p, GeneticAlgorithm(p, popsize=c["n"], operators=[GaussianMutation(p, stdev=0.5)])
    p, _ = make_problem(c["kind"], [c["sense"]], c["L"], c["seed"], c["dtype"])
    return p, make_searcher(c["kind"], p, c["n"])


def saved_value_ok(got, snap, what):
    """A saved entry is a plain copy of the status entry of its generation"""
    if snap[0] == "solution":
        require(type(got) is torch.Tensor, lambda: f"{what}: saved as {type(got).__name__}, expected a plain tensor")
        same(got, snap[1], what)
    elif snap[0] == "tensor":
        require(type(got) is torch.Tensor, lambda: f"{what}: saved as {type(got).__name__}, expected a plain tensor")
        same(got, snap[1], what, dtype=True)
    else:
        require(value_same(got, snap[1]), lambda: f"{what}: saved {got!r}, expected {snap[1]!r}")


def pickles(c, ctx):
    with tempfile.TemporaryDirectory(prefix="vp_pickles_") as tmp:
        if c["dir"] != "here":
            return pickles_in(c, ctx, tmp)
        # without a directory, files go to the one we are in
        old = os.getcwd()
        os.chdir(tmp)
        try:
            pickles_in(c, ctx, tmp)
        finally:
            os.chdir(old)


def pickles_in(c, ctx, tmp):
    problem, searcher = make_search(c)
    truth = {}
    inputs = torch.tensor([[0.25, 1.0], [-2.0, 0.5]])
    policy_key = c["policy"] if c["kind"].startswith("net") else None
    if c["kind"] == "net-ga" and policy_key == "center":
        policy_key = "best"

    def note(status):
        truth[searcher.step_count] = {k: snapshot(v) for k, v in status.items()}

    searcher.log_hook.append(note)
    directory = os.path.join(tmp, "a", "b") if c["dir"] is True else tmp
    kw = {"directory": directory, "interval": c["interval"], "verbose": c["verbose"]}
    if c["dir"] == "here":
        del kw["directory"]
    if c["first"]:
        kw["after_first_step"] = True
    if c["prefix"]:
        kw["prefix"] = "saved"
    if c["zfill"] is not None:
        kw["zfill"] = c["zfill"]
    items = ITEMS[c["items"]]
    if items is not None:
        kw["items_to_save"] = items
    if policy_key is not None:
        kw["make_policy_from"] = policy_key
    out = io.StringIO()
    names = {}
    steps = 0
    last = None
    extra = 0
    with contextlib.redirect_stdout(out):
        logger = PicklingLogger(searcher, **kw)
        eq(logger.last_generation, None, "last generation before anything was saved")
        eq(logger.last_file_name, None, "last file before anything was saved")
        for act in c["script"]:
            if act["do"] == "save":
                if not steps:
                    continue
                f = logger.save(f"extra{extra}.pickle")
                eq(os.path.abspath(f), os.path.abspath(os.path.join(directory, f"extra{extra}.pickle")), "name of a file saved on request")
                names[f"extra{extra}.pickle"] = steps
                extra += 1
                last = steps
                eq(os.path.abspath(logger.last_file_name), os.path.abspath(f), "name of the last file")
                continue
            before = set(os.listdir(directory))
            start = steps
            if act["do"] == "run":
                searcher.run(act["n"])
            else:
                for _ in range(act["n"]):
                    searcher.step()
            steps += act["n"]
            due_now = [t for t in range(start + 1, steps + 1) if due(t, c["interval"], c["first"])]
            if due_now:
                last = due_now[-1]
            if act["do"] == "run" and (last is None or last < steps):
                due_now.append(steps)
                last = steps
                ctx.label("final save")
            width = 6 if c["zfill"] is None else c["zfill"]
            new = sorted(set(os.listdir(directory)) - before)
            suffixes = [f"_generation{str(t).zfill(width)}.pickle" for t in due_now]
            require(
                len(new) == len(suffixes) and all(any(f.endswith(s) for f in new) for s in suffixes),
                lambda: f"after step {steps}: new files {new}, expected endings {suffixes}",
            )
            for t, s in zip(due_now, suffixes):
                f = [f for f in new if f.endswith(s)][0]
                names[f] = t
                if c["prefix"]:
                    eq(f, "saved" + s, "file name")
            eq(logger.last_generation, last, "last generation saved")
    for f, t in names.items():
        data = unpickled(os.path.join(directory, f), f)
        wanted = ["center", "best", "pop_best", "median_eval", "mean_eval", "pop_best_eval"] if items is None else ([items] if isinstance(items, str) else items)
        wanted = [k for k in wanted if k in truth[t]]
        for k in wanted:
            require(k in data, lambda: f"{f}: has no {k}")
            saved_value_ok(data[k], truth[t][k], f"{f}: {k}")
        rest = set(data) - set(wanted) - {"policy", "beginning_time", "now", "elapsed"}
        require(not rest, lambda: f"{f}: unexpected entries {rest}")
        if c["kind"].startswith("net"):
            key = policy_key or ("center" if "center" in truth[t] else "pop_best")
            vec = truth[t][key][1]
            want = problem.parameterize_net(vec)(inputs)
            same(data["policy"](inputs), plain(want), f"{f}: outputs of the policy made from {key}", rtol=1e-6, atol=1e-6)
            ctx.label("policy")
    if names:
        newest = logger.last_file_name
        require(os.path.exists(newest), lambda: f"the last file {newest} does not exist")
        eq(names[os.path.basename(newest)], last, "generation of the last file")
        eq(logger.last_generation, last, "last generation saved")
        d = logger.unpickle_last_file()
        eq(sorted(d), sorted(unpickled(newest, "last file")), "content of the last file")
        said = out.getvalue()
        if c["verbose"]:
            require(all(f in said for f in names), "a saved file was not announced")
        else:
            eq(said, "", "text printed by a silent logger")
        ctx.hit(c["kind"])


pickle_cases = with_fields(
    kind=st.sampled_from(["snes", "pgpe", "cem", "cmaes", "ga", "cosyne", "mapelites", "net-snes", "net-ga"]),
    L=st.integers(2, 3),
    n=st.integers(4, 6),
    sense=st.sampled_from(["min", "max"]),
    dtype=st.sampled_from(["float32", "float64"]),
    interval=often(1, 4, 12),
    first=st.booleans(),
    verbose=st.booleans(),
    dir=st.sampled_from([True, False, "here"]),
    prefix=st.booleans(),
    zfill=st.sampled_from([None, None, 1, 3]),
    items=st.integers(0, len(ITEMS) - 1),
    policy=st.sampled_from([None, None, "center", "best", "pop_best"]),
    script=st.lists(with_fields(do=st.sampled_from(["run", "run", "step", "save"]), n=often(1, 5, 25)), min_size=1, max_size=4),
    seed=seeds,
)


def rejected(c, ctx):
    p, _ = make_problem("snes", ["min"], 2, c["seed"])
    s = make_searcher("snes", p, 4)
    if c["kind"] == "client":
        must_raise(lambda: evologging.MlflowLogger(s, FakeClient(), None), "a client without run")
    elif c["kind"] == "run":
        must_raise(lambda: evologging.MlflowLogger(s, None, "run"), "a run without client")
    else:
        base = Logger(s)
        must_raise(s.step, "a logger without its own way of logging", NotImplementedError)
    ctx.hit(c["kind"])


rejected_cases = with_fields(kind=st.sampled_from(["client", "run", "abstract"]), seed=seeds)

FACETS = [
    Facet("records", record_cases(), records, rule="at least one generation was due for logging", quick=300, thorough=5000),
    Facet("pickles", pickle_cases, pickles, rule="at least one file was saved", quick=200, thorough=3000),
    Facet("rejected", rejected_cases, rejected, rule="an illegal setting given", quick=10, thorough=40),
]
