"""C29: neuroevolution problems evaluate the network encoded by a solution."""

import pickle

import torch
from hypothesis import strategies as st
from torch import nn
from torch.utils.data import DataLoader, TensorDataset

from evotorch import Problem
from evotorch.decorators import pass_info
from evotorch.neuroevolution import NEProblem, SupervisedNE
from evotorch.neuroevolution.net import count_parameters, parameter_vector, str_to_net

from .common import eq, must_raise, often, plain, rand_grid, require, same, seeds, show
from .nets import F64, Ref, count, is_recurrent, layer_list, out_size, text
from harness.core import Facet

TECHNIQUE = "property-based testing: generated networks, evaluation functions, datasets and histories of evaluations; the networks and minibatches which reach the evaluation function are recorded and compared with the solutions and the dataset, the losses recomputed in float64"
ASSUMPTIONS = []

RECORD = []  # filled by the evaluation functions below


@st.composite
def net_part(draw, recurrent=False):
    n_in = draw(st.integers(1, 3))
    return {
        "layers": draw(layer_list(n_in, draw(st.integers(1, 2)), max_layers=3, recurrent=recurrent, steps=False, slices=False)),
        "form": draw(st.sampled_from(["text", "text with constant", "module", "factory", "factory with arguments", "class", "informed"])),
        "seed": draw(seeds),
    }


def written(layers, names=()):
    return " >> ".join(text(l, names) for l in layers)


def network_of(c):
    """(network argument, network_args)"""
    layers = c["layers"]
    f = c["form"]
    if f == "text":
        return written(layers), None
    if f == "text with constant":
        return written(layers, [("width", layers[0][2])]), {"width": layers[0][2]}
    if f == "module":
        return str_to_net(written(layers)), None
    if f == "factory":
        return Factory(written(layers)), None
    if f == "factory with arguments":
        return Factory(written(layers, [("width", layers[0][2])])), {"width": layers[0][2]}
    if f == "class":
        return Wrapped, {"text": written(layers)}
    return Informed(written(layers)), None


class Factory:
    def __init__(self, text):
        self.text = text

    def __call__(self, **kw):
        return str_to_net(self.text, **kw)


@pass_info
class Informed:
    """Wants to know about the problem"""

    def __init__(self, text):
        self.text = text

    def __call__(self, **kw):
        return str_to_net(self.text)


class Wrapped(nn.Module):
    def __init__(self, text):
        super().__init__()
        self.net = str_to_net(text)

    def forward(self, *args):
        return self.net(*args)


def probe(layers):
    return rand_grid(5 + len(layers), (layers[0][2],), -8, 8, 8.0)


# ---------------------------------------------------------------- evaluation functions


class Evaluation:
    """Records the network it is given, and returns a fitness computed from its parameters"""

    def __init__(self, layers, kind, n_obj, data, spoil):
        self.layers, self.kind, self.n_obj, self.data, self.spoil = layers, kind, n_obj, data, spoil

    def __call__(self, net):
        v = parameter_vector(net)
        with torch.no_grad():
            out = net(probe(self.layers))
        out = out[0] if isinstance(out, tuple) else out
        RECORD.append((v.clone(), out.clone(), net.training))
        if self.spoil:
            # a network is free to change while it is evaluated (e.g. by training it)
            with torch.no_grad():
                for p in net.parameters():
                    p.add_(1.0)
        fit, data = fitness_of(v.to(F64), self.n_obj, self.data)
        f = fit.to(torch.float32) if self.n_obj > 1 else (float(fit[0]) if self.kind == "float" else fit[0].to(torch.float32))
        if self.data:
            return f, data.to(torch.float32)
        return f


def fitness_of(v, n_obj, data):
    w = torch.arange(1, len(v) + 1, dtype=F64)
    fit = torch.stack([(v * (w % (3 + k))).sum() + k for k in range(n_obj)])
    return fit, torch.stack([(v * (w % (5 + k))).sum() for k in range(data)]) if data else None


class Sub(NEProblem):
    def _evaluate_network(self, net):
        return self.own(net)


@st.composite
def generic_case(draw):
    c = draw(net_part(recurrent=True))
    c["kind"] = draw(st.sampled_from(["float", "tensor"]))
    c["senses"] = draw(st.lists(st.sampled_from(["min", "max"]), min_size=1, max_size=2))
    c["data"] = draw(st.sampled_from([0, 0, 2]))
    c["spoil"] = draw(st.booleans())
    c["sub"] = draw(st.booleans())
    c["sizes"] = draw(st.lists(st.integers(1, 4), min_size=1, max_size=3))
    c["bounds"] = draw(st.sampled_from([None, [-1.0, 1.0], [2.0, 3.0]]))
    c["then"] = draw(st.sampled_from([None, "clone", "pickle", "pickle first", "solution"]))
    c["actors"] = 0
    return c


@st.composite
def generic_actor_case(draw):
    c = draw(generic_case())
    c["actors"] = draw(st.integers(2, 3))
    c["sub"] = False
    c["then"] = draw(st.sampled_from([None, "clone", "pickle"]))
    return c


def build(c):
    net, args = network_of(c)
    ev = Evaluation(c["layers"], c["kind"], len(c["senses"]), c["data"], c["spoil"])
    sense = c["senses"][0] if len(c["senses"]) == 1 else c["senses"]
    kw = dict(network_args=args, eval_data_length=c["data"])
    if c["bounds"] is not None:
        kw["initial_bounds"] = tuple(c["bounds"])
    if c["actors"]:
        kw["num_actors"] = c["actors"]
    if c["sub"]:
        p = Sub(sense, net, **kw)
        p.own = ev
    else:
        p = NEProblem(sense, net, ev, **kw)
    return p, net


def evaluate_and_check(c, p, values, what):
    n = len(values)
    b = p.generate_batch(n)
    lo, hi = c["bounds"] or (-0.00001, 0.00001)
    require(bool(((b.values >= lo) & (b.values <= hi)).all()), f"{what}: initial values outside of the initial bounds")
    b.set_values(values)
    del RECORD[:]
    p.evaluate(b)
    same(b.values, values, f"{what}: decision values after the evaluation")
    rec = list(RECORD)
    eq(len(rec), n, f"{what}: number of networks evaluated")
    if c["actors"]:
        order = [min(range(n), key=lambda i: float((values[i] - r[0]).abs().sum())) for r in rec]
    else:
        order = list(range(n))
    for i, (v, out, training) in zip(order, rec):
        same(v, values[i], f"{what}: parameters of network {i}")
        ref = Ref(c["layers"], values[i])
        want, _ = ref.step(probe(c["layers"]), {})
        if not ref.risky:
            same(plain(out).to(F64), want, f"{what}: output of network {i}", rtol=1e-3, atol=1e-3)
    for i in range(n):
        fit, data = fitness_of(values[i].to(F64), len(c["senses"]), c["data"])
        want = fit if data is None else torch.cat([fit, data])
        same(b.evals[i].to(F64), want, f"{what}: fitness of solution {i}", rtol=1e-4, atol=1e-4)
    return b


def values_for(c, n, k):
    return rand_grid(c["seed"] + 31 * k, (n, count(c["layers"])), -12, 12, 8.0)


def check_generic(case, ctx):
    c = case
    p, given = build(c)
    eq(p.solution_length, count(c["layers"]), "solution length")
    if c["then"] == "pickle first":
        p = pickle.loads(pickle.dumps(p))
    try:
        for k, n in enumerate(c["sizes"]):
            b = evaluate_and_check(c, p, values_for(c, n, k), f"evaluation {k}")
        # networks made from solutions
        v = values_for(c, 1, 50)[0]
        nets = [p.make_net(v), p.make_net(v.tolist())]
        for net in nets:
            same(parameter_vector(net), v, "parameters of a network made")
        with torch.no_grad():
            for q in nets[0].parameters():
                q.zero_()
        same(parameter_vector(nets[1]), v, "parameters of another network made")
        sol = b[0]
        evals = sol.evals.clone()
        net = p.make_net(sol)
        same(parameter_vector(net), sol.values, "parameters of the network of a solution")
        same(sol.evals, evals, "fitness of the solution used for making a network")
        evaluate_and_check(c, p, values_for(c, 2, 60), "after making networks")
        same(parameter_vector(nets[1]), v, "parameters of a network made, after an evaluation")
        if c["then"] in ("clone", "pickle"):
            q = p.clone() if c["then"] == "clone" else pickle.loads(pickle.dumps(p))
            evaluate_and_check(c, q, values_for(c, 2, 70), "copy")
            evaluate_and_check(c, p, values_for(c, 2, 80), "original")
            q.kill_actors() if c["actors"] else None
    finally:
        p.kill_actors() if c["actors"] else None
    ctx.hit(c["form"], c["then"])


# ---------------------------------------------------------------- supervised


class Loss:
    def __init__(self, kind):
        self.kind = kind

    def __call__(self, y_hat, y):
        RECORD.append((y_hat.clone(), y.clone()))
        return loss_of(y_hat, y, self.kind)


def loss_of(y_hat, y, kind):
    t = y_hat.sum(dim=-1) - 0.25 * y.to(y_hat.dtype)
    return (t**2).mean() if kind == "square" else t.abs().sum()


class OwnLoader(SupervisedNE):
    def _make_dataloader(self):
        return DataLoader(self.dataset, shuffle=False, batch_size=2)

    def _loss(self, y_hat, y):
        return Loss("square")(y_hat, y)


@st.composite
def supervised_case(draw):
    c = draw(net_part())
    c["rows"] = draw(often(1, 7, 40))
    c["size"] = draw(often(1, 5, 20))
    c["num"] = draw(st.sampled_from([None, 1, 2, 3]))
    c["common"] = draw(st.booleans())
    c["own"] = draw(st.integers(0, 4)) == 0
    c["loss"] = draw(st.sampled_from(["square", "abs"]))
    c["sizes"] = draw(st.lists(st.integers(1, 4), min_size=1, max_size=3))
    c["then"] = draw(st.sampled_from([None, None, "clone", "pickle"]))
    c["actors"] = 0
    return c


@st.composite
def supervised_actor_case(draw):
    c = draw(supervised_case())
    c["actors"] = draw(st.integers(2, 3))
    c["own"] = False
    c["then"] = None
    return c


def check_supervised(case, ctx):
    c = case
    X = rand_grid(c["seed"] + 1, (c["rows"], c["layers"][0][2]), -8, 8, 8.0)
    data = TensorDataset(X, torch.arange(c["rows"]))
    net, args = network_of(c)
    kw = dict(network_args=args, num_minibatches=c["num"], common_minibatch=c["common"])
    if c["actors"]:
        kw["num_actors"] = c["actors"]
    if c["own"]:
        c = dict(c, size=2, loss="square")
        p = OwnLoader(data, net, **kw)
    else:
        p = SupervisedNE(data, net, Loss(c["loss"]), minibatch_size=c["size"], **kw)
    eq(p.solution_length, count(c["layers"]), "solution length")
    eq(p.senses, ["min"], "objective sense")
    K = c["num"] or 1
    stream = []
    problems = [p]
    try:
        for k, n in enumerate(c["sizes"]):
            one_evaluation(c, p, X, n, k, K, stream, f"evaluation {k}")
        if not c["actors"]:
            check_stream(c, stream)
        if c["then"]:
            q = p.clone() if c["then"] == "clone" else pickle.loads(pickle.dumps(p))
            s2 = []
            for k in range(2):
                one_evaluation(c, q, X, 2, 40 + k, K, s2, "copy")
            check_stream(c, s2)
            one_evaluation(c, p, X, 2, 50, K, stream, "original")
            check_stream(c, stream)
    finally:
        p.kill_actors() if c["actors"] else None
    ctx.hit("common" if c["common"] else "separate", "own loader" if c["own"] else None) if c["rows"] > 1 and max(c["sizes"]) > 1 else ctx.label("small")


def one_evaluation(c, p, X, n, k, K, stream, what):
    values = values_for(c, n, k)
    b = p.generate_batch(n)
    b.set_values(values)
    del RECORD[:]
    p.evaluate(b)
    rec = list(RECORD)
    eq(len(rec), n * K, f"{what}: number of losses computed")
    groups = []
    left = list(range(n))
    for i in range(n):
        mine = rec[i * K : (i + 1) * K]
        groups.append([tuple(y.tolist()) for _, y in mine])
        s = i
        refs = [None]
        if c["actors"]:
            s = min(left, key=lambda j: distance(c, X, values[j], mine))
        left.remove(s)
        ref = Ref(c["layers"], values[s])
        total = 0.0
        for y_hat, y in mine:
            want = torch.stack([ref.step(X[j], {})[0] for j in y.tolist()])
            if ref.risky:
                break
            same(plain(y_hat).to(F64), want, f"{what}: outputs of network {s} for the rows {y.tolist()}", rtol=2e-3, atol=2e-3)
            total += float(loss_of(want, y, c["loss"])) / K
        if not ref.risky:
            require(abs(float(b.evals[s, 0]) - total) <= 1e-2 + 5e-3 * abs(total), lambda: f"{what}: fitness of solution {s}: {float(b.evals[s, 0])}, expected {total}")
    same(b.values, values, f"{what}: decision values after the evaluation")
    if c["common"]:
        if not c["actors"]:
            require(all(g == groups[0] for g in groups), lambda: f"{what}: the minibatches are not common: {groups}")
            stream += groups[0]
    else:
        for g in groups:
            stream += g


def distance(c, X, v, mine):
    ref = Ref(c["layers"], v)
    return sum(float((torch.stack([ref.step(X[j], {})[0] for j in y.tolist()]) - y_hat.to(F64)).abs().sum()) for y_hat, y in mine)


def check_stream(c, stream):
    """The minibatches of an epoch contain every row once"""
    per = -(-c["rows"] // c["size"])
    for a in range(0, len(stream), per):
        epoch = stream[a : a + per]
        rows = [j for g in epoch for j in g]
        require(len(set(rows)) == len(rows), lambda: f"rows are repeated within an epoch: {epoch}")
        for g in epoch[:-1]:
            eq(len(g), c["size"], "size of a minibatch") if len(epoch) > 1 else None
        if len(epoch) == per:
            eq(sorted(rows), list(range(c["rows"])), "rows seen in an epoch")
        if c["own"]:
            eq(rows, list(range(len(rows))), "order of the rows given by the loader")
        elif len(rows) >= 20:
            require(rows != list(range(len(rows))), "the rows of the dataset are not shuffled")


FACETS = [
    Facet("given evaluation", generic_case(), check_generic, quick=220, thorough=4000, rule="any"),
    Facet("given evaluation, several actors", generic_actor_case(), check_generic, quick=20, thorough=300, needs_ray=True, rule="any"),
    Facet("supervised learning", supervised_case(), check_supervised, quick=200, thorough=4000, rule="at least two rows and two solutions"),
    Facet("supervised learning, several actors", supervised_actor_case(), check_supervised, quick=20, thorough=300, needs_ray=True, rule="at least two rows and two solutions"),
]
