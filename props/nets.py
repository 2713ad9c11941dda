"""Reference networks: a network is a list of layer descriptions (plain JSON), with its text form and its definition in float64."""

import math

import torch
from hypothesis import strategies as st

F64 = torch.float64

ACTS = {
    "relu": lambda x: torch.clamp(x, min=0.0),
    "tanh": torch.tanh,
    "sigmoid": lambda x: 1 / (1 + torch.exp(-x)),
    "hardtanh": lambda x: torch.clamp(x, -1.0, 1.0),
    "elu": lambda x: torch.where(x > 0, x, torch.exp(x) - 1),
    "selu": lambda x: 1.0507009873554805 * torch.where(x > 0, x, 1.6732632423543772 * (torch.exp(x) - 1)),
}
SIMPLE = {"Tanh": "tanh", "ReLU": "relu", "Sigmoid": "sigmoid", "Hardtanh": "hardtanh", "ELU": "elu", "SELU": "selu"}
RECURRENT = ("RNN", "LSTM")


@st.composite
def layer_list(draw, n_in, n_out=None, max_layers=4, recurrent=True, locomotor=False, steps=True, slices=True):
    """A list of [kind, arguments, in, out]"""
    layers = []
    n = n_in
    kinds = ["Linear", "Linear", "act", "act", "Clip", "Apply", "FeedForwardNet", "StructuredControlNet", "LayerNorm", "PReLU"]
    if recurrent:
        kinds += ["RNN", "RNN", "LSTM", "LSTM"]
    if locomotor:
        kinds += ["LocomotorNet"]
    if steps:
        kinds += ["Bin", "Round"]
    if slices:
        kinds += ["Slice"]
    count = draw(st.integers(1, max_layers))
    for i in range(count):
        k = draw(st.sampled_from(kinds))
        m = draw(st.integers(1, 4))
        if k == "act":
            layers.append([draw(st.sampled_from(sorted(SIMPLE))), [], n, n])
            continue
        if k == "Linear":
            layers.append([k, [draw(st.booleans())], n, m])
        elif k == "RNN":
            layers.append([k, [draw(st.sampled_from(["tanh", "tanh", "relu", "sigmoid", "elu"]))], n, m])
        elif k == "LSTM":
            layers.append([k, [], n, m])
        elif k == "FeedForwardNet":
            spec = [[draw(st.integers(1, 3)), draw(st.sampled_from(["relu", "tanh", "sigmoid", "hardtanh", "elu", "selu"])), draw(st.booleans())] for _ in range(draw(st.integers(0, 2)))]
            layers.append([k, spec + [[m, draw(st.sampled_from(["tanh", "relu", None])), draw(st.booleans())]], n, m])
        elif k == "StructuredControlNet":
            layers.append([k, [draw(st.integers(0, 2)), draw(st.integers(1, 3)), draw(st.booleans()), draw(st.sampled_from(["tanh", "tanh", "relu", "selu"]))], n, m])
        elif k == "LocomotorNet":
            layers.append([k, [draw(st.booleans()), draw(st.sampled_from([1, 2, 3, 16]))], n, m])
        elif k == "Clip":
            layers.append([k, [draw(st.sampled_from([-1.0, -0.5, 0])), draw(st.sampled_from([0.25, 1.0, 3]))], n, n])
            m = n
        elif k == "Bin":
            layers.append([k, [draw(st.sampled_from([-1.0, 0.0])), draw(st.sampled_from([0.5, 2.0]))], n, n])
            m = n
        elif k == "Round":
            layers.append([k, [draw(st.integers(0, 1))], n, n])
            m = n
        elif k == "Apply":
            layers.append([k, [draw(st.sampled_from(["+", "-", "*", "/", "**"])), draw(st.sampled_from([2.0, 3.0, 2]))], n, n])
            m = n
        elif k == "Slice":
            a = draw(st.integers(0, n - 1))
            b = draw(st.integers(a + 1, n))
            layers.append([k, [a, b], n, b - a])
            m = b - a
        else:  # LayerNorm, PReLU
            layers.append([k, [], n, n])
            m = n
        n = m
    if n_out is not None and n != n_out or not any(shapes(l) for l in layers):
        layers.append(["Linear", [True], n, n_out or n])
    return layers


def out_size(layers):
    return layers[-1][3]


def is_recurrent(layers):
    return any(l[0] in RECURRENT for l in layers)


def ff_shapes(n, spec):
    res = []
    for m, _, bias in spec:
        res.append((m, n))
        if bias:
            res.append((m,))
        n = m
    return res


def scn_spec(layer):
    k, (num, hidden, bias, act), n, m = layer
    return [[hidden, act, True]] * num + [[m, act, True]]


def shapes(layer):
    """Shapes of the parameters of a layer, in order"""
    k, a, n, m = layer
    if k == "Linear":
        return [(m, n)] + ([(m,)] if a[0] else [])
    if k == "RNN":
        return [(m, n), (m, m), (m,), (m,)]
    if k == "LSTM":
        return [(m, n)] * 4 + [(m, m)] * 4 + [(m,)] * 8
    if k == "FeedForwardNet":
        return ff_shapes(n, a)
    if k == "StructuredControlNet":
        return [(m, n)] + ([(m,)] if a[2] else []) + ff_shapes(n, scn_spec(layer))
    if k == "LocomotorNet":
        return [(m, n)] + ([(m,)] if a[0] else []) + [(m,)] * (3 * a[1])
    if k == "LayerNorm":
        return [(n,), (n,)]
    if k == "PReLU":
        return [(1,)]
    return []


def count(layers):
    return sum(math.prod(s) for l in layers for s in shapes(l))


def text(layer, names=()):
    """The text of a layer; `names` are constants which may be used for numbers"""
    k, a, n, m = layer

    def num(v):
        for name, value in names:
            if value == v and type(value) is type(v):
                return name
        return repr(v)

    if k == "Linear":
        return f"Linear({num(n)}, {num(m)})" if a[0] else f"Linear({num(n)}, {num(m)}, bias=False)"
    if k == "RNN":
        return f"RNN({num(n)}, {num(m)})" if a[0] == "tanh" and n % 2 else f"RNN(input_size={num(n)}, hidden_size={num(m)}, nonlinearity={a[0]!r})"
    if k == "LSTM":
        return f"LSTM({num(n)}, {num(m)})"
    if k == "FeedForwardNet":
        return f"FeedForwardNet({num(n)}, {[tuple(s) if not s[2] else (s[0], s[1]) for s in a]!r})"
    if k == "StructuredControlNet":
        # (what has its default value is left out for some sizes)
        defaults = ("" if a[2] and n % 2 else f", bias={a[2]!r}") + ("" if a[3] == "tanh" and m % 2 else f", nonlinearity={a[3]!r}")
        return f"StructuredControlNet(in_features={num(n)}, out_features={num(m)}, num_layers={num(a[0])}, hidden_size={num(a[1])}{defaults})"
    if k == "LocomotorNet":
        defaults = ("" if a[0] and n % 2 else f", bias={a[0]!r}") + ("" if a[1] == 16 else f", num_sinusoids={num(a[1])}")
        return f"LocomotorNet(in_features={num(n)}, out_features={num(m)}{defaults})"
    if k == "LayerNorm":
        return f"LayerNorm({num(n)})"
    return f"{k}({', '.join(num(x) if not isinstance(x, str) else repr(x) for x in a)})"


class Ref:
    """The network in float64. `step(x, state)` gives the output and the new state of one input vector."""

    def __init__(self, layers, vector):
        self.layers = layers
        self.risky = False  # an input of a step function was too close to a step
        self.params = []
        v = vector.to(F64)
        at = 0
        for l in layers:
            ps = []
            for s in shapes(l):
                k = math.prod(s)
                ps.append(v[at : at + k].reshape(s))
                at += k
            self.params.append(ps)
        assert at == len(v)

    def fresh(self):
        return {}

    def ff(self, x, spec, ps):
        ps = list(ps)
        for m, act, bias in spec:
            x = ps.pop(0) @ x
            if bias:
                x = x + ps.pop(0)
            if act is not None:
                x = ACTS[act](x)
        return x

    def step(self, x, state):
        x = x.to(F64)
        new = {}
        for i, (l, p) in enumerate(zip(self.layers, self.params)):
            k, a, n, m = l
            if k in SIMPLE:
                x = ACTS[SIMPLE[k]](x)
            elif k == "Linear":
                x = p[0] @ x + (p[1] if a[0] else 0)
            elif k == "RNN":
                h = state.get(i, torch.zeros(m, dtype=F64))
                x = ACTS[a[0]](p[0] @ x + p[2] + p[1] @ h + p[3])
                new[i] = x
            elif k == "LSTM":
                h, c = state.get(i, (torch.zeros(m, dtype=F64),) * 2)
                gates = [p[j] @ x + p[8 + j] + p[4 + j] @ h + p[12 + j] for j in range(4)]
                sig = ACTS["sigmoid"]
                c = sig(gates[1]) * c + sig(gates[0]) * torch.tanh(gates[2])
                x = sig(gates[3]) * torch.tanh(c)
                new[i] = (x, c)
            elif k == "FeedForwardNet":
                x = self.ff(x, a, p)
            elif k == "StructuredControlNet":
                q = 2 if a[2] else 1
                x = p[0] @ x + (p[1] if a[2] else 0) + self.ff(x, scn_spec(l), p[q:])
            elif k == "LocomotorNet":
                t = state.get(i, 0)
                q = 2 if a[0] else 1
                y = p[0] @ x + (p[1] if a[0] else 0)
                s = a[1]
                for j in range(s):
                    y = y + p[q + j] * torch.sin(p[q + s + j] * t + p[q + 2 * s + j])
                x = y
                new[i] = t + 1
            elif k == "Clip":
                x = torch.clamp(x, float(a[0]), float(a[1]))
            elif k == "Bin":
                mid = (a[0] + a[1]) / 2
                self.risky |= bool(((x - mid).abs() < 1e-3).any())
                x = torch.where(x < mid, torch.tensor(float(a[0]), dtype=F64), torch.tensor(float(a[1]), dtype=F64))
            elif k == "Round":
                q = 10.0 ** a[0]
                frac = (x * q) - torch.floor(x * q)
                self.risky |= bool(((frac - 0.5).abs() < 1e-2).any())
                x = torch.floor(x * q + 0.5) / q
            elif k == "Apply":
                op, v = a
                v = float(v)
                x = x + v if op == "+" else x - v if op == "-" else x * v if op == "*" else x / v if op == "/" else x**v
            elif k == "Slice":
                x = x[a[0] : a[1]]
            elif k == "LayerNorm":
                mean = x.mean()
                var = ((x - mean) ** 2).mean()
                self.risky |= bool(var < 1e-3) and n > 1
                x = (x - mean) / torch.sqrt(var + 1e-5) * p[0] + p[1]
            elif k == "PReLU":
                x = torch.where(x >= 0, x, p[0] * x)
            else:
                raise AssertionError(k)
            if not torch.isfinite(x).all() or (x.abs() > 1e4).any():
                self.risky = True
        return x, new
