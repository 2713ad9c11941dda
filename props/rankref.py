"""Reference definitions of the ranking methods."""

import math

import torch

from .common import Violation, check_shape, plain, require


def definition(method, n):
    """Utilities from the worst to the best of n distinct fitnesses (for the methods based on ranks)."""
    if method == "centered":
        return [k / (n - 1) - 0.5 for k in range(n)]
    if method == "linear":
        return [k / (n - 1) for k in range(n)]
    if method == "nes":
        # rank 1 is the best
        w = [max(0.0, math.log(n / 2 + 1) - math.log(n - k)) for k in range(n)]
        t = sum(w)
        return [x / t - 1 / n for x in w]
    raise KeyError(method)


def rank_ok(got, fitnesses, method, higher_is_better, tol=1e-5):
    """Requires that `got` is what `method` gives for the fitnesses (ties may be broken in any way)."""
    check_shape(got, fitnesses.shape, f"result of {method}")
    g = plain(got).to(torch.float64).reshape(-1).tolist()
    s = 1.0 if higher_is_better else -1.0
    f = [s * float(x) for x in plain(fitnesses).to(torch.float64).reshape(-1)]
    n = len(f)
    ctx = lambda: f"{method} (higher_is_better={higher_is_better}) of {[s * x for x in f]} gave {g}"  # noqa: E731
    if method == "raw":
        want = f
    elif method == "normalized":
        m = sum(f) / n
        sd = math.sqrt(sum((x - m) ** 2 for x in f) / (n - 1))
        if not 1e-15 < sd < 1e15 and got.dtype != torch.float64:
            # the squares, hence the standard deviation, may leave the range of the numbers
            return
        want = [(x - m) / sd for x in f]
    else:
        d = definition(method, n)
        order = sorted(range(n), key=lambda i: (f[i], g[i]))
        want = [0.0] * n
        for k, i in enumerate(order):
            want[i] = d[k]
    for x, y in zip(g, want):
        require(abs(x - y) <= tol * (1 + abs(y)), lambda: f"{ctx()}, expected {want}")
