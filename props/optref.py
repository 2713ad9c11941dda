"""Reference update rules (in double precision) of the optimizers, written from their publications."""

import torch


class RefSGD:
    def __init__(self, L, lr, momentum=0.0, dampening=0.0, nesterov=False):
        self.lr, self.momentum, self.dampening, self.nesterov = lr, momentum, dampening, nesterov
        self.buf = None

    def step(self, g):
        if not self.momentum:
            return self.lr * g
        if self.buf is None:
            self.buf = g.clone()
        else:
            self.buf = self.momentum * self.buf + (1 - self.dampening) * g
        d = g + self.momentum * self.buf if self.nesterov else self.buf
        return self.lr * d


class RefAdam:
    def __init__(self, L, lr=0.001, beta1=0.9, beta2=0.999, eps=1e-8, amsgrad=False):
        self.lr, self.beta1, self.beta2, self.eps, self.amsgrad = lr, beta1, beta2, eps, amsgrad
        self.m = torch.zeros(L, dtype=torch.float64)
        self.v = torch.zeros(L, dtype=torch.float64)
        self.vmax = torch.zeros(L, dtype=torch.float64)
        self.t = 0

    def step(self, g):
        self.t += 1
        self.m = self.beta1 * self.m + (1 - self.beta1) * g
        self.v = self.beta2 * self.v + (1 - self.beta2) * g * g
        self.vmax = torch.maximum(self.vmax, self.v)
        v = self.vmax if self.amsgrad else self.v
        mhat = self.m / (1 - self.beta1**self.t)
        vhat = v / (1 - self.beta2**self.t)
        return self.lr * mhat / (vhat.sqrt() + self.eps)


class RefClipUp:
    def __init__(self, L, lr, momentum=0.9, max_speed=None):
        self.lr, self.momentum = lr, momentum
        self.max_speed = 2 * lr if max_speed is None else max_speed
        self.velocity = torch.zeros(L, dtype=torch.float64)

    def step(self, g):
        v = self.momentum * self.velocity + self.lr * g / g.norm()
        n = v.norm()
        if n > self.max_speed:
            v = v * (self.max_speed / n)
        self.velocity = v
        return v
