"""Demixing matrix checkpointing"""
import itertools

import numpy as np
import torch

import torchiva
from mc import ops, sig
from mc.engine import product
from mc.util import coarse, compare, nn, require, tt

ID = "C04"
TITLE = "Demixing-matrix checkpointing changes neither outputs nor gradients"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive configuration product, two-run differential (checkpointed vs plain autograd)"
RULE = (
    "full product of channels, sources, taps, delays, iterations, projection back, source model, batch; the output, "
    "the gradient with respect to the input and to every model parameter are compared with and without checkpointing"
)
ASSUMPTIONS = ["source models without internal state across iterations (the checkpoint recomputes the model)"]


class Tunable(torch.nn.Module):
    """several parameters, one unused, one frozen, a buffer"""

    def __init__(self):
        super().__init__()
        d = torch.float64
        self.a = torch.nn.Parameter(torch.tensor(0.6, dtype=d))
        self.b = torch.nn.Parameter(torch.tensor([0.3, 0.2, 0.1], dtype=d))
        self.frozen = torch.nn.Parameter(torch.tensor(0.8, dtype=d), requires_grad=False)
        self.unused = torch.nn.Parameter(torch.zeros(2, dtype=d))
        self.register_buffer("c", torch.tensor(0.05, dtype=d))

    def forward(self, X):
        P = X.real.square() + X.imag.square()
        F = P.shape[-2]
        slope = 1 + self.b.abs()[torch.arange(F) % 3][:, None]
        return self.frozen * slope / (self.c + self.a.abs() * P.mean(-2, keepdim=True) + 0.1 * P)


class Dropping(torch.nn.Module):
    def __init__(self):
        super().__init__()
        self.a = torch.nn.Parameter(torch.tensor(0.6, dtype=torch.float64))

    def forward(self, X):
        P = X.real.square() + X.imag.square()
        P = torch.nn.functional.dropout(P, 0.3, training=self.training)
        return 1.0 / (0.1 + self.a.abs() * P.mean(-2, keepdim=True).expand(P.shape))


def model(name, f):
    if name == "tunable":
        return Tunable()
    if name == "dropping":
        return Dropping()
    m = ops.make_model(name, f)
    if name == "glu":
        # training mode; without dropout, whose mask follows the memory layout
        # torch picks for max-pooling, which differs inside a checkpoint
        m.train()
        for k in m.modules():
            if isinstance(k, torch.nn.Dropout):
                k.p = 0.0
    return m


def cases(tier):
    out = []
    q = tier == "quick"
    for case in product(c=[2, 3] if q else [2, 3, 4], over=[0, 1], n_taps=[0, 1, 2] if q else [0, 1, 2, 3],
                        n_delay=[0, 1, 2], n_iter=[1, 2, 3] if q else [0, 1, 2, 3, 5],
                        pb=["none", 0, "last"], model=["tunable", "dropping", "glu"],
                        batch=[[], [2]], xgrad=[True, False]):
        if case["over"] and case["c"] == 2 and case["n_taps"] == 2 and q:
            continue
        if case["model"] == "glu" and (case["batch"] == [] or case["n_delay"] == 2) and q:
            continue
        if case["model"] == "dropping" and case["xgrad"] and q:
            continue
        out.append(case)
    for case in product(c=[4, 5, 6, 8], over=[0, 1], n_taps=[0, 1, 5], n_delay=[0, 4], n_iter=[1, 2], pb=["none", "last"],
                        model=["tunable", "glu"], batch=[[]], xgrad=[True]):
        out.append(case)
    for case in product(c=[2, 3], over=[0, 1], n_taps=[4, 6, 10], n_delay=[0, 3, 7], n_iter=[2, 7], pb=["last"],
                        model=["tunable"], batch=[[], [5]], xgrad=[True]):
        out.append(case)
    for case in product(c=[2, 3], over=[0, 1], n_taps=[0, 1], n_delay=[0], n_iter=[0, 4, 10], pb=[0],
                        model=["tunable", "laplace", "gauss", "simple"], batch=[[], [3], [2, 2]], xgrad=[True]):
        out.append(case)
    return out


def one(case, dmc, X):
    c = case["c"]
    n_src = c - 1 if case["over"] else c
    pb = {"none": None, "last": c - 1}.get(case["pb"], case["pb"])
    m = model(case["model"], X.shape[-2])
    algo = torchiva.T_ISS(n_iter=case["n_iter"], n_taps=case["n_taps"], n_delay=case["n_delay"], n_src=n_src,
                          model=m, proj_back_mic=pb, use_dmc=dmc)
    x = X.clone().requires_grad_(case["xgrad"])
    torch.manual_seed(9)
    y = algo(x)
    # a loss sensitive to phase, source order and position
    w = tt(sig.cnormal(tuple(y.shape), 77))
    loss = (y - w).abs().square().mean() + (y * w).real.sum()
    if loss.requires_grad:
        loss.backward()
    grads = {n: p.grad for n, p in m.named_parameters()}
    return y.detach(), x.grad, grads


def run(case):
    b = tuple(case["batch"])
    X = tt(sig.mixture(case["c"], 3, 18, 1, b, "reverb"))
    y0, gx0, g0 = one(case, False, X)
    y1, gx1, g1 = one(case, True, X)
    compare(y1, y0, 1e-8, "output with checkpointing")
    if gx0 is None:
        require(gx1 is None or float(gx1.abs().max()) == 0, "gradient of the input appears with checkpointing")
    else:
        require(gx1 is not None, "gradient of the input lost with checkpointing")
        compare(gx1, gx0, 1e-7, "gradient of the input with checkpointing")
    for k in g0:
        a = g0[k] if g0[k] is not None else torch.zeros(1)
        c = g1[k] if g1[k] is not None else torch.zeros(1)
        if float(a.abs().max()) < 1e-12:
            require(float(c.abs().max()) < 1e-9, f"gradient of {k}: {c}, expected 0")
        else:
            require(g1[k] is not None, f"gradient of {k} lost with checkpointing")
            compare(c, a, 1e-7, f"gradient of parameter {k} with checkpointing", atol=1e-9)
    return dict(transitions=4, states=1, outcome=coarse(y0))
