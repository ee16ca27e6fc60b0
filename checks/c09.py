"""FIVE against the published algorithm"""
import itertools

import numpy as np
import torch

import torchiva
from checks.c07 import cheap, rmodel, tmodel
from mc import ops, refs, sig
from mc.engine import pairs, product, sweep
from mc.util import coarse, compare, nn, relerr, require, tt

ID = "C09"
TITLE = "FIVE extracts the published maximum-SINR source"
LEVEL = "model_checking"
TECHNIQUE = "explicit-state enumeration of configurations, lock-step agreement with a reference model of the algorithm"
RULE = (
    "full product channels x iterations x reference microphone x source model x eigen solver (exact or every number "
    "of power iterations up to 6) x sizes, compared with the loop-form reference; exact solver = limit of the power "
    "method; the DC bin is null. ill-posed cases (reference sensitivity) are counted"
)
ASSUMPTIONS = ["distinct eigenvalues of the input covariance", "without projection back compared up to phase per frequency"]

BASE = dict(c=2, it=2, ref=0, model="laplace", f=3, n=24, key=1, level=1.0, batch=[], dt="c128", sig="iva", npow=None)


def cases(tier):
    out = []
    q = tier == "quick"
    for k in product(c=[2, 3, 4], it=[0, 1, 2, 3], model=["laplace", "weights", "gauss"], npow=[None, 1, 2, 3, 6],
                     key=[1, 2] if q else [1, 2, 3, 4]):
        for ref in [None] + list(range(k["c"])):
            out.append({**BASE, **k, "ref": ref})
    for base in (BASE, {**BASE, "c": 3, "ref": 2, "model": "weights", "npow": 4}, {**BASE, "c": 5, "ref": 4}):
        for c in sweep(base, it=[5, 10] if q else [5, 10, 20], f=[2, 4, 9, 33, 513, 2049] + ([] if q else [129, 4097]),
                       n=[6, 8, 13, 64, 257, 2100, 5000] + ([] if q else [600, 1025, 20000]),
                       level=[0.3, 3.0, 10.0, 100.0], batch=[[1], [3], [2, 2], [70]], dt=["c64"], key=[2, 3, 4], sig=["reverb", "noise"],
                       model=["running"], c=[6, 8], npow=[5, 10, 30]):
            out.append(c)
    # every pair of deviations
    for base in (BASE, {**BASE, "c": 3, "ref": 2, "model": "weights", "npow": 4, "f": 4, "n": 30}):
        out += pairs(base, lambda k: cheap({**k, "s": 1}, 3e5 if q else 1e7), c=[2, 3, 4, 6, 9], it=[0, 1, 3, 5, 11, 26],
                     ref=[None, 0, 1, 2, 3], npow=[None, 1, 2, 5, 9, 17], f=[2, 5, 9, 20, 129], n=[6, 7, 15, 33, 70, 301, 1030],
                     level=[0.3, 3.0, 10.0, 100.0], batch=[[1], [2], [5], [2, 3], [1, 2, 1]], dt=["c64"],
                     sig=["reverb", "noise"], key=[5, 6], model=["laplace", "weights", "gauss", "running"])
    for c in (2, 3, 4):
        for ref in (0, c - 1):
            out.append(dict(kind="limit", c=c, ref=ref))
    return out


def reference(X, k):
    torch.manual_seed(21)
    with np.errstate(all="ignore"):
        return refs.five(X, rmodel(k["model"], X.shape[1]), k["it"], k["ref"], k["npow"])


def align(got, want):
    z = np.sum(got.conj() * want, axis=-1, keepdims=True)
    return got * z / np.maximum(np.abs(z), 1e-30)


def run(case):
    k = case
    if k.get("kind") == "limit":
        X = tt(sig.mixture(k["c"], 4, 40, 3))
        exact = torchiva.FIVE(n_iter=3, proj_back_mic=k["ref"])(X)
        power = torchiva.FIVE(n_iter=3, proj_back_mic=k["ref"], n_power_iter=400)(X)
        compare(power, exact, 1e-3, "FIVE with many power iterations vs the exact eigenvector")
        return dict(transitions=2, outcome=coarse(exact))
    b = tuple(k["batch"])
    X = k["level"] * sig.mixture(k["c"], k["f"], k["n"], k["key"], b, k["sig"])
    dt = torch.complex64 if k["dt"] == "c64" else torch.complex128
    items = list(itertools.product(*[range(m) for m in b]))
    want = np.zeros(b + (1, k["f"], k["n"]), dtype=complex)
    for i in items:
        want[i] = reference(X[i], k)
        w2 = reference(X[i] * (1 + 1e-12 * sig.normal(X[i].shape, 5)), k)
        if k["ref"] is None:
            w2 = align(w2, want[i])
        if relerr(w2, want[i]) > 1e-8:
            return dict(skipped=True)
    algo = torchiva.FIVE(n_iter=k["it"], model=tmodel(k["model"], k["f"]), proj_back_mic=k["ref"], n_power_iter=k["npow"])
    torch.manual_seed(21)
    got = nn(algo(tt(X, dt)))
    require(got.shape == want.shape, f"shape {got.shape}, expected {want.shape}")
    require(np.all(got[..., 0, :] == 0), "the DC bin is not null")
    if k["ref"] is None:
        got = align(got, want)
    compare(got, want, 1e-6 if dt == torch.complex128 else 2e-2, f"FIVE {k}", atol=1e-9 * np.max(np.abs(X)))
    return dict(transitions=1 + k["it"], outcome=coarse(np.abs(want)))
