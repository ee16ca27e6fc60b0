"""The separation objective never increases along the iterations"""
import numpy as np
import torch

import torchiva
from checks.c07 import tmodel
from mc import ops, refs, sig
from mc.engine import Violation, pairs, product, sweep
from mc.util import coarse, nn, require, tt

ID = "C06"
TITLE = "No iteration makes the separation objective worse"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive exploration of the iteration sequence from every enumerated initial state; a monotone invariant (likelihood) is evaluated by an independent oracle at every state"
RULE = (
    "full product method x model x channels x frequencies x frames x taps x signal; every prefix of the iteration "
    "sequence is executed on the real code and the negative log-likelihood of the demixing filters identified from "
    "input and output is compared between consecutive states"
)
ASSUMPTIONS = ["Laplace and Gauss source models", "more frames than filter coefficients", "level within 0.03 to 100"]

BASE = dict(algo="tiss", c=2, f=3, n=60, taps=0, delay=0, model="laplace", key=1, sig="iva", level=1.0, depth=8)


def cases(tier):
    q = tier == "quick"
    out = []
    depth = 8 if q else 30
    for k in product(algo=["tiss", "ip", "ip2"], model=["laplace", "gauss"], c=[2, 3, 4], f=[1, 2, 5], n=[30, 100],
                     sig=["iva", "reverb", "noise"], key=[1, 2, 3] if q else range(1, 9)):
        if k["algo"] == "ip2" and k["c"] != 2:
            continue
        if k["model"] == "gauss" and k["f"] == 1:
            continue  # the likelihood is not bounded
        out.append({**BASE, **k, "depth": depth})
    for k in product(model=["laplace", "gauss"], c=[2, 3], f=[2, 3], n=[80], taps=[1, 2, 4], delay=[0, 1, 2],
                     sig=["iva", "reverb"], key=[1, 2] if q else range(1, 6)):
        out.append({**BASE, **k, "depth": depth})
        out.append({**BASE, **k, "algo": "wpe", "model": "wpe", "depth": depth})
    for k in product(algo=["five"], model=["laplace", "gauss"], c=[2, 3, 4], f=[2, 3, 6], n=[40, 100], sig=["iva", "noise"], key=[1, 2, 3]):
        out.append({**BASE, **k, "depth": depth})
    # many channels, long filters
    for k in product(algo=["tiss", "ip", "five"], model=["laplace", "gauss"], c=[5, 6, 8, 10], f=[2, 3], n=[160], sig=["iva", "noise"], key=[1] if q else [1, 2, 3]):
        if not (k["model"] == "gauss" and k["f"] < 2 + (k["algo"] == "five")):
            out.append({**BASE, **k, "depth": depth})
    for k in product(model=["laplace", "gauss"], c=[1, 2, 3], f=[2, 3], n=[240], taps=[5, 8, 12, 16], delay=[0, 3, 6, 10], sig=["iva", "reverb"], key=[1] if q else [1, 2, 3]):
        out.append({**BASE, **k, "algo": "wpe", "model": "wpe", "depth": depth})
        if k["c"] > 1:
            out.append({**BASE, **k, "depth": depth})
    for algo in ("tiss", "ip", "ip2"):
        for c in sweep({**BASE, "algo": algo, "depth": depth}, level=[0.03, 0.3, 10.0, 100.0], f=[17, 33], n=[200, 400], depth=[40]):
            out.append(c)
    for algo in ("tiss", "ip", "ip2", "five"):
        out += pairs({**BASE, "algo": algo, "depth": depth}, lambda k: k["n"] >= 12 * k["c"] and not (k["model"] == "gauss" and k["f"] < 2 + (algo == "five")) and k["f"] * k["n"] * k["depth"] * k["c"] <= (2e5 if q else 4e6),
                     c=[2] if algo == "ip2" else [2, 3, 4, 6], f=[2, 4, 9, 33, 129], n=[30, 50, 130, 400, 1030], sig=["reverb", "noise"],
                     level=[0.1, 0.3, 10.0, 100.0], model=["laplace", "gauss"], depth=[20, 45], key=[4, 5])
    return out


def objective(X, Y, model, taps, delay, wpe=False):
    C, F, N = X.shape
    if wpe:
        return C * np.sum(np.mean(np.log(np.mean(np.abs(Y) ** 2, axis=0)), axis=-1))
    J = 0.0
    D = refs.delayed(X, taps, delay)
    for f in range(F):
        M = np.vstack((X[:, f], D[:, f].reshape(-1, N)))
        W, *_ = np.linalg.lstsq(M.T, Y[:, f].T, rcond=None)
        e = np.linalg.norm(M.T @ W - Y[:, f].T) / np.linalg.norm(Y[:, f])
        require(e < 1e-8, f"the output is not a linear filtering of the input: {e:.2e}")
        J -= 2 * np.log(np.abs(np.linalg.det(W[:C])))
    P = np.sum(np.abs(Y) ** 2, axis=1)
    if model == "laplace":
        J += 2 * F * np.sum(np.log(np.mean(np.sqrt(P), axis=-1)))
    else:
        J += F * np.sum(np.mean(np.log(P), axis=-1))
    return J


def run(case):
    k = case
    X = k["level"] * sig.mixture(k["c"], k["f"], k["n"], k["key"], (), k["sig"])
    Xt = tt(X)
    algo = k["algo"]
    kw = dict(eps=1e-14)
    if algo == "tiss":
        kw.update(n_taps=k["taps"], n_delay=k["delay"])
    if algo == "wpe":
        a = torchiva.WPE(n_taps=k["taps"], n_delay=k["delay"], eps=1e-10)
    else:
        cls = torchiva.models.LaplaceModel if k["model"] == "laplace" else torchiva.models.GaussModel
        a = ops.CLASSES[algo](model=cls(eps=1e-10), proj_back_mic=None, **kw)
    prev, trace = None, []
    for it in range(0, k["depth"] + 1):
        if algo == "five" and it == 0:
            continue
        Y = nn(a(Xt, n_iter=it))
        if algo == "five":
            y = Y[0, 1:]
            var = np.mean(np.abs(y) ** 2, axis=-1)
            require(np.max(np.abs(var - 1)) < 1e-3, f"the extracted source does not have unit variance: {var}")
            P = np.sum(np.abs(y) ** 2, axis=0)
            J = 2 * np.sum(np.mean(np.sqrt(P), axis=-1)) if k["model"] == "laplace" else np.mean(np.log(P))
        else:
            J = objective(X, Y, k["model"], k["taps"], k["delay"], algo == "wpe")
        # the likelihood of these models is not bounded: stop when a frame collapses to zero power
        Q = np.sum(np.abs(Y[..., 1:, :] if algo == "five" else Y) ** 2, axis=-3 if algo == "wpe" else -2)
        if np.max(np.max(Q, axis=-1) / np.min(Q, axis=-1)) > (1e7 if k["model"] == "laplace" else 1e5):
            break
        require(np.isfinite(J), f"the objective is not finite after {it} iterations")
        if prev is not None and J > prev + 1e-5 * max(1.0, abs(prev)) * 1e-1:
            raise Violation(f"iteration {it} increases the objective from {prev:.8f} to {J:.8f}")
        trace.append(J)
        prev = J
    if algo != "five" and len(trace) > 1 and k["f"] > 1:
        require(trace[0] - trace[-1] > 1e-4, f"the iterations make no progress: {trace}")
    return dict(transitions=len(trace) - 1, states=len(trace), outcome=coarse(np.array(trace)))
