"""WPE dereverberation: normal equations, causality of the prediction, published iterations"""
import itertools

import numpy as np
import torch

import torchiva
from mc import ops, refs, sig
from mc.engine import pairs, product, sweep
from mc.util import coarse, compare, nn, relerr, require, tt

ID = "C10"
TITLE = "Dereverberation subtracts exactly the delayed linear prediction"
LEVEL = "model_checking"
TECHNIQUE = "explicit-state enumeration of configurations and of the complete lattice of small signals, lock-step agreement with a reference model plus invariants (untouched onset, weighted normal equations)"
RULE = (
    "full product channels x taps x delay x iterations x frames x source model, axis sweeps to large sizes, levels, "
    "batches, and every short signal over a small alphabet; agreement with the loop-form reference, exact "
    "preservation of the frames without past and orthogonality of the residual to the delayed frames"
)
ASSUMPTIONS = ["ill-conditioned systems (reference sensitivity above 1e-7 for a relative perturbation of 1e-12) are counted as skipped"]

BASE = dict(kind="wpe", c=2, f=2, n=24, taps=2, delay=1, it=2, model="none", eps=1e-5, level=1.0, batch=[], dt="c128",
            sig="reverb", key=1)


class PerChan(torch.nn.Module):
    """stateless weights (..., F, N) from (..., C, F, N)"""

    def forward(self, Y):
        P = (Y.real.square() + Y.imag.square()).mean(dim=-3)
        n = torch.arange(P.shape[-1], dtype=P.dtype)
        return (1 + 0.1 * n) / (P.sqrt() + 0.1)


def wmodel(name):
    return {"none": None, "wpegauss": ops.WpeGauss(), "perchan": PerChan()}[name]


def cases(tier):
    q = tier == "quick"
    out = []
    for k in product(c=[1, 2, 3], taps=[1, 2, 3, 5], delay=[0, 1, 2, 3], it=[0, 1, 2, 3], model=["none", "wpegauss", "perchan"],
                     n=[8, 24, 60] if q else [6, 8, 13, 24, 60, 121]):
        out.append({**BASE, **k})
    for base in (BASE, {**BASE, "c": 3, "taps": 4, "delay": 2, "n": 50, "model": "wpegauss"}, {**BASE, "c": 1, "taps": 6, "delay": 0, "n": 40}):
        for c in sweep(base, f=[1, 5, 17, 65, 513, 2049], n=[5, 100, 200, 400, 2100, 5000], taps=[8, 10], delay=[5, 8, 20, 40], it=[5, 10], eps=[1e-9, 1e-7, 1e-3, 1e-2],
                       level=[0.01, 0.1, 10.0, 100.0, 1000.0], batch=[[1], [3], [2, 2], [2, 1, 2], [70]], dt=["c64"],
                       sig=["iva", "noise"], key=[2, 3, 4, 5], c=[4, 5]):
            out.append(c)
    # every pair of deviations
    for base in (BASE, {**BASE, "c": 3, "taps": 3, "delay": 2, "n": 50, "model": "wpegauss", "f": 3}):
        out += pairs(base, lambda k: int(np.prod(k["batch"] or [1])) * k["it"] * k["f"] * (k["n"] + 20) * (1 + k["taps"]) * k["c"] <= (5e5 if q else 1e7),
                     c=[1, 2, 3, 5, 7], taps=[1, 2, 4, 7, 12], delay=[0, 1, 3, 6, 13, 40], it=[0, 1, 3, 6, 13], f=[1, 2, 5, 9, 33, 129], n=[1, 3, 5, 9, 16, 35, 80, 301, 1030],
                     eps=[1e-8, 1e-4, 1e-2], level=[0.01, 0.3, 10.0, 300.0], batch=[[1], [2], [5], [2, 3], [1, 2, 1]], dt=["c64"],
                     sig=["iva", "noise"], key=[5, 6], model=["none", "wpegauss", "perchan"])
    for alpha, c, n in ((("0", "1", "2j"), 1, 6), (("1", "-1", "1j"), 1, 6), (("0", "1", "1j"), 2, 3), (("1", "2"), 2, 5)):
        for taps, delay, it in product_t([1, 2], [0, 1], [1, 2]):
            out.append(dict(kind="lattice", alpha=list(alpha), c=c, n=n, taps=taps, delay=delay, it=it))
    return out


def product_t(*a):
    return itertools.product(*a)


def ref_model(m):
    return None if m is None else refs.torch_model(m)


def run(case):
    k = case
    if k["kind"] == "lattice":
        return lattice(case)
    b = tuple(k["batch"])
    X = k["level"] * sig.mixture(k["c"], k["f"], k["n"], k["key"], b, k["sig"])
    dt = torch.complex64 if k["dt"] == "c64" else torch.complex128
    Xt = tt(X, dt)
    X = nn(Xt).astype(complex)
    m = wmodel(k["model"])
    a = torchiva.WPE(n_iter=k["it"], n_taps=k["taps"], n_delay=k["delay"], model=m, eps=k["eps"])
    got = nn(a(Xt)).astype(complex)
    require(got.shape == X.shape, f"shape {got.shape}, expected {X.shape}")
    require(np.array_equal(nn(Xt).astype(complex), X), "the input was modified")
    d0 = k["delay"] + 1
    require(np.array_equal(got[..., :d0], X[..., :d0]), "the frames without any past were modified")
    want = np.zeros_like(X)
    ill = False
    for i in itertools.product(*[range(z) for z in b]):
        want[i] = refs.wpe(X[i], k["it"], k["taps"], k["delay"], k["eps"], ref_model(m))
        w2 = refs.wpe(X[i] * (1 + 1e-12 * sig.normal(X[i].shape, 5)), k["it"], k["taps"], k["delay"], k["eps"], ref_model(m))
        ill |= relerr(w2, want[i]) > 1e-7
    if ill:
        return dict(skipped=True)
    compare(got, want, 1e-6 if dt == torch.complex128 else 1e-2, f"{k}", atol=1e-9 * np.max(np.abs(X)))
    if k["it"] >= 1 and dt == torch.complex128:
        normal_equations(a, k, Xt, X, got, m, b)
    return dict(transitions=1 + k["it"], outcome=coarse(np.abs(want)))


def normal_equations(a, k, Xt, X, got, m, b):
    prev = nn(a(Xt, n_iter=k["it"] - 1)).astype(complex)
    for i in itertools.product(*[range(z) for z in b]):
        if m is None:
            w = 1 / np.maximum(np.mean(np.abs(prev[i]) ** 2, axis=0), k["eps"])
            w = w / np.sum(w, axis=-1, keepdims=True)
        else:
            w = refs.torch_model(m)(prev[i])
        D = refs.delayed(X[i], k["taps"], k["delay"])
        for f in range(k["f"]):
            d = D[:, f].reshape(-1, k["n"])
            R = (w[f] * d) @ d.conj().T
            load = max(k["eps"] * np.max(np.abs(R)), k["eps"])
            G = np.linalg.lstsq(d.T, (X[i][:, f] - got[i][:, f]).T, rcond=None)[0]  # x - y = G^T d
            res = (w[f] * d).conj() @ got[i][:, f].T  # must equal load * conj-filter
            err = np.max(np.abs(res))
            if len(d) > k["n"]:
                continue
            scale = np.max(np.abs((w[f] * d).conj() @ X[i][:, f].T)) + load * np.max(np.abs(G)) + 1e-300
            require(err <= 1.5 * load * np.sqrt(len(d)) * np.max(np.abs(G)) * len(d) + 1e-7 * scale,
                    f"the residual is not orthogonal to the delayed frames: {err:.2e} (load {load:.1e})")


def lattice(case):
    alpha = [complex(x) for x in case["alpha"]]
    shape = (case["c"], 1, case["n"])
    Xs = np.stack(list(sig.words(alpha, shape))).astype(complex)
    a = torchiva.WPE(n_iter=case["it"], n_taps=case["taps"], n_delay=case["delay"], eps=1e-3)
    got = nn(a(tt(Xs)))
    n_ok = 0
    for i in range(len(Xs)):
        want = refs.wpe(Xs[i], case["it"], case["taps"], case["delay"], 1e-3)
        w2 = refs.wpe(Xs[i] * (1 + 1e-12 * sig.normal(shape, 5)), case["it"], case["taps"], case["delay"], 1e-3)
        if relerr(w2, want) > 1e-7:
            continue
        n_ok += 1
        compare(got[i], want, 1e-6, f"signal {Xs[i].tolist()}", atol=1e-9)
    require(n_ok > len(Xs) // 2, f"vacuous lattice {n_ok}/{len(Xs)}")
    return dict(transitions=len(Xs), states=len(Xs), validated=n_ok, outcome=str(n_ok))
