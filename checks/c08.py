"""AuxIVA-IP, OverIVA-IP and IP2 against the published algorithms"""
import contextlib
import io
import itertools

import numpy as np
import torch

import torchiva
from checks.c07 import cheap, rmodel, tmodel
from mc import ops, refs, sig
from mc.engine import pairs, product, sweep
from mc.util import coarse, compare, nn, relerr, require, tt

ID = "C08"
TITLE = "AuxIVA-IP, OverIVA-IP and IP2 compute the published updates"
LEVEL = "model_checking"
TECHNIQUE = "explicit-state enumeration of configurations and of the complete lattice of small signals, lock-step agreement with a reference model of the algorithm"
RULE = (
    "full product channels x sources x iterations x reference microphone x source model x regularization, axis sweeps "
    "to large sizes, and every 2-channel signal over a small alphabet, compared with the loop-form reference; IP2 "
    "against the generalized eigenvalue problem solved by LAPACK. ill-posed cases (reference sensitivity) are counted"
)
ASSUMPTIONS = [
    "IP2: signals of level 0.3 and above and well separated generalized eigenvalues",
    "without projection back IP2 is compared up to the phase of each source and frequency",
]

BASE = dict(algo="ip", c=2, s=2, it=2, ref=0, model="laplace", f=2, n=24, key=1, eps=1e-5, level=1.0, batch=[],
            dt="c128", sig="iva")


def cases(tier):
    out = []
    q = tier == "quick"
    for k in product(c=[2, 3, 4] if q else [2, 3, 4, 5], it=[0, 1, 2, 3], model=["laplace", "weights", "gauss"], eps=[1e-5, 1e-9]):
        for s in range(1, k["c"] + 1):
            for ref in [None] + list(range(k["c"])):
                out.append({**BASE, **k, "s": s, "ref": ref})
    for base in (BASE, {**BASE, "c": 3, "s": 2, "model": "weights", "ref": 2}, {**BASE, "c": 4, "s": 4, "ref": 1}):
        for c in sweep(base, it=[5, 10] if q else [5, 10, 20, 30], f=[1, 3, 8, 33, 513, 2049] + ([] if q else [65, 257, 4097]),
                       n=[4, 5, 8, 13, 64, 257, 2100, 5000] + ([] if q else [600, 1025, 20000]), eps=[1e-12, 1e-3, 1e-2],
                       level=[0.1, 0.3, 3.0, 10.0, 100.0, 3e3, 1e5], batch=[[1], [3], [2, 2], [70]], dt=["c64"], key=[2, 3, 4],
                       sig=["reverb", "noise"], model=["nmf", "running", "glu", "blstm", "simple"]):
            out.append(c)
    # every pair of deviations
    for base in (BASE, {**BASE, "c": 3, "s": 2, "model": "weights", "ref": 2, "f": 3, "n": 30}, {**BASE, "algo": "ip2", "eps": 1e-12}):
        ip2 = base["algo"] == "ip2"
        out += pairs(base, lambda k: cheap(k, 3e5 if q else 1e7) and not (ip2 and k["s"] != k["c"]), c=[2] if ip2 else [2, 3, 4, 6, 9], s=[1, 2, 3, 4], it=[0, 1, 3, 5, 11, 26],
                     ref=[None, 0, 1, 2, 3], f=[1, 2, 5, 9, 20, 129], n=[4, 7, 15, 33, 70, 301, 1030],
                     eps=[1e-12] if ip2 else [1e-10, 1e-7, 1e-4, 1e-2], level=[0.3, 3.0, 10.0, 1e4] if ip2 else [0.1, 3.0, 30.0, 100.0, 1e4], batch=[[1], [2], [5], [2, 3], [1, 2, 1]], dt=["c64"],
                     sig=["reverb", "noise"], key=[5, 6], model=["laplace", "weights", "gauss", "nmf", "running", "glu", "blstm", "simple"])
    for k in product(c=[2, 3], s=[1, 2, 3], it=[0, 1, 3], batch=[[], [1], [3], [2, 2]], ref=[None, 0, 1], model=["laplace", "nmf", "running"]):
        if k["s"] <= k["c"] and not (k["model"] == "nmf" and np.prod(k["batch"]) > 1):
            out.append({**BASE, **k, "verbose": True})
    for c in (5, 6, 8, 10, 12):
        for s in range(1, c + 1):
            for it in (1, 2, 3):
                for model in ("laplace", "weights"):
                    out.append({**BASE, "c": c, "s": s, "n": 80, "ref": c - 1 if it < 3 else 0, "it": it, "model": model})
    for k in product(it=[0, 1, 2, 3, 5], ref=[None, 0, 1], model=["laplace", "weights", "gauss"], eps=[1e-5, 1e-12],
                     f=[1, 2, 5], n=[8, 24, 65], key=[1, 2, 3], sig=["iva", "noise"]):
        out.append({**BASE, "algo": "ip2", **k})
    for c in sweep({**BASE, "algo": "ip2", "eps": 1e-12}, it=[10, 20], f=[33, 129, 1025], n=[4, 257, 513, 2100, 5000], level=[0.3, 3.0, 10.0, 100.0, 3e3, 1e5],
                   batch=[[1], [3], [2, 2]], dt=["c64"], model=["nmf", "running", "glu", "blstm", "simple"]):
        out.append(c)
    for alpha, n in ((("1", "-1", "1j"), 3), (("0", "1", "2j"), 3), (("1", "1j"), 4), (("1", "2", "3j"), 3)):
        for it in (1, 2):
            for algo, s in (("ip", 1), ("ip", 2), ("ip2", 2)):
                if algo == "ip2" and alpha[-1] == "1j":
                    continue  # constant modulus: the eigenvalue problem is degenerate
                for model in ("laplace", "weights"):
                    out.append(dict(algo="lattice", of=algo, alpha=list(alpha), n=n, it=it, s=s, model=model))
    return out


def reference(X, k, algo, noise=0.0):
    """reference algorithm, the weights of the model are perturbed by noise to see how well posed the case is"""
    torch.manual_seed(21)
    m0 = rmodel(k["model"], X.shape[1])
    if noise:
        def m(Y):
            w = np.asarray(m0(Y))
            return w * (1 + noise * sig.normal(w.shape, 6).real)
        if hasattr(m0, "reset"):
            m.reset = m0.reset
    else:
        m = m0
    with np.errstate(all="ignore"):
        if algo == "ip":
            return refs.auxiva_ip(X, m, k["it"], k["s"], k["ref"], k["eps"])
        return refs.auxiva_ip2(X, m, k["it"], k["ref"])


def make(k, algo, f):
    if algo == "ip":
        return torchiva.AuxIVA_IP(n_iter=k["it"], n_src=k["s"], model=tmodel(k["model"], f), proj_back_mic=k["ref"], eps=k["eps"])
    return torchiva.AuxIVA_IP2(n_iter=k["it"], model=tmodel(k["model"], f), proj_back_mic=k["ref"], eps=k["eps"])


def align(got, want):
    """remove the phase of every source and frequency"""
    z = np.sum(got.conj() * want, axis=-1, keepdims=True)
    return got * z / np.maximum(np.abs(z), 1e-30)


def run(case):
    k = case
    if k["algo"] == "lattice":
        return run_lattice(case)
    b = tuple(k["batch"])
    X = k["level"] * sig.mixture(k["c"], k["f"], k["n"], k["key"], b, k["sig"])
    dt = torch.complex64 if k["dt"] == "c64" else torch.complex128
    items = list(itertools.product(*[range(m) for m in b]))
    want = np.zeros(b + (k["s"], k["f"], k["n"]), dtype=complex)
    try:
        for i in items:
            want[i] = reference(X[i], k, k["algo"])
            P = X[i] * (1 + 1e-12 * sig.normal(X[i].shape, 5))
            w2 = reference(P, k, k["algo"], 1e-12)
            if k["algo"] == "ip2" and k["ref"] is None:
                w2 = align(w2, want[i])
            if relerr(w2, want[i]) > 1e-8:
                return dict(skipped=True)
    except np.linalg.LinAlgError:
        return dict(skipped=True)
    if not np.all(np.isfinite(want)):
        return dict(skipped=True)
    torch.manual_seed(21)
    if k.get("verbose"):
        text = io.StringIO()
        with contextlib.redirect_stdout(text):
            got = nn(make(k, k["algo"], k["f"])(tt(X, dt), verbose=True))
        require("nan" not in text.getvalue(), "the reported cost is not a number")
    else:
        got = nn(make(k, k["algo"], k["f"])(tt(X, dt)))
    require(got.shape == want.shape, f"shape {got.shape}, expected {want.shape}")
    if k["algo"] == "ip2" and k["ref"] is None:
        got = align(got, want)
    tol = 1e-6
    if k["algo"] == "ip2":
        tol = 1e-5 if k["eps"] > 1e-9 else 1e-6
    compare(got, want, tol if dt == torch.complex128 else 3e-2, f"{k}", atol=1e-9 * np.max(np.abs(X)))
    return dict(transitions=1 + k["it"], outcome=coarse(np.abs(want)))


def run_lattice(case):
    alpha = [complex(a) for a in case["alpha"]]
    shape = (2, 1, case["n"])
    Xs = np.stack(list(sig.words(alpha, shape))).astype(complex)
    k = dict(it=case["it"], s=case["s"], ref=1, eps=1e-9, model=case["model"])
    algo = make(k, case["of"], 1)
    n_ok = 0
    for i in range(len(Xs)):
        R = Xs[i, :, 0] @ Xs[i, :, 0].conj().T
        if np.linalg.cond(R) > 1e3:
            continue
        try:
            want = reference(Xs[i], k, case["of"])
            pert = reference(Xs[i] * (1 + 1e-12 * sig.normal(shape, 5)), k, case["of"], 1e-12)
        except np.linalg.LinAlgError:
            continue
        if not np.all(np.isfinite(want)) or relerr(pert, want) > 1e-8:
            continue
        got = nn(algo(tt(Xs[i])))
        n_ok += 1
        compare(got, want, 1e-5, f"{case['of']} on the signal {Xs[i].tolist()}", atol=1e-7)
    require(n_ok > len(Xs) // 8, f"vacuous lattice {n_ok}/{len(Xs)}")
    return dict(transitions=len(Xs), states=len(Xs), validated=n_ok, outcome=f"{n_ok}")
