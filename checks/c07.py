"""T-ISS against the published algorithm"""
import copy
import itertools

import numpy as np
import torch

import torchiva
from mc import ops, refs, sig
from mc.engine import pairs, product, sweep
from mc.util import coarse, compare, nn, relerr, require, tt

ID = "C07"
TITLE = "T-ISS computes the published iterative source steering updates"
LEVEL = "model_checking"
TECHNIQUE = "explicit-state enumeration of configurations and of the complete lattice of small signals, lock-step agreement with a reference model of the algorithm"
RULE = (
    "full product channels x sources x taps x delay x iterations x reference microphone x source model, axis sweeps "
    "to large sizes, and every 2-channel signal over a small alphabet; each trace of the real code is compared with "
    "the loop-form reference. cases on which the reference itself changes by more than 1e-7 under a 1e-12 "
    "perturbation are counted as ill-posed"
)
ASSUMPTIONS = ["double precision (single precision in a sweep)", "regularization constants of the package are part of the reference"]

BASE = dict(kind="cfg", c=2, s=2, taps=0, delay=0, it=2, ref=0, model="laplace", f=2, n=20, key=1, eps=1e-5,
            level=1.0, batch=[], dt="c128", dmc=False, sig="reverb")


def cases(tier):
    out = []
    q = tier == "quick"
    for k in product(c=[2, 3] if q else [2, 3, 4], taps=[0, 1, 2, 3], delay=[0, 1, 2, 3], it=[0, 1, 2, 3],
                     model=["laplace", "weights"] if q else ["laplace", "weights", "gauss"]):
        for s in range(1, k["c"] + 1):
            for ref in [None] + list(range(k["c"])):
                if q and k["it"] == 0 and ref is not None and ref > 0:
                    continue
                out.append({**BASE, **k, "s": s, "ref": ref})
    for base in (BASE, {**BASE, "c": 3, "s": 2, "taps": 1, "delay": 1, "model": "weights", "ref": 2},
                 {**BASE, "c": 4, "s": 4, "taps": 2, "delay": 1}):
        for c in sweep(base, it=[5, 10] if q else [5, 10, 20, 30], taps=[4, 5, 8] if q else [4, 5, 8, 12], delay=[4, 6, 9, 12, 25],
                       f=[1, 3, 8, 33, 513, 2049] + ([] if q else [65, 257, 4097]), n=[1, 2, 3, 5, 8, 13, 64, 257, 2100, 5000] + ([] if q else [600, 1025, 20000]),
                       eps=[1e-12, 1e-8, 1e-3, 1e-1], level=[1e-3, 1e-2, 0.1, 10.0, 100.0, 1e4],
                       batch=[[1], [3], [2, 2], [70]], dt=["c64"], key=[2, 3, 4], sig=["iva", "noise"], dmc=[True],
                       model=["gauss", "nmf", "running", "glu", "blstm", "simple"]):
            out.append(c)
    # every pair of deviations
    for base in (BASE, {**BASE, "c": 3, "s": 2, "taps": 1, "delay": 1, "model": "weights", "ref": 2, "f": 3, "n": 30}):
        out += pairs(base, lambda k: cheap(k, 3e5 if q else 1e7), c=[2, 3, 4, 6, 9], s=[1, 2, 3, 4], it=[0, 1, 3, 5, 11, 26], ref=[None, 0, 1, 2, 3],
                     taps=[0, 1, 2, 3, 6], delay=[0, 1, 2, 5, 11], f=[1, 2, 5, 9, 20, 129], n=[1, 2, 4, 7, 15, 33, 70, 301, 1030],
                     eps=[1e-10, 1e-7, 1e-4, 1e-2], level=[1e-3, 0.1, 3.0, 30.0, 1e3], batch=[[1], [2], [5], [2, 3], [1, 2, 1]], dt=["c64"],
                     sig=["iva", "noise"], key=[5, 6], dmc=[True], model=["laplace", "weights", "gauss", "nmf", "running", "glu", "blstm", "simple"])
    for c in (4, 5, 6, 8):
        for s in range(1, c + 1):
            for taps in (0, 1):
                out.append({**BASE, "c": c, "s": s, "taps": taps, "n": 40, "ref": c - 1})
    # many channels, long filters
    for k in product(c=[2, 3, 5, 7, 10], taps=[0, 2, 5, 9, 14], delay=[0, 2, 7], it=[1, 3], model=["laplace", "weights"]):
        for s in sorted({1, k["c"] // 2, k["c"] - 1, k["c"]}):
            if (k["it"] == 1 or not q) or k["c"] * k["taps"] <= 20:
                out.append({**BASE, **k, "s": s, "n": 40, "ref": k["c"] - 1})
    # the complete lattice of signals
    for alpha, n in ((("1", "-1", "1j"), 3), (("0", "1", "2j"), 3), (("1", "1j"), 4)):
        for it in (1, 2):
            for taps, delay in ((0, 0), (1, 0)):
                for s in (1, 2):
                    for model in ("laplace", "weights"):
                        out.append(dict(kind="lattice", alpha=list(alpha), n=n, it=it, taps=taps, delay=delay, s=s, model=model))
    return out


def cheap(k, limit):
    """meaningful and affordable for the loop-form reference"""
    ok = k["s"] <= k["c"] and (k["ref"] is None or k["ref"] < k["c"])
    if k["model"] in ("nmf", "glu", "blstm", "simple") and (k["dt"] == "c64" or (k["model"] == "nmf" and k["batch"] not in ([], [1]))):
        return False  # other random numbers, respectively weights of another precision
    size = int(np.prod(k["batch"] or [1])) * k["it"] * k["f"] * (k["n"] + 20) * k["c"] * (1 + k.get("taps", 0))
    return ok and size <= limit


def tmodel(name, f):
    if name == "laplace":
        return torchiva.models.LaplaceModel()
    return ops.make_model(name, f)


def rmodel(name, f):
    if name == "laplace":
        return refs.laplace
    if name == "gauss":
        return refs.gauss
    return refs.torch_model(ops.make_model(name, f))


def reference(X, k):
    torch.manual_seed(21)
    with np.errstate(all="ignore"):
        return refs.tiss(X, rmodel(k["model"], X.shape[1]), k["it"], k["taps"], k["delay"], k["s"], k["ref"], k["eps"])


def run(case):
    if case["kind"] == "lattice":
        return run_lattice(case)
    k = case
    b = tuple(k["batch"])
    X = k["level"] * sig.mixture(k["c"], k["f"], k["n"], k["key"], b, k["sig"])
    algo = torchiva.T_ISS(n_iter=k["it"], n_taps=k["taps"], n_delay=k["delay"], n_src=k["s"],
                          model=tmodel(k["model"], k["f"]), proj_back_mic=k["ref"], use_dmc=k["dmc"], eps=k["eps"])
    dt = torch.complex64 if k["dt"] == "c64" else torch.complex128
    items = list(itertools.product(*[range(m) for m in b]))
    want = np.zeros(b + (k["s"], k["f"], k["n"]), dtype=complex)
    try:
        for i in items:
            want[i] = reference(X[i], k)
            # is the problem well posed?
            P = X[i] * (1 + 1e-12 * sig.normal(X[i].shape, 5))
            if relerr(reference(P, k), want[i]) > 1e-7:
                return dict(skipped=True)
    except np.linalg.LinAlgError:
        return dict(skipped=True)
    if not np.all(np.isfinite(want)):
        return dict(skipped=True)
    torch.manual_seed(21)
    got = algo(tt(X, dt))
    compare(got, want, 1e-6 if dt == torch.complex128 else 2e-2, f"T-ISS {k}", atol=1e-9 * np.max(np.abs(X)))
    return dict(transitions=1 + k["it"], outcome=coarse(want))


def run_lattice(case):
    alpha = [complex(a) for a in case["alpha"]]
    shape = (2, 1, case["n"])
    Xs = np.stack(list(sig.words(alpha, shape))).astype(complex)
    k = dict(it=case["it"], taps=case["taps"], delay=case["delay"], s=case["s"], ref=1, eps=1e-5, model=case["model"])
    algo = torchiva.T_ISS(n_iter=k["it"], n_taps=k["taps"], n_delay=k["delay"], n_src=k["s"],
                          model=tmodel(k["model"], 1), proj_back_mic=1, eps=1e-5)
    got = nn(algo(tt(Xs)))
    n_ok = 0
    for i in range(len(Xs)):
        want = reference(Xs[i], k)
        if not np.all(np.isfinite(want)):
            continue
        if relerr(reference(Xs[i] * (1 + 1e-12 * sig.normal(shape, 5)), k), want) > 1e-8:
            continue
        n_ok += 1
        compare(got[i], want, 1e-5, f"T-ISS on the signal {Xs[i].tolist()}", atol=1e-6)
    require(n_ok > len(Xs) // 4, "vacuous lattice")
    return dict(transitions=len(Xs), states=len(Xs), validated=n_ok, outcome=coarse(got))
