"""Selection of the most energetic signals"""
import itertools

import numpy as np
import torch

from torchiva.utils import select_most_energetic
from mc import sig
from mc.engine import product
from mc.util import coarse, nn, require, tt

ID = "C17"
TITLE = "Selecting the most energetic signals keeps whole signals in energy order"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of energy orders (all permutations and ties), counts, axes and batch shapes on the real code"
RULE = (
    "every permutation of the energies of up to 5 signals x every number kept x axis layout x batch shape x real/complex, "
    "every small-integer signal set including ties, all rotations and reversals of up to 50 signals with silent ones among them, at extreme levels, and of almost the same or very different energies"
)
ASSUMPTIONS = ["signals of equal energy may be returned in any order"]


def cases(tier):
    q = tier == "quick"
    out = []
    for n in (1, 2, 3, 4, 5) if q else (1, 2, 3, 4, 5, 6):
        for num in range(1, n + 1):
            for dt in ("f64", "f32", "c128"):
                for lay in ("cn", "bcn", "bccn", "bcfn", "nc", "swap"):
                    out.append(dict(kind="perm", n=n, num=num, dt=dt, lay=lay))
    for n in (7, 12, 20, 50) if q else (7, 12, 20, 50, 200):
        for num in sorted({1, 2, n // 2, n - 1, n}):
            for dt in ("f64", "f32", "c128", "c64"):
                for L in (1, 8, 1000):
                    for silent in (0, 1, n // 2):
                        out.append(dict(kind="many", n=n, num=num, dt=dt, L=L, silent=silent))
    # signals of extreme levels, of almost the same energy and of very different energies
    for n, dt in itertools.product((2, 3, 5, 12), ("f64", "f32", "c128", "c64")):
        double = dt in ("f64", "c128")
        for level, ratio in itertools.product((1e-60, 1e-25, 1.0, 1e25, 1e60) if double else (1e-12, 1.0, 1e12),
                                              (1 + 1e-9, 1.02, 1e3) if double else (1 + 1e-4, 1.02, 10.0)):
            for num in sorted({1, n // 2, n}):
                out.append(dict(kind="many", n=n, num=num, dt=dt, L=8, silent=0, level=level, ratio=ratio))
    for n, L in ((2, 3), (3, 2), (4, 1)):
        for num in range(1, n + 1):
            out.append(dict(kind="words", n=n, L=L, num=num))
    return out


def run_many(k):
    """all rotations and the reversals of many signals of close energies, some of them silent"""
    n, L = k["n"], k["L"]
    gen = sig.cnormal if k["dt"][0] == "c" else sig.normal
    dt = dict(f64=torch.float64, f32=torch.float32, c128=torch.complex128, c64=torch.complex64)[k["dt"]]
    S = gen((n, L), 5)
    S = S / np.sqrt(np.mean(np.abs(S) ** 2, axis=-1, keepdims=True)) * (1.0 + 0.02 * np.arange(n))[:, None]
    if "ratio" in k:
        S = S * (k["level"] * k["ratio"] ** (np.arange(n) - n / 2) / (1.0 + 0.02 * np.arange(n)))[:, None]
    if k["silent"]:
        S[:: max(1, n // k["silent"])] = 0
    rot = np.array([[(i + r) % n for i in range(n)] for r in range(n)])
    rot = np.concatenate((rot, rot[:, ::-1]))
    x = tt(S[rot], dt)
    x0 = x.clone()
    got = select_most_energetic(x, k["num"])
    require(torch.equal(x, x0), "the input was modified")
    require(got.dtype == dt, f"type {got.dtype}")
    oracle(nn(x), nn(got), k["num"], 1, 2, f"{k}")
    y = x.transpose(0, 1).transpose(1, 2)  # signals first, then samples, then batch
    got2 = select_most_energetic(y, k["num"], dim=0, dim_reduc=-2)
    oracle(nn(y), nn(got2), k["num"], 0, 1, f"{k} signals on the first axis")
    return dict(states=len(rot), transitions=2 * len(rot), validated=len(rot), outcome=f"{n} {k['num']} {k['silent']}")


def oracle(x, got, num, dim, red, what):
    """x, got: ndarrays; dim: axis of the selection; red: axis of the energy"""
    tol = 1e-12 if x.dtype in (np.float64, np.complex128) else 1e-5
    x, got = np.moveaxis(x, (dim, red), (-2, -1)), np.moveaxis(got, (dim, red), (-2, -1))
    require(got.shape == x.shape[:-2] + (num, x.shape[-1]), f"{what}: shape {got.shape}")
    x = x.reshape((-1,) + x.shape[-2:])
    got = got.reshape((-1,) + got.shape[-2:])
    for b in range(len(x)):
        p = np.mean(np.abs(x[b].astype(complex)) ** 2, axis=-1)
        top = np.sort(p)[::-1][:num]
        used = []
        for j in range(num):
            c = [i for i in range(len(x[b])) if i not in used and np.array_equal(x[b, i], got[b, j])]
            require(c, f"{what}: output {j} is not one of the remaining inputs")
            used.append(c[0])
            require(abs(p[c[0]] - top[j]) <= tol * top[j], f"{what}: output {j} has power {p[c[0]]}, expected {top[j]}")


def run(case):
    k = case
    n, num = k["n"], k["num"]
    if k["kind"] == "many":
        return run_many(k)
    if k["kind"] == "words":
        X = np.stack(list(sig.words([0.0, 1.0, -2.0], (n, k["L"]))))
        got = nn(select_most_energetic(tt(X), num))
        oracle(X, got, num, 1, 2, f"words {k}")
        got = nn(select_most_energetic(tt(X), num=num, dim=-2, dim_reduc=-1))
        oracle(X, got, num, 1, 2, f"words {k}")
        return dict(states=len(X), transitions=2 * len(X), validated=len(X), outcome=coarse(got))
    L = 6
    perms = np.array(list(itertools.permutations(range(n))))
    gen = sig.cnormal if k["dt"] == "c128" else sig.normal
    dt = dict(f64=torch.float64, f32=torch.float32, c128=torch.complex128)[k["dt"]]
    S = gen((n, L), 4)
    S = S / np.sqrt(np.mean(np.abs(S) ** 2, axis=-1, keepdims=True)) * (1.0 + np.arange(n))[:, None]
    X = S[perms]  # (P, n, L)
    P = len(X)
    lay = k["lay"]
    if lay == "cn":
        for i in range(P):
            x = tt(X[i], dt)
            oracle(nn(x), nn(select_most_energetic(x, num)), num, 0, 1, f"{k}")
    elif lay == "bcn":
        x = tt(X, dt)
        oracle(nn(x), nn(select_most_energetic(x, num)), num, 1, 2, f"{k}")
    elif lay == "bccn":
        x = tt(np.stack((X, X[::-1]), axis=1), dt)
        oracle(nn(x), nn(select_most_energetic(x, num, dim=-2)), num, 2, 3, f"{k}")
    elif lay == "bcfn":  # frequency axis between: selection and reduction axes explicit
        x = tt(np.stack((X, 2 * X[::-1]), axis=2), dt)  # (P, n, 2, L)
        oracle(nn(x), nn(select_most_energetic(x, num, dim=1, dim_reduc=-1)), num, 1, 3, f"{k}")
    elif lay == "nc":  # samples first
        x = tt(np.moveaxis(X, -1, 0), dt)  # (L, P, n)
        oracle(nn(x), nn(select_most_energetic(x, num, dim=-1, dim_reduc=0)), num, 2, 0, f"{k}")
    else:  # (P, L, n)
        x = tt(np.moveaxis(X, -1, 1), dt)
        oracle(nn(x), nn(select_most_energetic(x, num, dim=-1, dim_reduc=-2)), num, 2, 1, f"{k}")
    return dict(states=P, transitions=P, validated=P, outcome=f"{n} {num} {lay}")
