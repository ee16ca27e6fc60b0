"""FFT convolution"""
import numpy as np
import torch

import torchiva
from mc import sig
from mc.engine import product
from mc.util import coarse, compare, nn, require, tt

ID = "C15"
TITLE = "FFT convolution equals direct convolution"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of operand lengths, modes, axes and batch shapes; all pairs of unit impulses determine the bilinear map, all small-integer words are compared exactly"
RULE = (
    "every pair of lengths up to the bound x mode x precision with all pairs of unit impulses, every pair of short "
    "words over a small alphabet, every axis and broadcast batch shape; against the direct sum"
)
ASSUMPTIONS = ["'same' is centred on the first operand, 'valid' has max - min + 1 samples"]


def cases(tier):
    q = tier == "quick"
    L = 13 if q else 24
    out = []
    for n1 in range(1, L + 1):
        for n2 in range(1, L + 1):
            for dt in ("f64", "f32"):
                out.append(dict(kind="impulses", n1=n1, n2=n2, dt=dt))
    for n1, n2 in ((1, 3), (2, 2), (3, 2), (3, 3), (2, 4)):
        out.append(dict(kind="words", n1=n1, n2=n2))
    for dim in (-1, -2, -3, 0, 1, 2):
        for n1, n2 in ((5, 3), (3, 5), (4, 4), (7, 2), (1, 6), (6, 1), (100, 64), (65, 300)):
            for dt in ("f64", "f32"):
                for bc in (0, 1, 2):
                    out.append(dict(kind="axis", dim=dim, n1=n1, n2=n2, dt=dt, bc=bc))
    out.append(dict(kind="modes", n1=5, n2=3))
    for b1, b2 in (((), (3,)), ((3,), ()), ((2, 1), (1, 3)), ((2, 3), (2, 3)), ((1,), (4,)), ((2, 1, 2), (3, 1))):
        for n1, n2 in ((6, 3), (2, 5), (1, 1), (40, 33), (33, 200)):
            out.append(dict(kind="batch", b1=list(b1), b2=list(b2), n1=n1, n2=n2))
    for n1, n2 in ((1000, 100), (100, 1000), (257, 256), (1025, 7), (4096, 4095), (64, 64), (1, 500), (500, 1), (997, 1009), (48000, 300), (300, 16384), (20000, 20001)):
        for dt in ("f64", "f32"):
            out.append(dict(kind="large", n1=n1, n2=n2, dt=dt))
    return out


def direct(x1, x2, mode):
    n1, n2 = x1.shape[-1], x2.shape[-1]
    n = n1 + n2 - 1
    y = np.zeros(np.broadcast_shapes(x1.shape[:-1], x2.shape[:-1]) + (n,))
    for j in range(n2):
        y[..., j : j + n1] += x1 * x2[..., j : j + 1]
    if mode == "same":
        s = (n - n1) // 2
        return y[..., s : s + n1]
    if mode == "valid":
        m = max(n1, n2) - min(n1, n2) + 1
        s = (n - m) // 2
        return y[..., s : s + m]
    return y


MODES = ("full", "same", "valid")


def check(x1, x2, dt, what, dim=-1, tol=None):
    tol = tol or (1e-10 if dt == torch.float64 else 1e-5)
    t1, t2 = tt(x1, dt), tt(x2, dt)
    a1, a2 = nn(t1).astype(float), nn(t2).astype(float)
    for mode in MODES + (None,):
        kw = {} if mode is None else dict(mode=mode)
        if dim != -1:
            kw["dim"] = dim
        got = torchiva.fftconvolve(t1, t2, **kw) if callable(torchiva.fftconvolve) else torchiva.fftconvolve.fftconvolve(t1, t2, **kw)
        want = np.moveaxis(direct(np.moveaxis(a1, dim, -1), np.moveaxis(a2, dim, -1), mode or "full"), -1, dim)
        require(got.dtype == dt, f"{what}: precision {got.dtype}")
        compare(got, want, tol, f"{what} mode {mode}")
    require(np.array_equal(nn(t1), nn(tt(x1, dt))) and np.array_equal(nn(t2), nn(tt(x2, dt))), "an operand was modified")


def run(case):
    k = case
    n1, n2 = k["n1"], k["n2"]
    if k["kind"] == "modes":
        x = tt(sig.normal((5,), 3))
        for bad in ("", "FULL", "half", "valid ", 3):
            try:
                torchiva.fftconvolve(x, x[:3], mode=bad)
            except Exception:
                continue
            require(False, f"mode {bad!r} accepted")
        return dict(states=5, transitions=5)
    if k["kind"] == "impulses":
        dt = torch.float64 if k["dt"] == "f64" else torch.float32
        check(np.eye(n1)[:, None], np.eye(n2)[None], dt, f"impulses {n1} {n2}")
        return dict(states=n1 * n2, transitions=4 * n1 * n2, validated=n1 * n2, outcome=f"{n1} {n2}")
    if k["kind"] == "words":
        w1 = np.stack(list(sig.words([-1.0, 0.0, 2.0], (n1,))))
        w2 = np.stack(list(sig.words([-1.0, 0.0, 2.0], (n2,))))
        check(w1[:, None], w2[None], torch.float64, f"words {n1} {n2}")
        m = len(w1) * len(w2)
        return dict(states=m, transitions=4 * m, validated=m, outcome=f"{n1} {n2}")
    if k["kind"] == "axis":
        d = k["dim"]
        s1, s2 = [3, 2, 4], [3, 2, 4]
        if k["bc"] == 1:
            s2 = [1, 1, 1]
        elif k["bc"] == 2:
            s1, s2 = [3, 1, 4], [1, 2, 1]
        s1[d], s2[d] = n1, n2
        check(sig.normal(tuple(s1), 3), sig.normal(tuple(s2), 4), torch.float64 if k["dt"] == "f64" else torch.float32, f"axis {d}", dim=d)
        return dict(transitions=4, outcome=f"{d}")
    if k["kind"] == "batch":
        check(sig.normal(tuple(k["b1"]) + (n1,), 3), sig.normal(tuple(k["b2"]) + (n2,), 4), torch.float64, f"batch {k}")
        return dict(transitions=4, outcome=str(k["b1"]))
    dt = torch.float64 if k["dt"] == "f64" else torch.float32
    check(sig.normal((n1,), 3), sig.normal((n2,), 4), dt, f"{k}", tol=None if dt == torch.float64 else 1e-4)
    return dict(transitions=4, outcome=f"{n1} {n2}")
