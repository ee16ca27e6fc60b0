"""Scale restoration functions"""
import itertools

import numpy as np
import torch

import torchiva
from torchiva import scaling
from mc import sig
from mc.engine import pairs, product, sweep
from mc.util import coarse, compare, nn, relerr, require, tt

ID = "C16"
TITLE = "Scale restoration rescales each source to best match the reference"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of configurations, norms, iteration counts and the lattice of small signals; defining equations and a reference model checked on each result"
RULE = (
    "full product function x sources x frequencies x frames x norm exponents x iteration count x signal and complex gain, "
    "all small-integer signals of one source; output parallel to the input, optimal, independent of the initial gains"
)
ASSUMPTIONS = ["signals of level 0.1 to 100", "iterative version: fixed iteration count (no early stopping) for the comparison"]

BASE = dict(fn="l2", s=2, f=3, n=20, key=1, ref=0, gain=0, batch=[], dt="c128", p=1.0, q=None, it=3, level=1.0)


def cases(tier):
    q = tier == "quick"
    out = []
    for k in product(fn=["l2", "phase", "back", "md_none", "md_2"], s=[1, 2, 3, 4], f=[1, 2, 5], n=[8, 20, 50], key=[1, 2, 3],
                     gain=[0, 1, 2]):
        for ref in range(min(k["s"], 2)):
            out.append({**BASE, **k, "ref": ref})
    for k in product(fn=["md"], s=[1, 2, 3], f=[1, 3], n=[20], p=[0.5, 1.0, 1.5, 1.9], q=[None, 1.0, 1.5, 1.9, 2.0], it=[1, 2, 3, 5, 10] if q else [1, 2, 3, 4, 5, 10, 20, 40], key=[1, 2]):
        if k["q"] is not None and k["q"] < k["p"]:
            continue
        out.append({**BASE, **k})
    for k in product(fn=["md_stop"], s=[1, 2, 3], f=[1, 3], n=[20, 50], p=[0.5, 1.0, 1.5], q=[None, 1.5, 2.0], it=[4, 100], rtol=[1e-1, 1e-2, 1e-3], key=[1, 2]):
        out.append({**BASE, **k})
    for fn in ("l2", "phase", "back", "md_none", "md"):
        for c in sweep({**BASE, "fn": fn}, f=[17, 65, 1025], n=[200, 2100, 5000], batch=[[1], [3], [2, 2], [70]], dt=["c64"], level=[0.1, 10.0, 100.0], key=[4, 5, 6], s=[5]):
            out.append(c)
    for fn in ("l2", "phase", "back", "md_none", "md"):
        md = dict(p=[0.5, 1.5, 1.9], q=[1.9, 2.0], it=[1, 6]) if fn == "md" else {}
        for c in pairs({**BASE, "fn": fn}, s=[1, 3, 4], f=[1, 5, 33], n=[10, 64, 150], batch=[[1], [3], [2, 2]], dt=["c64"],
                       level=[0.1, 10.0, 100.0], gain=[1, 2], ref=[1], key=[2], **md):
            if c["ref"] >= c["s"]:
                continue
            if c["dt"] == "c64" and (c["level"] != 1.0 or c["fn"] == "back"):
                continue
            out.append(c)
    for k in product(batch=[[1], [3], [2, 2]], p=[0.5, 1.0, 1.5], q=[None, 1.5, 2.0], s=[1, 3], it=[1, 3], dt=["c128", "c64"]):
        out.append({**BASE, **k, "fn": "md"})
    for k in product(model=["laplace", "gauss", "weigher"], s=[1, 2, 3], f=[1, 3, 9], n=[20, 50], batch=[[], [3], [2, 2]], it=[1, 2, 5], dt=["c128", "c64"], p=[None, 1.0]):
        out.append({**BASE, **k, "fn": "md_model"})
    for fn in ("l2", "phase"):
        for alpha in (["0", "1", "-2j"], ["1", "-1", "1j"]):
            out.append(dict(fn="lattice", of=fn, alpha=alpha, n=3))
    return out


GAINS = [1.0, 0.3 - 0.8j, -2.0]


class Weigher(torch.nn.Module):
    """a weighting of the error that depends on all its axes"""

    def forward(self, E):
        F, N = E.shape[-2:]
        ramp = 1.0 + torch.arange(F * N, dtype=E.real.dtype).reshape(F, N) / (F * N)
        return ramp / (0.3 + E.abs() + E.abs().mean(dim=-2, keepdim=True))


def weigher(name):
    if name == "laplace":
        m = torchiva.LaplaceModel()
        f = lambda E: np.broadcast_to(1.0 / np.maximum(2 * np.sqrt(np.sum(np.abs(E) ** 2, axis=-2, keepdims=True)), 1e-5), E.shape)  # noqa: E731
    elif name == "gauss":
        m = torchiva.GaussModel()
        f = lambda E: np.broadcast_to(1.0 / np.maximum(np.mean(np.abs(E) ** 2, axis=-2, keepdims=True), 1e-5), E.shape)  # noqa: E731
    else:
        m = Weigher()

        def f(E):
            F, N = E.shape[-2:]
            ramp = 1.0 + np.arange(F * N).reshape(F, N) / (F * N)
            return ramp / (0.3 + np.abs(E) + np.abs(E).mean(axis=-2, keepdims=True))
    return m, f


def weighted(Y, R, f, it):
    c = np.ones(Y.shape[:-1], complex)
    for _ in range(it):
        w = f(R[..., None, :, :] - c[..., None] * Y)
        w = w / np.maximum(w.sum(axis=-1, keepdims=True), 1e-5)
        c = np.sum(w * R[..., None, :, :] * Y.conj(), axis=-1) / np.maximum(np.sum(w * np.abs(Y) ** 2, axis=-1), 1e-5)
    return Y * c[..., None]


def call(fn, Y, R, k):
    if fn == "md_model":
        return scaling.minimum_distortion(Y, R, model=weigher(k["model"])[0], rtol=0.0, max_iter=k["it"], p=k["p"])
    if fn == "l2":
        return scaling.minimum_distortion_l2(Y, R)
    if fn == "phase":
        return scaling.minimum_distortion_l2_phase(Y, R)
    if fn == "back":
        return scaling.projection_back(Y, R)
    if fn == "md_none":
        return scaling.minimum_distortion(Y, R)
    if fn == "md_2":
        return scaling.minimum_distortion(Y, R, p=2.0, q=2.0)
    if fn == "md_stop":
        return scaling.minimum_distortion(Y, R, p=k["p"], q=k["q"], rtol=k["rtol"], max_iter=k["it"])
    return scaling.minimum_distortion(Y, R, p=k["p"], q=k["q"], rtol=0.0, max_iter=k["it"])


def irls(Y, R, p, q, it, trace=False):
    S, F, N = Y.shape
    steps = []
    c = np.ones((S, F), dtype=complex)
    for _ in range(it):
        E = np.abs(R[None] - c[..., None] * Y)
        if q is None or p == q:
            w = p / np.maximum(2 * E ** (2 - p), 1e-5)
        else:
            E = E + 1e-5
            rn = np.sum(E**q + 1e-5, axis=1, keepdims=True) ** (1 - p / q)
            w = p / np.maximum(2 * rn * E ** (2 - q), 1e-5)
        c = np.sum(w * R[None] * Y.conj(), axis=-1) / np.maximum(np.sum(w * np.abs(Y) ** 2, axis=-1), 1e-5)
        steps.append(c)
    return (Y * c[..., None], steps) if trace else Y * c[..., None]


def stop(Y, R, p, q, it, rtol):
    """the first iterate whose relative step is below rtol; None if this is too close to call"""
    _, st = irls(Y, R, p, q, it, trace=True)
    for j in range(1, len(st)):
        d = np.linalg.norm(st[j] - st[j - 1]) / np.linalg.norm(st[j - 1])
        if abs(d / rtol - 1) < 1e-4:
            return None
        if d < rtol:
            return Y * st[j][..., None]
    return Y * st[-1][..., None]


def run(case):
    k = case
    if k["fn"] == "lattice":
        return lattice(case)
    b = tuple(k["batch"])
    S, F, N = k["s"], k["f"], k["n"]
    X = k["level"] * sig.mixture(S, F, N, k["key"], b, "iva")
    W = np.eye(S) + 0.4 * sig.cnormal((F, S, S), 40 + k["key"])
    Y = np.einsum("fst,...tfn->...sfn", W, X) * GAINS[k["gain"]]
    W = W * GAINS[k["gain"]]
    R = X[..., k["ref"], :, :]
    dt = torch.complex64 if k["dt"] == "c64" else torch.complex128
    Yt, Rt = tt(Y, dt), tt(R, dt)
    got = nn(call(k["fn"], Yt, Rt, k)).astype(complex)
    require(got.shape == Y.shape, f"shape {got.shape}")
    require(np.array_equal(nn(Yt), nn(tt(Y, dt))) and np.array_equal(nn(Rt), nn(tt(R, dt))), "an argument was modified")
    tol = 1e-6 if dt == torch.complex128 else 1e-2
    # a scalar per source and frequency
    c = np.sum(got * Y.conj(), axis=-1, keepdims=True) / np.sum(np.abs(Y) ** 2, axis=-1, keepdims=True)
    compare(got, c * Y, tol, "the output is not a rescaling of the input")
    fn = k["fn"]
    if fn in ("l2", "md_none", "md_2"):
        want = np.sum(R[..., None, :, :] * Y.conj(), axis=-1, keepdims=True) / np.sum(np.abs(Y) ** 2, axis=-1, keepdims=True)
        compare(got, want * Y, tol, "not the least squares scale")
    elif fn == "phase":
        z = np.sum(R[..., None, :, :] * Y.conj(), axis=-1, keepdims=True)
        compare(got, Y * z / np.abs(z), tol * 10, "not the best phase")
    elif fn == "back":
        A = np.linalg.inv(W)
        want = Y * np.moveaxis(A[:, k["ref"], :], -1, 0)[..., None]
        compare(got, want, 3e-3 if dt == torch.complex128 else 3e-2, "not the image at the reference")
    elif fn == "md_model":
        want = weighted(Y, R[..., :, :], weigher(k["model"])[1], k["it"])
        if relerr(weighted(Y * (1 + 1e-12 * sig.normal(Y.shape, 3)), R, weigher(k["model"])[1], k["it"]), want) > 1e-8:
            return dict(skipped=True)
        compare(got, want, tol, "not the iterate weighted by the model")
    elif fn == "md_stop":
        want = stop(Y, R, k["p"], k["q"], k["it"], k["rtol"])
        if want is None or relerr(irls(Y * (1 + 1e-12 * sig.normal(Y.shape, 3)), R, k["p"], k["q"], k["it"]), irls(Y, R, k["p"], k["q"], k["it"])) > 1e-8:
            return dict(skipped=True)
        compare(got, want, 1e-6, "not the iterate selected by the stopping rule")
    else:
        want = np.zeros_like(Y)
        for i in itertools.product(*[range(m) for m in b]):
            want[i] = irls(Y[i], R[i], k["p"], k["q"], k["it"])
            w2 = irls(Y[i] * (1 + 1e-12 * sig.normal(Y[i].shape, 3)), R[i], k["p"], k["q"], k["it"])
            if relerr(w2, want[i]) > 1e-8:
                return dict(skipped=True)
        compare(got, want, tol, "not the reweighted least squares iterate")
    return dict(transitions=1 + (k["it"] if fn == "md" else 0), outcome=coarse(np.abs(got)))


def lattice(case):
    alpha = [complex(x) for x in case["alpha"]]
    W = np.stack(list(sig.words(alpha, (case["n"],)))).astype(complex)
    Y = np.repeat(W[:, None], len(W), axis=1).reshape(-1, 1, 1, case["n"])
    R = np.repeat(W[None], len(W), axis=0).reshape(-1, 1, case["n"])
    got = nn(call(case["of"], tt(Y), tt(R), {}))
    z = np.sum(R[:, None] * Y.conj(), axis=-1, keepdims=True)
    if case["of"] == "l2":
        want = Y * z / np.maximum(np.sum(np.abs(Y) ** 2, axis=-1, keepdims=True), 1e-30)
    else:
        want = np.where(np.abs(z) > 0, Y * z / np.maximum(np.abs(z), 1e-30), got)
    require(np.all(np.isfinite(got)), "not finite")
    for i in range(len(Y)):
        compare(got[i], want[i], 1e-9, f"source {Y[i].tolist()} reference {R[i].tolist()}", atol=1e-12)
    return dict(states=len(Y), transitions=len(Y), validated=len(Y), outcome=coarse(got))
