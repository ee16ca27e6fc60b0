"""Eigenvalue decompositions"""
import itertools

import numpy as np
import scipy.linalg
import torch

from torchiva import linalg as L
from mc import sig
from mc.engine import product
from mc.util import coarse, nn, require, tt

ID = "C12"
TITLE = "Eigenvalue decompositions are valid for every Hermitian matrix"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of the complete lattice of small-integer Hermitian matrices (pairs of matrices), all algebraic laws checked on the result of the real code for each"
RULE = (
    "all 2x2 complex Hermitian matrices with small integer entries, all pairs (A, B) with B from the positive definite "
    "ones, all 3x3 real symmetric sign/integer matrices, x scale x precision, plus structured larger matrices: "
    "residual, orthonormality, order and agreement of the eigenvalues with LAPACK, scale equivariance, batch layout"
)
ASSUMPTIONS = ["B positive definite with condition number up to 1e4 (1e2 in single precision)"]


def herm2(r, parts):
    for a, d in itertools.product(r, r):
        for re, im in itertools.product(parts, parts):
            yield np.array([[a, re + 1j * im], [re - 1j * im, d]], dtype=complex)


def cases(tier):
    q = tier == "quick"
    R = 3 if q else 5
    P = 2 if q else 3
    out = []
    for scale in (1.0, 1e-8, 1e-3, 1e4):
        for dt in ("c128", "c64", "f64", "f32"):
            out.append(dict(kind="evd2", r=R, p=P, scale=scale, dt=dt))
    for sa, sb in ((1.0, 1.0), (1e-6, 1.0), (1.0, 1e-6), (1e-5, 1e-5), (1e3, 1e2)):
        for dt in ("c128", "f64", "c64", "f32"):
            nb = 8
            for part in range(nb):
                out.append(dict(kind="gevd2", r=2 if q else 3, p=1 if q else 2, sa=sa, sb=sb, dt=dt, part=part, nb=nb))
    for dt in ("c128", "f64", "c64"):
        for n in (3, 4, 5, 7) if q else (3, 4, 5, 6, 8, 12):
            for key in range(4 if q else 10):
                for B in (False, True):
                    for batch in ([], [3], [2, 2]):
                        out.append(dict(kind="large", n=n, key=key, b=B, dt=dt, batch=batch))
    for k in product(n=[3, 4, 6], key=[0, 1], dt=["c128", "f64", "c64", "f32"], sa=[1e-9, 1e-4, 1.0, 1e6], sb=[1e-9, 1e-6, 1e-3, 1.0, 1e4, 1e10],
                     cond=[1.0, 1e2, 1e4]):
        if k["cond"] <= 1e2 or k["dt"] in ("c128", "f64"):
            out.append(dict(kind="scaled", **k))
    for k in product(n=[3, 4, 6, 9], pat=["identity", "projector", "blocks", "rankone", "null", "toeplitz", "nearly"], scale=[1.0, 1e-4, 1e3],
                     dt=["c128", "f64", "c64", "f32"], b=[False, True], rows=[1, 3, 130]):
        if k["rows"] == 1 or k["scale"] == 1.0:
            out.append(dict(kind="pattern", **k))
    for n, batch, dt in itertools.product((2, 3, 4, 6), ([70000], [2, 30000], [5, 7, 1001], [257, 129]), ("c128", "c64", "f64")):
        for B in (False, True):
            if n < 6 or len(batch) == 1:
                out.append(dict(kind="huge", n=n, batch=batch, dt=dt, b=B))
    for vals in ([-1, 0, 1], [0, 1, 2]):
        for dt in ("f64", "c128"):
            out.append(dict(kind="evd3", vals=vals, dt=dt))
    for cpu in (False, True):
        out.append(dict(kind="cpu", cpu=cpu))
    return out


DT = dict(c128=torch.complex128, c64=torch.complex64, f64=torch.float64, f32=torch.float32)


def laws(A, B, lam, V, tol, what):
    """A, B (K, n, n); lam (K, n); V (K, n, n)"""
    require(lam.shape == A.shape[:-1] and V.shape == A.shape, f"{what}: shapes {lam.shape} {V.shape}")
    require(np.all(np.isfinite(lam)) and np.all(np.isfinite(V)), f"{what}: not finite")
    require(not np.iscomplexobj(lam) or np.max(np.abs(lam.imag)) == 0, f"{what}: complex eigenvalues")
    lam = lam.real
    bad = np.any(np.diff(lam, axis=-1) < -tol * (1e-300 + np.max(np.abs(lam), axis=-1, keepdims=True)), axis=-1)
    fail(bad & ~np.all(A == 0, axis=(-2, -1)), A, B, what, "eigenvalues not in ascending order")
    nv = np.linalg.norm(V, axis=-2)
    fail(np.any(np.abs(nv - 1) > tol, axis=-1), A, B, what, "eigenvectors not of unit norm")
    BV = V if B is None else B @ V
    res = np.linalg.norm(A @ V - BV * lam[:, None, :], axis=(-2, -1))
    na = np.linalg.norm(A, axis=(-2, -1))
    if B is not None:
        na = na + np.max(np.abs(lam), axis=-1) * np.linalg.norm(B, axis=(-2, -1))
    null = np.all(A == 0, axis=(-2, -1))
    fail(null & np.any(np.abs(lam) > 1e-6, axis=-1), A, B, what, "non zero eigenvalues")
    fail(~null & (res > tol * na), A, B, what, "not eigenvectors")
    G = V.conj().swapaxes(-2, -1) @ BV
    g = np.abs(G)
    i = np.arange(A.shape[-1])
    d = np.real(G[:, i, i])
    off = g.copy()
    off[:, i, i] = 0
    fail(np.max(off, axis=(-2, -1)) > tol * np.max(d, axis=-1), A, B, what, "eigenvectors not orthogonal")
    for j in np.flatnonzero(~null):
        want = scipy.linalg.eigh(A[j], None if B is None else B[j], eigvals_only=True)
        s = np.max(np.abs(want))
        if np.max(np.abs(want - lam[j])) > tol * max(s, 1e-300):
            fail(np.arange(len(A)) == j, A, B, what, f"eigenvalues {lam[j]}, expected {want}")


def fail(mask, A, B, what, msg):
    if np.any(mask):
        j = int(np.argmax(mask))
        require(False, f"{what}: {msg} for A={A[j].tolist()}" + ("" if B is None else f" B={B[j].tolist()}"))


def run(case):
    k = case
    if k["kind"] == "cpu":
        X = sig.cnormal((4, 3, 7), 2)
        A = X @ X.conj().swapaxes(-2, -1)
        lam, V = L.eigh(tt(A), use_eigh_cpu=k["cpu"])
        laws(A, None, nn(lam), nn(V), 1e-9, "eigh")
        return dict(outcome=coarse(nn(lam)))
    dt = DT[k["dt"]]
    real = not dt.is_complex
    double = dt in (torch.float64, torch.complex128)
    tol = 1e-7 if double else 2e-3
    if k["kind"] == "evd2":
        r = range(-k["r"], k["r"] + 1)
        A = np.stack(list(herm2(r, range(-k["p"], k["p"] + 1)))) * k["scale"]
        if real:
            A = A[np.all(A.imag == 0, axis=(-2, -1))].real
        At = tt(A, dt)
        lam, V = L.eigh(At)
        laws(A, None, nn(lam).astype(float), nn(V).astype(A.dtype), tol, "eigh")
        # the same results whatever the batch layout
        h = len(A) // 2
        l2, V2 = L.eigh(At[: 2 * h].reshape((2, h, 2, 2)))
        require(np.allclose(nn(l2).reshape(-1, 2), nn(lam)[: 2 * h], rtol=1e-5, atol=0 if double else 1e-6 * k["scale"]), "batch layout changes the eigenvalues")
        # eigh_2x2 (its convention for complex matrices: eigenvectors of the transpose)
        lam, V = L.eigh_2x2(At)
        laws(A.swapaxes(-2, -1), None, nn(lam).astype(float), nn(V).astype(A.dtype), tol, "eigh_2x2")
        return dict(states=len(A), transitions=2 * len(A), validated=len(A), outcome=coarse(nn(lam)))
    if k["kind"] == "evd3":
        off = list(itertools.product(k["vals"], repeat=6))
        A = np.zeros((len(off), 3, 3), dtype=complex if k["dt"] == "c128" else float)
        for j, (a, b, c, d, e, f) in enumerate(off):
            z = 1j if k["dt"] == "c128" else 1
            A[j] = np.array([[a, d, z * e], [d, b, f], [np.conj(z) * e, f, c]])
        lam, V = L.eigh(tt(A))
        laws(A, None, nn(lam), nn(V), 1e-9, "eigh")
        B = np.broadcast_to(np.eye(3) + 0.5 * np.ones((3, 3)), A.shape).astype(A.dtype).copy()
        lam, V = L.eigh(tt(A), tt(B))
        laws(A, B, nn(lam), nn(V), 1e-7, "generalized eigh")
        return dict(states=2 * len(A), transitions=2 * len(A), validated=2 * len(A), outcome=coarse(nn(lam)))
    if k["kind"] == "gevd2":
        r = range(-k["r"], k["r"] + 1)
        p = range(-k["p"], k["p"] + 1)
        As = np.stack(list(herm2(r, p)))
        Bs = [b for b in herm2(range(1, k["r"] + 3), p) if np.linalg.det(b).real > 0.5]
        if real:
            As = As[np.all(As.imag == 0, axis=(-2, -1))].real
            Bs = [b.real for b in Bs if np.all(b.imag == 0)]
        Bs = np.stack(Bs)[k["part"] :: k["nb"]]
        n = 0
        for B in Bs:
            A = As * k["sa"]
            Bb = np.broadcast_to(B * k["sb"], A.shape).copy()
            for fn in (L.eigh, L.eigh_2x2):
                lam, V = fn(tt(A, dt), tt(Bb, dt))
                laws(A, Bb, nn(lam).astype(float), nn(V).astype(A.dtype), tol, "generalized " + fn.__name__)
            n += len(A)
        return dict(states=n, transitions=2 * n, validated=n, outcome=coarse(nn(lam)))
    if k["kind"] == "pattern":
        return pattern(k, dt, real, tol)
    if k["kind"] == "scaled":
        n, rows = k["n"], 5
        gen = sig.normal if real else sig.cnormal
        X = gen((rows, n, n + 3), 50 + k["key"])
        Q = np.linalg.qr(gen((rows, n, n), 60 + k["key"]))[0]
        A = X @ X.conj().swapaxes(-2, -1) * k["sa"]
        B = (Q * k["cond"] ** -np.linspace(0, 1, n)) @ Q.conj().swapaxes(-1, -2) * k["sb"]
        At, Bt = tt(A, dt), tt(0.5 * (B + B.conj().swapaxes(-1, -2)), dt)
        lam, V = L.eigh(At, Bt)
        laws(nn(At).astype(A.dtype), nn(Bt).astype(A.dtype), nn(lam).astype(float), nn(V).astype(A.dtype), tol * 3, f"eigh {k}")
        return dict(states=rows, transitions=rows, validated=rows, outcome=f"{k['n']} {coarse(nn(lam))}")
    if k["kind"] == "huge":
        b, n = tuple(k["batch"]), k["n"]
        gen = sig.normal if real else sig.cnormal
        X = gen(b + (n, n + 4), 5)
        A = tt(X @ X.conj().swapaxes(-2, -1) / n + 0.1 * np.eye(n), dt)
        B = None
        if k["b"]:
            X = np.roll(X, 1, axis=-3)
            B = tt(X @ X.conj().swapaxes(-2, -1) / n + 0.1 * np.eye(n), dt)
        lam, V = L.eigh(A, B)
        require(lam.shape == b + (n,) and V.shape == b + (n, n), f"shapes {tuple(lam.shape)} {tuple(V.shape)}")
        require(V.dtype == dt and lam.dtype == A.real.dtype, f"types {V.dtype} {lam.dtype}")
        cplx = complex if not real else float
        flat = lambda x: nn(x).reshape(-1, n, n).astype(cplx)
        laws(flat(A), None if B is None else flat(B), nn(lam).astype(float).reshape(-1, n), flat(V), tol * 3, f"eigh {k}")
        m = int(np.prod(b))
        return dict(states=m, transitions=m, validated=m, outcome=coarse(nn(lam)[..., :50, :]))
    # larger matrices
    b = tuple(k["batch"])
    n = k["n"]
    gen = sig.normal if real else sig.cnormal
    X = gen(b + (n, n + 3), 50 + k["key"])
    A = X @ X.conj().swapaxes(-2, -1)
    B = None
    if k["b"]:
        Z = gen(b + (n, 2 * n + 3), 90 + k["key"])
        B = Z @ Z.conj().swapaxes(-2, -1) / n
        # B with a mask-like weight is still well conditioned
    r = L.eigh(tt(A, dt), None if B is None else tt(B, dt))
    lam, V = r
    laws(A.reshape(-1, n, n), None if B is None else B.reshape(-1, n, n), nn(lam).astype(float).reshape(-1, n),
         nn(V).astype(A.dtype).reshape(-1, n, n), tol, f"eigh of size {n}")
    return dict(outcome=coarse(nn(lam)))


def pattern(k, dt, real, tol):
    """structured matrices with repeated, null and nearly equal eigenvalues, alone and in large batches"""
    n, rows = k["n"], k["rows"]
    gen = sig.normal if real else sig.cnormal
    Q = np.linalg.qr(gen((rows, n, n), 60))[0]
    lam = {"identity": np.ones(n), "projector": (np.arange(n) % 2).astype(float), "blocks": np.arange(n) // 2 + 1.0,
           "rankone": (np.arange(n) == n - 1).astype(float), "null": np.zeros(n), "toeplitz": None, "nearly": 1 + 1e-9 * np.arange(n)}[k["pat"]]
    if lam is None:
        i = np.arange(n)
        A = np.broadcast_to(0.7 ** np.abs(i[:, None] - i), (rows, n, n)).astype(Q.dtype)
        if not real:
            A = A * np.exp(1j * (i[:, None] - i))
    else:
        A = (Q * lam) @ Q.conj().swapaxes(-1, -2)
        A = 0.5 * (A + A.conj().swapaxes(-1, -2))
    A = A * k["scale"]
    B = None
    if k["b"]:
        Z = gen((rows, n, 2 * n + 3), 61)
        B = Z @ Z.conj().swapaxes(-2, -1) / n + 0.1 * np.eye(n)
    At = tt(A, dt)
    A = nn(At).astype(A.dtype)
    Bt = None if B is None else tt(B, dt)
    lam, V = L.eigh(At, Bt)
    laws(A, None if B is None else nn(Bt).astype(B.dtype), nn(lam).astype(float), nn(V).astype(A.dtype), tol * 3, f"eigh {k}")
    require(torch.equal(At, tt(A, dt)), "the argument was modified")
    return dict(states=rows, transitions=rows, validated=rows, outcome=coarse(nn(lam)))
