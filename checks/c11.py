"""Mask-based beamformers"""
import itertools

import numpy as np
import torch

import torchiva
from mc import ops, refs, sig
from mc.engine import pairs, product, sweep
from mc.util import coarse, compare, nn, relerr, require, tt

ID = "C11"
TITLE = "Beamformers compute the textbook filter of the masked covariances"
LEVEL = "model_checking"
TECHNIQUE = "explicit-state enumeration of configurations, masks and the complete lattice of small mask patterns; lock-step agreement with a reference model and invariants of the identified filters"
RULE = (
    "full product beamformer x variant x channels x sources x masks x reference microphone x signal, axis sweeps, and "
    "every binary-like mask pattern of a short signal; output against LAPACK-based reference; the filter identified "
    "from input and output is checked to be distortionless, respectively optimal, for its covariances"
)
ASSUMPTIONS = ["noise covariance of full rank, well separated largest generalized eigenvalue (reference sensitivity)"]

BASE = dict(kind="bf", bf="mvdr_rtf", c=2, s=2, m=2, ref=0, power=None, f=2, n=30, sig="iva", key=1, level=1.0, batch=[],
            dt="c128", ti=True, eps=1e-5)


def cases(tier):
    q = tier == "quick"
    out = []
    C = [2, 3, 4] if q else [2, 3, 4, 5, 6]
    K = [1, 2] if q else [1, 2, 3, 4]
    for k in product(c=C, s=[1, 2, 3], key=K, sig=["iva", "noise", "reverb"]):
        for ref in range(k["c"]):
            b = {**BASE, **k, "ref": ref}
            for m in (2, 3):
                for power in (None, 1, 2, 3, 10):
                    out.append({**b, "m": m, "power": power})
            out.append({**b, "bf": "mvdr_scm"})
            out.append({**b, "bf": "gev"})
            if k["key"] == 1:
                for level in (1e-4, 1e-2, 1e4):  # GEV does not depend on the level
                    out.append({**b, "bf": "gev", "level": level})
            for m, ti in ((2, True), (3, True), (4, True), (4, False)):
                out.append({**b, "bf": "mwf", "m": m, "ti": ti})
    for bf, m, ti, power in (("mvdr_rtf", 2, True, None), ("mvdr_rtf", 3, True, 4), ("mvdr_scm", 2, True, None), ("gev", 2, True, None),
                             ("mwf", 2, True, None), ("mwf", 4, False, None)):
        base = {**BASE, "bf": bf, "m": m, "ti": ti, "power": power, "c": 3, "ref": 1}
        for c in sweep(base, f=[1, 5, 17, 65, 513, 2049], n=[8, 13, 64, 200, 2100, 5000], level=[0.3, 3.0, 10.0, 100.0], batch=[[1], [3], [2, 2], [1, 2, 2], [70]],
                       dt=["c64"], s=[4], key=[5, 6, 7, 8], eps=[1e-9, 1e-7, 1e-3], c=[5, 6, 8], power=[5, 20, 50]):
            if not (c["power"] and bf != "mvdr_rtf"):
                out.append(c)
        # every pair of deviations
        out += pairs(base, lambda k: k["ref"] < k["c"] and not (k["power"] and bf != "mvdr_rtf") and int(np.prod(k["batch"] or [1])) * k["f"] * k["n"] * k["s"] * k["c"] <= (1e5 if q else 2e6),
                     c=[2, 4, 5, 7, 9], s=[1, 3, 5], ref=[0, 1, 2, 4], f=[1, 3, 5, 9, 33, 129], n=[10, 17, 33, 70, 301, 1030],
                     eps=[1e-9, 1e-7, 1e-3], level=[0.3, 3.0, 10.0, 100.0], batch=[[1], [2], [5], [2, 3], [1, 2, 1]], dt=["c64"],
                     sig=["reverb", "noise"], key=[5, 6], power=[1, 2, 7, 20], m=[2, 3, 4] if bf == "mwf" and ti else ([2, 3] if bf == "mvdr_rtf" else [m]))
        for part in range(4):
            out.append(dict(kind="lattice", bf=bf, m=m, ti=ti, power=power, n=4, part=part))
    return out


class Fixed(torch.nn.Module):
    def __init__(self, masks):
        super().__init__()
        self.masks = masks

    def forward(self, X):
        return self.masks


def make(k, model):
    if k["bf"].startswith("mvdr"):
        return torchiva.MVDRBeamformer(model, ref_mic=k["ref"], eps=k["eps"], mvdr_type=k["bf"][5:], n_power_iter=k["power"])
    if k["bf"] == "mwf":
        return torchiva.MWFBeamformer(model, ref_mic=k["ref"], eps=k["eps"], time_invariant=k["ti"])
    return torchiva.GEVBeamformer(model, ref_mic=k["ref"], eps=k["eps"])


def reference(X, masks, k):
    return refs.beamform(X, masks, k["bf"], k["ref"], k["eps"], k["power"], k["ti"])


def run(case):
    k = case
    if k["kind"] == "lattice":
        return lattice(case)
    b = tuple(k["batch"])
    X = k["level"] * sig.mixture(k["c"], k["f"], k["n"], k["key"], b, k["sig"])
    dt = torch.complex64 if k["dt"] == "c64" else torch.complex128
    Xt = tt(X, dt)
    X = nn(Xt).astype(complex)
    model = ops.Masks(k["s"], k["m"])
    got = nn(make(k, model)(Xt)).astype(complex)
    want = np.zeros(b + (k["s"], k["f"], k["n"]), dtype=complex)
    require(got.shape == want.shape, f"shape {got.shape}, expected {want.shape}")
    for i in itertools.product(*[range(z) for z in b]):
        masks = nn(model(tt(X[i][k["ref"]])))
        want[i] = reference(X[i], masks, k)
        w2 = reference(X[i] * (1 + 1e-12 * sig.normal(X[i].shape, 5)), masks, k)
        if relerr(w2, want[i]) > 1e-8:
            return dict(skipped=True)
        if k["ti"] and k["n"] > 2 * k["c"]:
            invariants(k, X[i], masks, got[i], 1e-3 if dt == torch.complex128 else 3e-2)
    compare(got, want, 1e-6 if dt == torch.complex128 else 2e-2, f"{k}", atol=1e-9 * np.max(np.abs(X)))
    return dict(transitions=1, outcome=coarse(np.abs(want)))


def invariants(k, X, masks, Y, tol):
    """the filters are identified from input and output only"""
    C = k["c"]
    for s in range(k["s"]):
        R = [refs.covs(X, masks[s, m]) for m in range(k["m"])]
        for f in range(k["f"]):
            w = np.linalg.lstsq(X[:, f].T, Y[s, f], rcond=None)[0].conj()
            e = np.linalg.norm(w.conj() @ X[:, f] - Y[s, f])
            require(e <= tol * np.linalg.norm(Y[s, f]), f"the output is not a linear combination of the channels: {e:.2e}")
            Rt, Rn = R[0][f], R[1][f]
            if k["bf"] == "mvdr_rtf":
                d = refs.rtf(Rt, R[2 if k["m"] == 3 else 1][f], k["ref"], k["power"])
                r = w.conj() @ d
                require(abs(r - 1) < tol, f"not distortionless: response {r}")
                # optimality: Rn w is parallel to d
                g = Rn @ w
                c = abs(np.vdot(g, d)) / np.linalg.norm(g) / np.linalg.norm(d)
                require(c > 1 - tol, f"not of minimum variance: {c}")
            elif k["bf"] == "mwf":
                g = (Rt + Rn) @ w - Rt[:, k["ref"]]
                require(np.linalg.norm(g) <= tol * np.linalg.norm(Rt[:, k["ref"]]), "not the Wiener solution")
            elif k["bf"] == "gev":
                snr = np.real(w.conj() @ Rt @ w) / np.real(w.conj() @ Rn @ w)
                lam = refs.gevd_top(Rt, Rn)[0]
                require(abs(snr - lam) <= tol * lam, f"the output SNR {snr} is not the largest one {lam}")


def degenerate(X, masks):
    """no well separated largest generalized eigenvalue"""
    R = [refs.covs(X, m)[0] for m in masks]
    for b in R[1:]:
        lam = np.linalg.eigvals(np.linalg.solve(b, R[0])).real
        if abs(lam[0] - lam[1]) < 1e-6 * max(lam):
            return True
    return False


def lattice(case):
    """all masks over {0.1, 1} for the target and the noise of a 4-frame signal"""
    n = case["n"]
    k = {**BASE, **case, "c": 2, "s": 1, "f": 1, "ref": case["part"] % 2, "n": n}
    X = sig.mixture(2, 1, n, 3 + case["part"], (), "noise")
    pats = list(itertools.product([0.1, 1.0], repeat=n))
    tot, n_ok, outs = 0, 0, []
    for mt in pats:
        M = []
        for mn in pats:
            rows = [mt, mn] + [mt[::-1], mn[::-1]][: case["m"] - 2]
            M.append(np.array(rows)[None, :, None, :])  # (1, m, 1, n)
        M = np.stack(M)  # (16, 1, m, 1, n)
        Xb = np.broadcast_to(X, (len(M),) + X.shape).copy()
        got = nn(make(k, Fixed(tt(M)))(tt(Xb)))
        for i in range(len(M)):
            tot += 1
            require(np.all(np.isfinite(got[i])), f"masks {M[i].tolist()}: the output is not finite")
            if degenerate(X, M[i, 0]):
                continue
            want = reference(X, M[i], k)
            w2 = reference(X * (1 + 1e-12 * sig.normal(X.shape, 5)), M[i], k)
            if relerr(w2, want) > 1e-8:
                continue
            n_ok += 1
            compare(got[i], want, 1e-5, f"masks {M[i].tolist()}")
    require(n_ok > tot // 2, f"vacuous lattice {n_ok}/{tot}")
    return dict(transitions=tot, states=tot, validated=n_ok, outcome=f"{n_ok}")
