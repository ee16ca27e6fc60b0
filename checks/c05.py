"""Projection back: the separated images add up to the reference microphone"""
import numpy as np
import torch

from checks.c07 import tmodel
from mc import ops, refs, sig
from mc.engine import pairs, product, sweep
from mc.util import coarse, nn, require, tt

ID = "C05"
TITLE = "Projected-back sources add up to the reference microphone"
LEVEL = "model_checking"
TECHNIQUE = "explicit-state enumeration of configurations and reference microphones on the real code; an algebraic invariant is checked on every reached state"
RULE = (
    "full product method x channels x sources x reference microphone x iterations x source model x signal, axis sweeps "
    "to larger sizes, levels and batches; for every configuration all reference microphones are run and related, and the images at all microphones are compared with those of each"
)
ASSUMPTIONS = ["signals of rank equal to the number of channels, peak level between 0.03 and 1e4 (peaks up to 10 times more)"]

BASE = dict(algo="tiss", c=2, s=2, it=2, taps=0, delay=0, model="laplace", f=3, n=40, key=1, sig="iva", level=1.0,
            batch=[], dt="c128", dmc=False)


def cases(tier):
    q = tier == "quick"
    out = []
    for k in product(algo=["tiss", "ip", "ip2", "five"], c=[2, 3, 4] if q else [2, 3, 4, 5, 6], it=[0, 1, 2, 4],
                     model=["laplace", "gauss", "weights"], key=[1, 2] if q else [1, 2, 3, 4]):
        if k["algo"] == "ip2" and k["c"] != 2:
            continue
        if k["algo"] in ("five", "ip2"):
            out.append({**BASE, **k, "s": k["c"]})
        else:
            for s in range(1, k["c"] + 1):
                out.append({**BASE, **k, "s": s})
    for k in product(algo=["tiss", "ip", "five"], c=[5, 6, 7, 8, 10, 12], it=[1, 3], model=["laplace", "weights"], key=[1] if q else [1, 2]):
        for s in sorted({1, 2, k["c"] // 2, k["c"] - 1, k["c"]}) if k["algo"] != "five" else [k["c"]]:
            out.append({**BASE, **k, "s": s, "n": 80})
    for k in product(c=[2, 3], taps=[1, 2, 3], delay=[0, 1, 2], it=[1, 2], model=["laplace", "weights"], sig=["iva", "reverb"], dmc=[False, True]):
        for s in range(1, k["c"] + 1):
            out.append({**BASE, **k, "s": s, "n": 80})
    for algo in ("tiss", "ip", "ip2", "five"):
        for c in sweep({**BASE, "algo": algo}, it=[10, 20], f=[1, 2, 17, 65, 513, 2049], n=[16, 33, 128, 300, 2100, 5000], sig=["reverb", "noise"],
                       level=[0.03, 0.1, 10.0, 100.0, 300.0, 1e3, 1e4], batch=[[1], [3], [2, 2], [1, 2, 1], [70]], dt=["c64"],
                       model=["nmf", "glu", "blstm", "simple", "running"], key=[3, 4, 5, 6]):
            if algo == "five" and c["f"] == 1:
                continue
            out.append(c)
    # every pair of deviations
    for algo in ("tiss", "ip", "ip2", "five"):
        for c in pairs({**BASE, "algo": algo}, lambda k: plausible(k, 1e5 if q else 3e6), c=[2] if algo == "ip2" else [2, 3, 4, 6, 9], s=[1, 2, 3, 4], it=[0, 1, 3, 6, 13, 25],
                       f=[2, 5, 9, 20, 129], n=[21, 33, 70, 301, 1030], sig=["reverb", "noise"], level=[0.1, 10.0, 100.0, 3e3],
                       batch=[[1], [2], [5], [2, 3], [1, 2, 1]], dt=["c64"], key=[3, 4], model=["laplace", "gauss", "weights", "running"],
                       **(dict(taps=[0, 1, 2, 4], delay=[0, 1, 2, 5], dmc=[True]) if algo == "tiss" else {})):
            out.append(c)
    return out


def plausible(k, limit):
    if k["algo"] in ("five", "ip2") and k["s"] != 2:
        return False
    if k["algo"] in ("five", "ip2"):
        k["s"] = k["c"]
    if k["s"] > k["c"] or k["n"] < 4 * k["c"] * (1 + k["taps"]):
        return False
    return int(np.prod(k["batch"] or [1])) * (1 + k["it"]) * k["f"] * k["n"] * k["c"] ** 2 <= limit


def run(case):
    k = case
    b = tuple(k["batch"])
    X = k["level"] * sig.mixture(k["c"], k["f"], k["n"], k["key"], b, k["sig"])
    dt = torch.complex64 if k["dt"] == "c64" else torch.complex128
    Xt = tt(X, dt)
    X = nn(Xt).astype(complex)
    algo, C, S = k["algo"], k["c"], k["s"]
    op = dict(algo=algo, n_iter=k["it"])
    if algo == "tiss":
        op.update(n_src=S, n_taps=k["taps"], n_delay=k["delay"], use_dmc=k["dmc"])
    elif algo == "ip":
        op.update(n_src=S)
    outs = {}
    for ref in [None] + list(range(C)):
        torch.manual_seed(21)
        o = dict(op)
        o.pop("algo")
        model = tmodel(k["model"], k["f"] - (algo == "five"))
        if dt == torch.complex64 and k["model"] in ("glu", "blstm", "simple"):
            model = model.float()
        a = ops.CLASSES[algo](model=model, proj_back_mic=ref, **o)
        outs[ref] = nn(a(Xt)).astype(complex)
    n_out = 1 if algo == "five" else S
    for ref, y in outs.items():
        require(y.shape == b + (n_out, k["f"], k["n"]), f"output shape {y.shape} with the reference {ref}")
        require(np.all(np.isfinite(y)), f"non finite output with the reference {ref}")
    tol = 1e-2 if dt == torch.complex128 else 5e-2
    ex = 1e-6 if dt == torch.complex128 else 1e-2
    if k["it"] == 0 and algo != "ip":
        if algo != "five":
            for ref, y in outs.items():
                e = np.max(np.abs(y - X[..., :S, :, :])) / np.max(np.abs(X))
                require(e < 1e-4, f"without iterations the sources are not the first channels (reference {ref}): {e:.2e}")
            return dict(transitions=len(outs), outcome=coarse(outs[0]))
    # the choice of the reference only rescales every source and frequency (models that see the
    # scaled source excepted)
    if algo != "five":
        base = outs[None]
        for ref in range(C):
            y = outs[ref]
            num = np.abs(np.sum(y * base.conj(), axis=-1))
            den = np.sqrt(np.sum(np.abs(y) ** 2, axis=-1) * np.sum(np.abs(base) ** 2, axis=-1))
            bad = den - num > ex * den + 1e-12 * np.max(den)
            require(not np.any(bad), f"the reference {ref} does more than rescale the sources")
    # residual with respect to the reference microphone
    for ref in range(C):
        x = X[..., ref, :, :]
        y = outs[ref]
        if algo == "five":
            y, x = y[..., 0, 1:, :], x[..., 1:, :]
            require(np.all(outs[ref][..., 0, 0, :] == 0), "the first frequency of FIVE is not zero")
            ip = np.abs(np.sum((x - y) * y.conj(), axis=-1))
            en = np.sum(np.abs(x) ** 2, axis=-1)
            require(np.all(ip < tol * en), f"FIVE is not the least squares image at microphone {ref}: {np.max(ip / en):.2e}")
            continue
        if S < C:
            continue  # see images() below
        res = x - np.sum(y, axis=-3)
        if k["taps"] == 0:
            e = np.sqrt(np.sum(np.abs(res) ** 2, axis=-1) / np.sum(np.abs(x) ** 2, axis=-1))
            require(np.all(e < tol), f"the sources do not add up to the microphone {ref}: {np.max(e):.2e}")
        else:
            R = res.reshape((-1, k["f"], k["n"]))
            XX = X.reshape((-1, C, k["f"], k["n"]))
            for i in range(len(R)):
                D = refs.delayed(XX[i], k["taps"], k["delay"])
                for f in range(k["f"]):
                    M = D[:, f].reshape(-1, k["n"]).T
                    r = R[i, f]
                    z = r - M @ np.linalg.lstsq(M, r, rcond=None)[0]
                    e = np.linalg.norm(z) / np.linalg.norm(XX[i, ref, f])
                    require(e < tol, f"microphone {ref} minus the sources is not late reverberation: {e:.2e}")
    if algo != "five":
        images(k, X, outs, tol)
    return dict(transitions=len(outs) * (1 + k["it"]), states=len(outs), outcome=coarse(np.abs(outs[0])))


def images(k, X, outs, tol):
    """the demixing filters separate the images of every source at all the microphones, whatever the number of
    sources: filter s applied to the images of source t gives source s if t is s, and nothing otherwise"""
    C, S = k["c"], k["s"]
    XX = X.reshape((-1, C, k["f"], k["n"]))
    o = {r: y.reshape((-1, S, k["f"], k["n"])) for r, y in outs.items()}
    for i in range(min(len(XX), 3)):
        D = refs.delayed(XX[i], k["taps"], k["delay"]) if k["taps"] else None
        for f in range(min(k["f"], 20)):
            M = XX[i, :, f]
            if D is not None:
                M = np.concatenate((M, D[:, f].reshape(-1, k["n"])))
            base = o[None][i, :, f]
            W, _, _, sv = np.linalg.lstsq(M.T, base.T, rcond=None)
            W = W[:C].T
            fit = np.linalg.norm(base - np.linalg.lstsq(M.T, base.T, rcond=None)[0].T @ M) / np.linalg.norm(base)
            require(fit < tol, f"the sources are not a linear function of the microphones and their past: {fit:.2e}")
            img = np.stack([o[r][i, :, f] for r in range(C)], axis=1)  # source, microphone, frame
            got = np.einsum("sc,tcn->stn", W, img)
            want = np.eye(S)[:, :, None] * base[:, None, :]
            e = np.linalg.norm(got - want, axis=(1, 2)) / np.linalg.norm(base, axis=1)
            require(np.all(e < 2 * tol), f"frequency {f}: the images at the microphones are not those of the sources: {np.max(e):.2e}")
