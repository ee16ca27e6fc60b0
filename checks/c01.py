"""Batch transparency"""
import itertools

import numpy as np
import torch

import torchiva
from mc import ops, sig
from mc.engine import product
from mc.util import CPX, coarse, compare, nn, require, tt

ID = "C01"
TITLE = "Batched processing equals processing every item alone"
LEVEL = "model_checking"
TECHNIQUE = "bounded exhaustive enumeration of batch layouts x operations, differential against single-item runs"
RULE = (
    "every operation x channel count x batch layout: the output for the stacked batch is compared with the "
    "stack of the outputs for the single items, and every item is re-checked after replacing each of the other "
    "items (non-interference, two-run self composition); batches mixing kinds of signals with many iterations. non-trivial: more than one item in the batch"
)
ASSUMPTIONS = [
    "neural models in eval mode (batch normalization in training mode couples the batch by design)",
]

LEVEL_BATCHES = [(2,), (3,), (2, 2), (2, 1, 2), (5,)]
BATCHES = [(1,), (2,), (3,), (2, 2), (1, 3), (3, 1), (2, 1, 2), (5,), (8,), (12,)]


def func_ops():
    out = []
    for name in (
        "stft", "istft", "fftconvolve", "select", "proj_back", "md_l2", "md_phase", "md_p1", "md_p1q2", "md_model", "md_stop", "md_stop2", "md_stop3", "md_stopmodel",
        "laplace", "gauss", "nmf", "glu", "glu_ri", "blstm", "blstm_ri", "blstm_log", "simple", "mvdrsup",
        "eigh2", "eigh2g", "eigh3", "eigh3g", "inv2", "solve", "solve_gen", "inv_loaded", "bmm", "mwf_bf",
        "mwf_bf_ref", "rtf", "rtf_pow", "mvdr_bf", "mvdr_bf2", "gev_bf", "sep_tiss", "sep_ip2", "sep_five",
        "sep_mvdr", "sep_mwf", "sep_gev", "sep_tiss_over",
    ):
        out.append(name)
    return out


def cases(tier):
    out = []
    batches = BATCHES if tier == "quick" else BATCHES + [(2, 3), (16,), (3, 1, 1), (2, 2, 2), (1, 1, 1, 2)]
    shapes = [(2, 3, 12), (3, 2, 15), (4, 5, 24), (2, 9, 33), (5, 2, 40), (2, 65, 40), (2, 3, 300)] if tier == "quick" else [(2, 3, 12), (3, 2, 15), (4, 5, 24), (2, 9, 33), (5, 2, 40), (2, 1, 9), (3, 17, 40), (2, 65, 130), (6, 3, 60), (2, 3, 300), (2, 129, 40), (3, 33, 100)]
    for (c, f, n) in shapes:
        for op in ops.ALGOS + [dict(algo="tiss", n_iter=2, model="nmf"), dict(algo="ip", n_iter=1, model="nmf"),
                               dict(algo="ip2", n_iter=2, model="nmf"),
                               dict(algo="tiss", n_iter=1, model="glu", n_taps=1),
                               dict(algo="tiss", n_iter=1, model="blstm"),
                               dict(algo="tiss", n_iter=2, model="running", n_src=2),
                               dict(algo="tiss", n_iter=0), dict(algo="ip", n_iter=0), dict(algo="five", n_iter=0),
                               dict(algo="five", n_iter=1, proj_back_mic=None),
                               dict(algo="mvdr", model="mvdrsup"),
                               dict(algo="tiss", n_iter=1, n_src=2, proj_back_mic=2),
                               dict(algo="ip", n_iter=1, n_src=2, proj_back_mic=2),
                               dict(algo="ip", n_iter=1, n_src=1), dict(algo="tiss", n_iter=1, n_src=1, n_taps=1)]:
            if not ops.supports(op, c) or (op.get("proj_back_mic") or 0) >= c:
                continue
            if op.get("model") in ("glu", "blstm", "mvdrsup", "simple") and f < 2:
                continue
            for b in batches:
                for dt in ("c128",) if (b != (3,)) else ("c128", "c64"):
                    if dt == "c64" and op.get("model") == "mvdrsup":
                        continue  # the two masks of an untrained network are nearly equal
                    for lev in (["same"] if b not in LEVEL_BATCHES else ["same", "mixed", "silent"]):
                        out.append(dict(kind="algo", op=op, c=c, f=f, n=n, batch=list(b), dt=dt, level=lev))
    # many iterations on items that converge at very different speeds and have very different levels
    for c, f, n in ((2, 3, 120), (3, 2, 150)):
        for op in LONG:
            if not ops.supports(op, c):
                continue
            for n_iter in (6, 12, 30):
                for b in ((2,), (3,), (2, 2)):
                    for lev in ("kinds", "kinds_swapped"):
                        out.append(dict(kind="algo", op={**op, "n_iter": n_iter}, c=c, f=f, n=n, batch=list(b), dt="c128", level=lev))
    for name in func_ops():
        for b in batches:
            for lev in (["same"] if b not in LEVEL_BATCHES else ["same", "mixed"]):
                out.append(dict(kind="func", op=name, batch=list(b), level=lev, dt="c128"))
    out.sort(key=lambda c: (int(np.prod(c["batch"])), c["kind"]))
    return out


LONG = [
    dict(algo="tiss"), dict(algo="tiss", model="gauss", n_taps=2, n_delay=1), dict(algo="tiss", n_src=1, n_taps=1),
    dict(algo="ip"), dict(algo="ip", n_src=1, proj_back_mic=1), dict(algo="ip2"), dict(algo="five"),
    dict(algo="five", n_power_iter=30), dict(algo="wpe", n_taps=2, n_delay=1), dict(algo="wpe", n_taps=3, n_delay=2),
    dict(algo="wpe", n_taps=2, n_delay=0, model="wpegauss"),
]


def mixed_kinds(c, f, n, b, swapped):
    """loud reverberant, quiet already separated, ordinary, and noise items"""
    nb = int(np.prod(b))
    out = []
    for i in range(nb):
        j = (nb - 1 - i if swapped else i) % 4
        if j == 0:
            x = 30.0 * sig.mixture(c, f, n, 60 + i, kind="reverb")
        elif j == 1:
            act = 0.05 + sig.uniform((c, 1, n), 70 + i) ** 3
            x = 0.1 * sig.cnormal((c, f, n), 71 + i) * act
        elif j == 2:
            x = sig.mixture(c, f, n, 80 + i)
        else:
            x = 3.0 * sig.mixture(c, f, n, 90 + i, kind="noise")
        out.append(x)
    return np.stack(out).reshape(tuple(b) + (c, f, n))


def scale_items(X, level, nb):
    flat = X.reshape((-1,) + X.shape[nb:])
    flat = flat.copy()
    if level == "mixed":
        for i in range(flat.shape[0]):
            flat[i] *= (1.0, 3.0, 0.3)[i % 3]
    elif level == "silent":
        flat[-1] = 0.0
    return flat.reshape(X.shape)


def make_func(name, batch, level):
    """-> (callable on tensors, list of stacked inputs, deterministic)"""
    b = tuple(batch)
    nb = len(b)
    herm = lambda C, k: (lambda A: A @ np.conj(np.swapaxes(A, -1, -2)) + 0.3 * np.eye(C))(sig.cnormal(b + (3, C, C), k))
    X = scale_items(sig.mixture(2, 5, 12, 3, b), level, nb)
    ref = scale_items(sig.mixture(1, 5, 12, 4, b)[..., 0, :, :], level, nb)
    P = torchiva.beamformer
    L = torchiva.linalg
    if name == "stft":
        return torchiva.STFT(16, hop_length=4), [sig.wave(2, 70, 1, b).astype(np.float32)], True
    if name == "istft":
        return torchiva.STFT(8, hop_length=2, dtype=torch.float64).inv, [sig.mixture(2, 5, 12, 1, b)], True
    if name == "fftconvolve":
        return torchiva.fftconvolve, [sig.wave(2, 20, 1, b), sig.wave(2, 7, 2, b)], True
    if name == "select":
        return (lambda x: torchiva.select_most_energetic(x, num=2)), [scale_items(sig.wave(4, 20, 1, b), level, nb)], True
    if name == "proj_back":
        return torchiva.projection_back, [X, ref], True
    if name == "md_l2":
        return torchiva.minimum_distortion, [X, ref], True
    if name == "md_phase":
        return torchiva.minimum_distortion_l2_phase, [X, ref], True
    if name == "md_p1":
        return (lambda y, r: torchiva.minimum_distortion(y, r, p=1.0, rtol=0.0, max_iter=4)), [X, ref], True
    if name == "md_p1q2":
        return (lambda y, r: torchiva.minimum_distortion(y, r, p=1.0, q=2.0, rtol=0.0, max_iter=4)), [X, ref], True
    if name.startswith("md_stop"):  # items that need different numbers of iterations
        kw = dict(md_stop=dict(p=1.0), md_stop2=dict(p=1.0, q=2.0, rtol=1e-3), md_stop3=dict(p=1.5, rtol=0.1, max_iter=20),
                  md_stopmodel=dict(model=ops.make_model("laplace"), rtol=3e-2))[name]
        return (lambda y, r: torchiva.minimum_distortion(y, r, **kw)), [X, ref], True
    if name == "md_model":
        return (lambda y, r: torchiva.minimum_distortion(y, r, model=ops.make_model("laplace"), rtol=0.0, max_iter=4)), [X, ref], True
    if name in ("laplace", "gauss"):
        return ops.make_model(name), [X], True
    if name == "nmf":
        m = ops.make_model("nmf")

        def f(x):
            torch.manual_seed(3)
            m.reset()
            m(x)
            return m(x)

        return f, [X], False
    if name in ("glu", "glu_ri", "blstm", "blstm_ri", "blstm_log", "simple", "mvdrsup"):
        return ops.small_net(name, 5), [X], True
    if name == "eigh2":
        return L.eigh, [herm(2, 1)], True
    if name == "eigh2g":
        return L.eigh, [herm(2, 1), herm(2, 2)], True
    if name == "eigh3":
        return L.eigh, [herm(3, 1)], True
    if name == "eigh3g":
        return L.eigh, [herm(3, 1), herm(3, 2)], True
    if name == "inv2":
        return L.inv_2x2, [herm(2, 1)], True
    if name == "inv_loaded":
        return L.inv_loaded, [herm(3, 1)], True
    if name == "solve":
        return L.solve_loaded, [herm(3, 1), sig.cnormal(b + (3, 3, 2), 5)], True
    if name == "solve_gen":
        return L.solve_loaded_general, [sig.cnormal(b + (3, 3, 3), 4), sig.cnormal(b + (3, 3, 2), 5)], True
    if name == "bmm":
        return L.bmm, [sig.cnormal(b + (3, 3, 2), 4), sig.cnormal(b + (3, 2, 4), 5)], True
    cov = lambda C, k: herm(C, k)[..., None, :, :].repeat(2, axis=-3)  # (..., 3, 2, C, C)
    if name == "mwf_bf":
        return P.compute_mwf_bf, [herm(3, 1), herm(3, 2)], True
    if name == "mwf_bf_ref":
        return (lambda a, c: P.compute_mwf_bf(a, c, ref_mic=1)), [herm(3, 1), herm(3, 2)], True
    if name == "rtf":
        return (lambda a, c: P.compute_mvdr_rtf_eigh(a, c, ref_mic=1)), [herm(3, 1), herm(3, 2)], True
    if name == "rtf_pow":
        return (lambda a, c: P.compute_mvdr_rtf_eigh(a, c, ref_mic=1, power_iterations=4)), [herm(3, 1), herm(3, 2)], True
    if name == "mvdr_bf":
        return P.compute_mvdr_bf, [herm(3, 1), sig.cnormal(b + (3, 3), 5)], True
    if name == "mvdr_bf2":
        return (lambda a, c: P.compute_mvdr_bf2(a, c, ref_mic=2)), [herm(3, 1), herm(3, 2)], True
    if name == "gev_bf":
        return (lambda a, c: P.compute_gev_bf(a, c, ref_mic=1)), [cov(3, 1), cov(3, 2)], True
    if name.startswith("sep_"):
        algo = name.split("_")[1]
        over = name.endswith("over")
        sm = ops.Masks(2, 2) if algo in ("mvdr", "mwf", "gev") else None
        s = torchiva.nn.BSSSeparator(
            16, n_iter=2, hop_length=4, n_src=2 if over else None, algo=algo, source_model=sm,
            n_taps=1 if algo == "tiss" else 0, n_delay=1 if algo == "tiss" else 0,
        )
        return s, [scale_items(sig.wave(3 if over else 2, 90, 1, b), level, nb).astype(np.float32)], True
    raise KeyError(name)


def outputs(y):
    return list(y) if isinstance(y, tuple) else [y]


def run(case):
    b = tuple(case["batch"])
    nb = len(b)
    dt = CPX[case["dt"]]
    tol = 1e-7 if case["dt"] == "c128" else 3e-3
    det = True
    if case["kind"] == "algo":
        op = case["op"]
        c, f, n = case["c"], case["f"], case["n"]
        X = sig.mixture(c, f, n, 1, b, "reverb" if op.get("n_taps") else "iva")
        if case["level"].startswith("kinds"):
            X = mixed_kinds(c, f, n, b, case["level"] != "kinds")
        else:
            X = scale_items(X, case["level"], nb)
        algo = ops.make_algo(op, f)
        det = op.get("model") != "nmf"

        def call(x):
            torch.manual_seed(5)
            return algo(x)

        inputs = [tt(X, dt)]
        if case["dt"] == "c64" and op.get("model") in ("glu", "blstm", "mvdrsup"):
            algo = algo.float()
    else:
        call, inputs, det = make_func(case["op"], b, case["level"])
        inputs = [tt(x) for x in inputs]
        if any(x.dtype in (torch.float32, torch.complex64) for x in inputs):
            tol = 1e-3
    n_calls = 1
    with torch.no_grad():
        full = outputs(call(*inputs))
        for o in full:
            require(tuple(o.shape[:nb]) == b, f"output shape {tuple(o.shape)} for batch {b}")
        silent_idx = int(np.prod(b)) - 1 if case["level"] == "silent" else None
        items = list(itertools.product(*[range(k) for k in b]))
        for k, i in enumerate(items):
            if k == silent_idx:
                continue  # the silent item itself is not judged, only its neighbours
            if det:
                alone = outputs(call(*[x[i] for x in inputs]))
                n_calls += 1
                for o, a in zip(full, alone):
                    compare(o[i], a, tol, f"item {i} of batch {b} vs the same item alone")
        # non-interference: disturb every other item
        for k, i in enumerate(items[:3]):
            if k == silent_idx or len(items) == 1:
                continue
            for mode in ("scale", "other"):
                other = []
                for x in inputs:
                    y = x.clone()
                    keep = x[i].clone()
                    if mode == "scale":
                        y = y * 2.5 if case["kind"] == "algo" or not str(case["op"]).startswith("eigh") else y * 2.5
                    else:
                        y = torch.flip(y, dims=(0,)) * 1.5
                    y[i] = keep
                    other.append(y)
                dist = outputs(call(*other))
                n_calls += 1
                for o, a in zip(dist, full):
                    compare(o[i], a[i], tol, f"item {i} of batch {b} after changing the other items ({mode})")
    return dict(transitions=n_calls, states=len(items), outcome=coarse(*full), validated=len(items))
