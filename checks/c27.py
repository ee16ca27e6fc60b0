"""Differentiability"""
import numpy as np
import torch

import torchiva
from checks.c25 import PlainMasks
from mc import ops, sig
from mc.util import coarse, compare, nn, require, tt

ID = "C27"
TITLE = "Gradients equal the derivatives of the outputs"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of configurations and of every coordinate direction of the input and of the model parameters; back-propagated gradients against central differences of the real code"
RULE = (
    "every differentiable operation in every mode: for a fixed linear functional of the output, the gradient with respect to every "
    "real coordinate of the input and to every model parameter is compared with the central difference along it; again with "
    "digital silence in one frame, the first, the last frames, a channel, an item of the batch: the gradients are finite (and equal the "
    "differences for silent frames)"
)
ASSUMPTIONS = ["double precision; 5e-3 for the algorithms, whose row normalization before regularization is a constant for the gradient", "points where the operation is differentiable and well conditioned"]
CHUNK = 1

CONF = [
    dict(algo="tiss", n_iter=2),
    dict(algo="tiss", n_iter=2, model="gauss", proj_back_mic=None),
    dict(algo="tiss", n_iter=2, model="weights", n_taps=2, n_delay=1, proj_back_mic=1),
    dict(algo="tiss", n_iter=2, model="weights", n_taps=2, n_delay=1, proj_back_mic=1, use_dmc=True),
    dict(algo="tiss", n_iter=2, model="laplace", n_src=1, n_taps=1),
    dict(algo="tiss", n_iter=2, model="weights", n_src=2, n_taps=1, c=3),
    dict(algo="tiss", n_iter=1, model="glu"),
    dict(algo="ip", n_iter=2),
    dict(algo="ip", n_iter=2, model="weights", n_src=1, proj_back_mic=1),
    dict(algo="ip", n_iter=1, model="weights", c=3),
    dict(algo="ip2", n_iter=1),
    dict(algo="ip2", n_iter=2, model="weights", proj_back_mic=1),
    dict(algo="five", n_iter=1),
    dict(algo="five", n_iter=2, model="weights", n_power_iter=3, proj_back_mic=1),
    dict(algo="five", n_iter=1, model="weights", c=3),
    dict(algo="wpe", n_iter=2, n_taps=2, n_delay=1),
    dict(algo="wpe", n_iter=1, n_taps=1, n_delay=0, model="wpegauss"),
    dict(algo="mvdr"),
    dict(algo="mvdr", mvdr_type="scm", ref_mic=1),
    dict(algo="mvdr", n_power_iter=3, n_src=1),
    dict(algo="mvdr", n_masks=3, ref_mic=1, c=3),
    dict(algo="mwf", ref_mic=1),
    dict(algo="mwf", time_invariant=False, n_masks=4),
    dict(algo="gev", ref_mic=1),
    dict(algo="gev", ref_mic=1, c=3),
    dict(algo="tiss", n_iter=1, batch=2),
    dict(algo="tiss", n_iter=3, model="gauss", n_taps=3, n_delay=0),
    dict(algo="tiss", n_iter=2, model="weights", c=4, n_src=2, proj_back_mic=3),
    dict(algo="tiss", n_iter=2, model="weights", proj_back_mic=None, n_taps=1),
    dict(algo="tiss", n_iter=2, model="weights", n_taps=1, n_delay=2, use_dmc=True, n_src=1),
    dict(algo="tiss", n_iter=0),
    dict(algo="tiss", n_iter=1, model="blstm"),
    dict(algo="ip", n_iter=1, batch=2, model="gauss"),
    dict(algo="ip", n_iter=2, model="weights", proj_back_mic=None),
    dict(algo="ip", n_iter=2, model="weights", n_src=2, c=3),
    dict(algo="ip", n_iter=1, model="glu"),
    dict(algo="ip2", n_iter=1, batch=2, model="weights"),
    dict(algo="five", n_iter=1, batch=2, model="weights"),
    dict(algo="five", n_iter=2, model="weights", proj_back_mic=1, n_power_iter=1, c=3),
    dict(algo="wpe", n_iter=1, n_taps=3, n_delay=2, c=3),
    dict(algo="wpe", n_iter=2, n_taps=1, n_delay=1, batch=2),
    dict(algo="mvdr", batch=2, ref_mic=1),
    dict(algo="mvdr", mvdr_type="scm", c=3, n_masks=3),
    dict(algo="mvdr", model="mvdrsup"),
    dict(algo="mwf", batch=2, time_invariant=False, n_masks=4, ref_mic=1),
    dict(algo="mwf", time_invariant=False, c=3, n_masks=4),
    dict(algo="mwf", model="mvdrsup"),
    dict(algo="gev", batch=2),
    dict(algo="gev", n_src=1, n_masks=3),
    dict(algo="tiss", n_iter=1, model="weights", c=5, F=2, N=16, proj_back_mic=4),
    dict(algo="tiss", n_iter=2, model="weights", c=5, F=2, N=16, n_src=2, proj_back_mic=3, use_dmc=True),
    dict(algo="tiss", n_iter=1, model="weights", c=2, F=2, N=30, n_taps=7, n_delay=3),
    dict(algo="tiss", n_iter=6, model="weights", F=2, N=14),
    dict(algo="tiss", n_iter=1, model="weights", F=9, N=6),
    dict(algo="ip", n_iter=1, model="weights", c=5, F=2, N=18, proj_back_mic=4),
    dict(algo="ip", n_iter=1, model="weights", c=5, F=2, N=18, n_src=3, proj_back_mic=4),
    dict(algo="ip", n_iter=5, model="weights", F=2, N=14),
    dict(algo="ip2", n_iter=5, model="weights", F=2, N=14),
    dict(algo="five", n_iter=1, model="weights", c=5, F=2, N=18, proj_back_mic=3),
    dict(algo="five", n_iter=4, model="weights", F=3, N=14),
    dict(algo="wpe", n_iter=1, n_taps=6, n_delay=4, F=2, N=30),
    dict(algo="wpe", n_iter=4, n_taps=1, n_delay=1, F=2, N=14),
    dict(algo="mvdr", c=5, F=2, N=18, ref_mic=3),
    dict(algo="mvdr", c=5, F=2, N=18, n_power_iter=6, ref_mic=4),
    dict(algo="mwf", c=5, F=2, N=18, ref_mic=4, n_src=3),
    dict(algo="gev", c=5, F=2, N=18, ref_mic=4),
]
FUNCS = ["stft", "istft", "l2", "md", "md_model", "md_p", "md_pq", "sel", "conv", "laplace", "gauss", "nmf", "glu", "glu_ri", "blstm", "simple", "mvdrsup",
         "eigh2", "geigh2", "eigh3", "solve_loaded", "solve_loaded_general", "inv_loaded", "inv_2x2", "bmm", "multiply", "bss_tiss", "bss_mvdr"]
SILENT_FUNCS = ["l2", "md", "md_model", "md_p", "md_pq", "laplace", "gauss", "nmf", "glu", "glu_ri", "blstm", "simple", "mvdrsup"]


SILENCE = ["frame", "lead", "trail", "chan", "item"]


def silence(X, what):
    """a signal of which some frames, a channel or an item of the batch is digital silence"""
    X = X.clone()
    if what == "frame":
        X[..., 3] = 0
    elif what == "lead":
        X[..., :4] = 0
    elif what == "trail":
        X[..., -4:] = 0
    elif what == "chan":
        X[..., -1, :, :] = 0
    elif what == "item":
        X[0] = 0
    return X


def cases(tier):
    out = []
    for i, op in enumerate(CONF):
        for what in SILENCE:
            # the eigenvectors of a null covariance matrix are not defined
            if what == "item" and (op["algo"] == "five" or "batch" not in op):
                continue
            fd = what == "frame" or (tier != "quick" and what in ("lead", "trail"))
            out.append(dict(kind="algo", op=i, key=1, silent=what, fd=fd))
    for fn in FUNCS:
        if fn in SILENT_FUNCS:
            out += [dict(kind="func", fn=fn, key=1, silent=what, fd=what in ("frame", "lead", "trail")) for what in SILENCE[:4]]
    out += [dict(kind="algo", op=i, key=key) for key in ((1,) if tier == "quick" else (1, 2, 3)) for i in range(len(CONF))]
    return out + [dict(kind="func", fn=f, key=key) for key in ((1,) if tier == "quick" else (1, 2, 3)) for f in FUNCS]


def run(k):
    return globals()["run_" + k["kind"]](k)


def loss_of(f, args, key=0):
    y = f(*args)
    c = sig.cnormal(tuple(y.shape), 700 + key)
    if y.is_complex():
        return (tt(c).conj() * y).sum().real
    return (tt(c.real) * y).sum()


def check(f, args, params, what, tol=2e-5, h=1e-6, fd=True):
    args = [a.clone().requires_grad_(True) for a in args]
    for p in params:
        p.grad = None
    loss = loss_of(f, args)
    loss.backward()
    noise = 1e-15 * abs(float(loss.detach())) / h  # rounding of the central differences
    if not fd:
        gs = [torch.zeros_like(a) if a.grad is None else a.grad for a in args + params]
        for i, g in enumerate(gs):
            require(bool(np.all(np.isfinite(nn(g)))), f"{what}: gradient {i} not finite")
        return 1, coarse(np.concatenate([np.ravel(np.abs(nn(g))) for g in gs]))
    n, worst = 0, 0.0
    tensors = [(f"input {i}", a) for i, a in enumerate(args)] + [(f"parameter {i}", p) for i, p in enumerate(params)]
    grads, fds = [], []
    for name, a in tensors:
        g = torch.zeros_like(a) if a.grad is None else a.grad
        with torch.no_grad():
            flat = a.detach().view(-1) if a.is_contiguous() else None
            require(flat is not None, "not contiguous")
            steps = (1.0, 1j) if a.is_complex() else (1.0,)
            G, D = [], []
            for i in range(flat.numel()):
                for s in steps:
                    old = flat[i].clone()
                    v = []
                    for sg in (1, -1):
                        flat[i] = old + sg * h * s
                        v.append(float(loss_of(f, [t.detach() for t in args])))
                    flat[i] = old
                    d = (v[0] - v[1]) / (2 * h)
                    gi = g.reshape(-1)[i]
                    gi = float(gi.real if s == 1.0 else gi.imag)
                    if abs(gi - d) > 1e-3 * abs(d) and abs(gi - d) > 1e-6:
                        # a kink (maximum of two equal values)? then both sides differ
                        v0 = float(loss_of(f, [t.detach() for t in args]))
                        if abs((v[0] - v0) - (v0 - v[1])) / h > 0.5 * abs(gi - d):
                            continue
                    D.append(d)
                    G.append(gi)
                    n += 1
        G, D = np.array(G), np.array(D)
        require(np.all(np.isfinite(G)), f"{what}: gradient of {name} not finite")
        grads.append(G), fds.append(D)
        top = max(np.max(np.abs(d)) for d in fds if d.size)
        scale = np.max(np.abs(D)) if D.size else 0
        err = np.max(np.abs(G - D)) if D.size else 0
        require(err <= tol * scale + tol * 0.4 * top + 1e-7 + noise, f"{what}: gradient of {name} off by {err:.3e} (largest derivative {scale:.3e})")
    return n, coarse(np.concatenate(grads))


def run_algo(k):
    op = dict(CONF[k["op"]])
    c = op.pop("c", 2)
    batch = (op.pop("batch"),) if "batch" in op else ()
    F, N = 3, 9
    if op["algo"] in ("wpe",) or op.get("n_taps"):
        N = 12
    F, N = op.pop("F", F), op.pop("N", N)
    obj = ops.make_algo(op, F).double()
    X = tt(sig.mixture(c, F, N, key=60 + k["key"], batch=batch, kind="reverb" if op["algo"] == "wpe" else "iva"))
    X = silence(X, k.get("silent"))
    for m in obj.modules():
        if isinstance(m, torch.nn.Dropout):
            m.p = 0.0
    params = [p for n, p in obj.named_parameters() if p.requires_grad and "fake" not in n]
    n, o = check(lambda x: obj(x), [X], params, f"{op} {k.get('silent') or ''}", tol=5e-3, fd=k.get("fd", True))
    return dict(states=n, transitions=2 * n + 1, validated=n, outcome=o)


def run_func(k):
    fn, key = k["fn"], k["key"]
    L = torchiva.linalg
    params = []
    X = silence(tt(sig.mixture(2, 5, 6, key=70 + key)), k.get("silent"))
    R = silence(tt(sig.mixture(2, 5, 6, key=71 + key)), k.get("silent"))[:1].clone()
    A = sig.cnormal((2, 3, 3), 80 + key)
    H2 = A[:, :2] @ np.swapaxes(A[:, :2].conj(), -1, -2) + np.diag([0.3, 0.9])
    H3 = A @ np.swapaxes(A.conj(), -1, -2) + np.diag([0.1, 1.0, 2.0])
    A2 = tt(A[:, :2, :2] + 1.5 * np.eye(2))
    A3 = tt(A + 2 * np.eye(3))
    b = tt(sig.cnormal((2, 3, 2), 5))
    herm = lambda M: 0.5 * (M + M.conj().transpose(-1, -2))  # noqa: E731

    def eigen(M, B=None):
        # a function of the decomposition that does not depend on the phases
        ev, V = L.eigh(herm(M), herm(B) if B is not None else None)
        P = torch.einsum("...ik,...jk->...kij", V, V.conj())
        return (ev[..., None, None] * P) + P

    def nmf(a):
        # same starting point for every call
        torch.manual_seed(3)
        m = torchiva.NMFModel(n_basis=2)
        return (m(a), m(a))[1]

    if fn in ("glu", "glu_ri", "blstm", "simple", "mvdrsup"):
        m = ops.small_net(fn, 5)
        params = [p for p in m.parameters()][:4]
        f, args = (lambda x: m(x)), [X]
    else:
        s = torchiva.STFT(8, hop_length=4, dtype=torch.float64)
        x = tt(sig.wave(2, 24, key=key))
        f, args = {
            "stft": lambda: (lambda x: s(x), [x]),
            "istft": lambda: (lambda Y: s.inv(Y), [s(x).contiguous()]),
            "l2": lambda: (lambda a, r: torchiva.minimum_distortion_l2_phase(a, r), [X, R]),
            "md": lambda: (lambda a, r: torchiva.minimum_distortion(a, r, p=1.0, q=2.0, max_iter=2, rtol=0.0), [X, R]),
            "md_model": lambda: (lambda a, r: torchiva.minimum_distortion(a, r, model=torchiva.LaplaceModel(), max_iter=2, rtol=0.0), [X, R]),
            "md_p": lambda: (lambda a, r: torchiva.minimum_distortion(a, r, p=1.5, max_iter=2, rtol=0.0), [X, R]),
            "md_pq": lambda: (lambda a, r: torchiva.minimum_distortion(a, r, p=1.2, q=1.6, max_iter=2, rtol=0.0), [X, R]),
            "sel": lambda: (lambda x: torchiva.select_most_energetic(x, num=1), [x]),
            "conv": lambda: (lambda x, y: torchiva.fftconvolve(x, y, mode="same"), [x, x[..., :5].clone()]),
            "laplace": lambda: (lambda a: torchiva.LaplaceModel()(a), [X]),
            "nmf": lambda: (nmf, [X]),
            "gauss": lambda: (lambda a: torchiva.GaussModel()(a), [X]),
            "eigh2": lambda: (eigen, [tt(H2)]),
            "geigh2": lambda: (eigen, [tt(H2), tt(H2[::-1] + np.eye(2))]),
            "eigh3": lambda: (eigen, [tt(H3)]),
            "solve_loaded": lambda: (lambda M, r: L.solve_loaded(M, r), [A3, b]),
            "solve_loaded_general": lambda: (lambda M, r: L.solve_loaded_general(M, r), [A3, b]),
            "inv_loaded": lambda: (lambda M: L.inv_loaded(M), [A3]),
            "inv_2x2": lambda: (lambda M: L.inv_2x2(M), [A2]),
            "bmm": lambda: (lambda M, r: L.bmm(M, r), [A3, b]),
            "multiply": lambda: (lambda M, r: L.multiply(M, r), [b.real.clone(), b]),
            "bss_tiss": lambda: (torchiva.nn.BSSSeparator(8, n_iter=1, window=tt(np.hanning(8) + 0.05), source_model=ops.Weights()), [tt(sig.wave(2, 40, key=key))]),
            "bss_mvdr": lambda: (torchiva.nn.BSSSeparator(8, algo="mvdr", window=tt(np.hanning(8) + 0.05), source_model=PlainMasks()), [tt(sig.wave(2, 60, key=key))]),
        }[fn]()
    n, o = check(f, args, params, f"{fn} {k.get('silent') or ''}", fd=k.get("fd", True), tol=1e-4 if fn in ("solve_loaded_general", "solve_loaded", "inv_loaded", "bss_mvdr", "bss_tiss", "md", "md_model", "md_p", "md_pq", "nmf") else 2e-5)
    return dict(states=n, transitions=2 * n + 1, validated=n, outcome=o)
