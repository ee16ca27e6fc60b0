"""Time-frequency transform"""
import itertools

import numpy as np
import scipy.signal
import torch

import torchiva
from mc import sig
from mc.engine import product, sweep
from mc.util import coarse, compare, nn, require, tt

ID = "C13"
TITLE = "Short-time transform is invertible and matches its definition"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of transform parameters, signal lengths and the basis of the signal space (linearity) on the real code, against the direct DFT definition"
RULE = (
    "full product FFT size x hop x window (named, with parameters, with negative values, array, tensor, dtype) x every signal length in a range x batch shape x "
    "precision; forward against the explicit DFT sum, inverse against the original samples; the transform of every unit "
    "impulse determines the linear map completely"
)
ASSUMPTIONS = ["hops and windows that satisfy the overlap-add condition", "signals longer than half the FFT size (reflection padding)"]


def cases(tier):
    q = tier == "quick"
    out = []
    for k in product(n_fft=[4, 8, 16, 32] if q else [4, 6, 8, 12, 16, 32, 64], hop=[None, 1, "half", "quarter", "third", "odd"],
                     win=[None, "hann", "hamming", "blackman", "bartlett", "cosine", "flattop", "nuttall", "triang", "custom_np", "custom_t", "custom_neg", "custom_negt"], dt=["f64", "f32"]):
        out.append(dict(kind="lengths", batch=[], **k))
    for batch in ([1], [2], [3], [2, 3], [1, 2, 2], [2, 1, 3]):
        for n_fft in (8, 16):
            for dt in ("f64", "f32"):
                out.append(dict(kind="lengths", n_fft=n_fft, hop="half", win="hann", dt=dt, batch=batch))
    for k in product(n_fft=[5, 7, 9, 10, 12, 20], hop=["half", "quarter", None], win=["hamming", "custom_np"], dt=["f64"]):
        out.append(dict(kind="lengths", batch=[2], **k))
    for n_fft in (100, 256, 400, 512, 1000, 1024, 2048, 4096):
        for hop in (None, "half", "quarter", "third"):
            for win in (None, "hamming", "custom_np"):
                out.append(dict(kind="large", n_fft=n_fft, hop=hop, win=win))
    for n_fft, frames, hop, r in itertools.product((8, 64, 256), (399, 401, 1000, 3001), (None, "half", "quarter", "third"), (0, 1, -1)):
        for dt in ("f32", "f64"):
            if n_fft < 256 or frames < 1001:
                out.append(dict(kind="long", n_fft=n_fft, frames=frames, hop=hop, rest=r, win="hann", dt=dt))
    for n_fft, hop in ((8, "half"), (8, "quarter"), (8, 1), (16, "quarter")):
        out.append(dict(kind="impulses", n_fft=n_fft, hop=hop))
    for dt in ("f32", "f64"):
        for win in (None, "hann", "hamming", "flattop", "custom_neg", "custom_np", "custom_np32", "custom_t", "custom_t32"):
            out.append(dict(kind="props", dt=dt, win=win))
    return out


def window(kind, n):
    w = 0.3 + np.hanning(n + 2)[1:-1] + 0.05 * np.arange(n) / n  # not symmetric, never zero
    if kind in ("custom_neg", "custom_negt"):
        w = w * np.where(np.arange(n) % 3 == 1, -1, 1)
        return (w if kind == "custom_neg" else torch.from_numpy(w)), w
    if kind == "custom_np":
        return w, w
    if kind == "custom_np32":
        return w.astype(np.float32), w.astype(np.float32).astype(float)
    if kind == "custom_t":
        return torch.from_numpy(w), w
    if kind == "custom_t32":
        return torch.from_numpy(w).float(), w.astype(np.float32).astype(float)
    return kind, scipy.signal.get_window(kind or "hann", n)


def hop_of(h, n):
    return {"half": n // 2, "quarter": max(n // 4, 1), "third": max(n // 3, 1), "odd": max(n // 4, 1) + 1}.get(h, h)


def ref_stft(x, n_fft, hop, w):
    """x (..., n)"""
    p = n_fft // 2
    xp = np.concatenate((x[..., 1 : p + 1][..., ::-1], x, x[..., -p - 1 : -1][..., ::-1]), axis=-1)
    T = 1 + (xp.shape[-1] - n_fft) // hop
    k = np.arange(n_fft // 2 + 1)[:, None]
    E = np.exp(-2j * np.pi * k * np.arange(n_fft) / n_fft)
    return np.stack([np.einsum("kn,...n->...k", E, w * xp[..., t * hop : t * hop + n_fft]) for t in range(T)], axis=-1)


def make(k, dt):
    win, w = window(k["win"], k["n_fft"])
    hop = hop_of(k["hop"], k["n_fft"])
    kw = dict(dtype=dt)
    return torchiva.STFT(k["n_fft"], hop_length=hop, window=win, **kw), hop or k["n_fft"] // 4, w


def nola(w, hop):
    n = len(w)
    m = (n // hop) * hop
    acc = np.zeros(hop)
    for i in range(n):
        acc[i % hop] += w[i] ** 2
    return np.min(acc) > 1e-8 * np.max(acc) and hop <= n


def roundtrip(S, x, hop, w, dt, what):
    n_fft = len(w)
    tol = 1e-9 if dt == torch.float64 else 2e-4
    t = tt(x, dt)
    X = S(t)
    require(X.is_complex(), f"{what}: the transform is not complex")
    compare(X, ref_stft(nn(t).astype(float), n_fft, hop, w), tol, f"{what}: forward transform")
    require(X.shape[:-2] == t.shape[:-1], f"{what}: batch shape")
    require((S.n_fft, S.n_freq) == (n_fft, X.shape[-2]), f"{what}: announces {S.n_freq} frequencies, has {X.shape[-2]}")
    y = S.inv(X)
    n = x.shape[-1]
    T = X.shape[-1]
    want_len = hop * (T - 1) + (n_fft % 2)  # odd sizes keep one more sample
    require(y.shape[:-1] == t.shape[:-1], f"{what}: batch shape of the inverse")
    require(y.dtype == dt, f"{what}: precision of the inverse {y.dtype}")
    m = min(n, y.shape[-1])
    require(m >= min(n, hop * (T - 1)), f"{what}: {y.shape[-1]} samples reconstructed")
    compare(nn(y)[..., :m], nn(t)[..., :m], tol, f"{what}: reconstruction")
    return X


def run(case):
    k = case
    if k["kind"] == "props":
        dt = torch.float64 if k["dt"] == "f64" else torch.float32
        win, w = window(k["win"], 8)
        S = torchiva.STFT(8, hop_length=3, window=win, dtype=dt)
        require((S.n_fft, S.n_freq, S.hop_length) == (8, 5, 3), "the parameters are not reported")
        require(S.window_type == (k["win"] or "hann" if not str(k["win"]).startswith("custom") else "custom"), f"window type {S.window_type}")
        compare(S.window, w, 1e-6, "window")
        require(S.window.dtype == dt, f"window precision {S.window.dtype}")
        S2 = torchiva.STFT(8, hop_length=3, window=win, dtype=dt)
        S2.load_state_dict(S.state_dict())
        x = tt(sig.normal((2, 40), 3), dt)
        require(torch.equal(S(x), S2(x)), "the state does not determine the transform")
        if not isinstance(win, (str, type(None))):
            # the object and the array it was built from are independent, in both directions
            want, keep = S(x), win.copy() if isinstance(win, np.ndarray) else win.clone()
            S2.load_state_dict({"_window": 0.5 * S.window})
            require(bool((win == keep).all()), "loading weights changed the array given as window")
            compare(S2(x), 0.5 * want, 1e-6, "loaded window")
            compare(S(x), want, 1e-12, "after other weights were loaded into an object built from the same window")
            win *= 2
            compare(S(x), want, 1e-12, "after the array given as window was changed")
        return dict(outcome=str(k["win"]))
    if k["kind"] == "impulses":
        n_fft = k["n_fft"]
        S, hop, w = make({**k, "win": "hann"}, torch.float64)
        n = 3 * n_fft
        X = roundtrip(S, np.eye(n), hop, w, torch.float64, f"impulses {k}")
        # linearity of the map on a generic combination
        c = sig.normal((n,), 8)
        compare(S(tt(c)), np.einsum("i,ifn->fn", c, nn(X)), 1e-10, "linearity")
        return dict(states=n, transitions=2 * n, validated=n, outcome=coarse(np.abs(nn(X))))
    if k["kind"] == "long":
        dt = torch.float64 if k["dt"] == "f64" else torch.float32
        S, hop, w = make(k, dt)
        n = hop * k["frames"] + k["rest"]
        X = roundtrip(S, sig.normal((2, n), 3), hop, w, dt, f"{k}")
        return dict(states=1, transitions=2, outcome=coarse(np.abs(nn(X))[..., :40]))
    if k["kind"] == "large":
        S, hop, w = make(k, None)
        n = 4 * k["n_fft"] + 37
        x = sig.wave(2, n, 3)
        t = tt(x, torch.float32)
        X = S(t)
        y = S.inv(X)
        m = min(y.shape[-1], n)
        require(m >= n - hop, f"{m} samples reconstructed out of {n}")
        compare(y[..., :m], nn(t)[..., :m], 1e-4, f"reconstruction {k}")
        # two frames against the definition
        p = k["n_fft"] // 2
        for f in (3, 5):
            seg = w * x[:, f * hop - p : f * hop + p] if f * hop >= p and f * hop + p <= n else None
            if seg is not None:
                compare(X[:, :, f], np.fft.rfft(seg), 1e-4, f"frame {f} {k}")
        return dict(transitions=2, outcome=coarse(np.abs(nn(X))[:, ::7, ::3]))
    dt = torch.float64 if k["dt"] == "f64" else torch.float32
    S, hop, w = make(k, dt)
    if not nola(w, hop):
        return dict(skipped=True)
    n_fft = k["n_fft"]
    lens = list(range(n_fft // 2 + 1, n_fft // 2 + 1 + 2 * max(hop, 4) + 1)) + [5 * n_fft + 3]
    cnt, last = 0, None
    for n in lens:
        if hop * (n // hop) == 0 or (1 + n // hop) < 2:
            continue
        # the synthesis window sum must not vanish at the edges of short signals
        x = sig.normal(tuple(k["batch"]) + (n,), 10 + n)
        last = roundtrip(S, x, hop, w, dt, f"{k} length {n}")
        cnt += 1
    return dict(states=cnt, transitions=2 * cnt, validated=cnt, outcome=coarse(np.abs(nn(last))))
