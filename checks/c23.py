"""Degenerate signals"""
import itertools

import numpy as np
import torch

import torchiva
from mc import ops, sig
from mc.engine import product
from mc.util import coarse, compare, nn, require, tt

ID = "C23"
TITLE = "Silent, repeated or very short signals give finite output of the right shape"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of degenerate signal patterns (all subsets of silent channels, frequencies and frame blocks, all rank deficiencies, levels, lengths) x algorithms on the real code; finiteness, shape and non-contamination invariants"
RULE = (
    "every algorithm mode x channels x precision x every subset of silent channels x every subset of silent frequencies x "
    "every subset of silent blocks of frames, every pattern of repeated channels, levels from 1e-12 to 1e6, every number of "
    "frames from 1; the output is finite and a silent signal stays silent; a silent frequency does not disturb the others in "
    "the frequency-wise algorithms; FIVE, WPE and the beamformers with every subset of silent channels give what they give for the "
    "remaining channels alone, for every reference microphone"
)
ASSUMPTIONS = ["at most 4 frequencies and 24 frames", "values representable without overflow of their squares"]
CHUNK = 4

ALGOS = ops.ALGOS + [
    dict(algo="tiss", n_iter=5),
    dict(algo="ip", n_iter=5),
    dict(algo="ip2", n_iter=5),
    dict(algo="five", n_iter=5),
    dict(algo="tiss", n_iter=3, model="nmf"),
    dict(algo="tiss", n_iter=2, model="glu"),
    dict(algo="tiss", n_iter=2, n_taps=3, n_delay=2, n_src=1),
    dict(algo="ip", n_iter=2, n_src=1),
    dict(algo="wpe", n_iter=3, n_taps=3, n_delay=3),
    dict(algo="mvdr", model="mvdrsup"),
    dict(algo="gev", model="mvdrsup"),
    dict(algo="mwf", model="mvdrsup"),
]


def cases(tier):
    out = []
    for i, op in enumerate(ALGOS):
        for c in (2, 3) if tier == "quick" else (2, 3, 4):
            if not ops.supports(op, c):
                continue
            for dt in ("c64", "c128"):
                for kind in ("silent", "repeat", "levels", "short", "words"):
                    out.append(dict(kind=kind, op=i, c=c, dt=dt))
    for algo in ("five", "mvdr", "scm", "mvdr3", "mwf", "mwft", "gev", "wpe"):
        for c in (3, 4) if tier == "quick" else (3, 4, 5, 6):
            for key in (1, 2, 3):
                for dt in ("c64", "c128"):
                    out.append(dict(kind="dead", algo=algo, c=c, key=key, dt=dt))
    for algo in ("tiss", "ip2", "five", "mvdr", "mwf", "gev"):
        for dt in ("f32", "f64"):
            out.append(dict(kind="wave", algo=algo, dt=dt))
    for fn in ("md", "l2", "sel", "conv", "stft"):
        out.append(dict(kind="func", fn=fn))
    return out


CDT = dict(c64=torch.complex64, c128=torch.complex128)


def finite(y):
    y = nn(y)
    return bool(np.all(np.isfinite(y.real)) and np.all(np.isfinite(y.imag)))


def check(op, X, dt, what):
    torch.manual_seed(0)
    Xt = tt(X, CDT[dt])
    with torch.no_grad():
        m = ops.make_algo(op, X.shape[-2])
        m = m.double() if dt == "c128" else m.float()
        Y = m(Xt)
    n_out = ops.out_sources(op, X.shape[-3])
    require(tuple(Y.shape) == X.shape[:-3] + (n_out,) + X.shape[-2:], f"{what}: shape {tuple(Y.shape)}")
    require(finite(Y), f"{what}: output not finite ({op})")
    LAST.append(coarse(Y))
    return Y


LAST = []


def run(k):
    LAST.clear()
    r = globals()["run_" + k["kind"]](k)
    r.setdefault("outcomes", set(LAST))
    return r


def subsets(n):
    for r in range(n + 1):
        yield from itertools.combinations(range(n), r)


def run_silent(k):
    op = ALGOS[k["op"]]
    c, F, N = k["c"], 3, 24
    base = sig.mixture(c, F, N, key=3, kind="iva")
    n, outs = 0, set()
    for sc in subsets(c):
        for sf in subsets(F):
            for sb in subsets(3):
                # all pairs of the three axes, and everything
                if sc and sf and sb and not (len(sc) == c or len(sf) == F or len(sb) == 3):
                    continue
                X = base.copy()
                X[list(sc)] = 0
                X[:, list(sf)] = 0
                for b in sb:
                    X[..., 8 * b : 8 * (b + 1)] = 0
                Y = check(op, X, k["dt"], f"silent channels {sc}, frequencies {sf}, blocks {sb}")
                if not X.any():
                    require(float(Y.abs().max()) == 0.0, f"silence does not stay silent: {float(Y.abs().max())}")
                if sf and op["algo"] not in ("five",):
                    require(float(Y[..., list(sf), :].abs().max()) <= 1e-12, f"silent frequency {sf} got a signal")
                n += 1
    return dict(states=n, transitions=n, validated=n)


DEAD = {
    "five": [dict(algo="five", n_iter=i, model=m) for i in (0, 1, 2, 6) for m in ("laplace", "weights")] + [dict(algo="five", n_iter=2, n_power_iter=8)],
    "mvdr": [dict(algo="mvdr"), dict(algo="mvdr", n_power_iter=5)],
    "scm": [dict(algo="mvdr", mvdr_type="scm")],
    "mvdr3": [dict(algo="mvdr", n_masks=3)],
    "mwf": [dict(algo="mwf")],
    "mwft": [dict(algo="mwf", time_invariant=False, n_masks=4)],
    "gev": [dict(algo="gev")],
    "wpe": [dict(algo="wpe", n_iter=2, n_taps=2, n_delay=1)],
}


def run_dead(k):
    """silent channels change nothing for the algorithms that do not return the channels"""
    c, F, N = k["c"], 4, 60
    base = sig.mixture(c, F, N, key=30 + k["key"], kind="iva")
    n = 0
    for op in DEAD[k["algo"]]:
        name = "ref_mic" if op["algo"] in ops.BEAMFORMERS else "proj_back_mic"
        for sc in subsets(c):
            live = [i for i in range(c) if i not in sc]
            if len(live) < 2 or not sc:
                continue
            X = base.copy()
            X[list(sc)] = 0
            for ref in live:
                if op["algo"] == "wpe":
                    got, want = check(op, X, k["dt"], "")[live], check(op, X[live], k["dt"], "")
                else:
                    got = check({**op, name: ref}, X, k["dt"], f"silent channels {sc}")
                    want = check({**op, name: live.index(ref)}, X[live], k["dt"], "live channels")
                compare(got, want, 2e-2 if k["dt"] == "c64" else 1e-3, f"{op} with silent channels {sc} and reference {ref}")
                n += 1
    return dict(states=n, transitions=2 * n, validated=n)


def run_repeat(k):
    """channels that are multiples of other ones, at all or at some frequencies"""
    op = ALGOS[k["op"]]
    c, F, N = k["c"], 3, 24
    base = sig.mixture(c, F, N, key=4)
    n = 0
    for src in itertools.product(range(c), repeat=c):  # channel j copies channel src[j]
        for gain in (1.0, -1.0, 2j, 1e-3):
            for freqs in (range(F), [1]):
                X = base.copy()
                for j in range(c):
                    if src[j] != j:
                        X[j, list(freqs)] = gain * base[src[j], list(freqs)]
                check(op, X, k["dt"], f"channels {src} x {gain} at {list(freqs)}")
                n += 1
    for const in (np.ones((c, F, N)), np.ones((c, F, N)) * np.arange(1, c + 1)[:, None, None], np.eye(c, N)[:, None, :].repeat(F, 1)):
        check(op, const.astype(complex), k["dt"], "constant")
        n += 1
    return dict(states=n, transitions=n, validated=n)


def run_levels(k):
    op = ALGOS[k["op"]]
    base = sig.mixture(k["c"], 4, 24, key=5)
    n = 0
    for lev in (1e-12, 1e-9, 1e-6, 1e-4, 1e-2, 1.0, 1e2, 1e4, 1e6):
        check(op, lev * base, k["dt"], f"level {lev}")
        for j in range(k["c"]):  # one channel at another level
            X = base.copy()
            X[j] *= lev
            check(op, X, k["dt"], f"channel {j} at level {lev}")
            n += 1
        X = base.copy()
        X[:, 1] *= lev
        check(op, X, k["dt"], f"frequency 1 at level {lev}")
        n += 2
    return dict(states=n, transitions=n, validated=n)


def run_short(k):
    op = ALGOS[k["op"]]
    n = 0
    for N in range(1, 13):
        for F in (1, 2, 3):
            if op.get("model") == "mvdrsup" and F < 1:
                continue
            if op["algo"] == "five" and F < 2:
                continue
            check(op, sig.mixture(k["c"], F, N, key=6), k["dt"], f"{N} frames, {F} frequencies")
            n += 1
    return dict(states=n, transitions=n, validated=n)


def run_words(k):
    """all signals of two frames, over {0, 1, -1} (2 channels), plus a fixed tail for half of them"""
    op = ALGOS[k["op"]]
    if k["c"] != 2:
        return dict(states=1, transitions=0, skipped=True)
    W = np.array(list(sig.words([0, 1, -1j], (2, 1, 3)))).astype(complex)
    W = np.concatenate((W, 0.5 * W[:, ::-1]), axis=2)  # two frequencies
    n = 0
    for batch in np.array_split(W, 6):
        check(op, batch, k["dt"], "batch of words")
        n += len(batch)
    return dict(states=n, transitions=n, validated=n)


def run_wave(k):
    algo = k["algo"]
    dt = torch.float32 if k["dt"] == "f32" else torch.float64
    n = 0
    for silent in list(subsets(2)) + ["dup", "dc", "click", "tail"]:
        for length in (33, 64, 100):
            x = sig.wave(2, length, key=7)
            if silent == "dup":
                x[1] = x[0]
            elif silent == "dc":
                x[:] = 1.0
            elif silent == "click":
                x[:] = 0
                x[0, 20] = 1
            elif silent == "tail":
                x[:, length // 2 :] = 0
            else:
                x[list(silent)] = 0
            sep = torchiva.nn.BSSSeparator(16, n_iter=3, algo=algo, window=torch.hann_window(16, dtype=dt),
                                           source_model=ops.Masks(2, 2) if algo in ops.BEAMFORMERS else None)
            y = sep(tt(x, dt))
            require(y.shape == (1 if algo == "five" else 2, length), f"shape {tuple(y.shape)}")
            require(bool(torch.isfinite(y).all()), f"{algo}: not finite for {silent}, {length} samples")
            if silent == (0, 1):
                require(float(y.abs().max()) == 0.0, "silence does not stay silent")
            n += 1
    return dict(states=n, transitions=n, validated=n)


def run_func(k):
    fn = k["fn"]
    n = 0
    for dt in (torch.float64, torch.float32):
        for pat in list(subsets(2)) + ["short"]:
            x = sig.wave(2, 64, key=8)
            X = sig.mixture(2, 3, 12, key=9)
            if pat != "short":
                x[list(pat)] = 0
                X[list(pat)] = 0
            xt, Xt = tt(x, dt), tt(X, torch.complex128 if dt == torch.float64 else torch.complex64)
            if fn == "md":
                ys = [torchiva.minimum_distortion(Xt, Xt[r : r + 1], p=p, q=q, max_iter=5) for r in (0, 1)
                      for p, q in ((1.0, None), (1.0, 2.0), (0.5, 1.0))]
                ys.append(torchiva.minimum_distortion(Xt, Xt * 0, p=1.0, max_iter=5))
            elif fn == "l2":
                ys = [torchiva.minimum_distortion_l2_phase(Xt, Xt[r : r + 1]) for r in (0, 1)]
                ys.append(torchiva.minimum_distortion_l2_phase(Xt, Xt * 0))
            elif fn == "sel":
                ys = [torchiva.select_most_energetic(xt, num=m) for m in (1, 2)]
            elif fn == "conv":
                ys = [torchiva.fftconvolve(xt, xt[..., :9], mode=m) for m in ("full", "same", "valid")]
            else:
                s = torchiva.STFT(16, hop_length=8, dtype=dt)
                ys = [s(xt), s.inv(s(xt))]
            for y in ys:
                require(finite(y), f"{fn}: not finite for {pat}")
                if pat == (0, 1):
                    require(float(y.abs().max()) == 0.0, f"{fn}: silence does not stay silent")
                n += 1
    return dict(states=n, transitions=n, validated=n)
