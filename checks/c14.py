"""End-to-end separator"""
import itertools

import numpy as np
import torch

import torchiva
from checks.c13 import hop_of, ref_stft, window
from mc import ops, sig
from mc.engine import product
from mc.util import coarse, compare, nn, require, tt

ID = "C14"
TITLE = "End-to-end separator equals transform, configured algorithm, inverse transform"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of the constructor parameter product, transform settings and every signal length in a range; the end-to-end trace is compared with the explicit composition"
RULE = (
    "for every algorithm the full product of its constructor parameters, and for every algorithm x transform setting x "
    "batch shape x precision every signal length in a range of one hop and more, and long signals with realistic transforms; output against the direct DFT sum, the "
    "equally configured algorithm object and the inverse transform, padded with zeros to the length of the input"
)
ASSUMPTIONS = ["single precision compared at 5e-3", "the algorithm classes themselves are decided by C07-C11"]

GRID = {
    "tiss": dict(n_iter=[0, 1, 3], n_taps=[0, 1, 2], n_delay=[0, 1, 3], n_src=[None, 2], proj_back_mic=[None, 0, 1],
                 use_dmc=[False, True], eps=[None, 1e-5, 1e-2]),
    "ip2": dict(n_iter=[1, 3], proj_back_mic=[0, 1], eps=[None, 1e-5, 1e-2]),
    "five": dict(n_iter=[1, 3], proj_back_mic=[None, 0, 1], n_power_iter=[None, 1, 3], eps=[None, 1e-5, 1e-2]),
    "mvdr": dict(proj_back_mic=[0, 1], n_power_iter=[None, 1, 3], eps=[1e-5, 1e-2]),
    "mwf": dict(proj_back_mic=[0, 1], eps=[1e-5, 1e-2]),
    "gev": dict(proj_back_mic=[0, 1], eps=[1e-5, 1e-2]),
}
MODES = ("f64default", "f64cast", "f32")


def cases(tier):
    q = tier == "quick"
    out = []
    for algo, grid in GRID.items():
        for model in ("none", "module", "dict", "dictargs"):
            if algo in ops.BEAMFORMERS and model != "module":
                continue
            for c in (2, 3):
                if algo == "ip2" and c != 2:
                    continue
                full = list(product(**grid))
                for i in range(0, len(full), 18):
                    out.append(dict(kind="params", algo=algo, model=model, c=c, first=i, count=18))
    for algo in GRID:
        for k in product(n_fft=[8, 16] if q else [8, 16, 32], hop=[None, "half", "quarter"], win=[None, "hamming", "custom_np"], mode=MODES):
            out.append(dict(kind="lengths", algo=algo, c=2, batch=[], **k))
        for batch in ([1], [3], [2, 2]):
            for mode in MODES:
                out.append(dict(kind="lengths", algo=algo, c=2, n_fft=8, hop="quarter", win="hamming", mode=mode, batch=batch))
        if algo != "ip2":
            for c in (3, 4):
                for mode in MODES:
                    out.append(dict(kind="lengths", algo=algo, c=c, n_fft=8, hop="half", win=None, mode=mode, batch=[2]))
        for n_fft, n, c in ((512, 24000, 2), (2048, 20011, 2)) + (((256, 9001, 4),) if algo != "ip2" else ()):
            for mode in MODES:
                for hop, win in (("half", None), ("quarter", "hamming"), (None, "custom_np")):
                    out.append(dict(kind="lengths", algo=algo, c=c, n_fft=n_fft, hop=hop, win=win, mode=mode, batch=[], n=n))
    for algo in list(GRID) + ["bad"]:
        out.append(dict(kind="algo_arg", algo=algo))
    out.append(dict(kind="defaults"))
    for algo in ("tiss", "ip2", "five"):
        for c in (2, 3) if algo != "ip2" else (2,):
            out.append(dict(kind="attributes", algo=algo, c=c))
    for algo in GRID:
        for batch, n in (([2, 1, 2], 150), ([1, 1, 3, 1], 150), ([40], 150), ([1], 70000), ([], 100003)):
            for mode in ("f64default", "f32"):
                out.append(dict(kind="lengths", algo=algo, c=2, n_fft=8 if n == 150 else 512, hop="half", win="hamming", mode=mode, batch=batch, n=n))
    for model in ("nmf", "running"):
        for algo in ("tiss", "ip2", "five"):
            out.append(dict(kind="stateful", algo=algo, model=model))
    return out


def direct(algo, model, p):
    """the algorithm object with the meaning of the parameters"""
    p = dict(p)
    if algo in ops.BEAMFORMERS:
        p["ref_mic"] = p.pop("proj_back_mic", 0)
        p.setdefault("eps", 1e-5)
        if algo == "mvdr":
            p["mvdr_type"] = "rtf"
        if algo == "mwf":
            p["time_invariant"] = True
        return ops.CLASSES[algo](model, **p)
    return ops.CLASSES[algo](model=model, **p)


def istft(Y, n_fft, hop, w, n):
    """weighted overlap-add, trimmed, zero padded or cut to n samples"""
    T = Y.shape[-1]
    frames = np.fft.irfft(Y, n=n_fft, axis=-2) * w[:, None]
    L = n_fft + hop * (T - 1)
    y = np.zeros(Y.shape[:-2] + (L,))
    env = np.zeros(L)
    for t in range(T):
        y[..., t * hop : t * hop + n_fft] += frames[..., t]
        env[t * hop : t * hop + n_fft] += w**2
    a = n_fft // 2
    b = a + hop * (T - 1)
    y = y[..., a:b] / env[a:b]
    out = np.zeros(y.shape[:-1] + (n,))
    m = min(n, y.shape[-1])
    out[..., :m] = y[..., :m]
    return out


def compose(x, algo_obj, n_fft, hop, w):
    X = ref_stft(x, n_fft, hop, w)
    Y = algo_obj(torch.from_numpy(X))
    return istft(nn(Y), n_fft, hop, w, x.shape[-1])


def models(algo, model):
    if algo in ops.BEAMFORMERS:
        return ops.Masks(2, 2).double(), ops.Masks(2, 2).double()
    return {
        "none": lambda: (None, torchiva.models.LaplaceModel()),
        "module": lambda: (ops.Weights(), ops.Weights()),
        "dict": lambda: (dict(name="torchiva.models.GaussModel", kwargs=dict(eps=0.02)), torchiva.models.GaussModel(eps=0.02)),
        "dictargs": lambda: (dict(name="torchiva.models.LaplaceModel", args=[0.7]), torchiva.models.LaplaceModel(0.7)),
    }[model]()


def run(k):
    return globals()["run_" + k["kind"]](k)


def run_params(k):
    torch.set_default_dtype(torch.float64)
    algo, c = k["algo"], k["c"]
    n_fft, hop = 16, 4
    w = window("hann", n_fft)[1]
    n = 203
    x = 3.0 * sig.wave(c, n, key=3)
    outcomes = set()
    todo = list(product(**GRID[algo]))[k["first"] : k["first"] + k["count"]]
    for p in todo:
        m1, m2 = models(algo, k["model"])
        sep = torchiva.nn.BSSSeparator(n_fft, hop_length=hop, algo=algo, source_model=m1, **p)
        want = compose(x, direct(algo, m2, p), n_fft, hop, w)
        got = sep(tt(x))
        require(got.shape[-1] == n, f"{n} samples in, {got.shape[-1]} out with {p}")
        if p.get("proj_back_mic") is None and algo == "five":
            # phase of the unscaled source is arbitrary: compare the magnitudes of the transform
            compare(np.abs(ref_stft(nn(got), n_fft, n_fft, w)).mean(), np.abs(ref_stft(want, n_fft, n_fft, w)).mean(), 0.5, f"{p}")
            continue
        compare(got, want, 1e-6, f"separator with {p}")
        outcomes.add(coarse(got))
    return dict(states=len(todo), transitions=2 * len(todo), validated=len(todo), outcomes=outcomes)


PAR = {
    "tiss": dict(n_iter=2, n_taps=1, n_delay=1, proj_back_mic=1),
    "ip2": dict(n_iter=2, proj_back_mic=1),
    "five": dict(n_iter=2, proj_back_mic=1),
    "mvdr": dict(proj_back_mic=1),
    "mwf": dict(proj_back_mic=1),
    "gev": dict(proj_back_mic=1),
}


def run_lengths(k):
    algo, c, mode, batch = k["algo"], k["c"], k["mode"], tuple(k["batch"])
    win, w = window(k["win"], k["n_fft"])
    hop = hop_of(k["hop"], k["n_fft"])
    hop_ref = hop or k["n_fft"] // 4
    if mode == "f64default":
        torch.set_default_dtype(torch.float64)
    if mode == "f64cast" and k["win"] != "custom_np":
        w = w.astype(np.float32).astype(float)
    p = PAR[algo]
    m1, m2 = models(algo, "module")
    sep = torchiva.nn.BSSSeparator(k["n_fft"], hop_length=hop, window=win if k["win"] != "custom_np" or mode != "f32" else np.asarray(win, np.float32),
                                   algo=algo, source_model=m1, **p)
    if mode == "f64cast":
        sep = sep.double()
    ref = direct(algo, m2, p)
    outcomes = set()
    lengths = range(24 * hop_ref + k["n_fft"], 25 * hop_ref + k["n_fft"] + 2)
    if "n" in k:
        lengths = [k["n"]]
    for n in lengths:
        x = sig.wave(c, n, key=n, batch=batch)
        dt = torch.float32 if mode == "f32" else torch.float64
        xt = tt(x, dt)
        x0 = xt.clone()
        got = sep(xt)
        require(torch.equal(xt, x0), "the input was modified")
        require(got.dtype == dt, f"dtype {got.dtype} for {dt} input")
        want = compose(x, ref, k["n_fft"], hop_ref, w)
        compare(got, want, 5e-3 if mode == "f32" else 1e-6, f"length {n}")
        outcomes.add(coarse(want))
    return dict(states=len(lengths), transitions=2 * len(lengths), validated=len(lengths), outcomes=outcomes)


def run_algo_arg(k):
    if k["algo"] == "bad":
        for bad in ("nothing", "TISS", 3, ""):
            try:
                torchiva.nn.BSSSeparator(8, algo=bad)
            except Exception:
                continue
            require(False, f"algo={bad!r} accepted")
        return dict(states=4, transitions=4)
    torch.set_default_dtype(torch.float64)
    x = sig.wave(2, 150, key=5)
    outs = []
    for a in (k["algo"], torchiva.SepAlgo(k["algo"])):
        sep = torchiva.nn.BSSSeparator(8, algo=a, source_model=models(k["algo"], "module")[0], **PAR[k["algo"]])
        require(sep.algo == k["algo"], f"algo attribute {sep.algo}")
        require(isinstance(sep.separator, ops.CLASSES[k["algo"]]), f"{k['algo']} uses {type(sep.separator)}")
        outs.append(sep(tt(x)))
    compare(outs[0], outs[1], 1e-9, "name and enumeration member")
    return dict(states=2, transitions=2, validated=2, outcome=coarse(outs[0]))


def run_defaults(k):
    torch.set_default_dtype(torch.float64)
    x = sig.wave(2, 333, key=6)
    got = torchiva.nn.BSSSeparator(16)(tt(x))
    want = compose(x, torchiva.T_ISS(n_iter=20, n_taps=0, n_delay=0, n_src=None, model=torchiva.models.LaplaceModel(),
                                     proj_back_mic=0, use_dmc=False, eps=1e-5), 16, 4, window("hann", 16)[1])
    compare(got, want, 1e-6, "default parameters")
    return dict(states=1, transitions=2, outcome=coarse(got))


def run_attributes(k):
    """the number of iterations and of sources set on the object hold for the next call"""
    torch.set_default_dtype(torch.float64)
    algo, c = k["algo"], k["c"]
    x = sig.wave(c, 160, key=8)
    values = [dict(n_iter=i) for i in (0, 1, 4)] + ([dict(n_src=i) for i in (None, 1, c)] if algo == "tiss" else [])
    outs, n = set(), 0
    for word in itertools.product(values, repeat=3):
        sep = torchiva.nn.BSSSeparator(8, algo=algo, source_model=ops.Weights(), **PAR[algo])
        p = dict(PAR[algo])
        for change in word:
            for name, v in change.items():
                setattr(sep, name, v)
            p.update(change)
            got = sep(tt(x))
            compare(got, compose(x, direct(algo, ops.Weights(), p), 8, 2, window("hann", 8)[1]), 1e-6, f"attributes {p} after {word}")
            outs.add(coarse(got))
            n += 1
    return dict(states=n, transitions=n, validated=n, outcomes=outs)


def run_stateful(k):
    """every call starts from a reset model"""
    torch.set_default_dtype(torch.float64)
    algo = k["algo"]
    x = [sig.wave(2, n, key=7 + n) for n in (150, 150, 201)]
    m = ops.make_model(k["model"])
    sep = torchiva.nn.BSSSeparator(8, algo=algo, source_model=m, **PAR[algo])
    outs = set()
    for hist in itertools.product(range(3), repeat=2):
        for i in hist:
            torch.manual_seed(4)
            got = sep(tt(x[i]))
        torch.manual_seed(4)
        want = compose(x[hist[-1]], direct(algo, ops.make_model(k["model"]), PAR[algo]), 8, 2, window("hann", 8)[1])
        compare(got, want, 1e-6, f"history {hist}")
        outs.add(coarse(got))
    return dict(states=9, transitions=18, validated=9, outcomes=outs)
