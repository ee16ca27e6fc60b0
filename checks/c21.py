"""Source models"""
import itertools

import numpy as np
import torch
import torch.nn.functional as F

import torchiva
from mc import ops, sig
from mc.engine import product
from mc.util import coarse, compare, nn, require, tt
from torchiva import models as tm

ID = "C21"
TITLE = "Source models compute their defining weights and masks"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of shapes, settings and the complete lattice of small spectrograms, lock-step agreement with reference models built from the checkpoint parameters; likelihood descent of the factorization over every prefix of updates"
RULE = (
    "full product model x setting x batch shape x frequencies x frames x precision x level, every small-integer spectrogram "
    "including silence for the closed-form models; formula, range, shape, batch layout, scale invariance; every prefix of "
    "up to 12 factorization updates for the non-negative factorization"
)
ASSUMPTIONS = ["eval mode", "factorization: exact zeros of the spectrogram excluded from the divergence"]

CLOSED = ("laplace", "gauss")
EPS = [None, 1e-5, 1e-2, 0.5]


def cases(tier):
    q = tier == "quick"
    out = []
    for k in product(model=list(CLOSED), eps=EPS, shape=[[1, 1], [3, 4], [1, 5], [4, 1], [2, 3, 4], [3, 1, 2, 5], [2, 3, 2, 4], [70, 2, 3, 5], [2, 1025, 40], [2, 5, 3000]],
                     level=[0.0, 1e-6, 1.0, 1e4], dt=["c128", "c64", "f64", "f32"]):
        out.append(dict(kind="closed", **k))
    for model in CLOSED:
        out.append(dict(kind="words", model=model))
    out.append(dict(kind="cost"))
    for k in product(basis=[1, 2, 3, 5], eps=[None, 1e-3], shape=[[3, 6], [2, 5, 7], [2, 2, 6, 4], [1, 8], [8, 1], [1, 4, 12], [129, 40], [5, 700], [70, 2, 3, 4]],
                     seed=[0, 1] if q else [0, 1, 2, 3], level=[1e-2, 1.0, 30.0]):
        out.append(dict(kind="nmf", **k))
    for basis, shape, power, seed in itertools.product([1, 2, 3, 5, 8], [[30, 6, 8], [30, 3, 4], [30, 2, 2], [30, 12, 30]], [0, 2, 6],
                                                       range(3 if q else 12)):
        out.append(dict(kind="nmf_peaky", basis=basis, shape=shape, power=power, seed=seed))
    for basis, shape, seed in itertools.product([1, 2, 3, 4], [[2, 3], [3, 2], [1, 4], [2, 2]], range(3 if q else 12)):
        out.append(dict(kind="nmf_words", basis=basis, shape=shape, seed=seed))
    out.append(dict(kind="nmf_reset"))
    for rank in (1, 2):
        out.append(dict(kind="nmf_fit", rank=rank))
    for k in product(net=["glu", "glu_ri", "blstm", "blstm_ri", "blstm_log", "simple", "mvdrsup"], f=[4, 5, 9],
                     n=[1, 2, 7, 20], batch=[[], [1], [3], [2, 2]], level=[1e-3, 1.0, 1e3]):
        if "blstm" in k["net"] and k["f"] < 5:
            k["f"] = 6
        out.append(dict(kind="net", **k))
    for net in ["glu", "glu_ri", "blstm", "blstm_ri", "blstm_log", "simple", "mvdrsup"]:
        for f, n, b in ((6, 600, []), (6, 2100, []), (6, 5000, [2]), (129, 40, [2]), (6, 9, [70]), (6, 9, [300]), (6, 9, [35, 2])):
            out.append(dict(kind="net", net=net, f=f, n=n, batch=b, level=1.0))
    for k in product(net=["glu", "glu_ri"], shape=[[5, 9], [1, 5, 9], [2, 5, 9], [2, 3, 5, 7], [33, 5, 4], [80, 5, 4], [40, 2, 5, 3], [300, 5, 2], [2, 5, 700]],
                     level=["same", "mixed"], sub=[1, 3]):
        out.append(dict(kind="glu_train", **k))
    for k in product(pool=[1, 2, 3], sub=[1, 2, 3], mag=[True, False], log=[True, False], kernel=[1, 3, 5]):
        out.append(dict(kind="glu_par", **k))
    for k in product(n_src=[1, 2, 3], n_masks=[1, 2, 3, 4], hidden=[3], layers=[1, 2, 3], eps=[1e-3, 0.1]):
        out.append(dict(kind="sup_par", **k))
    for net in ("glu", "glu_ri"):
        for g in (0.1, 3.0, 100.0, 1e4):
            out.append(dict(kind="scale", net=net, gain=g))
    return out


def run(k):
    return globals()["run_" + k["kind"]](k)


def closed(model, X, eps):
    P = np.abs(X.astype(complex)) ** 2
    eps = 1e-5 if eps is None else eps
    if model == "laplace":
        r = 2.0 * np.sqrt(P.sum(-2, keepdims=True))
    else:
        r = P.mean(-2, keepdims=True)
    return np.broadcast_to(1.0 / np.maximum(r, eps), X.shape)


def make_closed(model, eps):
    cls = {"laplace": tm.LaplaceModel, "gauss": tm.GaussModel}[model]
    return cls() if eps is None else cls(eps=eps)


def run_closed(k):
    X = k["level"] * sig.cnormal(tuple(k["shape"]), 5)
    if k["dt"] in ("f64", "f32"):
        X = X.real
    if k["dt"] in ("c64", "f32"):
        X = X.astype(np.complex64 if k["dt"] == "c64" else np.float32)
    Xt = tt(X)
    got = make_closed(k["model"], k["eps"])(Xt)
    require(not got.is_complex(), "weights are not real")
    require(got.dtype == Xt.real.dtype, f"dtype {got.dtype} for {Xt.dtype}")
    compare(got, closed(k["model"], X, k["eps"]), 1e-5 if k["dt"] in ("c64", "f32") else 1e-11, "weights")
    require(bool((got > 0).all()), "weights not positive")
    return dict(states=1, transitions=1, outcome=coarse(got))


def run_words(k):
    n, outs = 0, set()
    W = np.array(list(sig.words([0, 1, -2j], (2, 3)))) if True else None
    m = make_closed(k["model"], None)
    got = nn(m(tt(W.astype(complex))))
    compare(got, closed(k["model"], W.astype(complex), None), 1e-11, "all words")
    for w, g in zip(W[::7], got[::7]):
        compare(m(tt(w.astype(complex))), g, 1e-11, "single word")
        n += 1
    return dict(states=len(W), transitions=len(W) + n, validated=len(W), outcome=coarse(got))


def run_cost(k):
    for shape in ((2, 3, 4), (2, 2, 3, 4)):
        X = sig.cnormal(shape, 6)
        want = np.sqrt((np.abs(X) ** 2).sum(-2)).mean(-1).sum(-1)
        compare(tm.LaplaceModel().cost(tt(X)), want, 1e-11, "cost")
    return dict(states=2, transitions=2)


def isdiv(P, R):
    with np.errstate(all="ignore"):
        return (P / R - np.log(P / R) - 1).sum((-2, -1))


def run_nmf(k):
    shape = tuple(k["shape"])
    eps = 1e-5 if k["eps"] is None else k["eps"]
    X = k["level"] * sig.mixture(1, shape[-2], shape[-1], key=4, batch=shape[:-2], kind="noise")[..., 0, :, :] if shape[:-2] else \
        k["level"] * sig.cnormal(shape, 8)
    P = np.abs(X) ** 2
    m = tm.NMFModel(n_basis=k["basis"]) if k["eps"] is None else tm.NMFModel(n_basis=k["basis"], eps=k["eps"])
    torch.manual_seed(k["seed"])
    prev = None
    outs = set()
    Xt = tt(X)
    clamped = False
    for it in range(12):
        W = nn(m(Xt))
        require(W.shape == X.shape, f"shape {W.shape}")
        require(np.all(np.isfinite(W)) and np.all(W > 0), "weights not finite and positive")
        require(W.max() <= 1.0 / eps * (1 + 1e-9), "weights exceed 1/eps")
        R = 1.0 / W
        clamped |= bool((R <= eps * (1 + 1e-6)).any())
        if not clamped:
            s = np.linalg.svd(R, compute_uv=False)
            if s.shape[-1] > k["basis"]:
                require(np.all(s[..., k["basis"]] <= 1e-9 * s[..., 0]), f"rank of the model exceeds {k['basis']} after {it} updates")
            D = isdiv(P, R)
            if prev is not None:
                require(np.all(D <= prev + 1e-7 * (1 + np.abs(prev))), f"divergence increased at update {it}: {prev} -> {D}")
            prev = D
    # single items
    if len(shape) > 2:
        require(np.array_equal(nn(Xt), X), "input modified")
    return dict(states=12, transitions=12, validated=12, outcome=coarse(W))


def descend(P, basis, seed, n_iter, tol=1e-8):
    """no update increases the divergence, while the floor of the model is not reached"""
    eps = 1e-40
    m = tm.NMFModel(n_basis=basis, eps=eps)
    torch.manual_seed(seed)
    X = tt(np.sqrt(P))
    prev = None
    live = np.ones(P.shape[0], bool)
    for it in range(n_iter):
        W = nn(m(X))
        R = 1.0 / W
        # the factors are limited too: stop long before
        live &= (R.min((-2, -1)) > 1e-36)
        D = np.log(R).sum((-2, -1)) + (P / R).sum((-2, -1))
        if prev is not None:
            bad = live & (D > prev + tol * (1 + np.abs(prev)))
            require(not bad.any(), f"divergence increased at update {it} for the spectrogram {P[np.argmax(bad)].tolist()}")
        prev = D
    return dict(states=int(P.shape[0]), transitions=n_iter * int(P.shape[0]), validated=int(live.sum()) * n_iter, outcome=coarse(prev))


def run_nmf_peaky(k):
    shape = tuple(k["shape"])
    P = (sig.normal(shape, 11 + k["seed"]) * sig.uniform(shape, 12 + k["seed"]) ** k["power"]) ** 2
    return descend(P, k["basis"], k["seed"], 15)


def run_nmf_words(k):
    """all spectrograms of a few powers"""
    f, n = k["shape"]
    P = np.array(list(itertools.product([1e-4, 1.0, 30.0], repeat=f * n))).reshape(-1, f, n)
    return descend(P, k["basis"], k["seed"], 15)


def run_nmf_reset(k):
    """after a reset the model starts anew, whatever it saw"""
    m = tm.NMFModel(n_basis=2)
    X = [tt(sig.cnormal(s, i)) for i, s in enumerate(((2, 4, 6), (3, 5, 7), (1, 4, 6), (2, 2, 4, 6)))]
    fresh = []
    for x in X:
        torch.manual_seed(1)
        f = tm.NMFModel(n_basis=2)
        fresh.append([f(x).clone() for _ in range(3)])
    n = 0
    for hist in itertools.product(range(4), repeat=3):
        for i in hist:
            m.reset()
            torch.manual_seed(1)
            for j in range(3):
                got = m(X[i])
                compare(got, fresh[i][j], 1e-12, f"history {hist}, update {j}")
                n += 1
    return dict(states=64, transitions=n, validated=64, outcome="reset")


def run_nmf_fit(k):
    """a power spectrogram of the rank of the model is fitted"""
    r = k["rank"]
    T = 0.2 + sig.uniform((2, 6, r), 1)
    V = 0.2 + sig.uniform((2, r, 9), 2)
    P = T @ V
    m = tm.NMFModel(n_basis=r)
    torch.manual_seed(0)
    for _ in range(3000 if r > 1 else 200):
        W = m(tt(np.sqrt(P).astype(complex)))
    compare(1.0 / nn(W), P, 1e-3 if r == 1 else 5e-2, "fitted power")
    return dict(states=1, transitions=200, outcome=coarse(W))


# --- reference networks, from the parameters as stored in a checkpoint
def lstm(sd, pre, x, layers):
    """x (T, B, I) -> (T, B, 2H), gates i f g o"""
    for l in range(layers):
        outs = []
        for suf, rev in (("", False), ("_reverse", True)):
            wi, wh = sd[f"{pre}.weight_ih_l{l}{suf}"], sd[f"{pre}.weight_hh_l{l}{suf}"]
            b = sd[f"{pre}.bias_ih_l{l}{suf}"] + sd[f"{pre}.bias_hh_l{l}{suf}"]
            H = wh.shape[1]
            h = x.new_zeros(x.shape[1], H)
            c = h.clone()
            ys = [None] * x.shape[0]
            for t in range(x.shape[0])[:: -1 if rev else 1]:
                g = x[t] @ wi.T + h @ wh.T + b
                i, f, gg, o = g[:, :H].sigmoid(), g[:, H : 2 * H].sigmoid(), g[:, 2 * H : 3 * H].tanh(), g[:, 3 * H :].sigmoid()
                c = f * c + i * gg
                h = o * c.tanh()
                ys[t] = h
            outs.append(torch.stack(ys))
        x = torch.cat(outs, -1)
    return x


def bn(sd, pre, x):
    g, b, m, v = (sd[f"{pre}.{n}"][:, None] for n in ("weight", "bias", "running_mean", "running_var"))
    if sd.get("training"):  # the statistics of the whole batch
        n = x.shape[0] * x.shape[-1]
        mean, var = x.mean((0, 2))[:, None], x.var((0, 2), unbiased=False)[:, None]
        sd["running"][pre] = (0.9 * m + 0.1 * mean, 0.9 * v + 0.1 * var * n / (n - 1))
        m, v = mean, var
    return (x - m) / torch.sqrt(v + 1e-5) * g + b


def conv(x, w, b, transposed):
    pad = w.shape[-1] // 2
    if transposed:
        w = w.transpose(0, 1).flip(-1)
        # the transposed convolution with stride 1 is a convolution with the flipped kernel
        return F.conv1d(x, w, b, padding=w.shape[-1] - 1 - pad)
    return F.conv1d(x, w, b, padding=pad)


def glu_ref(sd, X, n_bottleneck, pool, n_sub, mag, log):
    B = X.shape[:-2]
    Fq, N = X.shape[-2:]
    x = X.reshape(-1, Fq, N)
    P = x.real**2 + x.imag**2
    g = P.mean((-2, -1), keepdim=True).clamp(min=1e-5)
    if mag:
        z = P / g.clamp(min=1e-5)
    else:
        z = x / torch.sqrt(g).clamp(min=1e-5)
        z = torch.cat((z.real, z.imag), dim=-2)
    if log:
        z = torch.log10(z.abs() + 1e-7)
    for layer, subs in ((0, 1), (1, n_sub), (3, n_sub)):
        for s in range(subs):
            pre = f"layers.{layer}"
            wl, wg = sd[f"{pre}.lin_layers.{s}.weight"], sd[f"{pre}.gate_layers.{s}.weight"]
            n_in = z.shape[-2]
            # the last layers expand when the input is smaller than the output
            tr = LAYER_TRANSPOSED(layer, X, n_bottleneck, mag)
            G = conv(z, wg, sd[f"{pre}.gate_layers.{s}.bias"], tr)
            L = conv(z, wl, sd[f"{pre}.lin_layers.{s}.bias"], tr)
            z = torch.sigmoid(bn(sd, f"{pre}.gate_bn_layers.{s}", G)) * bn(sd, f"{pre}.lin_bn_layers.{s}", L)
            z = z.reshape(z.shape[0], -1, pool, z.shape[-1]).amax(2)
    z = conv(z, sd["layers.4.weight"], sd["layers.4.bias"], True)
    w = torch.sigmoid(z) * (1 - 1e-5) + 1e-5
    return w.reshape(B + (Fq, N))


def LAYER_TRANSPOSED(layer, X, n_bottleneck, mag):
    n_in = X.shape[-2] * (1 if mag else 2)
    return layer == 0 and n_in < n_bottleneck


def net_ref(name, m, X, **kw):
    sd = {n: v.double() for n, v in m.state_dict().items() if v.is_floating_point()}
    B, (Fq, N) = X.shape[:-2], X.shape[-2:]
    x = X.reshape(-1, Fq, N)
    if name.startswith("glu"):
        return glu_ref(sd, X, kw["n_bottleneck"], kw.get("pool", 2), kw.get("n_sub", 1), kw.get("mag", True), kw.get("log", True))
    if name == "mvdrsup":
        z = torch.log(1.0 + x.abs())
        z = lstm(sd, "blstm", z.permute(2, 0, 1), kw.get("layers", 3))
        z = F.relu(z @ sd["ff1.weight"].T + sd["ff1.bias"])
        z = torch.sigmoid(z @ sd["ff2.weight"].T + sd["ff2.bias"])
        eps = kw.get("eps", 1e-3)
        z = z * (1 - eps) + eps
        z = z.reshape(N, -1, kw["n_src"], kw["n_masks"], Fq).permute(1, 2, 3, 4, 0)
        return z.reshape(B + z.shape[1:])
    fb = sd["mel_layer.fb"]  # (F, M)
    if name == "simple":
        z = torch.einsum("bfn,fm->bmn", x.abs() ** 2, fb)
        z = 10 * torch.log10(1e-6 + z).transpose(-2, -1)
        z = z @ sd["hidden.weight"].T + sd["hidden.bias"]
        z = z @ sd["output_mapping.weight"].T + sd["output_mapping.bias"]
        z = torch.sigmoid(1e-6 + (1 - 1e-6) * z).transpose(-2, -1)
        return z.reshape(B + (Fq, N))
    if name == "blstm_ri":
        z = torch.cat((torch.einsum("bfn,fm->bmn", x.real, fb), torch.einsum("bfn,fm->bmn", x.imag, fb)), dim=-2)
    else:
        z = torch.einsum("bfn,fm->bmn", x.real**2 + x.imag**2, fb)
        if name == "blstm_log":
            z = torch.log(z + 1e-7)
    z = lstm(sd, "blstm", z.permute(2, 0, 1), 3).permute(1, 2, 0)
    z = torch.einsum("oh,bhn->bon", sd["output_layer.weight"][..., 0], z) + sd["output_layer.bias"][:, None]
    return (torch.sigmoid(z) * (1 - 1e-5) + 1e-5).reshape(B + (Fq, N))


def shake(m, seed=2):
    """parameters and running statistics away from their initial values"""
    with torch.random.fork_rng():
        torch.manual_seed(seed)
        with torch.no_grad():
            for n, v in m.state_dict().items():
                if "mel_layer" in n or not v.is_floating_point():
                    continue
                v.add_((0.3 * torch.rand(v.shape) + 0.05).to(v.dtype))
    return m


KW = {
    "glu": dict(n_bottleneck=4, n_sub=2), "glu_ri": dict(n_bottleneck=4, mag=False, log=False),
    "mvdrsup": dict(n_src=2, n_masks=2),
}


def check_net(name, m, X, kw, lo, what):
    Xt = tt(X)
    got = m(Xt)
    want = net_ref(name, m, Xt, **kw)
    require(tuple(got.shape) == tuple(want.shape), f"{what}: shape {tuple(got.shape)} instead of {tuple(want.shape)}")
    compare(got, want, 1e-9, what)
    require(bool((got >= lo).all()) and bool((got <= 1).all()), f"{what}: outside [{lo}, 1]")
    compare(m(Xt), got, 1e-12, "the same input again")
    return coarse(got)


def run_net(k):
    m = shake(ops.small_net(k["net"], k["f"]))
    X = k["level"] * sig.cnormal(tuple(k["batch"]) + (k["f"], k["n"]), 9)
    lo = {"mvdrsup": 1e-3, "simple": 0.0}.get(k["net"], 1e-5)
    o = check_net(k["net"], m, X, KW.get(k["net"], {}), lo, k["net"])
    return dict(states=1, transitions=2, outcome=o)


def run_glu_train(k):
    """training mode: normalization by the statistics of all signals and frames, followed by the running ones"""
    mag = k["net"] == "glu"
    torch.manual_seed(0)
    m = shake(tm.GLUMask(k["shape"][-2], 4, dropout_p=0.0, mag_spec=mag, log_spec=mag, n_sublayers=k["sub"]).double().train())
    X = sig.cnormal(tuple(k["shape"]), 9)
    if k["level"] == "mixed":
        X = X * np.exp(2 * sig.normal(X.shape[:-2] + (1,) + X.shape[-1:], 4))
    Xt = tt(X)
    outs = set()
    for call in range(3):
        sd = {n: v.clone() for n, v in m.state_dict().items() if v.is_floating_point()}
        sd.update(training=True, running={})
        want = glu_ref(sd, Xt, 4, 2, k["sub"], mag, mag)
        got = m(Xt)
        compare(got, want, 1e-9, f"{k}: call {call}")
        after = m.state_dict()
        for pre, (mean, var) in sd["running"].items():
            compare(after[f"{pre}.running_mean"], mean[:, 0], 1e-9, f"{k}: running mean after call {call}")
            compare(after[f"{pre}.running_var"], var[:, 0], 1e-9, f"{k}: running variance after call {call}")
        outs.add(coarse(got))
        Xt = torch.flip(Xt, dims=(-1,)) * 1.7
    return dict(states=3, transitions=3, validated=3, outcomes=outs)


def run_glu_par(k):
    outs = set()
    for f in (3, 6):
        torch.manual_seed(0)
        m = tm.GLUMask(f, 4, pool_size=k["pool"], kernel_size=k["kernel"], mag_spec=k["mag"], log_spec=k["log"], n_sublayers=k["sub"])
        m = shake(m.double().eval())
        kw = dict(n_bottleneck=4, pool=k["pool"], n_sub=k["sub"], mag=k["mag"], log=k["log"])
        outs.add(check_net("glu", m, sig.cnormal((2, f, 8), 3), kw, 1e-5, f"GLU {k}"))
    return dict(states=2, transitions=4, validated=2, outcomes=outs)


def run_sup_par(k):
    torch.manual_seed(0)
    m = tm.MaskMVDRSupport(n_src=k["n_src"], n_masks=k["n_masks"], n_input=5, n_hidden=k["hidden"], n_layers=k["layers"], eps=k["eps"])
    m = shake(m.double().eval())
    o = check_net("mvdrsup", m, sig.cnormal((2, 5, 6), 3), dict(n_src=k["n_src"], n_masks=k["n_masks"], layers=k["layers"], eps=k["eps"]),
                  k["eps"], f"{k}")
    return dict(states=1, transitions=2, outcome=o)


def run_scale(k):
    """the normalized network does not depend on the level of the signal"""
    m = shake(ops.small_net(k["net"], 5))
    X = tt(sig.cnormal((2, 5, 12), 3))
    compare(m(k["gain"] * X), m(X), 1e-6, f"gain {k['gain']}")
    return dict(states=1, transitions=2, outcome=coarse(m(X)))
