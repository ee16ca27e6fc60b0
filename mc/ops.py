"""Separators, beamformers and models of the package, built from JSON-able descriptions
through the public API."""
import torch

import torchiva
from torchiva import models as tm


class Weights(torch.nn.Module):
    """A stateless source model: positive weights depending on the whole spectrogram of
    the source, different for every frequency and frame."""

    def __init__(self, gain=1.0):
        super().__init__()
        self.a = torch.nn.Parameter(torch.tensor(0.7, dtype=torch.float64))
        self.gain = gain

    def forward(self, X):
        P = X.real.square() + X.imag.square()
        F, N = P.shape[-2:]
        f = torch.arange(F, dtype=P.dtype, device=P.device) / F
        n = torch.arange(N, dtype=P.dtype, device=P.device) / N
        a = self.a.to(P.dtype)
        tot = P.mean(dim=-2, keepdim=True)
        slope = 1.0 + 0.3 * f[:, None] + 0.2 * n
        return self.gain * slope / (0.05 + a * tot + (1 - a) * P)


class Running(torch.nn.Module):
    """A stateful source model with a reset method (deterministic)"""

    def __init__(self, eps=1e-3):
        super().__init__()
        self.eps = eps
        self.reset()

    def reset(self):
        self.P = None

    def forward(self, X):
        P = (X.real.square() + X.imag.square()).detach()
        P = P.mean(dim=-2, keepdim=True).expand(P.shape)
        if self.P is not None:
            P = 0.6 * P + 0.4 * self.P
        self.P = P
        return 1.0 / (P + self.eps)


class Masks(torch.nn.Module):
    """(..., F, N) -> (..., n_src, n_masks, F, N) in (0.05, 1)"""

    def __init__(self, n_src=2, n_masks=2, shift=0.0):
        super().__init__()
        self.n_src, self.n_masks, self.shift = n_src, n_masks, shift
        self.a = torch.nn.Parameter(torch.tensor(1.0, dtype=torch.float64))

    def forward(self, X):
        P = X.real.square() + X.imag.square()
        F, N = P.shape[-2:]
        f = torch.arange(F, dtype=P.dtype, device=P.device)
        n = torch.arange(N, dtype=P.dtype, device=P.device)
        L = torch.log(P / P.mean(dim=(-2, -1), keepdim=True).clamp(min=1e-30) + 1e-2)
        L = self.a.to(P.dtype) * L
        out = []
        for s in range(self.n_src):
            row = []
            for m in range(self.n_masks):
                c = (1.3 if (m % 2 == 0) else -1.1) * (1.0 if s % 2 == 0 else -0.8)
                ph = 0.9 * s + 0.5 * m + self.shift
                z = c * L + 1.5 * torch.sin(2.1 * n + ph) + 0.4 * torch.cos(1.7 * f[:, None] + ph)
                row.append(0.05 + 0.95 * torch.sigmoid(z))
            out.append(torch.stack(row, dim=-3))
        return torch.stack(out, dim=-4)


def small_net(name, n_freq, seed=0, n_src=2, n_masks=2, double=True):
    state = torch.get_rng_state()
    torch.manual_seed(seed)
    try:
        if name == "glu":
            m = tm.GLUMask(n_freq, 4, n_sublayers=2)
        elif name == "glu_ri":
            m = tm.GLUMask(n_freq, 4, mag_spec=False, log_spec=False)
        elif name == "blstm":
            m = tm.BLSTMMask(n_freq, 3, n_hidden=4)
        elif name == "blstm_ri":
            m = tm.BLSTMMask(n_freq, 3, n_hidden=4, mag_spec=False)
        elif name == "blstm_log":
            m = tm.BLSTMMask(n_freq, 3, n_hidden=4, log_spec=True)
        elif name == "simple":
            m = tm.SimpleModel(n_freq, n_mels=3)
        elif name == "mvdrsup":
            m = tm.MaskMVDRSupport(n_src=n_src, n_masks=n_masks, n_input=n_freq, n_hidden=5)
        else:
            raise KeyError(name)
    finally:
        torch.set_rng_state(state)
    m.eval()
    return m.double() if double else m


def make_model(name, n_freq=None, **kw):
    if name is None:
        return None
    if name == "laplace":
        return tm.LaplaceModel(**kw)
    if name == "gauss":
        return tm.GaussModel(**kw)
    if name == "nmf":
        return tm.NMFModel(**kw)
    if name == "weights":
        return Weights()
    if name == "weights2":
        return Weights(gain=3.0)
    if name == "running":
        return Running()
    return small_net(name, n_freq)


CLASSES = {
    "tiss": torchiva.T_ISS,
    "ip": torchiva.AuxIVA_IP,
    "ip2": torchiva.AuxIVA_IP2,
    "five": torchiva.FIVE,
    "wpe": torchiva.WPE,
    "mvdr": torchiva.MVDRBeamformer,
    "mwf": torchiva.MWFBeamformer,
    "gev": torchiva.GEVBeamformer,
}
BEAMFORMERS = ("mvdr", "mwf", "gev")


def make_algo(op, n_freq=None):
    """op: dict(algo=..., model=..., <constructor parameters>)"""
    op = dict(op)
    algo = op.pop("algo")
    cls = CLASSES[algo]
    if algo in BEAMFORMERS:
        n_src, n_masks = op.pop("n_src", 2), op.pop("n_masks", 2)
        name = op.pop("model", "masks")
        if name == "masks":
            model = Masks(n_src, n_masks)
        else:
            model = small_net(name, n_freq, n_src=n_src, n_masks=n_masks)
        return cls(model, **op)
    model = make_model(op.pop("model", None), n_freq)
    return cls(model=model, **op)


def out_sources(op, n_chan):
    if op["algo"] == "five":
        return 1
    if op["algo"] == "wpe":
        return n_chan
    if op["algo"] in BEAMFORMERS:
        return op.get("n_src", 2)
    if op["algo"] == "ip2":
        return 2
    return op.get("n_src") or n_chan


# every separation method in a handful of representative modes
ALGOS = [
    dict(algo="tiss", n_iter=2),
    dict(algo="tiss", n_iter=2, model="gauss", proj_back_mic=None),
    dict(algo="tiss", n_iter=2, model="weights", n_taps=2, n_delay=1, proj_back_mic=1),
    dict(algo="tiss", n_iter=2, model="laplace", n_src=2, n_taps=1),
    dict(algo="tiss", n_iter=2, model="weights", n_taps=2, use_dmc=True),
    dict(algo="ip", n_iter=2),
    dict(algo="ip", n_iter=2, model="weights", n_src=2, proj_back_mic=1),
    dict(algo="ip2", n_iter=2),
    dict(algo="ip2", n_iter=2, model="weights", proj_back_mic=1),
    dict(algo="five", n_iter=2),
    dict(algo="five", n_iter=2, model="weights", n_power_iter=3, proj_back_mic=1),
    dict(algo="wpe", n_iter=2, n_taps=2, n_delay=1),
    dict(algo="wpe", n_iter=2, n_taps=3, n_delay=0, model="wpegauss"),
    dict(algo="mvdr"),
    dict(algo="mvdr", mvdr_type="scm", ref_mic=1),
    dict(algo="mvdr", n_power_iter=3, n_src=1),
    dict(algo="mvdr", n_masks=3, ref_mic=1),
    dict(algo="mwf", ref_mic=1),
    dict(algo="mwf", time_invariant=False, n_masks=4),
    dict(algo="gev", ref_mic=1),
]


class WpeGauss(torch.nn.Module):
    """(..., C, F, N) -> (..., F, N), the weights used by WPE"""

    def forward(self, Y):
        P = (Y.real.square() + Y.imag.square()).mean(dim=-3)
        return 1.0 / (P + 0.01 + 0.1 * P.mean(dim=-2, keepdim=True))


_make_model = make_model


def make_model(name, n_freq=None, **kw):  # noqa: F811
    if name == "wpegauss":
        return WpeGauss()
    return _make_model(name, n_freq, **kw)


def min_chan(op):
    return 2


def supports(op, n_chan):
    if op["algo"] == "ip2":
        return n_chan == 2
    if op["algo"] in ("tiss", "ip") and op.get("n_src"):
        return op["n_src"] <= n_chan
    for k in ("proj_back_mic", "ref_mic"):
        if op.get(k) is not None and op[k] >= n_chan:
            return False
    return True
