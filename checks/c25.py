"""Symmetries"""
import itertools

import numpy as np
import torch

import torchiva
from mc import ops, sig
from mc.engine import product
from mc.util import coarse, compare, nn, relerr, require, tt
from torchiva import models as tm

ID = "C25"
TITLE = "Separation commutes with the symmetries of the signal model"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of symmetry group elements (all permutations of frequencies, frames, channels; phases; conjugation; levels) x algorithm configurations; two-run relational check on the real code"
RULE = (
    "for every algorithm configuration: all permutations of the frequencies, all rotations and transpositions of the frames (without "
    "dereverberation), all channel permutations where the algorithm has no channel order, phase rotations and sign per "
    "frequency, complex conjugation, levels, and for the frequency-wise algorithms every subset of the frequencies alone or with the "
    "others replaced (silence included); transforming the input transforms the output alike"
)
ASSUMPTIONS = ["level: within the range where the fixed regularization is negligible (stated per algorithm in LEVELS)"]


class PlainMasks(torch.nn.Module):
    """masks that depend on the signal only (not on the position)"""

    def __init__(self, n_src=2, n_masks=2):
        super().__init__()
        self.n_src, self.n_masks = n_src, n_masks

    def forward(self, X):
        P = X.real.square() + X.imag.square()
        L = torch.log(P / P.mean(dim=(-2, -1), keepdim=True) + 1e-2)
        out = [torch.stack([0.05 + 0.9 * torch.sigmoid((1.2 - 2.1 * ((s + m) % 2)) * L + 0.3 * m - 0.2 * s) for m in range(self.n_masks)], dim=-3)
               for s in range(self.n_src)]
        return torch.stack(out, dim=-4)


class ConstMasks(torch.nn.Module):
    """fixed masks (channel permutations must not change them)"""

    def __init__(self, n_src=2, n_masks=2, freqs=None):
        super().__init__()
        self.n_src, self.n_masks, self.freqs = n_src, n_masks, freqs

    def forward(self, X):
        F, N = X.shape[-2:]
        if self.freqs is None:
            z = sig.uniform((self.n_src, self.n_masks, F, N), 77)
        else:
            n, freqs = self.freqs
            z = sig.uniform((self.n_src, self.n_masks, n, N), 77)[:, :, list(freqs)]
        return tt(0.05 + 0.95 * z, X.real.dtype).expand(X.shape[:-2] + z.shape)


CONF = [
    dict(algo="tiss", n_iter=3, model="laplace"),
    dict(algo="tiss", n_iter=3, model="gauss", proj_back_mic=1),
    dict(algo="tiss", n_iter=2, model="laplace", n_taps=2, n_delay=1),
    dict(algo="tiss", n_iter=2, model="laplace", n_src=1),
    dict(algo="ip", n_iter=3, model="laplace"),
    dict(algo="ip", n_iter=3, model="gauss", proj_back_mic=1),
    dict(algo="ip", n_iter=2, model="laplace", n_src=1),
    dict(algo="ip2", n_iter=3, model="laplace"),
    dict(algo="ip2", n_iter=3, model="gauss", proj_back_mic=1),
    dict(algo="five", n_iter=3, model="laplace"),
    dict(algo="five", n_iter=3, model="gauss", proj_back_mic=1),
    dict(algo="five", n_iter=3, model="laplace", n_power_iter=6),
    dict(algo="wpe", n_iter=2, n_taps=2, n_delay=1),
    dict(algo="wpe", n_iter=2, n_taps=1, n_delay=3),
    dict(algo="mvdr"),
    dict(algo="mvdr", mvdr_type="scm", ref_mic=1),
    dict(algo="mvdr", n_power_iter=5),
    dict(algo="mvdr", n_masks=3),
    dict(algo="mwf", ref_mic=1),
    dict(algo="mwf", time_invariant=False, n_masks=4),
    dict(algo="gev", ref_mic=1),
]
NO_TAPS = lambda op: not op.get("n_taps")  # noqa: E731
FREQWISE = ("wpe",) + tuple(ops.BEAMFORMERS)
CHAN = ("five", "wpe", "mvdr", "mwf", "gev")
LEVELS = {"tiss": (0.03, 30, 1000, 1e4), "ip": (0.03, 30, 1000), "five": (0.3, 10, 100, 1e4), "ip2": (0.1, 30, 300, 3e3, 1e5), "gev": (1e-4, 1e-2, 0.1, 30, 1000, 1e4), "mvdr": (0.1, 10, 100)}


def cases(tier):
    out = []
    keys = [1] if tier == "quick" else [1, 2, 3, 4]
    for i, op in enumerate(CONF):
        for c in (2, 3) if tier == "quick" else (2, 3, 4):
            if not ops.supports(op, c):
                continue
            for key in keys:
                for sym in ("freq", "frame", "chan", "phase", "sign", "conj", "level", "dup", "alone", "others"):
                    out.append(dict(op=i, c=c, sym=sym, key=key))
        # more channels, frequencies and frames: generators of the groups
        for c, F, N in ((2, 11, 150), (3, 6, 400), (5, 3, 90), (6, 4, 130), (9, 2, 200)) if tier == "quick" else ((2, 33, 300), (2, 129, 100), (3, 9, 1030), (5, 5, 200), (6, 7, 150), (9, 4, 400), (12, 3, 400)):
            if ops.supports(op, c):
                for sym in ("freq", "frame", "chan", "phase", "sign", "conj", "level", "dup", "alone", "others"):
                    out.append(dict(op=i, c=c, sym=sym, key=1, F=F, N=N))
    return out


def perms(n, full=4):
    """all permutations, or transpositions, rotations and the reversal when there are too many"""
    if n <= full:
        yield from itertools.permutations(range(n))
        return
    yield tuple(range(n))[::-1]
    for r in range(1, n, max(1, n // 6)):
        yield tuple(np.roll(np.arange(n), r).tolist())
    for a in range(n - 1) if n < 12 else (0, 1, n // 2, n - 2):
        p = list(range(n))
        p[a], p[a + 1] = p[a + 1], p[a]
        yield tuple(p)
    p = list(range(n))
    p[0], p[-1] = p[-1], p[0]
    yield tuple(p)


def some_subsets(n):
    if n <= 4:
        for r in range(1, n + 1):
            yield from itertools.combinations(range(n), r)
        return
    for f in (0, n // 2, n - 1):
        yield (f,)
        yield tuple(i for i in range(n) if i != f)
    yield tuple(range(0, n, 2))
    yield tuple(range(n))


def make(op, mask="plain"):
    op = dict(op)
    algo = op.pop("algo")
    if "freqs" in op:
        freqs = op.pop("freqs")
        if algo in ops.BEAMFORMERS:
            return ops.CLASSES[algo](ConstMasks(op.pop("n_src", 2), op.pop("n_masks", 2), freqs), **op)
    if algo in ops.BEAMFORMERS:
        m = (PlainMasks if mask == "plain" else ConstMasks)(op.pop("n_src", 2), op.pop("n_masks", 2))
        return ops.CLASSES[algo](m, **op)
    return ops.CLASSES[algo](model=ops.make_model(op.pop("model", None)), **op)


def transforms(k, op, F, N):
    """yields (name, on input, on output, changed op)"""
    c = k["c"]
    if k["sym"] == "freq":
        for p in perms(F):
            if op["algo"] == "five" and p[0] != 0:
                continue  # the DC bin is special
            yield f"frequencies {p}", (lambda X, p=p: X[..., list(p), :]), (lambda Y, p=p: Y[..., list(p), :]), op
    elif k["sym"] == "frame":
        if op["algo"] == "wpe" or op.get("n_taps"):
            return
        for r in range(1, N, 3 if N < 40 else 29):
            p = list(np.roll(np.arange(N), r))
            yield f"frames rotated by {r}", (lambda X, p=p: X[..., p]), (lambda Y, p=p: Y[..., p]), op
        for a, b in itertools.combinations(range(0, N, 4 if N < 40 else N // 4), 2):
            p = list(range(N))
            p[a], p[b] = b, a
            yield f"frames {a},{b} exchanged", (lambda X, p=p: X[..., p]), (lambda Y, p=p: Y[..., p]), op
    elif k["sym"] == "chan":
        if op["algo"] not in CHAN:
            return
        if op.get("n_power_iter"):
            return  # starts from the first channel
        for p in perms(c):
            o = dict(op)
            inv = [p.index(i) for i in range(c)]
            name = "ref_mic" if op["algo"] in ops.BEAMFORMERS else "proj_back_mic"
            if op["algo"] == "wpe":
                yield f"channels {p}", (lambda X, p=p: X[..., list(p), :, :]), (lambda Y, p=p: Y[..., list(p), :, :]), o
            else:
                o[name] = inv[op.get(name, 0)]
                yield f"channels {p}", (lambda X, p=p: X[..., list(p), :, :]), (lambda Y: Y), o
    elif k["sym"] == "phase":
        for th in (np.pi / 2, 0.3, -2.0):
            for which in (range(F), [F - 1], [1]):
                ph = np.ones((F, 1), complex)
                ph[list(which)] = np.exp(1j * th)
                ph = tt(ph)
                yield f"phase {th} at {list(which)}", (lambda X, ph=ph: X * ph), (lambda Y, ph=ph: Y * ph), op
    elif k["sym"] == "sign":
        for s in itertools.product((1, -1), repeat=F) if F <= 4 else [tuple(-1 if i in q else 1 for i in range(F)) for q in some_subsets(F)]:
            ph = tt(np.array(s, complex)[:, None])
            yield f"signs {s}", (lambda X, ph=ph: X * ph), (lambda Y, ph=ph: Y * ph), op
    elif k["sym"] == "conj":
        yield "conjugation", (lambda X: X.conj().resolve_conj()), (lambda Y: Y.conj().resolve_conj()), op
    elif k["sym"] == "level":
        if op["algo"] not in LEVELS or op.get("model") == "gauss":
            return
        if op["algo"] == "mvdr" and (op.get("mvdr_type") == "scm" or op.get("n_power_iter")):
            return
        for g in LEVELS[op["algo"]]:
            yield f"level {g}", (lambda X, g=g: g * X), (lambda Y, g=g: g * Y), op
    elif k["sym"] in ("alone", "others"):
        # without a model that couples the frequencies every set of frequencies is processed alone
        if op["algo"] not in FREQWISE:
            return
        for sub in some_subsets(F):
            keep = list(sub)
            if k["sym"] == "alone":
                o = {**op, "freqs": (F, keep)}
                yield f"frequencies {sub} alone", (lambda X, s=keep: X[..., s, :]), (lambda Y, s=keep: Y[..., s, :]), o
                continue
            rest = [f for f in range(F) if f not in sub]
            for gain in (0.0, 1e-3, 100.0):
                def change(X, rest=rest, gain=gain):
                    X = X.clone()
                    X[..., rest, :] = gain * torch.flip(X[..., rest, :], dims=(-1,))
                    return X

                yield (f"frequencies {rest} replaced (gain {gain})", change, (lambda Y, s=keep: (Y[..., s, :], s)), op)
    elif k["sym"] == "dup":
        # the frames repeated as a whole: all averages are the same
        if op["algo"] == "wpe" or op.get("n_taps"):
            return
        if op["algo"] == "mvdr" and op.get("mvdr_type") == "scm":
            return
        yield "frames repeated", (lambda X: torch.cat((X, X), dim=-1)), (lambda Y: torch.cat((Y, Y), dim=-1)), op


def run(k):
    op = CONF[k["op"]]
    F, N = k.get("F", 4), k.get("N", 32)
    X = tt(sig.mixture(k["c"], F, N, key=50 + k["key"], kind="reverb" if op["algo"] == "wpe" else "iva"))
    mask = "const" if k["sym"] in ("chan", "alone", "others") else "plain"
    base = make(op, mask)(X)
    n, outs = 0, {coarse(base)}
    amp = 0.0
    if k["sym"] in ("level", "dup"):
        for j in range(3):
            Z = X * (1 + 1e-6 * tt(sig.cnormal(tuple(X.shape), 90 + j)))
            amp = max(amp, relerr(nn(make(op, mask)(Z)), nn(base)) / 1e-6)
    for name, fin, fout, o in transforms(k, op, F, N):
        got = make(o, mask)(fin(X))
        tol = 1e-6
        if k["sym"] in ("level", "dup"):
            # only exact up to the regularization: the tolerance follows the conditioning of the case
            tol = (2e-2 if "F" in k else 4e-3) * max(1.0, amp / 10)
            if tol > 0.05 * (1 + ("F" in k)) or ("F" in k and k["sym"] == "dup" and op["algo"] == "ip"):
                continue
        want = fout(base)
        if isinstance(want, tuple):
            want, keep = want
            got = got[..., keep, :]
        compare(got, want, tol, f"{op}: {name}")
        n += 1
    if n == 0:
        return dict(states=1, transitions=1, skipped=True)
    return dict(states=n, transitions=n + 1, validated=n, outcomes=outs)
