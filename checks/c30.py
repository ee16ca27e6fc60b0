"""Training data pipeline"""
import itertools
import json
import shutil
import sys
import tempfile
from pathlib import Path

import numpy as np
import torch

from mc.engine import REPO
from mc.util import require

ID = "C30"
TITLE = "Training batches are complete, aligned, and clipped at the chosen percentile"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive exploration of loader schedules, interrupted epochs, crops and every outcome of the random choices on the real training scripts"
RULE = (
    "interleaved loaders: all tuples of loader lengths, all points at which up to 2 epochs are interrupted, against the round robin; crops: all small "
    "integer lengths and offsets; batches of all tuples of lengths; dataset: all settings x all permutations of the channels and draws of the "
    "reference (the random choices are enumerated); gradient clipping: all words of gradient norms against the percentile"
)
ASSUMPTIONS = ["audio files are served by a stand-in of torchaudio.load", "finite gradients"]
CHUNK = 8
EX = REPO / "examples"


def scripts():
    if str(EX) not in sys.path:
        sys.path.insert(0, str(EX))
    import autoclip_module
    import dataloader

    return dataloader, autoclip_module


def cases(tier):
    q = tier == "quick"
    out = []
    m = 3 if q else 4
    for n in range(0, m + 1):
        for lens in itertools.product(range(m + 1), repeat=n):
            if sum(lens) <= (7 if q else 9):
                out.append(dict(kind="loaders", lens=list(lens)))
    for n_target in range(1, 9 if q else 12):
        for n_mix in range(1, 13 if q else 16):
            out.append(dict(kind="crop", n_target=n_target, n_mix=n_mix))
    for n in range(1, 4 if q else 5):
        for lens in itertools.product(range(1, 6), repeat=n):
            out.append(dict(kind="collate", lens=list(lens)))
    for c in (1, 2, 3) if q else (1, 2, 3, 4):
        for ref, shuffle, sref, reverb, noiseless, max_len in itertools.product(range(c), (0, 1), (0, 1), (0, 1), (0, 1), (None, 8, 1000)):
            out.append(dict(kind="dataset", c=c, ref=ref, shuffle=shuffle, sref=sref, reverb=reverb, noiseless=noiseless, max_len=max_len))
    for p in (0, 10, 25, 50, 75, 90, 100):
        out.append(dict(kind="clip", p=p, depth=4 if q else 6))
    return out


def run(k):
    return globals()["run_" + k["kind"]](k, *scripts())


# --- interleaved loaders
class Loader:
    def __init__(self, name, n):
        self.name, self.n, self.epoch = name, n, 0

    def __len__(self):
        return self.n

    def __iter__(self):
        return iter([(self.name, i) for i in range(self.n)])


def round_robin(lens):
    left = {i: n for i, n in enumerate(lens)}
    order, out = list(left), []
    pos = {i: 0 for i in left}
    while any(left.values()):
        j = next(i for i, o in enumerate(order) if left[o])
        o = order[j]
        out.append((o, pos[o]))
        pos[o] += 1
        left[o] -= 1
        order = order[j + 1:] + order[:j + 1]
    return out


def run_loaders(k, dl, ac):
    n = sum(k["lens"])
    states = 0
    for a, b in itertools.product(range(n + 1), repeat=2):
        it = dl.InterleavedLoaders([Loader(i, m) for i, m in enumerate(k["lens"])])
        require(len(it) == n, f"length {len(it)} instead of {n}")
        want = round_robin(k["lens"])
        for stop in (a, b):
            # an epoch that is interrupted after so many batches is continued by the next loop
            got = []
            for _ in range(stop):
                got.append(next(iter(it)))
            for x in it:
                got.append(x)
                require(len(got) <= n, "more batches than there are")
            require(sorted(got) == sorted(want), f"an epoch served {got}")
            require(got == want, f"order {got} instead of the round robin {want}")
            states += 1
    return dict(states=states, transitions=2 * n * states, outcome=f"{len(k['lens'])}")


# --- crops
def run_crop(k, dl, ac):
    T, M = k["n_target"], k["n_mix"]
    n = 0
    spans = [(o, l) for o in range(M) for l in range(1, M - o + 1)]
    for (o1, l1), (o2, l2) in itertools.product(spans, repeat=2):
        s, e = dl.compute_interval(T, M, [l1, l2], [o1, o2])
        n += 1
        require(0 <= s <= e <= M and e - s == min(T, M), f"crop [{s}, {e}) of {M} samples for a length of {T}")
        # centered on the overlap, as far as the borders allow
        mid = 0.5 * (max(o1, o2) + min(o1 + l1, o2 + l2))
        best = min(abs(x + T / 2 - mid) for x in range(M - T + 1)) if T < M else None
        require(best is None or abs(s + T / 2 - mid) <= best + 1, f"crop [{s}, {e}) is not at {mid}: {(o1, l1, o2, l2)}")
        left, right = max(o1, o2), min(o1 + l1, o2 + l2)
        if T < M and 0 < right - left <= T - 1:
            require(s <= left and right <= e, f"crop [{s}, {e}) cuts the overlap [{left}, {right})")
    return dict(states=n, transitions=n, outcome=f"{min(T, M)}")


# --- batches
def run_collate(k, dl, ac):
    L = max(k["lens"])
    batch = [(torch.arange(1, 3 * n + 1).reshape(3, n).float() + 100 * b, -torch.arange(1, 2 * n + 1).reshape(2, n).float() - 100 * b) for b, n in enumerate(k["lens"])]
    extra = [(d, t, [b, b + 1.0, b + 2.0], torch.full((3, 3), float(b)), [[b, 0.0, 1.0], [b, 2.0, 3.0]]) for b, (d, t) in enumerate(batch)]
    copies = [(d.clone(), t.clone()) for d, t in batch]
    for out in (dl.collator(batch), dl.collator_6ch(extra)):
        require(out[0].shape == (len(batch), 3, L) and out[1].shape == (len(batch), 2, L), "shape of the batch")
        for b, (d, t) in enumerate(copies):
            for got, want in zip(out[:2], (d, t)):
                nz = torch.nonzero(got[b, 0])[:, 0]
                o, n = int(nz[0]), want.shape[-1]
                require(torch.equal(got[b, :, o : o + n], want), "signal cut or altered")
                require(got[b].count_nonzero() == want.numel(), "padding is not zero")
                require(abs(o - (L - n) / 2) < 1, "signal is not centered")
            require(int(torch.nonzero(out[0][b, 0])[0]) == int(torch.nonzero(out[1][b, 0])[0]), "mixture and reference are not aligned")
        if len(out) == 5:
            for b in range(len(batch)):
                require(out[2][b].tolist() == extra[b][2] and torch.equal(out[3][b], extra[b][3]) and out[4][b].tolist() == extra[b][4], "positions of another item")
    require(all(torch.equal(a[i], b[i]) for a, b in zip(batch, copies) for i in (0, 1)), "an example was modified")
    return dict(states=len(batch), transitions=2 * len(batch), outcome=f"{len(batch)}")


# --- dataset
def run_dataset(k, dl, ac):
    """sample values encode file, channel and time"""
    c, n, fs = k["c"], 20, 10
    d = Path(tempfile.mkdtemp(prefix="vp_c30_"))
    rooms = {}
    kinds = ["mixed_noise_reverb", "mixed_reverberant", "image_reverberant", "image_anechoic"]
    content = {}
    for r in range(3):
        names = {}
        for j, kind in enumerate(kinds):
            for s in range(2 if "image" in kind else 1):
                p = f"wav/{kind}/{r}_{s}.wav"
                t = torch.arange(1, n + 1).float()
                silent = r == 1 and "image" in kind and s == 1  # a source that is missing
                content[p] = torch.stack([0 * t if silent else 1e4 * (r + 1) + 1e3 * (2 * j + s) + 100 * (ch + 1) + t for ch in range(c)])
                names.setdefault(kind, []).append("/original/place/" + p)
        rooms[f"{r:05d}"] = dict(
            wav_mixed_noise_reverb=names[kinds[0]][0], wav_dpath_mixed_reverberant=names[kinds[1]][0], wav_dpath_image_reverberant=names[kinds[2]],
            wav_dpath_image_anechoic=names[kinds[3]], wav_n_samples_original=[12, 14], wav_offset=[2, 4])
    with open(d / "mixinfo_noise.json", "w") as f:
        json.dump(rooms, f)

    def load(fn):
        return content[str(Path(fn).relative_to(d))].clone(), fs

    perms = list(itertools.permutations(range(c))) if k["shuffle"] else [tuple(range(c))]
    refs = list(range(c)) if k["sref"] else [None]
    count = 0
    real = torch.randperm, torch.randint, dl.torchaudio.load, dl.random.randint
    try:
        dl.torchaudio.load = load
        for limit in (None, 2):
            ds = dl.WSJ1SpatialDataset(d, max_len_s=None if k["max_len"] is None else k["max_len"] / fs, ref_mic=k["ref"], shuffle_channels=bool(k["shuffle"]),
                                       shuffle_ref=bool(k["sref"]), ref_is_reverb=bool(k["reverb"]), noiseless=bool(k["noiseless"]), max_n_samples=limit)
            require(len(ds) == (limit or 3), "number of examples")
            for perm, ref, i, other in itertools.product(perms, refs, range(len(ds)), (0, len(ds) - 1)):
                if other == 1 and k["max_len"]:
                    continue  # would draw the silent example forever
                torch.randperm = lambda m, *a, **b: torch.tensor(perm)
                torch.randint = lambda *a, **b: torch.tensor([ref])
                dl.random.randint = lambda a, b: other
                mix, target = ds[i]
                count += 1
                r = other if i == 1 and k["max_len"] else i  # silent examples are replaced
                w_mix = content[f"wav/{kinds[1] if k['noiseless'] else kinds[0]}/{r}_0.wav"][list(perm)]
                ch = ref if k["sref"] else perm[k["ref"]]
                w_ref = torch.stack([content[f"wav/{kinds[2] if k['reverb'] else kinds[3]}/{r}_{s}.wav"][ch] for s in range(2)])
                if k["max_len"] == 8:
                    s, e = dl.compute_interval(8, n, [12, 14], [2, 4])
                    w_mix, w_ref = w_mix[:, s:e], w_ref[:, s:e]
                require(torch.equal(mix, w_mix), f"mixture of example {i}, permutation {perm}")
                require(torch.equal(target, w_ref), f"reference of example {i}, permutation {perm}, microphone {ch}")
                require(ds.get_mixinfo(i) == list(rooms.values())[i], "metadata of another example")
    finally:
        torch.randperm, torch.randint, dl.torchaudio.load, dl.random.randint = real
        shutil.rmtree(d, ignore_errors=True)
    return dict(states=count, transitions=count, outcome=f"{c} {k['shuffle']} {k['sref']}")


# --- clipping
def run_clip(k, dl, ac):
    norms = [1.0, 2.0, 4.0, 0.5]
    count = 0
    for word in itertools.product(norms, repeat=k["depth"]):
        clip = ac.AutoClipper(k["p"])
        m = torch.nn.Linear(2, 1).double()
        hist = []
        for g in word:
            m.weight.grad = torch.tensor([[0.6 * g, 0.0]], dtype=torch.float64)
            m.bias.grad = torch.tensor([-0.8 * g], dtype=torch.float64)
            before = [m.weight.grad.clone(), m.bias.grad.clone()]
            norm, threshold = clip(m)
            hist = sorted(hist + [g])
            count += 1
            require(abs(norm - g) < 1e-9, f"norm {norm} of a gradient of norm {g}")
            require(any(abs(threshold - h) < 1e-9 for h in hist), "threshold out of the history")
            # the percentile: p percent of the history lie below
            below = sum(h < threshold - 1e-9 for h in hist) / len(hist)
            upto = sum(h < threshold + 1e-9 for h in hist) / len(hist)
            require(below <= k["p"] / 100 + 1e-9 <= upto + 2e-9, f"threshold {threshold} is not the percentile {k['p']} of {hist}")
            f = min(1.0, threshold / g)
            for a, b in zip((m.weight.grad, m.bias.grad), before):
                require(torch.allclose(a, f * b, rtol=1e-5, atol=1e-12), f"gradient of norm {g} clipped to {float(a.norm())}")
    return dict(states=count, transitions=count, outcome=f"{k['p']}")
