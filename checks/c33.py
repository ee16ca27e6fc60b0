"""Evaluation script"""
import contextlib
import copy
import io
import itertools
import json
import os
import runpy
import shutil
import sys
import tempfile
from pathlib import Path

import numpy as np
import torch
import yaml
from scipy.io import wavfile

import torchiva
from checks.c29 import EX, MODELS, load_scripts
from mc.util import compare, require, tt

ID = "C33"
TITLE = "The evaluation script scores and stores every utterance it was asked for"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of command lines and data sets on the real evaluation script; every file written is compared with directly computed separations and scores"
RULE = (
    "all numbers of mixtures up to 3 x limits x splits x numbers of channels x source models x algorithms x windows x frame sizes x trained models "
    "with all lists of up to 2 epochs: the wave files, tables, scores and summary against the separator built directly and pairwise scores"
)
ASSUMPTIONS = ["audio files are served by a stand-in of torchaudio.load", "scores of single pairs are taken from fast_bss_eval", "pytorch_lightning is replaced by a stand-in"]
CHUNK = 1

SPLITS = {"--test": "eval92", "--val": "dev93", "--train": "si284", None: "dev93"}
CHAN = {2: [0, 3], 3: [0, 2, 4], 4: [0, 1, 3, 4], 5: [0, 1, 2, 3, 4], 6: [0, 1, 2, 3, 4, 5]}
FS = 8000
N = 900


def cases(tier):
    q = tier == "quick"
    out = []
    base = dict(kind="grid", n=2, limit=None, split=None, n_chan=2, model=None, algo="tiss", window=None, n_fft=64, hop=None, n_iter=2, n_src=2, flags=[])
    def add(**k):
        k = {**base, **k}
        if k not in out:
            out.append(k)
    for n, limit in itertools.product((1, 2, 3), (None, 1, 2, 3, 4)):
        add(n=n, limit=limit, kind="limit" if limit is not None and limit < n else "grid")
    for split, flags in itertools.product(SPLITS, ([], ["--noiseless"], ["--ref_is_reverb"], ["--noiseless", "--ref_is_reverb"])):
        add(split=split, flags=flags)
    for model, algo, n_chan in itertools.product((None, "--laplace", "--gauss", "--ilrma"), ("tiss", "ip2"), CHAN):
        if algo == "tiss" or n_chan == 2:
            kind = "gauss" if model == "--gauss" else "grid"
            add(model=model, algo=algo, n_chan=n_chan, kind=kind)
            if n_chan > 2:
                add(model=model, algo=algo, n_chan=n_chan, n_src=3, kind=kind)
    for w, n_fft, hop, n_iter in itertools.product((None, "hann", "hamming", "blackman", "bartlett"), (32, 64), (None, 16), (0, 1, 3)):
        add(window=w, n_fft=n_fft, hop=hop, n_iter=n_iter, kind="window" if w else "grid")
    for epochs in [[e] for e in (1, 11)] + [[1, 11], [11, 11]]:
        for algo, model, n_iter in (("tiss", "glu", 1), ("tiss", "glu", 3), ("tiss", "glu", 0), ("tiss", "simple", 2), ("ip2", "glu_ri", 1), ("ip2", "blstm", 3), ("mvdr", "mvdrsup", 2), ("gev", "mvdrsup", 2), ("mwf", "mvdrsup3", 2)):
            add(model=["--iss-hparams", model], algo=algo, epochs=epochs, n_iter=n_iter)
    add(model=["--iss-hparams", "glu"], algo="tiss", epochs=[1], n_chan=3, n_iter=3)
    return out


def dataset(k, root):
    """a data set in the layout the script expects, served from memory"""
    split = root / SPLITS[k["split"]]
    split.mkdir(parents=True)
    content, rooms = {}, {}
    for i in range(k["n"]):
        r = np.random.default_rng(40 + i)
        n = N - 30 * i
        dry = r.laplace(size=(k["n_src"], n))
        A = r.standard_normal((6, k["n_src"]))
        room = dict(data_id=f"room{i}", wav_frame_rate_mixed=FS, wav_n_samples_original=[n] * k["n_src"], wav_offset=[0] * k["n_src"],
                    speaker_id=[f"spk{i}{s}" for s in range(k["n_src"])], utterance_id=[f"utt{i}{s}" for s in range(k["n_src"])],
                    transcript_espnet=[f"WORDS {i} {s}" for s in range(k["n_src"])])
        anechoic = A[:, :, None] * dry
        reverb = anechoic.copy()
        reverb[..., 3:] += 0.4 * anechoic[..., :-3]
        for name, img in (("anechoic", anechoic), ("reverberant", reverb)):
            names = []
            for s in range(k["n_src"]):
                p = f"wav/image_{name}/{i}_{s}.wav"
                content[p] = tt(img[:, s]).float()
                names.append("/original/" + p)
            room[f"wav_dpath_image_{name}"] = names
        for name, key, level in (("mixed_noise", "wav_mixed_noise_reverb", 0.05), ("mixed", "wav_dpath_mixed_reverberant", 0.0)):
            p = f"wav/{name}/{i}.wav"
            content[p] = tt(0.1 * (reverb.sum(axis=1) + level * r.standard_normal((6, n)))).float()
            room[key] = "/original/" + p
        rooms[str(i)] = room
    with open(split / "mixinfo_noise.json", "w") as f:
        json.dump(rooms, f)

    def load(fn):
        return content[str(Path(fn).relative_to(split))].clone(), FS

    ref = "reverberant" if "--ref_is_reverb" in k["flags"] else "anechoic"
    mix = "mixed" if "--noiseless" in k["flags"] else "mixed_noise"
    data = [(content[f"wav/{mix}/{i}.wav"], torch.stack([content[f"wav/image_{ref}/{i}_{s}.wav"][0] for s in range(k["n_src"])])) for i in range(k["n"])]
    return load, data, list(rooms.values())


def trained(k, d):
    WSJModel = load_scripts()
    src = copy.deepcopy(MODELS[k["model"][1]])
    config = dict(name="x", algorithm=k["algo"],
                  training=dict(seed=0, lr=1e-3, weight_decay=0, lr_scheduler_kwargs={}, loss_type="cisdr", n_chan=2, n_src=2, autoclip_p=10),
                  model=dict(n_fft=8, hop_length=4, n_iter=2, n_taps=0, n_delay=0, use_dmc=False, ref_mic=0, source_model=src))
    (d / "checkpoints").mkdir()
    with open(d / "hparams.yaml", "w") as f:
        yaml.dump(dict(config=config), f)
    states = {}
    for e in (1, 11, 111):
        torch.manual_seed(e)
        m = WSJModel(copy.deepcopy(config))
        states[e] = {n: v.clone() for n, v in m.separator.state_dict().items()}
        torch.save(dict(state_dict=m.state_dict()), d / "checkpoints" / f"epoch={e}-step={e * 10 + 1}.ckpt")
    sep = torchiva.nn.BSSSeparator(8, k["n_iter"], hop_length=4, n_taps=0, n_delay=0, n_src=2, algo=k["algo"],
                                   source_model=torchiva.utils.instantiate(**copy.deepcopy(src)), proj_back_mic=0)
    sep.load_state_dict({n: (sum(states[e][n].double() for e in k["epochs"]) / len(k["epochs"])).to(v.dtype) for n, v in states[1].items()})
    return sep.eval()


def classic(k):
    model = {None: torchiva.LaplaceModel, "--laplace": torchiva.LaplaceModel, "--gauss": torchiva.GaussModel, "--ilrma": torchiva.NMFModel}[k["model"]]()
    return torchiva.nn.BSSSeparator(k["n_fft"], k["n_iter"], hop_length=k["hop"] or k["n_fft"] // 4, window=k["window"], n_taps=0, n_delay=0,
                                    n_src=k["n_src"], algo=k["algo"], source_model=model)


def run(k):
    d = Path(tempfile.mkdtemp(prefix="vp_c33_"))
    try:
        return evaluate(k, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def evaluate(k, d):
    load_scripts()
    root = d / f"wsj_mix_m{k['n_src']}"
    load, data, rooms = dataset(k, root)
    net = isinstance(k["model"], list)
    argv = ["--dataset", str(root), "--output", str(d / "out"), "-n", str(k["n_iter"]), "--n_chan", str(k["n_chan"])] + k["flags"]
    for name, val in (("--limit", k["limit"]), ("--window", k["window"]), ("--hop", k["hop"])):
        argv += [] if val is None else [name, str(val)]
    argv += [k["split"]] if k["split"] else []
    if net:
        sep = trained(k, d)
        argv += ["--iss-hparams", str(d / "hparams.yaml"), "--epoch"] + [str(e) for e in k["epochs"]]
        names = k["algo"], MODELS[k["model"][1]]["name"], f"{k['algo']}-{MODELS[k['model'][1]]['name']}"
    else:
        sep = classic(k)
        argv += ["--n_fft", str(k["n_fft"]), "--algo", k["algo"]] + ([k["model"]] if k["model"] else [])
        names = {"--gauss": ("iva", "gauss", k["algo"]), "--ilrma": ("ilrma", "nmf", k["algo"])}.get(k["model"], ("iva", "laplace", "iva_laplace"))
    script(argv, load)

    done = len(data) if k["limit"] is None else min(len(data), k["limit"])
    split = SPLITS[k["split"]]
    folder = d / "out" / root.name / split / names[2]
    over = k["kind"] == "limit" and len(list((folder / "wav").iterdir())) == (done + 1) * k["n_src"]
    done += over
    wavs = sorted(p.name for p in (folder / "wav").iterdir())
    ids = [(i, s) for i in range(done) for s in range(k["n_src"])]
    require(wavs == sorted(f"{split}_room{i}_ch{s}.wav" for i, s in ids), f"wave files {wavs} for {done} mixtures")
    with open(folder / "data.json") as f:
        results = json.load(f)
    require([r["utterance_id"] for r in results] == [f"{split}_room{i}_{s}" for i, s in ids], "utterances of the results")

    import fast_bss_eval

    torch.manual_seed(77)
    totals = []
    for i in range(done):
        mix, ref = data[i]
        with torch.no_grad():
            y = sep(mix[CHAN[k["n_chan"]]])
        n = min(ref.shape[-1], y.shape[-1])
        # scores of all pairs
        pair = [[[float(v) for v in fast_bss_eval.bss_eval_sources(ref[:, :n], torch.stack([y[j, :n]] * k["n_src"]), compute_permutation=False)[m]][s]
                 for m in (0, 1)] for s in range(k["n_src"]) for j in range(y.shape[0])]
        pair = np.array(pair).reshape(k["n_src"], y.shape[0], 2)
        base = fast_bss_eval.bss_eval_sources(ref[:, :n], torch.stack([mix[0, :n]] * k["n_src"]), compute_permutation=False)
        base = np.array([[float(v) for v in base[m]] for m in (0, 1)])
        perms = list(itertools.permutations(range(y.shape[0]), k["n_src"]))
        best = max(np.mean([pair[s, p[s], 1] for s in range(k["n_src"])]) for p in perms)
        chosen = []
        for s in range(k["n_src"]):
            fs, w = wavfile.read(folder / "wav" / f"{split}_room{i}_ch{s}.wav")
            require(fs == FS and w.dtype == np.int16, f"wave file with rate {fs}, {w.dtype}")
            want = [0.95 * v / np.abs(v).max() * 2**15 for v in y.numpy().astype(np.float64)]
            j = [j for j, v in enumerate(want) if v.shape == w.shape and np.abs(v - w).max() < 6]
            require(len(j) >= 1, f"wave file of source {s} of mixture {i} is none of the outputs")
            chosen.append(j[0])
            r = results[i * k["n_src"] + s]
            compare(np.array([r["sdr"], r["sir"]]), pair[s, j[0]] - base[:, s], 1e-2, f"improvement of source {s} of mixture {i}", atol=2e-2)
            require((r["channels"], r["algo"], r["model"], r["algo_model"], r["n_iter"], r["split"]) == (k["n_chan"], *names, k["n_iter"], split), f"description {r}")
        require(len(set(chosen)) == len(chosen), "one output stored for two sources")
        require(np.mean([pair[s, j, 1] for s, j in enumerate(chosen)]) > best - 1e-2, f"outputs of mixture {i} not assigned to the closest sources")
        totals.append([np.mean([pair[s, j, m] for s, j in enumerate(chosen)]) for m in (0, 1)] + [base[0].mean(), base[1].mean()])
    with open(folder / "summary.json") as f:
        summary = json.load(f)
    require(list(summary) == ["sdr", "sir", "mix_sdr", "mix_sir"], "summary")
    compare(np.array(list(summary.values())), np.mean(totals, axis=0), 1e-2, "summary", atol=2e-2)
    tables(k, folder, split, ids, rooms)
    require(not over, "one mixture more than the limit was processed")
    return dict(states=len(ids), transitions=done, outcome=f"{names[2]} {done}")


def tables(k, folder, split, ids, rooms):
    rows = sorted((f"{split}_room{i}_{s}", i, s) for i, s in ids)
    def lines(name):
        return (folder / name).read_text().splitlines()
    require(lines("asr_transcripts.csv") == [f"{u} WORDS {i} {s}" for u, i, s in rows], "transcripts")
    require(lines("asr_utterances_files.csv") == [f"{u} {(folder / 'wav').resolve()}/{split}_room{i}_ch{s}.wav" for u, i, s in rows], "files of the utterances")
    require([ln.split()[0] for ln in lines("asr_speakers.csv")] == [u for u, i, s in rows], "speakers")


def script(argv, load):
    import dataloader

    old = sys.argv, list(sys.path), dataloader.torchaudio.load, np.random.get_state()
    sys.argv = [str(EX / "test.py")] + argv
    dataloader.torchaudio.load = load
    err = io.StringIO()
    torch.manual_seed(77)
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(err):
            runpy.run_path(sys.argv[0], run_name="__main__")
    except SystemExit as e:
        require(False, f"the command line was refused: {err.getvalue().splitlines()[-1]}, {argv}")
    finally:
        sys.argv, sys.path[:], dataloader.torchaudio.load = old[:3]
        np.random.set_state(old[3])
