"""Command line separation of files"""
import contextlib
import hashlib
import io
import itertools
import os
import shutil
import subprocess
import sys
import tempfile
from pathlib import Path

import numpy as np
import scipy.io.wavfile
import torch
import yaml

import torchiva
from mc import sig
from mc.engine import REPO
from mc.util import coarse, require, tt
from torchiva import separate

ID = "C20"
TITLE = "The separate command writes every result to its own file and nothing else"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of file layouts (all subsets), option values (all single and pairwise deviations) and command histories in a scratch folder; the resulting file tree is compared with the expected one"
RULE = (
    "every subset of a set of input files in nested folders x output location; every option value and every pair of "
    "options; every history of 2 commands; lengths, contents, file names and existing destinations (links included): for each input exactly one output with its sampling rate, length and the "
    "samples the equally configured separator gives for this file alone; inputs and unrelated files stay byte-identical"
)
ASSUMPTIONS = ["16-bit output quantization", "scratch folders on a local file system"]
CHUNK = 4

FILES = {  # name -> (channels, samples, rate, key)
    "a.wav": (2, 1000, 8000, 1),
    "b.wav": (3, 777, 16000, 2),
    "sub/a.wav": (2, 900, 8000, 3),
    "sub/deep er/c.wav": (4, 1013, 44100, 4),
    "a/a.wav": (2, 640, 8000, 5),
    "x.y.wav": (2, 512, 8000, 6),
}
EXTRA = {"notes.txt": b"hello", "sub/b.flac": b"not audio", "d.WAVE": b"zzz", "wav": b"k"}
# small transform so that short files are fine
BASE = dict(nfft=16, n_iter=2, algo="tiss", **{"model-type": "laplace"})
VALUES = {
    "mic": [2, 3, 4],
    "src": [1, 2],
    "nfft": [16, 32, 64],
    "hop": [None, 4, 8],
    "win": [None, "hamming", "blackman"],
    "algo": [None, "tiss", "five", "ip2"],
    "n_iter": [0, 2, 5],
    "taps": [0, 2],
    "delay": [0, 1],
    "ref": [0, 1],
    "eps": [None, 1e-2],
    "model-type": ["laplace", "gauss", "nmf"],
    "model-eps": [None, 0.5],
    "n-basis": [2, 3],
}


def cases(tier):
    q = tier == "quick"
    out = []
    names = list(FILES)
    for r in range(0, len(names) + 1):
        for sub in itertools.combinations(range(len(names)), r):
            if q and r in (2, 4):
                continue
            for dest in ("new", "existing", "inside"):
                out.append(dict(kind="tree", files=list(sub), dest=dest, model="laplace"))
    for r in (1, 2, 3):
        for sub in itertools.combinations(range(len(names)), r):
            out.append(dict(kind="tree", files=list(sub), dest="new", model="nn"))
    for key, vals in VALUES.items():
        for v in vals:
            out.append(dict(kind="option", opts={key: v}))
    for (k1, v1), (k2, v2) in itertools.combinations(VALUES.items(), 2):
        for a, b in itertools.product(v1, v2):
            out.append(dict(kind="option", opts={k1: a, k2: b}))
    for nn_opts in itertools.product([None, "tiss", "ip2"], [0, 1, 3], [1, 2], [0, 1], [2, 3]):
        out.append(dict(kind="nn", opts=list(nn_opts)))
    for dest in ("file", "dir", "link", "sameabs", "samerel", "samelink", "hardpath", "hardlink"):
        out.append(dict(kind="single", dest=dest))
    for h in itertools.product(range(4), repeat=2):
        out.append(dict(kind="history", hist=list(h)))
    for amp in (0.01, 0.5, 1.0, 6.0, 50.0):
        for algo in ("tiss", "five", "ip2"):
            for model in ("laplace", "gauss"):
                for n_iter in (0, 2, 20):
                    out.append(dict(kind="level", amp=amp, algo=algo, model=model, n_iter=n_iter))
    # channels silent, repeated or constant in every combination
    for c in (3, 4) if q else (3, 4, 5):
        for pat in itertools.product("v0", repeat=c):
            if "v" not in pat:
                continue
            for mic in range(1, c + 1):
                for src in sorted({1, mic}):
                    out.append(dict(kind="content", pat="".join(pat), mic=mic, src=src))
    for pat in ("vrv", "rrv", "vcv", "cvv", "vvr0", "0r0v"):
        for mic in (2, 3):
            out.append(dict(kind="content", pat=pat, mic=mic, src=2))
    for enc in ("int16", "int32", "float32", "uint8"):
        for n in (9, 17, 33, 1000, 44100, 300001):
            for fs in (8000, 11025, 48000):
                out.append(dict(kind="content", pat="vv", mic=2, src=2, enc=enc, n=n, fs=fs))
    for fs in (1, 100, 4000, 7350, 12000, 16000, 22050, 24000, 32000, 37800, 44100, 64000, 88200, 96000, 176400, 192000, 384000):
        out.append(dict(kind="content", pat="vv", mic=2, src=2, n=900, fs=fs))
    for names in (["a b.wav", "a_b.wav"], ["\u00e9t\u00e9.wav", "\u97f3.wav"], ["x.1.wav", "x.2.wav", "x.wav"], ["-v.wav", "..w.wav"], [".hidden.wav", "hidden.wav"],
                  ["w.wav.wav", "w.wav"], ["d.wav/e.wav", "d/e.wav"], ["%s.wav", "{x}.wav", "$HOME.wav", "*.wav"], ["UP.wav", "up.wav"]):
        out.append(dict(kind="names", names=names))
    for place in ("side", "parent", "inside", "deep", "linked"):
        for files in (["a.wav"], ["a.wav", "b.wav"], ["a.wav", "in/a.wav"], ["in/b.wav"], ["x/out/a.wav", "a.wav"], ["in/in/a.wav", "in/a.wav"]):
            for extra in ("none", "symlink", "hardlink", "dangling", "inlink"):
                out.append(dict(kind="layout", place=place, files=files, extra=extra))
    out.append(dict(kind="bad"))
    out.append(dict(kind="module"))
    return out


class Scratch:
    def __enter__(self):
        self.d = Path(tempfile.mkdtemp(prefix="vp_c20_"))
        self.cwd = os.getcwd()
        os.chdir(self.d)
        return self.d

    def __exit__(self, *a):
        os.chdir(self.cwd)
        shutil.rmtree(self.d, ignore_errors=True)


def write(root, name):
    c, n, fs, key = FILES[name]
    x = sig.wave(c, n, key=key)
    p = Path(root) / name
    p.parent.mkdir(parents=True, exist_ok=True)
    scipy.io.wavfile.write(p, fs, np.round(20000 * x.T).astype(np.int16))
    return p


def read(p):
    fs, x = scipy.io.wavfile.read(p)
    x = x[:, None] if x.ndim == 1 else x
    if x.dtype == np.int16:
        x = x.astype(float) / 32768
    elif x.dtype == np.uint8:
        x = (x.astype(float) - 128) / 128
    elif x.dtype == np.int32:
        x = x.astype(float) / 2**31
    return fs, x.T.astype(float)


def snapshot(root):
    return {
        str(p.relative_to(root)): hashlib.sha256(p.read_bytes()).hexdigest()
        for p in sorted(Path(root).rglob("*"))
        if p.is_file()
    }


def argv(inp, out, opts):
    a = [str(inp), str(out)]
    for k, v in opts.items():
        if v is not None:
            a += [("-" + k if len(k) == 1 else "--" + k), str(v)]
    return a


def command(args):
    with contextlib.redirect_stdout(io.StringIO()) as f:
        torch.manual_seed(0)
        separate.main(separate.get_parser().parse_args(args))
    return f.getvalue()


MODEL_CFG = dict(n_fft=16, n_iter=2, hop_length=4, n_taps=1, n_delay=1,
                 source_model=dict(name="torchiva.models.GLUMask", kwargs=dict(n_freq=9, n_bottleneck=6, n_sublayers=1)))


def save_model(d):
    d.mkdir(parents=True, exist_ok=True)
    with torch.random.fork_rng():
        torch.manual_seed(3)
        sep = torchiva.nn.BSSSeparator(**MODEL_CFG)
    torch.save(sep.state_dict(), d / "model_weights.ckpt")
    (d / "model_config.yaml").write_text(yaml.safe_dump(MODEL_CFG))


def expected(path, opts, model_dir=None):
    """the samples for one file, from the documented meaning of the options"""
    o = {"mic": 2, "src": 2, "nfft": 2048, "hop": None, "win": None, "algo": None, "n_iter": 20, "taps": 0, "delay": 0,
         "ref": 0, "eps": None, "model-type": "nn", "model-eps": None, "n-basis": 2, **{k: v for k, v in opts.items() if v is not None}}
    fs, x = read(path)
    x = torch.from_numpy(x).float()[: o["mic"]]
    if o["algo"] == "five":
        o["src"] = 1
    if o["model-type"] == "nn":
        cfg = dict(MODEL_CFG, n_iter=o["n_iter"], n_src=o["src"], proj_back_mic=o["ref"], use_dmc=False)
        if o["algo"] is not None:
            cfg["algo"] = o["algo"]
        sep = torchiva.nn.BSSSeparator(**cfg)
        sep.load_state_dict(torch.load(model_dir / "model_weights.ckpt"))
    else:
        eps = 1e-5 if o["model-eps"] is None else o["model-eps"]
        model = {"laplace": lambda: torchiva.LaplaceModel(eps=eps), "gauss": lambda: torchiva.GaussModel(eps=eps),
                 "nmf": lambda: torchiva.NMFModel(n_basis=o["n-basis"], eps=eps)}[o["model-type"]]()
        sep = torchiva.nn.BSSSeparator(o["nfft"], n_iter=o["n_iter"], hop_length=o["hop"], window=o["win"], n_taps=o["taps"],
                                       n_delay=o["delay"], n_src=o["src"], algo=o["algo"] or "tiss", source_model=model,
                                       proj_back_mic=o["ref"], eps=1e-5 if o["eps"] is None else o["eps"])
    sep.eval()
    torch.manual_seed(0)
    with torch.no_grad():
        y = sep(x).numpy().astype(float)
    order = np.argsort(-(y**2).mean(-1), kind="stable")
    if y.shape[0] > o["src"]:
        y = y[order[: o["src"]]]
    return fs, y


def check_output(p_in, p_out, opts, what, model_dir=None, samples=True):
    require(p_out.is_file(), f"{what}: no output {p_out.name}")
    fs, y = expected(p_in, opts, model_dir)
    gfs, g = read(p_out)
    fs_in, x = read(p_in)
    require(gfs == fs_in, f"{what}: sampling rate {gfs} instead of {fs_in}")
    require(g.shape[1] == x.shape[1], f"{what}: {g.shape[1]} samples instead of {x.shape[1]}")
    require(g.shape == y.shape, f"{what}: shape {g.shape} instead of {y.shape}")
    if samples:
        y = np.clip(y, -1, 1)
        err = np.max(np.abs(g - y))
        tol = 2.0e-4 + 5e-3 * np.max(np.abs(y))
        require(err <= tol, f"{what}: samples differ by {err} (peak {np.max(np.abs(y))})")
    return coarse(g)


def run(k):
    return globals()["run_" + k["kind"]](k)


def opt_args(opts):
    return {("n" if k == "n_iter" else k): v for k, v in opts.items()}


def run_tree(k):
    with Scratch() as d:
        inp = d / "in"
        inp.mkdir()
        files = [list(FILES)[i] for i in k["files"]]
        for f in files:
            write(inp, f)
        for f, b in EXTRA.items():
            (inp / f).parent.mkdir(parents=True, exist_ok=True)
            (inp / f).write_bytes(b)
        out = {"new": d / "res/ult", "existing": d / "out", "inside": inp / "sub" / "out"}[k["dest"]]
        keep = {}
        if k["dest"] != "new":
            out.mkdir(parents=True)
            (out / "keep.txt").write_bytes(b"keep")
            (out / "old.wav").write_bytes(b"old result")
            keep = {"keep.txt", "old.wav"}
        opts = dict(BASE, mic=3)
        if k["model"] == "nn":
            save_model(d / "model")
            opts = {"model-path": d / "model", "n_iter": 2}
        before = snapshot(d)
        stdout = command(argv(inp, out, opt_args(opts)))
        after = snapshot(d)
        for n, h in before.items():
            require(after.get(n) == h, f"{n} was changed")
        new = set(after) - set(before)
        rel = out.relative_to(d)
        want = {str(rel / f) for f in files}
        require(len(new) == len(files), f"new files {sorted(new)} for inputs {files}")
        for f in files:
            # the output of a file is recognised by the folder structure
            require(str(rel / f) in new, f"no output for {f}: {sorted(new)}")
        ho = set()
        for f in files:
            ho.add(check_output(inp / f, out / f, opts, f"{f} of {files}", d / "model"))
            require(str(inp / f) in stdout, f"{f} is not listed in the output of the command")
    return dict(states=len(files) + 1, transitions=len(files) + 1, validated=len(files) + 1, outcomes=ho)


def run_option(k):
    opts = dict(BASE, **k["opts"])
    mic, src = opts.get("mic", 2), opts.get("src", 2)
    with Scratch() as d:
        p = write(d, "sub/deep er/c.wav")
        before = snapshot(d)
        bad = opts["algo"] == "ip2" and mic != 2
        try:
            command(argv(p, d / "o.wav", opt_args(opts)))
        except ValueError:
            require(bad, f"options {opts} refused")
            require(snapshot(d) == before, "files written by a refused command")
            return dict(states=1, transitions=1, outcome="refused")
        require(not bad, f"options {opts} accepted")
        o = check_output(p, d / "o.wav", opts, f"{k['opts']}")
        require(set(snapshot(d)) == set(before) | {"o.wav"}, "unexpected files")
    return dict(states=1, transitions=1, outcome=o)


def run_nn(k):
    algo, n_iter, src, ref, mic = k["opts"]
    with Scratch() as d:
        p = write(d, "sub/deep er/c.wav")
        save_model(d / "model")
        opts = {"model-path": d / "model", "n_iter": n_iter, "src": src, "ref": ref, "mic": mic, "algo": algo}
        bad = algo == "ip2" and mic != 2
        outs = []
        for name in ("o1.wav", "o2.wav"):
            try:
                command(argv(p, d / name, opt_args(opts)))
            except ValueError:
                require(bad, f"options {opts} refused")
                return dict(states=1, transitions=1, outcome="refused")
            outs.append(check_output(p, d / name, opts, f"{opts}", d / "model"))
        require(not bad, f"options {opts} accepted")
        require((d / "o1.wav").read_bytes() == (d / "o2.wav").read_bytes(), "two runs differ")
    return dict(states=2, transitions=2, outcome=outs[0])


def run_single(k):
    with Scratch() as d:
        p = write(d, "a.wav")
        other = write(d, "b.wav")
        (d / "dir").mkdir()
        os.symlink(p, d / "ln.wav")
        if k["dest"] == "hardlink":
            os.link(p, d / "hl.wav")
        before = snapshot(d)
        refuse = False
        dest, want = {
            "file": (d / "o.wav", d / "o.wav"),
            "dir": (d / "dir", d / "dir" / "a.wav"),
            "link": (d / "b.wav", d / "b.wav"),
            "sameabs": (p, None),
            "samerel": (Path("dir/../a.wav"), None),
            "samelink": (d / "ln.wav", None),
            "hardpath": (d, None),
            "hardlink": (d / "hl.wav", None),
        }[k["dest"]]
        try:
            command(argv(p, dest, opt_args(BASE)))
        except (ValueError, AssertionError):
            refuse = True
        after = snapshot(d)
        require(after["a.wav"] == before["a.wav"], "the input was overwritten")
        if want is not None:
            require(not refuse, "refused")
            check_output(p, want, BASE, k["dest"])
            before.pop("b.wav") if k["dest"] == "link" else None
        else:
            require(refuse, "writing over the input was not refused")
        for n, h in before.items():
            require(after.get(n) == h, f"{n} changed")
    return dict(states=1, transitions=1, outcome=str(refuse))


def run_level(k):
    """quiet files, and files whose separated signals exceed full scale (and saturate there)"""
    with Scratch() as d:
        x = sig.wave(2, 900, key=11)
        x = np.clip(x / np.abs(x).max() * k["amp"], -1, 1)
        scipy.io.wavfile.write(d / "in.wav", 8000, np.round(32767 * x.T).astype(np.int16))
        opts = dict(BASE, algo=k["algo"], n_iter=k["n_iter"], **{"model-type": k["model"]})
        command(argv(d / "in.wav", d / "o.wav", opt_args(opts)))
        o = check_output(d / "in.wav", d / "o.wav", opts, str(k))
        peak = np.abs(expected(d / "in.wav", opts)[1]).max()
    return dict(states=1, transitions=1, outcome=o, peak=float(peak))


def run_content(k):
    with Scratch() as d:
        n, fs, enc = k.get("n", 800), k.get("fs", 8000), k.get("enc", "int16")
        x = sig.wave(len(k["pat"]), n, key=12)
        for c, p in enumerate(k["pat"]):
            if p == "0":
                x[c] = 0
            elif p == "r":
                x[c] = x[0] if c else x[1]
            elif p == "c":
                x[c] = 0.25
        data = {"int16": lambda: np.round(30000 * x).astype(np.int16), "int32": lambda: np.round(2e9 * x).astype(np.int32),
                "float32": lambda: x.astype(np.float32), "uint8": lambda: np.round(128 + 100 * x).astype(np.uint8)}[enc]()
        scipy.io.wavfile.write(d / "in.wav", fs, data.T)
        opts = dict(BASE, mic=k["mic"], src=k["src"])
        command(argv(d / "in.wav", d / "o.wav", opt_args(opts)))
        o = check_output(d / "in.wav", d / "o.wav", opts, str(k))
        require(set(snapshot(d)) == {"in.wav", "o.wav"}, "unexpected files")
    return dict(states=1, transitions=1, outcome=f"{k['pat']} {o}")


def run_names(k):
    with Scratch() as d:
        rates = {}
        for i, f in enumerate(k["names"]):
            p = d / "in" / f
            p.parent.mkdir(parents=True, exist_ok=True)
            scipy.io.wavfile.write(p, 8000 + i, np.round(20000 * sig.wave(2, 500 + 10 * i, key=20 + i).T).astype(np.int16))
        before = snapshot(d)
        command(argv(d / "in", d / "out", opt_args(BASE)))
        after = snapshot(d)
        require(set(after) == set(before) | {f"out/{f}" for f in k["names"]}, f"files {sorted(set(after) - set(before))} for {k['names']}")
        require(all(after[f] == before[f] for f in before), "an input was changed")
        for f in k["names"]:
            check_output(d / "in" / f, d / "out" / f, BASE, f)
            # alone
            command(argv(d / "in" / f, d / "one.wav", opt_args(BASE)))
            require((d / "one.wav").read_bytes() == (d / "out" / f).read_bytes(), f"{f} alone gives another result")
    return dict(states=len(k["names"]), transitions=2 * len(k["names"]), validated=len(k["names"]), outcome=str(k["names"]))


def run_layout(k):
    """every position of the output folder relative to the input folder, with links between them"""
    with Scratch() as d:
        inp = d / "root" / "in"
        for i, f in enumerate(k["files"]):
            p = inp / f
            p.parent.mkdir(parents=True, exist_ok=True)
            scipy.io.wavfile.write(p, 8000 + i, np.round(20000 * sig.wave(2, 500 + 10 * i, key=20 + i).T).astype(np.int16))
        out = {"side": d / "root" / "out", "parent": d / "root", "inside": inp / "out", "deep": inp / "x" / "out", "linked": d / "lnk"}[k["place"]]
        if k["place"] == "linked":
            (d / "real").mkdir()
            os.symlink(d / "real", out)
        first = out / k["files"][0]
        files = list(k["files"])
        clash = False
        nested = k["place"] in ("inside", "deep")
        if k["extra"] in ("symlink", "hardlink", "dangling") and not first.exists() and not (nested and out in (inp / files[0]).parents):
            # the place of the first result is a link to an input, or to nothing
            first.parent.mkdir(parents=True, exist_ok=True)
            if k["extra"] == "dangling":
                os.symlink(d / "target.wav", first)
            elif k["extra"] == "symlink":
                os.symlink(inp / files[-1], first)
                clash = True
            else:
                os.link(inp / files[-1], first)
                clash = True
        if k["extra"] == "inlink":
            os.symlink(inp / files[0], inp / "zlink.wav")
            files.append("zlink.wav")
        # files below an output folder inside the input folder are results, not inputs
        files = [f for f in files if not (nested and out.resolve() in (inp / f).resolve().parents)]
        inputs = {(inp / f).resolve() for f in files}
        clash = (clash and bool(files) and k["files"][0] in files and k["files"][-1] in files) or any((out / f).resolve() in inputs for f in files)
        before = snapshot(d)
        try:
            command(argv(inp, out, opt_args(BASE)))
            refused = False
        except (ValueError, AssertionError):
            refused = True
        after = snapshot(d)
        places = {str((out / f).resolve().relative_to(d.resolve())) for f in files}
        for n in before:
            if str((d / n).resolve().relative_to(d.resolve())) not in places or refused:
                require(after.get(n) == before[n], f"{n} was changed")
        require(refused == clash, f"refused: {refused}, although the results {'replace' if clash else 'do not replace'} inputs")
        if not clash:
            for f in files:
                require((out / f).exists(), f"no output for {f}")
                check_output(inp / f, out / f, BASE, f"{f} {k}")
            made = {str((d / n).resolve().relative_to(d.resolve())) for n in set(after) - set(before)}
            require(made <= places, f"unexpected files {sorted(made - places)}")
    return dict(states=len(files) + 1, transitions=len(files), validated=len(files), outcome=str((k["place"], clash)))


HIST = [dict(BASE), dict(BASE, algo="five"), dict(BASE, **{"model-type": "nmf"}), dict(BASE, src=1, mic=3)]


def run_history(k):
    """the second command is not influenced by the first; its own outputs replace the old ones"""
    with Scratch() as d:
        inp = d / "in"
        for f in ("a.wav", "b.wav"):
            write(inp, f)
        for i in k["hist"]:
            command(argv(inp, d / "out", opt_args(HIST[i])))
        opts = HIST[k["hist"][-1]]
        nmf = opts["model-type"] == "nmf"
        ho = set()
        for j, f in enumerate(("a.wav", "b.wav")):
            ho.add(check_output(inp / f, d / "out" / f, opts, f"{f} after {k['hist']}", samples=not (nmf and j)))
        require(set(snapshot(d / "out")) == {"a.wav", "b.wav"}, "unexpected outputs")
    return dict(states=2, transitions=2, validated=2, outcomes=ho)


def run_bad(k):
    n = 0
    with Scratch() as d:
        inp = d / "in"
        p = write(inp, "a.wav")
        (d / "x.mp3").write_bytes(b"x")
        before = snapshot(d)
        for a in (
            argv(inp, inp, opt_args(BASE)),
            argv(inp, Path("in/../in"), opt_args(BASE)),
            argv(d / "x.mp3", d / "o.wav", opt_args(BASE)),
            argv(p, d / "o.wav", opt_args(dict(BASE, src=3))),
            argv(p, d / "o.wav", opt_args(dict(BASE, algo="mvdr"))),
            argv(p, d / "o.wav", opt_args(dict(BASE, algo="gev"))),
        ):
            try:
                command(a)
            except (ValueError, AssertionError):
                n += 1
                continue
            require(False, f"accepted: {a}")
        require(snapshot(d) == before, "files changed by refused commands")
    return dict(states=n, transitions=n)


def run_module(k):
    """as a separate process"""
    with Scratch() as d:
        p = write(d, "a.wav")
        env = dict(os.environ, PYTHONPATH=str(REPO), HOME=str(d))
        r = subprocess.run([sys.executable, "-m", "torchiva.separate"] + argv(p, d / "o.wav", opt_args(BASE)), env=env,
                           capture_output=True, text=True, timeout=200)
        require(r.returncode == 0, r.stderr[-500:])
        o = check_output(p, d / "o.wav", BASE, "python -m torchiva.separate")
    return dict(states=1, transitions=1, outcome=o)
