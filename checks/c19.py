"""Saving and loading separators"""
import copy
import hashlib
import itertools
import os
import shutil
import tempfile
from pathlib import Path

import numpy as np
import torch
import yaml

import torchiva
from mc import ops, sig
from mc.engine import REPO
from mc.util import coarse, compare, nn, require, tt
from torchiva.utils import instantiate

ID = "C19"
TITLE = "Saved separators load back identically, with exactly the requested changes"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of configurations, override subsets, file presence patterns and load/modify histories on the real files; differential against directly constructed objects"
RULE = (
    "every algorithm x source model x parameter set is saved and loaded by path, by string and by file names; every "
    "subset of up to 2 overridden settings equals direct construction with them; every presence pattern of the two "
    "files; all histories of 3 loads with modification of the loaded weights in between; replaced weight or configuration files; the configurations the repository ships"
)
ASSUMPTIONS = ["configuration expressible in YAML", "neural models compared in eval mode"]
CHUNK = 4

MODELS = {
    "none": None,
    "gauss": dict(name="torchiva.models.GaussModel", kwargs=dict(eps=0.01)),
    "laplace": dict(name="torchiva.models.LaplaceModel", args=[0.02]),
    "glu": dict(name="torchiva.models.GLUMask", kwargs=dict(n_freq=5, n_bottleneck=4, n_sublayers=2)),
    "glu_args": dict(name="torchiva.models.GLUMask", args=[5, 4], kwargs=dict(mag_spec=False, pool_size=3)),
    "blstm": dict(name="torchiva.models.BLSTMMask", kwargs=dict(n_freq=5, n_bottleneck=3, n_hidden=4)),
    "simple": dict(name="torchiva.models.SimpleModel", kwargs=dict(n_freq=5, n_mels=3)),
    "mvdrsup": dict(name="torchiva.models.MaskMVDRSupport", kwargs=dict(n_src=2, n_masks=2, n_input=5, n_hidden=5)),
}
SETTINGS = {
    "base": {},
    "full": dict(n_iter=3, hop_length=2, window="hamming", n_taps=2, n_delay=1, n_src=2, proj_back_mic=1, use_dmc=True, eps=1e-3),
    "nulls": dict(hop_length=None, window=None, n_src=None, n_power_iter=None),
}
BF_SETTINGS = {"base": {}, "full": dict(hop_length=2, window="hamming", proj_back_mic=1, eps=1e-3, n_power_iter=3)}
OVER = dict(n_iter=4, hop_length=3, window="hamming", n_taps=3, n_delay=2, n_src=1, algo="five", proj_back_mic=1,
            use_dmc=True, n_power_iter=2, eps=1e-2, source_model="other")
# values that are easily taken for missing ones, over settings that have another value
FALSY = dict(n_iter=0, hop_length=None, window=None, n_taps=0, n_delay=0, n_src=None, proj_back_mic=None, use_dmc=False, n_power_iter=None)


# descriptions of the models whose weights are compatible with each other
STATELESS = {
    "gauss_kw": dict(name="torchiva.models.GaussModel", kwargs=dict(eps=0.3)),
    "gauss_args": dict(name="torchiva.models.GaussModel", args=[2.0]),
    "gauss": dict(name="torchiva.models.GaussModel"),
    "gauss_null": dict(name="torchiva.models.GaussModel", args=None, kwargs=None),
    "laplace_kw": dict(name="torchiva.models.LaplaceModel", kwargs=dict(eps=0.5)),
    "laplace_args": dict(name="torchiva.models.LaplaceModel", args=[3.0], kwargs={}),
    "laplace": dict(name="torchiva.models.LaplaceModel"),
    "null": None,
}


def configs():
    for algo in ("tiss", "ip2", "five", "mvdr", "mwf", "gev", None):
        bf = algo in ops.BEAMFORMERS
        for m in (["mvdrsup"] if bf else [m for m in MODELS if m != "mvdrsup"]):
            for s in BF_SETTINGS if bf else SETTINGS:
                yield dict(algo=algo, model=m, settings=s)


def cases(tier):
    out = []
    for c in configs():
        for how in ("dir_str", "dir_path", "files", "files_str"):
            out.append(dict(kind="roundtrip", how=how, **c))
    for r in (1, 2) if tier == "quick" else (1, 2, 3):
        for sub in itertools.combinations(OVER, r):
            out.append(dict(kind="override", sub=list(sub), model="glu"))
            if r == 1:
                for m in ("gauss", "blstm", "none"):
                    out.append(dict(kind="override", sub=list(sub), model=m))
        for sub in itertools.combinations(FALSY, r):
            out.append(dict(kind="override", sub=list(sub), model="glu", falsy=True))
    for old, new in itertools.product(STATELESS, repeat=2):
        out.append(dict(kind="replace", old=old, new=new))
    for how in ("missing", "extra", "shape", "other", "empty"):
        for load in ("dir_str", "files"):
            out.append(dict(kind="mismatch", how=how, load=load))
    for pat in itertools.product((0, 1), repeat=2):
        for how in ("dir_str", "files"):
            out.append(dict(kind="missing", pat=list(pat), how=how))
    out += [dict(kind="paths"), dict(kind="names")]
    for p in sorted((REPO / "trained_models").iterdir()):
        for over in ({}, dict(n_iter=2), dict(n_src=1), dict(n_src=2, n_taps=1), dict(algo="ip2"), dict(window="hamming", hop_length=1024), dict(proj_back_mic=1, use_dmc=True)):
            for how in ("dir_str", "files"):
                out.append(dict(kind="shipped", name=p.name, over=over, how=how))
    for h in itertools.product(("load", "train", "override", "mutate"), repeat=3):
        out.append(dict(kind="history", hist=list(h)))
    return out


class Scratch:
    def __enter__(self):
        self.d = Path(tempfile.mkdtemp(prefix="vp_c19_"))
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


def make(cfg, seed):
    with torch.random.fork_rng():
        torch.manual_seed(seed)
        sep = torchiva.nn.BSSSeparator(**copy.deepcopy(cfg))
        with torch.no_grad():
            for n, v in sep.state_dict().items():
                if v.is_floating_point() and "_window" not in n and "mel_layer" not in n:
                    v.add_(0.1 * torch.rand(v.shape))
    return sep


def config(algo, model, settings):
    bf = algo in ops.BEAMFORMERS
    cfg = dict(n_fft=8, **(BF_SETTINGS if bf else SETTINGS)[settings])
    if algo is not None:
        cfg["algo"] = algo
    if MODELS[model] is not None:
        cfg["source_model"] = copy.deepcopy(MODELS[model])
        if algo == "five":  # its models do not see the DC bin
            fix_freq(cfg["source_model"])
    return cfg


def fix_freq(m):
    if "n_freq" in m.get("kwargs", {}):
        m["kwargs"]["n_freq"] = 4
    elif m["name"].endswith("GLUMask"):
        m["args"][0] = 4


def save(d, sep, cfg):
    torch.save(sep.state_dict(), d / "model_weights.ckpt")
    with open(d / "model_config.yaml", "w") as f:
        yaml.safe_dump(cfg, f)


def load(d, how, **kw):
    if how == "dir_str":
        return torchiva.load_separator(str(d), **kw)
    if how == "dir_path":
        return torchiva.load_separator(str(d) + "/", **kw)
    a, b = d / "model_weights.ckpt", d / "model_config.yaml"
    if how == "files":
        return torchiva.load_separator_model(a, b, **kw)
    return torchiva.load_separator_model(str(a), str(b), **kw)


def out(sep, c=2):
    mode = sep.training
    sep.eval()
    with torch.no_grad():
        y = sep(tt(sig.wave(c, 90, key=2)).float())
    sep.train(mode)
    return y


def same_state(a, b, what, skip=()):
    a, b = a.state_dict(), b.state_dict()
    require(set(a) == set(b), f"{what}: different parameters {sorted(set(a) ^ set(b))[:4]}")
    for k in a:
        if k not in skip:
            require(torch.equal(a[k], b[k]), f"{what}: {k} differs")


def run(k):
    return globals()["run_" + k["kind"]](k)


def run_roundtrip(k):
    cfg = config(k["algo"], k["model"], k["settings"])
    sep = make(cfg, 5)
    with Scratch() as d:
        save(d, sep, cfg)
        got = load(d, k["how"])
        same_state(got, sep, "loaded separator")
        compare(out(got), out(sep), 1e-5, "output of the loaded separator")
        require(got.algo == sep.algo and got.n_iter == sep.n_iter and got.n_src == sep.n_src, "attributes")
        # the second generation
        d2 = d / "again"
        d2.mkdir()
        save(d2, got, cfg)
        compare(out(load(d2, k["how"])), out(sep), 1e-5, "output after a second round trip")
    return dict(states=3, transitions=3, outcome=coarse(out(sep)))


# what the shipped configurations say, in terms of the constructor
SHIPPED = {
    "tiss": (dict(n_fft=2048, hop_length=512, n_iter=20, n_taps=5, n_delay=1, n_power_iter=0, proj_back_mic=0, use_dmc=False),
             lambda: torchiva.models.GLUMask(1025, 128, pool_size=2, dropout_p=0.5, n_sublayers=3)),
}


def run_shipped(k):
    """the configuration files of the repository give the described separator"""
    params, model = SHIPPED[k["name"]]
    torch.manual_seed(4)
    want = torchiva.nn.BSSSeparator(**{**params, **k["over"]}, source_model=model())
    with Scratch() as d:
        sd = {n: v.clone() for n, v in want.state_dict().items()}
        if "window" in k["over"]:
            sd["stft._window"] = torch.hann_window(2048)
        torch.save(sd, d / "model_weights.ckpt")
        shutil.copy(REPO / "trained_models" / k["name"] / "model_config.yaml", d / "model_config.yaml")
        got = load(d, k["how"], **k["over"])
        same_state(got, want, k["name"])
        x = tt(sig.wave(2, 6000, key=3)).float()
        got.eval(), want.eval()
        with torch.no_grad():
            a, b = got(x), want(x)
        compare(a, b, 1e-5, f"output of {k['name']} with {k['over']}")
    return dict(states=1, transitions=2, outcome=coarse(b))


def run_override(k):
    cfg = dict(n_fft=8, n_iter=2, hop_length=4, n_taps=1, n_delay=1, n_src=2, algo="tiss", proj_back_mic=0)
    if MODELS[k["model"]] is not None:
        cfg["source_model"] = copy.deepcopy(MODELS[k["model"]])
    if "algo" in k["sub"] and k["model"] in ("glu", "blstm"):
        cfg["algo"] = "ip2"
        over_algo = "tiss"
    else:
        over_algo = "five"
    table = OVER
    if k.get("falsy"):
        table = FALSY
        cfg.update(hop_length=3, window="hamming", n_taps=2, n_src=1, proj_back_mic=1, use_dmc=True, n_power_iter=2)
    sep = make(cfg, 6)
    over = {n: table[n] for n in k["sub"]}
    if "algo" in over:
        over["algo"] = over_algo
    if "source_model" in over:
        # another model of the same architecture but another setting
        m = copy.deepcopy(MODELS[k["model"]])
        if k["model"] in ("glu", "blstm"):
            m["kwargs"]["dropout_p"] = 0.25
        else:
            m = dict(name="torchiva.models.GaussModel", kwargs=dict(eps=0.5))
        over["source_model"] = m
    with Scratch() as d:
        save(d, sep, cfg)
        before = {p.name: hashlib.sha256(p.read_bytes()).hexdigest() for p in d.iterdir()}
        got = load(d, "dir_str", **copy.deepcopy(over))
        want = torchiva.nn.BSSSeparator(**copy.deepcopy({**cfg, **over}))
        sd = {n: v for n, v in sep.state_dict().items()}
        if "window" in over:
            sd["stft._window"] = want.stft.window.clone()
        want.load_state_dict(sd)
        same_state(got, want, f"overrides {over}")
        compare(out(got), out(want), 1e-5, f"output with overrides {over}")
        if "source_model" in over and k["model"] in ("glu", "blstm"):
            p = [m.p if hasattr(m, "p") else m.dropout for m in got.modules() if isinstance(m, (torch.nn.Dropout, torch.nn.LSTM))]
            require(p and p[0] == 0.25, f"source model setting not overridden: {p}")
        after = {p.name: hashlib.sha256(p.read_bytes()).hexdigest() for p in d.iterdir()}
        require(before == after, "loading changed the files")
        compare(out(load(d, "dir_str")), out(sep), 1e-5, "output loaded without overrides afterwards")
    return dict(states=2, transitions=3, outcome=coarse(out(want)))


def run_replace(k):
    """a source model given to the loader replaces the stored description as a whole"""
    old, new = copy.deepcopy(STATELESS[k["old"]]), copy.deepcopy(STATELESS[k["new"]])
    cfg = dict(n_fft=8, n_iter=2, hop_length=4, algo="tiss", source_model=old)
    with Scratch() as d:
        save(d, make(copy.deepcopy(cfg), 6), cfg)
        for how in ("dir_str", "files"):
            got = load(d, how, source_model=copy.deepcopy(new))
            want = torchiva.nn.BSSSeparator(**copy.deepcopy({**cfg, "source_model": new}))
            require(type(got.source_model) is type(want.source_model), f"{k}: model {type(got.source_model)}")
            compare(out(got), out(want), 1e-6, f"{k}: output with the replaced source model")
    return dict(states=2, transitions=2, outcome=coarse(out(want)))


def run_missing(k):
    cfg = config("tiss", "glu", "base")
    sep = make(cfg, 7)
    with Scratch() as d:
        save(d, sep, cfg)
        for keep, f in zip(k["pat"], ("model_weights.ckpt", "model_config.yaml")):
            if not keep:
                (d / f).unlink()
        try:
            got = load(d, k["how"])
        except ValueError:
            require(not all(k["pat"]), "the complete model was refused")
            return dict(states=1, transitions=1, outcome="refused")
        require(all(k["pat"]), f"a model with files {k['pat']} was accepted")
        same_state(got, sep, "loaded")
    return dict(states=1, transitions=1, outcome="loaded")


def run_mismatch(k):
    """weights that do not belong to the configuration are refused"""
    cfg = config("tiss", "glu", "base")
    sep = make(cfg, 7)
    with Scratch() as d:
        save(d, sep, cfg)
        sd = dict(sep.state_dict())
        n = 0
        for key in sorted(n for n in sd if "num_batches" not in n):  # that counter is optional in torch
            bad = dict(sd)
            if k["how"] == "missing":
                del bad[key]
            elif k["how"] == "extra":
                bad[key + "_extra"] = sd[key]
            elif k["how"] == "shape":
                bad[key] = torch.cat((sd[key].reshape(-1),) * 3)
            elif k["how"] == "other":
                bad = dict(make(config("tiss", "blstm", "base"), 7).state_dict())
            else:
                bad = {}
            torch.save(bad, d / "model_weights.ckpt")
            n += 1
            try:
                load(d, k["load"])
            except Exception:
                continue
            require(False, f"weights that do not fit the configuration were accepted ({k['how']}, {key})")
    return dict(states=n, transitions=n, outcome="refused")


def run_paths(k):
    n = 0
    with Scratch() as d:
        f = d / "file"
        f.write_text("x")
        for bad in (str(d / "nothing"), str(f), "", "ftp://localhost/x", str(d / "no/such")):
            if bad == "":
                continue
            try:
                torchiva.load_separator(bad)
            except ValueError:
                n += 1
                continue
            require(False, f"{bad!r} was accepted")
        # relative paths
        cfg = config("tiss", "glu", "full")
        sep = make(cfg, 8)
        sub = d / "sub folder" / "m"
        sub.mkdir(parents=True)
        save(sub, sep, cfg)
        cwd = os.getcwd()
        try:
            os.chdir(d)
            for p in ("sub folder/m", "./sub folder/m/", "sub folder/../sub folder/m"):
                same_state(torchiva.load_separator(p), sep, p)
                n += 1
        finally:
            os.chdir(cwd)
    return dict(states=n, transitions=n)


def run_names(k):
    n = 0
    m = instantiate("torchiva.models.GLUMask", (5, 4), dict(pool_size=3))
    require(type(m) is torchiva.models.GLUMask, "wrong type")
    m = instantiate("torchiva.models.GaussModel", kwargs=dict(eps=0.5))
    P = tt(np.array([[0.1 + 0j, 2.0]]))
    compare(m(P), np.array([[2.0, 0.25]]), 1e-6, "arguments of the instance")
    m = instantiate("torchiva.models.GaussModel", args=[0.25])
    compare(m(P), np.array([[4.0, 0.25]]), 1e-6, "positional arguments of the instance")
    require(type(instantiate("collections.OrderedDict")).__name__ == "OrderedDict", "no arguments")
    for bad in ("torchiva.models.Nothing", "nosuchmodule.X"):
        try:
            instantiate(bad)
        except ImportError:
            n += 1
            continue
        require(False, f"{bad} was accepted")
    # no shared state between two instances
    a = instantiate("torchiva.models.GLUMask", (5, 4))
    b = instantiate("torchiva.models.GLUMask", (5, 4))
    require(a is not b and a.layers is not b.layers, "instances are shared")
    return dict(states=n + 4, transitions=n + 4)


def run_history(k):
    cfg = config("tiss", "glu", "full")
    sep = make(cfg, 9)
    want = out(sep)
    with Scratch() as d:
        save(d, sep, cfg)
        for i, h in enumerate(k["hist"]):
            got = load(d, "dir_str", **(dict(n_iter=1, source_model=copy.deepcopy(MODELS["glu"])) if h == "override" else {}))
            same_state(got, sep, f"load {i} of {k['hist']}")
            if h != "override":
                compare(out(got), want, 1e-5, f"output of load {i} of {k['hist']}")
            if h == "train":
                got.train()
                y = got(tt(sig.wave(2, 90, key=3)).float())
                y.square().mean().backward()
                torch.optim.SGD(got.parameters(), lr=0.1).step()
            if h == "mutate":
                with torch.no_grad():
                    for v in got.state_dict().values():
                        v.zero_()
        compare(out(load(d, "files")), want, 1e-5, f"output after {k['hist']}")
    return dict(states=4, transitions=4, validated=4, outcome=",".join(k["hist"]))
