"""Exported models"""
import contextlib
import copy
import io
import itertools
import json
import os
import runpy
import shutil
import sys
import tempfile
from pathlib import Path

import torch
import yaml

import torchiva
from mc import lightning, sig
from mc.engine import REPO, product
from mc.util import compare, require, tt

ID = "C29"
TITLE = "An exported training run loads back as the trained separator"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of training configurations and checkpoint lists on the real training model, export script and loader; differential against the directly built separator"
RULE = (
    "every configuration file of the repository (shrunk) and every algorithm x source model x reference microphone x settings: all lists of up to "
    "3 checkpoints, with repetitions, out of epochs with confusable numbers are exported and loaded; the separator has the mean "
    "weights and gives the output of the trained algorithm"
)
ASSUMPTIONS = ["pytorch_lightning is replaced by a stand-in with its documented checkpoint format", "the number of sources is given when loading, as the scripts do; so is the algorithm, except where its export is checked", "two checkpoints are averaged up to rounding"]
CHUNK = 4
EX = REPO / "examples"

MODELS = {
    "glu": dict(name="torchiva.models.GLUMask", kwargs=dict(n_freq=5, n_bottleneck=4, n_sublayers=2)),
    "glu_ri": dict(name="torchiva.models.GLUMask", kwargs=dict(n_freq=5, n_bottleneck=4, mag_spec=False)),
    "blstm": dict(name="torchiva.models.BLSTMMask", kwargs=dict(n_freq=5, n_bottleneck=3, n_hidden=4)),
    "simple": dict(name="torchiva.models.SimpleModel", kwargs=dict(n_freq=5, n_mels=3)),
    "mvdrsup": dict(name="torchiva.models.MaskMVDRSupport", kwargs=dict(n_src=2, n_masks=2, n_input=5, n_hidden=5)),
    "mvdrsup3": dict(name="torchiva.models.MaskMVDRSupport", kwargs=dict(n_src=2, n_masks=3, n_input=5, n_hidden=5)),
}
EPOCHS = [1, 11, 111, 2]


def cases(tier):
    q = tier == "quick"
    out = []
    for f in sorted(p.name for p in (EX / "configs").iterdir()):
        out.append(dict(kind="file", file=f, epochs=[1, 11]))
    for algo, model in (("tiss", "glu"), ("ip2", "glu"), ("five", "glu"), ("mvdr", "mvdrsup"), ("mwf", "mvdrsup"), ("gev", "mvdrsup")):
        out.append(dict(kind="algorithm", algo=algo, model=model, ref=0, n_power=None, taps=0, epochs=[1]))
    lists = [list(e) for n in (1, 2) for e in itertools.product(EPOCHS, repeat=n)]
    lists += [list(e) for e in (itertools.permutations(EPOCHS, 3) if q else itertools.product(EPOCHS, repeat=3))]
    for e in lists:
        out.append(dict(kind="made", algo="tiss", model="glu", ref=0, n_power=0, taps=1, epochs=e))
    for k in product(algo=["tiss", "ip2", "five", "mvdr", "mwf", "gev"], model=list(MODELS), ref=[0, 1], n_power=[None, 0, 2], taps=[0, 2],
                     epochs=[[1], [11, 1]]):
        bf = k["algo"] in ("mvdr", "mwf", "gev")
        if bf != k["model"].startswith("mvdrsup") or k["taps"] and k["algo"] != "tiss":
            continue
        if k["n_power"] is not None and k["algo"] not in ("mvdr", "five"):
            continue
        out.append(dict(kind="made", **k))
    return out


def load_scripts():
    lightning.install()
    if str(EX) not in sys.path:
        sys.path.insert(0, str(EX))
    sys.modules.pop("test", None)  # of the standard library
    from separation_model import WSJModel

    return WSJModel


def shrink(cfg):
    m = cfg["model"]
    m["n_fft"], m["hop_length"], m["n_iter"] = 8, 4, 2
    for key, val in dict(n_freq=5, n_input=5, n_bottleneck=4, n_hidden=6).items():
        if key in m["source_model"]["kwargs"]:
            m["source_model"]["kwargs"][key] = val
    return cfg


def run(k):
    WSJModel = load_scripts()
    if k["kind"] == "file":
        with open(EX / "configs" / k["file"]) as f:
            config = shrink(json.load(f))
    else:
        src = copy.deepcopy(MODELS[k["model"]])
        if k["algo"] == "five":  # its model does not see the DC bin
            src["kwargs"]["n_freq"] = 4
        config = dict(name="x", algorithm=k["algo"],
                      training=dict(seed=0, lr=1e-3, weight_decay=0, lr_scheduler_kwargs={}, loss_type="cisdr", n_chan=2,
                                    n_src=1 if k["algo"] == "five" else 2, autoclip_p=10),
                      model=dict(n_fft=8, hop_length=4, n_iter=2, n_taps=k["taps"], n_delay=1 if k["taps"] else 0, use_dmc=False,
                                 ref_mic=k["ref"], source_model=src))
        if k["n_power"] is not None:
            config["model"]["n_power_iter"] = k["n_power"]
    d = Path(tempfile.mkdtemp(prefix="vp_c29_"))
    try:
        return export(WSJModel, config, k, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def export(WSJModel, config, k, d):
    run_dir = d / "version_0"
    (run_dir / "checkpoints").mkdir(parents=True)
    with open(run_dir / "hparams.yaml", "w") as f:
        yaml.dump(dict(config=config), f)
    weights = {}
    for e in EPOCHS:
        torch.manual_seed(e)
        m = WSJModel(copy.deepcopy(config))
        with torch.no_grad():
            for v in m.separator.source_model.state_dict().values():
                if v.is_floating_point():
                    v.add_(0.1 * torch.rand(v.shape))
        weights[e] = {n: v.clone() for n, v in m.separator.state_dict().items()}
        torch.save(dict(state_dict=m.state_dict(), epoch=e), run_dir / "checkpoints" / f"epoch={e}-step={e * 10 + 1}.ckpt")

    argv, path = sys.argv, list(sys.path)
    sys.argv = [str(EX / "export_model.py"), str(d / "out" / "model"), str(run_dir)] + [str(e) for e in k["epochs"]]
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            runpy.run_path(sys.argv[0], run_name="__main__")
    finally:
        sys.argv, sys.path[:] = argv, path
    require(sorted(p.name for p in (d / "out" / "model").iterdir()) == ["model_config.yaml", "model_weights.ckpt"], "unexpected files in the export")

    n_src = config["training"]["n_src"]
    given = {}
    if k["kind"] == "algorithm":
        with open(d / "out" / "model" / "model_config.yaml") as f:
            require("algo" in yaml.safe_load(f) or config["algorithm"] == "tiss", "the exported configuration does not name the algorithm")
    else:
        given["algo"] = config["algorithm"]
    sep = torchiva.load_separator(str(d / "out" / "model"), n_src=n_src, **given).eval()
    state = sep.state_dict()
    mean = {n: sum(weights[e][n].double() for e in k["epochs"]) / len(k["epochs"]) for n in weights[k["epochs"][0]]}
    require(set(state) == set(mean), "parameters missing in the export")
    for n in mean:
        compare(state[n].double(), mean[n] if state[n].is_floating_point() else mean[n].to(state[n].dtype).double(), 1e-6, f"weight {n}", atol=1e-9)

    m = config["model"]
    ref = torchiva.nn.BSSSeparator(
        m["n_fft"], m["n_iter"], hop_length=m["hop_length"], n_taps=m["n_taps"], n_delay=m["n_delay"], n_src=n_src,
        algo=config["algorithm"], source_model=torchiva.utils.instantiate(**m["source_model"]), proj_back_mic=m["ref_mic"],
        use_dmc=m["use_dmc"], n_power_iter=m.get("n_power_iter")).eval()
    ref.load_state_dict({n: v.to(state[n].dtype) for n, v in mean.items()})
    x = tt(sig.wave(2, 90, 3)).float()
    with torch.no_grad():
        compare(sep(x), ref(x), 1e-3, "output of the exported separator")
    require(type(sep.separator) is type(ref.separator), "another algorithm than the trained one")
    return dict(states=len(EPOCHS) + 2, transitions=len(k["epochs"]) + 1, outcome=f"{config['algorithm']} {len(k['epochs'])}")
