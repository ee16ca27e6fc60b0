"""Device placement, on a simulated accelerator"""
import contextlib
import io
import itertools
import os
import shutil
import tempfile
from pathlib import Path

import torch
import yaml

import torchiva
from mc import device, ops, sig
from mc.engine import product
from mc.util import compare, require, tt
from torchiva import linalg, models, scaling, separate

ID = "C31"
TITLE = "Every computation takes place on the device of its input"
LEVEL = "model_checking"
TECHNIQUE = (
    "exhaustive enumeration of configurations and of call histories across two devices on the real code, executed on a simulated accelerator whose "
    "dispatcher rejects every mix of devices and every host access; differential against the run on the host"
)
RULE = (
    "every algorithm mode x channels x batch x dtype x gradient, every model, STFT, scaling, linear algebra, separator and command on the simulated "
    "device; every sequence of up to 3 calls, alternating between host and device, on the same object: no operation mixes devices, results and "
    "gradients live on the device and have the values of the host"
)
ASSUMPTIONS = [
    "the simulated device follows PyTorch's rules: host operands are allowed in copies, as index tensors and as 0-dimensional tensors",
    "operations that the simulation cannot execute are counted as skipped",
    "decompositions of the device are those of the host, so results agree up to rounding",
]
CHUNK = 8
NETS = ["glu", "glu_ri", "blstm", "blstm_ri", "blstm_log", "simple"]


def cases(tier):
    q = tier == "quick"
    out = []
    for op in ops.ALGOS:
        for c, batch, dt, grad in itertools.product([2, 3], [[], [2], [2, 1]], ["c128", "c64"], [0, 1]):
            if ops.supports(op, c):
                out.append(dict(kind="algo", op=op, c=c, batch=batch, dt=dt, grad=grad))
    full = [
        dict(algo="tiss", n_iter=[1, 2], model=[None, "gauss", "weights", "running", "nmf"] + NETS, n_taps=[0, 2], n_delay=[0, 1], n_src=[None, 2],
             proj_back_mic=[None, 0, 1], use_dmc=[False, True]),
        dict(algo="ip", n_iter=[1, 2], model=[None, "weights", "nmf", "glu"], n_src=[None, 2], proj_back_mic=[None, 0, 1]),
        dict(algo="ip2", n_iter=[0, 1, 2], model=[None, "weights", "nmf", "glu"], proj_back_mic=[None, 0, 1]),
        dict(algo="five", n_iter=[1, 2], model=[None, "weights", "nmf"], n_power_iter=[None, 2], proj_back_mic=[None, 0, 1]),
        dict(algo="wpe", n_iter=[1, 3], n_taps=[1, 2], n_delay=[0, 2], model=[None, "wpegauss"]),
        dict(algo="mvdr", mvdr_type=["rtf", "scm"], n_power_iter=[None, 2], n_masks=[2, 3], n_src=[1, 2], ref_mic=[0, 1], model=["masks", "mvdrsup"]),
        dict(algo="mwf", time_invariant=[True, False], n_masks=[2, 3, 4], n_src=[1, 2], ref_mic=[0, 1], model=["masks", "mvdrsup"]),
        dict(algo="gev", n_masks=[2, 3], n_src=[1, 2], ref_mic=[0, 1], model=["masks", "mvdrsup"]),
    ]
    for spec in full:
        axes = {k: v if isinstance(v, list) else [v] for k, v in spec.items()}
        for op in product(**axes):
            if op["algo"] == "mwf" and not op["time_invariant"] and op["n_masks"] != 4:
                continue
            for c in ([3] if q else [2, 3, 4]):
                if op["algo"] == "ip2":
                    c = 2
                if ops.supports(op, c):
                    out.append(dict(kind="algo", op=op, c=c, batch=[2], dt="c128", grad=1))
    for m, batch, dt in itertools.product(NETS + ["laplace", "gauss", "nmf", "mvdrsup"], [[], [2], [2, 3]], ["c128", "c64"]):
        out.append(dict(kind="model", model=m, batch=batch, dt=dt))
    for nfft, hop, win, batch, dt in itertools.product([8, 12, 16], [None, 2, 4], [None, "hamming", "tensor", "numpy"], [[], [2], [2, 3]], ["f64", "f32"]):
        out.append(dict(kind="stft", nfft=nfft, hop=hop, win=win, batch=batch, dt=dt))
    for fn, c, batch in itertools.product(list(FUNCTIONS), [2, 3], [[], [2], [2, 2]]):
        out.append(dict(kind="function", fn=fn, c=c, batch=batch))
    for algo, m, nfft, lead in itertools.product(["tiss", "ip2", "five", "mvdr", "mwf", "gev"], NETS + ["laplace", "gauss", "nmf", "mvdrsup"],
                                                 [8, 16], [[], [2]]):
        if (m == "mvdrsup") == (algo in ops.BEAMFORMERS):
            out.append(dict(kind="separator", algo=algo, model=m, nfft=nfft, lead=lead))
    # an object used on both devices
    for op in ops.ALGOS:
        op = {k: v for k, v in op.items()}
        for n in (2, 3):
            for seq in itertools.product("hd", repeat=n):
                if len(set(seq)) > 1:
                    out.append(dict(kind="history", op=op, seq="".join(seq)))
    for m in NETS + ["mvdrsup", "nmf", "laplace"]:
        for n in (2, 3) if q else (2, 3, 4):
            for seq in itertools.product("hd", repeat=n):
                if len(set(seq)) > 1:
                    out.append(dict(kind="modelhist", model=m, seq="".join(seq)))
    for algo, m in (("tiss", "glu"), ("ip2", "blstm"), ("tiss", "nmf"), ("five", "simple"), ("mvdr", "mvdrsup"), ("gev", "mvdrsup")):
        for n in (2, 3):
            for seq in itertools.product("hd", repeat=n):
                if len(set(seq)) > 1:
                    out.append(dict(kind="sephist", algo=algo, model=m, seq="".join(seq)))
    for algo, m, src, mic in itertools.product(["tiss", "ip2", "five"], ["laplace", "gauss", "nmf", "nn"], [1, 2], [2, 3]):
        if algo != "ip2" or mic == 2:
            out.append(dict(kind="command", algo=algo, model=m, src=src, mic=mic))
    for algo in ("mvdr", "mwf", "gev"):
        out.append(dict(kind="command", algo=algo, model="nn", src=2, mic=2))
    for how, algo in itertools.product(["load_to", "deepcopy", "state"], ["tiss", "ip2", "five"]):
        out.append(dict(kind="loaded", how=how, algo=algo))
    return out


def leaves(x):
    if torch.is_tensor(x):
        return [x]
    if isinstance(x, (tuple, list)):
        return [v for e in x for v in leaves(e)]
    return []


def check(got, want, what, tol=1e-9):
    g, w = leaves(got), leaves(want)
    require(len(g) == len(w), f"{what}: {len(g)} results instead of {len(w)}")
    for i, (a, b) in enumerate(zip(g, w)):
        require(isinstance(a, device.Dev), f"{what}: result {i} is on the host")
        a = device.host(a.detach())
        require(a.dtype == b.dtype, f"{what}: {a.dtype} instead of {b.dtype}")
        compare(a, b.detach(), tol, what, atol=1e-12)


def loss(y):
    return sum((v.real.square() + v.imag.square() if v.is_complex() else v.square()).sum() for v in leaves(y))


def same(make, inputs, call=None, grad=True, what="", tol=1e-9, gtol=1e-6):
    """the computation on the device against the one on the host"""
    call = call or (lambda obj, *a: obj(*a))
    obj = make()
    ref_in = [x.clone().requires_grad_(grad) if x.is_floating_point() or x.is_complex() else x for x in inputs]
    torch.manual_seed(7)
    want = call(obj, *ref_in)
    grad = grad and any(v.requires_grad for v in leaves(want))
    if grad:
        loss(want).backward()
    with device.Simulated():
        obj2 = make()
        if isinstance(obj2, torch.nn.Module):
            obj2 = obj2.to(device.NAME)
        dev_in = [device.to_device(x).requires_grad_(r.requires_grad) for x, r in zip(inputs, ref_in)]
        torch.manual_seed(7)
        got = call(obj2, *dev_in)
        check(got, want, what, tol)
        if grad:
            loss(got).backward()
            for a, b in zip(dev_in, ref_in):
                if b.grad is not None:
                    require(a.grad is not None, f"{what}: the input gets no gradient on the device")
                    check(a.grad, b.grad, f"{what}: gradient of the input", gtol)
            if isinstance(obj, torch.nn.Module):
                for (n, a), (_, b) in zip(obj2.named_parameters(), obj.named_parameters()):
                    if b.grad is not None:
                        require(a.grad is not None, f"{what}: {n} gets no gradient on the device")
                        scale = max(float(p.grad.abs().max()) for p in obj.parameters() if p.grad is not None)
                        require(isinstance(a.grad, device.Dev), f"{what}: gradient of {n} on the host")
                        d = float((device.host(a.grad) - b.grad).abs().max())
                        require(d <= gtol * scale + 1e-12, f"{what}: gradient of {n} differs by {d:.2e} (scale {scale:.2e})")
    return want


def spd(c, batch, key=1):
    a = tt(sig.cnormal((*batch, 5, c, 3 * c), key))
    return a @ a.mH


def spec(c, batch, key=5, f=4, n=20, dt="c128"):
    X = tt(sig.mixture(c, f, n, key=key, batch=tuple(batch)))
    return X.to(torch.complex64) if dt == "c64" else X


def eig_free(w, v):
    """what does not depend on the phases of the eigenvectors"""
    return w, (v[..., :, None, :] * v[..., None, :, :].conj())


FUNCTIONS = {
    "mdp_l2": (lambda Y, r: scaling.minimum_distortion_l2(Y, r), "Yr"),
    "mdp_l2_phase": (lambda Y, r: scaling.minimum_distortion_l2_phase(Y, r), "Yr"),
    "mdp_11": (lambda Y, r: scaling.minimum_distortion(Y, r, p=1, q=1, max_iter=3), "Yr"),
    "mdp_12": (lambda Y, r: scaling.minimum_distortion(Y, r, p=1, q=2, max_iter=3), "Yr"),
    "mdp_12_rel": (lambda Y, r: scaling.minimum_distortion(Y, r, p=1.5, q=2, max_iter=20, rtol=1e-3), "Yr"),
    "pb": (lambda Y, r: scaling.projection_back(Y, r), "Yr"),
    "select1": (lambda Y: torchiva.select_most_energetic(Y, num=1, dim=-3, dim_reduc=-1), "Y"),
    "select2": (lambda Y: torchiva.select_most_energetic(Y.real, num=2, dim=-3, dim_reduc=-2), "Y"),
    "solve": (lambda A, b: linalg.solve_loaded(A, b), "Ab"),
    "solve_general": (lambda A, b: linalg.solve_loaded_general(A, b), "Ab"),
    "inv": (lambda A: linalg.inv_loaded(A), "A"),
    "scale": (lambda A: linalg.matrix_scale(A), "A"),
    "load": (lambda A: linalg.diagonal_loading(A, linalg.mag(A[..., 0])), "A"),
    "eigh": (lambda A: eig_free(*linalg.eigh(A)), "A"),
    "eigh_cpu": (lambda A: eig_free(*linalg.eigh(A, use_eigh_cpu=True)), "A"),
    "gevd": (lambda A, B: eig_free(*linalg.eigh(A, B)), "AB"),
    "gevd_cpu": (lambda A, B: eig_free(*linalg.eigh(A, B, use_eigh_cpu=True)), "AB"),
    "inv2": (lambda A: linalg.inv_2x2(A[..., :2, :2]), "A"),
    "null2": (lambda A: linalg.null_vector_2x2(A[..., 0, 0], A[..., 0, 1], A[..., 1, 1]), "A"),
    "hermite": (lambda A: linalg.hermite(A), "A"),
    "bmm": (lambda A, B: linalg.bmm(A, B), "AB"),
    "multiply": (lambda A, B: linalg.multiply(A, B), "AB"),
    "divide": (lambda A, B: linalg.divide(A, B.abs() + 1), "AB"),
    "mag": (lambda A: (linalg.mag(A), linalg.mag_sq(A)), "A"),
    "hankel": (lambda Y: linalg.hankel_view(Y, 3), "Y"),
    "conv_full": (lambda Y: torchiva.fftconvolve.fftconvolve(Y.real, Y.imag[..., :7], mode="full")
                  if hasattr(torchiva.fftconvolve, "fftconvolve") else torchiva.fftconvolve(Y.real, Y.imag[..., :7], mode="full"), "Y"),
    "conv_same": (lambda Y: torchiva.fftconvolve.fftconvolve(Y.real, Y.imag[..., :7], mode="same", dim=-1)
                  if hasattr(torchiva.fftconvolve, "fftconvolve") else torchiva.fftconvolve(Y.real, Y.imag[..., :7], mode="same", dim=-1), "Y"),
}


def make_op(op, c, f, dt, double=True):
    op = dict(op)
    obj = ops.make_algo(op, f - 1 if op["algo"] == "five" and op.get("model") in NETS else f)
    return obj.double() if dt == "c128" else obj.float()


def tol_of(dt):
    return 1e-9 if dt == "c128" else 2e-3


def wave(c, n, lead=(), key=3, dt=torch.float64):
    return tt(sig.wave(c, n, key=key, batch=tuple(lead))).to(dt)


def build_sep(algo, m, nfft):
    f = nfft // 2 + 1
    with contextlib.ExitStack():
        if m == "mvdrsup":
            src = ops.small_net("mvdrsup", f)
        elif m in NETS:
            src = ops.small_net(m, f - (algo == "five"))
        else:
            src = ops.make_model(m, None)
        sep = torchiva.nn.BSSSeparator(nfft, n_iter=2, hop_length=nfft // 4, algo=algo, source_model=src, n_taps=1 if algo == "tiss" else 0)
    return sep.double().eval()


def history(k, make, inputs, call=None, tol=1e-9):
    """calls alternating between the devices on one object; every result equals that of a fresh object on the host"""
    call = call or (lambda o, x: o(x))
    obj = make()
    n = 0
    for i, (where, x) in enumerate(zip(k["seq"], inputs)):
        fresh = make()
        torch.manual_seed(11 + i)
        want = call(fresh, x)
        torch.manual_seed(11 + i)
        if where == "d":
            with device.Simulated():
                obj = obj.to(device.NAME) if isinstance(obj, torch.nn.Module) else obj
                got = call(obj, device.to_device(x))
                check(got, want, f"call {i} of {k['seq']}", tol)
        else:
            with device.Simulated():
                obj = obj.to("cpu") if isinstance(obj, torch.nn.Module) else obj
            got = call(obj, x)
            for a, b in zip(leaves(got), leaves(want)):
                require(not isinstance(a, device.Dev), f"call {i} of {k['seq']}: result on the device for an input of the host")
                compare(a.detach(), b.detach(), tol, f"call {i} of {k['seq']}", atol=1e-12)
        n += 1
    return n


def run(k):
    device.setup()
    try:
        n, outcome = execute(k)
    except device.DeviceError as e:
        require(False, f"operation mixing devices: {e}")
    except NotImplementedError as e:
        if "Could not run 'aten::" in str(e) or device.NAME in str(e):  # not possible on the simulated device
            return dict(states=1, transitions=0, outcome="unsupported", skipped=True)
        raise
    return dict(states=n + 1, transitions=n, outcome=outcome)


def execute(k):
    kind = k["kind"]
    if kind == "algo":
        c, f, n = k["c"], 4, 24
        op = dict(k["op"])
        X = spec(c, k["batch"], key=31, f=f, n=n, dt=k["dt"])
        iters = op.get("n_iter", 1)
        t = tol_of(k["dt"])
        grad = bool(k["grad"]) and op.get("model") not in ("nmf", "running") and k["dt"] == "c128"
        same(lambda: make_op(op, c, f, k["dt"]), [X], grad=grad, what=op["algo"], tol=t, gtol=1e-6)
        return iters, op["algo"]
    if kind == "model":
        f, n = 6, 12
        m = k["model"]
        X = spec(1, k["batch"], key=41, f=f, n=n, dt=k["dt"])[..., 0, :, :]
        if m == "nmf":  # (..., sources, frequencies, frames)
            X = torch.stack((X, X.flip(-1)), dim=-3)

        def make():
            o = ops.small_net(m, f) if m in NETS + ["mvdrsup"] else ops.make_model(m, None)
            return o.double() if k["dt"] == "c128" else o.float()

        same(make, [X], grad=m != "nmf" and k["dt"] == "c128", what=m, tol=tol_of(k["dt"]))
        return 1, m
    if kind == "stft":
        dt = torch.float64 if k["dt"] == "f64" else torch.float32
        win = k["win"]
        if win == "tensor":
            win = torch.hann_window(k["nfft"], dtype=dt) + 0.1
        elif win == "numpy":
            win = (torch.hann_window(k["nfft"], dtype=dt) + 0.1).numpy()
        x = wave(1, 60, k["batch"], dt=dt)[..., 0, :]

        def make():
            return torchiva.STFT(k["nfft"], hop_length=k["hop"], window=win, dtype=dt)

        t = 1e-9 if k["dt"] == "f64" else 1e-4
        Y = same(make, [x], what="stft", tol=t, gtol=1e-6 if k["dt"] == "f64" else 1e-3)
        same(make, [Y.detach()], call=lambda o, y: o.inv(y), what="inverse stft", tol=t, gtol=1e-6 if k["dt"] == "f64" else 1e-3)
        return 2, "stft"
    if kind == "function":
        fn, args = FUNCTIONS[k["fn"]]
        made = dict(Y=lambda: spec(k["c"], k["batch"], key=51), r=lambda: spec(k["c"], k["batch"], key=51)[..., 0, :, :] * 0.7,
                    A=lambda: spd(k["c"], k["batch"], 61), B=lambda: spd(k["c"], k["batch"], 62),
                    b=lambda: tt(sig.cnormal((*k["batch"], 5, k["c"], 2), 63)))
        same(lambda: fn, [made[a]() for a in args], what=k["fn"], tol=1e-8)
        return 1, k["fn"]
    if kind == "separator":
        x = wave(2, 150, k["lead"])
        same(lambda: build_sep(k["algo"], k["model"], k["nfft"]), [x], grad=k["model"] != "nmf", what=f"{k['algo']} {k['model']}", tol=1e-8, gtol=1e-5)
        return 3, k["algo"]
    if kind == "history":
        op = k["op"]
        inputs = [spec(2, [2], key=70 + i, n=20 + 3 * (i % 2)) for i in range(len(k["seq"]))]
        return history(k, lambda: make_op(op, 2, 4, "c128"), inputs), op["algo"]
    if kind == "modelhist":
        m = k["model"]
        if m == "nmf":
            inputs = [spec(2, [], key=80 + i, f=6, n=12 + i % 2) for i in range(len(k["seq"]))]
        else:
            inputs = [spec(1, [2], key=80 + i, f=6, n=12 + i % 2)[..., 0, :, :] for i in range(len(k["seq"]))]

        def call(o, x):
            if hasattr(o, "reset"):
                o.reset()
            return o(x)

        return history(k, lambda: ops.small_net(m, 6) if m in NETS + ["mvdrsup"] else ops.make_model(m, None), inputs, call), m
    if kind == "sephist":
        inputs = [wave(2, 150 + 8 * (i % 2), key=90 + i) for i in range(len(k["seq"]))]
        return history(k, lambda: build_sep(k["algo"], k["model"], 8), inputs, tol=1e-8), k["algo"]
    if kind == "loaded":
        d = tempfile.mkdtemp(prefix="vp_c31_")
        try:
            write_model(Path(d), k["algo"])
            x = wave(2, 150).float()
            base = torchiva.load_separator(d, n_src=2 if k["algo"] != "five" else 1).eval()
            want = base(x)

            def make():
                return torchiva.load_separator(d, n_src=2 if k["algo"] != "five" else 1).eval()

            with device.Simulated():
                if k["how"] == "load_to":
                    sep = make().to(device.NAME)
                elif k["how"] == "deepcopy":
                    import copy

                    sep = copy.deepcopy(make()).to(device.NAME)
                else:  # weights copied to an object that is already on the device
                    sep = make()
                    for p in sep.parameters():
                        p.data.mul_(0.5)
                    sep = sep.to(device.NAME)
                    sep.load_state_dict(base.state_dict())
                check(sep(device.to_device(x)), want, f"loaded separator ({k['how']})", 2e-3)
        finally:
            shutil.rmtree(d, ignore_errors=True)
        return 2, "loaded"
    if kind == "command":
        return command(k)
    raise AssertionError(kind)


def write_model(d, algo):
    f = 17 - (algo == "five")
    if algo in ops.BEAMFORMERS:
        name, kwargs = "torchiva.models.MaskMVDRSupport", dict(n_src=2, n_masks=2, n_input=17, n_hidden=5)
    else:
        name, kwargs = "torchiva.models.GLUMask", dict(n_freq=f, n_bottleneck=4, n_sublayers=2)
    cfg = dict(n_fft=32, hop_length=8, n_iter=2, algo=algo, source_model=dict(name=name, kwargs=kwargs))
    torch.manual_seed(5)
    sep = torchiva.nn.BSSSeparator(32, n_iter=2, hop_length=8, algo=algo, source_model=torchiva.utils.instantiate(name, kwargs=kwargs))
    torch.save(sep.state_dict(), d / "model_weights.ckpt")
    with open(d / "model_config.yaml", "w") as fd:
        yaml.dump(cfg, fd)


def command(k):
    """the command gives the same file with --device as without"""
    import numpy as np
    import scipy.io.wavfile

    d = Path(tempfile.mkdtemp(prefix="vp_c31_"))
    try:
        (d / "model").mkdir()
        write_model(d / "model", k["algo"])
        scipy.io.wavfile.write(d / "in.wav", 8000, np.round(8000 * sig.wave(3, 700, key=4).T).astype(np.int16))
        args = [str(d / "in.wav"), None, "--mic", str(k["mic"]), "--src", str(k["src"]), "--algo", k["algo"], "--n_iter", "2", "--model-type", k["model"]]
        args += ["--model-path", str(d / "model")] if k["model"] == "nn" else ["--nfft", "32", "--hop", "8", "--win", "hann"]
        res = []
        for name in ("cpu", device.NAME):
            args[1] = str(d / f"{name}.wav")
            torch.manual_seed(0)
            ns = separate.get_parser().parse_args(args + ["--device", name])
            with contextlib.redirect_stdout(io.StringIO()), device.Simulated() if name != "cpu" else contextlib.nullcontext():
                separate.main(ns)
            res.append(scipy.io.wavfile.read(args[1]))
        require(res[0][0] == res[1][0], "another sampling rate with the device")
        a, b = res[0][1], res[1][1]
        require(a.shape == b.shape and a.dtype == b.dtype, f"shape {b.shape} with the device, {a.shape} without")
        a, b = a.astype(float), b.astype(float)
        require(np.abs(a - b).max() <= 1e-3 * np.abs(a).max() + (2 if np.abs(a).max() > 10 else 0), "the output with the device differs")
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return 2, k["algo"]
