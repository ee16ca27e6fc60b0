"""Independence of representation and of process-wide settings"""
import copy
import io
import os
import pickle
import random
import sys

import numpy as np
import torch

import torchiva
from checks.c24 import view
from mc import ops, sig
from mc.engine import product
from mc.util import coarse, compare, nn, require, tt
from torchiva import models as tm

ID = "C26"
TITLE = "Results depend on the values given, not on their storage or on global settings"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of input representations x process-wide settings x operations, differential against the plain run; result types checked on every run"
RULE = (
    "every operation x every storage of the same values (conjugated, transposed, strided, expanded, requiring gradients, read "
    "under no_grad or inference mode) x default precision x random seed x copies of the object (deepcopy, pickle, state "
    "dict; fresh, and after calls with gradients) x precision of the input; results equal those of the plain run, types follow the input, inputs unmodified, process-wide settings and random number generators left as they were"
)
ASSUMPTIONS = ["single precision compared with double precision at 2e-2 of the scale"]

STORE = ["plain", "conj", "transposed", "expanded", "sliced", "perm", "grad", "no_grad", "inference"]
SETTINGS = ["none", "default64", "seed", "threads", "deepcopy", "pickle", "statedict", "train"]

FUNCS = ["stft", "istft", "md", "l2", "pb", "sel", "conv", "laplace", "gauss", "glu", "glu_ri", "blstm", "blstm_ri", "simple", "mvdrsup",
         "bss_tiss", "bss_ip2", "bss_five", "bss_mvdr", "bss_mwf", "bss_gev",
         "nmf", "nmf_tiss", "nmf_ip", "nmf_ip2", "nmf_five"]


def cases(tier):
    out = []
    n_ops = len(ops.ALGOS)
    for store in STORE:
        for setting in SETTINGS:
            for c in (2, 3):
                for i in range(n_ops):
                    if ops.supports(ops.ALGOS[i], c):
                        out.append(dict(kind="algo", op=i, c=c, store=store, setting=setting))
            for f in FUNCS:
                out.append(dict(kind="func", fn=f, store=store, setting=setting))
    for how in ("deepcopy", "pickle", "save"):
        for c in (2, 3):
            for i in range(n_ops):
                if ops.supports(ops.ALGOS[i], c):
                    out.append(dict(kind="used", op=i, c=c, how=how))
        for f in FUNCS:
            out.append(dict(kind="used", fn=f, how=how))
        for a in ("nmf", "tiss", "ip", "ip2", "five", "bss_tiss", "bss_ip2", "bss_five"):
            out.append(dict(kind="used", nmf=a, how=how))
    for f in ("nmf", "tiss", "ip", "ip2", "five"):
        out.append(dict(kind="random", fn=f))
    for i in range(n_ops):
        for c in (2, 3):
            if ops.supports(ops.ALGOS[i], c):
                for store in STORE:
                    out.append(dict(kind="single", op=i, c=c, store=store))
    for f in FUNCS:
        if not f.startswith("nmf"):  # other random numbers in single precision
            out.append(dict(kind="fsingle", fn=f))
    return out


def stored(x, kind):
    if kind == "perm" and x.ndim >= 3:
        return x.permute(*range(x.ndim - 3), -1, -3, -2).contiguous().permute(*range(x.ndim - 3), -2, -1, -3)
    if kind == "grad":
        return x.clone().requires_grad_(True)
    if kind in ("plain", "no_grad", "inference", "perm"):
        return x.clone()
    return view(x, kind)


class Settings:
    def __init__(self, setting, store):
        self.s, self.store = setting, store

    def __enter__(self):
        self.old = torch.get_default_dtype(), torch.get_rng_state()
        if self.s == "default64":
            torch.set_default_dtype(torch.float64)
        if self.s == "seed":
            torch.manual_seed(987)
        if self.s == "threads":
            torch.set_num_threads(2)
        self.ctx = {"no_grad": torch.no_grad, "inference": torch.inference_mode}.get(self.store)
        if self.ctx:
            self.ctx = self.ctx()
            self.ctx.__enter__()

    def __exit__(self, *a):
        if self.ctx:
            self.ctx.__exit__(*a)
        torch.set_default_dtype(self.old[0])
        torch.set_rng_state(self.old[1])
        torch.set_num_threads(1)


def changed(obj, setting, rebuild):
    if setting == "deepcopy":
        return copy.deepcopy(obj)
    if setting == "pickle":
        return pickle.loads(pickle.dumps(obj))
    if setting == "statedict" and isinstance(obj, torch.nn.Module):
        new = rebuild()
        new.load_state_dict(obj.state_dict())
        return new
    if setting == "train" and isinstance(obj, torch.nn.Module) and not any(
        isinstance(m, (torch.nn.Dropout, torch.nn.LSTM, torch.nn.BatchNorm1d)) for m in obj.modules()
    ):
        return obj.train()
    return obj


def run(k):
    return globals()["run_" + k["kind"]](k)


def ambient(rng=True):
    """the process-wide settings that a computation must leave alone"""
    s = dict(dtype=torch.get_default_dtype(), grad=torch.is_grad_enabled(), inference=torch.is_inference_mode_enabled(),
             threads=torch.get_num_threads(), deterministic=torch.are_deterministic_algorithms_enabled(),
             anomaly=torch.is_anomaly_enabled(), matmul=torch.get_float32_matmul_precision(), device=str(torch.get_default_device()),
             flush=float(torch.tensor(1e-310, dtype=torch.float64) * 1.0), np_err=np.geterr(), np_rng=str(np.random.get_state()),
             py_rng=hash(random.getstate()), cwd=os.getcwd(), print=str(vars(torch._tensor_str.PRINT_OPTS)),
             np_print=str(np.get_printoptions()), cudnn=(torch.backends.cudnn.enabled, torch.backends.cudnn.benchmark),
             mkldnn=torch.backends.mkldnn.enabled, autocast=(torch.is_autocast_enabled(), torch.get_autocast_dtype("cpu")),
             recursion=sys.getrecursionlimit())
    if rng:
        s["rng"] = hash(torch.get_rng_state().numpy().tobytes())
    return s


def same_ambient(before, after, what):
    diff = [n for n in before if before[n] != after[n]]
    require(not diff, f"{what}: the call changed the process-wide {', '.join(diff)}")


def compare_runs(obj, rebuild, args, k, what):
    rng = not k.get("fn", "").startswith("nmf")  # seeded by the harness
    before = ambient(rng)
    want = obj(*args)
    same_ambient(before, ambient(rng), what)
    kinds = [k["store"]] + ["plain"] * (len(args) - 1)
    if len(args) == 2:
        kinds = [k["store"]] * 2
    x2 = [stored(a, s) if torch.is_tensor(a) else a for a, s in zip(args, kinds)]
    keep = [x.detach().clone() if torch.is_tensor(x) else x for x in x2]
    with Settings(k["setting"], k["store"]):
        o2 = changed(obj, k["setting"], rebuild)
        before = ambient(rng)
        got = o2(*x2)
        same_ambient(before, ambient(rng), what)
    compare(got, want, 1e-8, what)
    require(got.dtype == want.dtype, f"{what}: dtype {got.dtype} instead of {want.dtype}")
    for a, b in zip(x2, keep):
        if torch.is_tensor(a):
            require(torch.equal(a.detach(), b), f"{what}: the input was modified")
    require(not (k["store"] == "no_grad" and got.requires_grad), f"{what}: a graph was recorded under no_grad")
    return dict(states=2, transitions=2, validated=1, outcome=coarse(got))


def run_algo(k):
    op = ops.ALGOS[k["op"]]
    X = tt(sig.mixture(k["c"], 4, 30, key=31, kind="reverb" if op["algo"] == "wpe" else "iva"))
    make = lambda: ops.make_algo(op, 4).double()  # noqa: E731
    return compare_runs(make(), make, [X], k, f"{op} {k['store']} {k['setting']}")


class Seeded(torch.nn.Module):
    """a module with random initialization, called with the same numbers every time"""

    def __init__(self, m, n):
        super().__init__()
        self.m, self.n = m, n

    def forward(self, X):
        if hasattr(self.m, "reset"):
            self.m.reset()
        torch.manual_seed(5)
        for _ in range(self.n):
            Y = self.m(X)
        return Y


class Fn:
    def __init__(self, name, dt=torch.float64):
        self.name, self.dt = name, dt

    def __call__(self, *a):
        n = self.name
        if n == "md":
            return torchiva.minimum_distortion(*a, p=1.0, q=2.0, max_iter=3, rtol=0.0)
        if n == "l2":
            return torchiva.minimum_distortion_l2_phase(*a)
        if n == "pb":
            return torchiva.projection_back(*a)
        if n == "sel":
            return torchiva.select_most_energetic(a[0], num=2)
        if n == "conv":
            return torchiva.fftconvolve(*a)
        raise KeyError(n)


def func(name, f64=True):
    """-> (object, rebuild, args)"""
    f = torch.float64
    X = tt(sig.mixture(2, 5, 20, key=33))
    if name in ("stft", "istft"):
        make = lambda: torchiva.STFT(16, hop_length=4, dtype=f if f64 else torch.float32)  # noqa: E731
        obj = make()
        x = tt(sig.wave(2, 100, key=3, batch=(2,)))
        if name == "stft":
            return obj, make, [x]
        y = tt(sig.mixture(2, 9, 12, key=5))

        class Inv(torch.nn.Module):
            def __init__(self):
                super().__init__()
                self.s = make()

            def forward(self, y):
                return self.s.inv(y)

        globals()["Inv"] = Inv
        Inv.__module__, Inv.__qualname__ = __name__, "Inv"
        return Inv(), Inv, [y]
    if name in ("md", "l2"):
        return Fn(name), lambda: Fn(name), [X, X[:1] * 0.7]
    if name == "pb":
        W = tt(sig.cnormal((5, 2, 2), 3) + np.eye(2))
        return Fn(name), lambda: Fn(name), None
    if name == "sel":
        return Fn(name), lambda: Fn(name), [tt(sig.wave(3, 50, key=2, batch=(2,)))]
    if name == "conv":
        return Fn(name), lambda: Fn(name), [tt(sig.wave(3, 50, key=2)), tt(sig.wave(3, 9, key=4))]
    if name in ("laplace", "gauss"):
        make = lambda: ops.make_model(name)  # noqa: E731
        return make(), make, [X]
    if name in ("glu", "glu_ri", "blstm", "blstm_ri", "simple", "mvdrsup"):
        make = lambda: ops.small_net(name, 5, double=f64)  # noqa: E731
        return make(), make, [X]
    if name == "nmf":
        make = lambda: Seeded(ops.make_model("nmf"), 3)  # noqa: E731
        return make(), make, [X]
    if name.startswith("nmf_"):
        make = lambda: Seeded(ops.make_algo(dict(algo=name[4:], n_iter=2, model="nmf")), 1)  # noqa: E731
        return make(), make, [X]
    algo = name[4:]
    par = dict(n_iter=2) if algo in ("tiss", "ip2", "five") else {}
    make = lambda: torchiva.nn.BSSSeparator(  # noqa: E731
        16, hop_length=4, window=tt(np.hanning(16) + 0.01).to(f if f64 else torch.float32), algo=algo,
        source_model=ops.Masks(2, 2) if algo in ops.BEAMFORMERS else ops.Weights(), **par)
    return make(), make, [tt(sig.wave(2, 200, key=3))]


def run_func(k):
    obj, make, args = func(k["fn"])
    if args is None:
        return dict(states=1, transitions=0, skipped=True)
    return compare_runs(obj, make, args, k, f"{k['fn']} {k['store']} {k['setting']}")


def run_used(k):
    """an object can be copied at any time, also after calls with gradients, and the copies are independent"""
    if "op" in k:
        op = ops.ALGOS[k["op"]]
        obj = ops.make_algo(op, 4).double()
        args = [tt(sig.mixture(k["c"], 4, 30, key=31, kind="reverb" if op["algo"] == "wpe" else "iva"))]
    elif "nmf" in k:
        a = k["nmf"]
        args = [tt(sig.mixture(2, 5, 20, key=33))]
        if a == "nmf":
            obj = ops.make_model("nmf")
        elif a.startswith("bss_"):
            obj = torchiva.nn.BSSSeparator(16, hop_length=4, n_iter=2, algo=a[4:], source_model=ops.make_model("nmf")).double()
            args = [tt(sig.wave(2, 200, key=3))]
        else:
            obj = ops.make_algo(dict(algo=a, n_iter=2, model="nmf"))
    else:
        obj, _, args = func(k["fn"])
    if args is None or not isinstance(obj, torch.nn.Module):
        return dict(states=1, transitions=0, skipped=True)

    def go(o):
        torch.manual_seed(3)
        if isinstance(o, tm.NMFModel):
            o.reset()
        return o(*args).detach().clone()

    def dup(o):
        if k["how"] == "deepcopy":
            return copy.deepcopy(o)
        b = io.BytesIO()
        if k["how"] == "pickle":
            return pickle.loads(pickle.dumps(o))
        torch.save(o, b)
        return torch.load(io.BytesIO(b.getvalue()), weights_only=False)

    want = go(obj)
    n = 0
    for word in (["plain"], ["grad"], ["grad", "grad"], ["loss"], ["grad", "plain"], ["loss", "grad"]):
        for w in word:
            torch.manual_seed(4)
            if isinstance(obj, tm.NMFModel):
                obj.reset()
            y = obj(*[a.clone().requires_grad_(True) if w != "plain" else a for a in args])
            if w == "loss" and y.requires_grad:
                try:
                    (y.abs().square() if y.is_complex() else y.square()).sum().backward()
                except RuntimeError as e:
                    if "eigh_backward" not in str(e):
                        raise
        twin = dup(obj)
        compare(go(twin), want, 1e-9, f"{k}: copy after {word}")
        for p in twin.parameters():
            p.data.mul_(1.5)
        compare(go(obj), want, 1e-9, f"{k}: original after {word} and a change of the copy")
        n += len(word) + 2
    return dict(states=6, transitions=n, validated=6, outcome=coarse(want))


def run_random(k):
    """random initial values are drawn from the generator of the user: they follow the seed and never rewind it"""
    n = 0
    X = tt(sig.mixture(2, 5, 20, key=33))
    make = ops.make_model if k["fn"] == "nmf" else (lambda _: ops.make_algo(dict(algo=k["fn"], n_iter=2, model="nmf")))
    outs, ends = [], []
    for seed in range(6):
        for history in range(3):
            torch.manual_seed(seed)
            f = make("nmf")
            for _ in range(history):
                f(X)
                if hasattr(f, "reset"):
                    f.reset()
                n += 1
            before = ambient(False)
            outs.append(nn(f(X)))
            same_ambient(before, ambient(False), k["fn"])
            ends.append(torch.get_rng_state().numpy().tobytes())
            n += 1
    for i in range(0, len(ends), 3):
        for j in range(i):
            require(ends[i] != ends[j - j % 3], f"{k['fn']}: the random numbers after the call do not follow the seed")
            require(not np.array_equal(outs[i], outs[j - j % 3]), f"{k['fn']}: the initial values do not follow the seed")
    return dict(states=18, transitions=n, validated=18, outcome=coarse(outs[0]))


def run_single(k):
    """single precision in, single precision out, close to the double precision result"""
    op = ops.ALGOS[k["op"]]
    X = tt(sig.mixture(k["c"], 4, 30, key=31, kind="reverb" if op["algo"] == "wpe" else "iva"))
    want = ops.make_algo(op, 4)(X)
    x = stored(X.to(torch.complex64), k["store"])
    with Settings("none", k["store"]):
        got = ops.make_algo(op, 4)(x)
    require(got.dtype == torch.complex64, f"dtype {got.dtype} for single precision input")
    if op["algo"] in ("five",) and op.get("proj_back_mic", 0) is None:
        return dict(states=1, transitions=1)
    compare(got, want, 2e-2, f"{op} in single precision")
    return dict(states=1, transitions=2, validated=1, outcome=coarse(want))


def run_fsingle(k):
    obj, make, args = func(k["fn"])
    if args is None:
        return dict(states=1, transitions=0, skipped=True)
    want = obj(*args)
    o32, _, a32 = func(k["fn"], f64=False)
    a32 = [a.to(torch.complex64 if a.is_complex() else torch.float32) for a in a32]
    got = o32(*a32)
    one = {torch.float64: torch.float32, torch.complex128: torch.complex64}[want.dtype]
    require(got.dtype == one, f"{k['fn']}: {got.dtype} for single precision input")
    compare(got, want, 1e-2, k["fn"])
    return dict(states=1, transitions=2, validated=1, outcome=coarse(want))
