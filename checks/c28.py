"""Memory held by the package"""
import contextlib
import gc
import inspect
import io
import itertools

import torch
from torch.profiler import ProfilerActivity, profile

import torchiva
from checks.c25 import PlainMasks
from mc import ops, sig
from mc.engine import product
from mc.util import require, tt

ID = "C28"
TITLE = "Memory held for results and gradients does not grow with iterations or calls"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive exploration of iteration counts, configurations and call histories of the real code; every state is monitored by an exact account of the live tensor memory"
RULE = (
    "with checkpointing, full product of channels, sources, taps, delay, model, batch, differentiated input x every number of iterations up to the "
    "bound: what one more iteration adds to the memory live after the forward pass and at the peak of the backward pass is the "
    "same for twice the frames (from the third iteration on for the peak) and, for the former, for a model eight times as large; every separator without gradients: live and peak memory are the same for every number of "
    "iterations; every separator, model and transform: all words of calls (plain, with gradients, with a backward pass, other size, "
    "failing) return the live memory to the level before them once their results are released, and repeated calls retain nothing"
)
ASSUMPTIONS = ["CPU allocations as reported by the allocator of torch", "the garbage collector has run", "differences below 400 bytes are not counted"]
CHUNK = 4
SLACK = 400


class Phase:
    """exact account of the live tensor memory: net change and peak since the last mark"""

    def __enter__(self):
        gc.collect()
        self.p = profile(activities=[ProfilerActivity.CPU], profile_memory=True)
        self.p.__enter__()
        return self

    def mark(self):
        # only what was allocated since the start of the profile is counted when it is released
        gc.collect()
        with torch.profiler.record_function("vp_mark"):
            pass

    def __exit__(self, *e):
        gc.collect()
        self.p.__exit__(*e)
        self.net = self.peak = self.count = 0
        ev = sorted((x for x in self.p.profiler.kineto_results.events() if x.name() in ("[memory]", "vp_mark")), key=lambda x: x.start_ns())
        for x in ev:
            if x.name() == "vp_mark":
                self.net = self.peak = 0
                continue
            self.count += 1
            self.net += x.nbytes()
            self.peak = max(self.peak, self.net)
        del self.p
        return False


class Net(torch.nn.Module):
    def __init__(self, f, width):
        super().__init__()
        st = torch.get_rng_state()
        torch.manual_seed(4)
        self.a = torch.nn.Conv1d(f, width, 3, padding=1).double()
        self.b = torch.nn.Conv1d(width, f, 3, padding=1).double()
        torch.set_rng_state(st)

    def forward(self, X):
        P = (X.real.square() + X.imag.square()).reshape((-1,) + X.shape[-2:])
        return torch.sigmoid(self.b(torch.relu(self.a(P)))).reshape(X.shape)


CALLS = ["plain", "grad", "backward", "other", "fail"]
EXTRA = ["bss_tiss", "bss_ip2", "bss_five", "bss_mvdr", "stft", "l2", "md", "glu", "blstm", "simple", "mvdrsup", "laplace", "gauss", "nmf", "glu_train"]


def cases(tier):
    q = tier == "quick"
    out = []
    for c in product(c=[2, 3] if q else [2, 3, 4], over=[0, 1], n_taps=[0, 1, 2], n_delay=[0, 1] if q else [0, 1, 2], batch=[[], [2]],
                     pb=["none", 0], xgrad=[True, False]):
        if q and (c["n_delay"] and not c["n_taps"] or c["pb"] == "none" and c["batch"]):
            continue
        out.append(dict(c, kind="dmc", its=4 if q else 8))
    for i, op in enumerate(ops.ALGOS):
        if "n_iter" in op:
            for c in (2, 3) if q else (2, 3, 4):
                if ops.supports(op, c) is not False:
                    for b in ([], [2]):
                        out.append(dict(kind="infer", op=i, c=c, batch=b, its=4 if q else 8))
    for n in (1, 2) if q else (1, 2, 3, 4):
        for w in itertools.product(range(len(CALLS)), repeat=n):
            for o in list(range(len(ops.ALGOS))) + EXTRA:
                out.append(dict(kind="leak", op=o, word=list(w)))
    for o in list(range(len(ops.ALGOS))) + EXTRA:
        for w in CALLS + ["verbose", "eval"]:
            out.append(dict(kind="repeat", op=o, call=w))
    return out


def run(k):
    gc.collect()
    gc.freeze()  # makes the collections below cheap
    return globals()["run_" + k["kind"]](k)


def steps(v):
    return [b - a for a, b in zip(v[:-1], v[1:])]


def run_dmc(k):
    n_src = k["c"] - 1 if k["over"] else k["c"]
    pb = None if k["pb"] == "none" else k["pb"]

    def measure(n_frames, width, it):
        X = tt(sig.mixture(k["c"], 4, n_frames, 5, tuple(k["batch"]), "reverb"))
        m = Net(4, width)
        algo = torchiva.T_ISS(n_iter=it, n_taps=k["n_taps"], n_delay=k["n_delay"], n_src=n_src, model=m, proj_back_mic=pb, use_dmc=True)
        X.requires_grad_(k["xgrad"])
        with Phase() as fwd:
            Y = algo(X)
        with Phase() as bwd:
            Y.real.sum().backward()
        return fwd.net, bwd.peak, fwd.count

    its = list(range(1, k["its"] + 1))
    measure(20, 4, 2)
    small = [measure(40, 4, i) for i in its]
    long = [measure(80, 4, i) for i in its]
    wide = [measure(40, 32, i) for i in its]
    require(all(s[2] > 0 for s in small), "no allocation recorded")
    for name, j in (("memory held after the forward pass", 0), ("peak memory of the backward pass", 1)):
        a = steps([s[j] for s in small])
        for what, v in (("frames", long), ("model size", wide)):
            b = steps([s[j] for s in v])
            for i, (x, y) in enumerate(zip(a, b)):
                if j == 1 and (i == 0 or what == "model size"):
                    continue  # from the second iteration on, there are gradients to accumulate
                require(abs(x - y) <= SLACK, f"{name}: iteration {i + 2} adds {x} bytes, {y} bytes with more {what}")
    return dict(states=3 * len(its), transitions=6 * len(its), outcome=f"{steps([s[0] for s in small])[-1]}")


def run_infer(k):
    op = dict(ops.ALGOS[k["op"]])
    X = tt(sig.mixture(k["c"], 4, 40, 5, tuple(k["batch"]), "reverb"))
    net, peak = [], []
    for it in [1] + list(range(1, k["its"] + 1)):
        algo = ops.make_algo(dict(op, n_iter=it), 4).double()
        with torch.no_grad():
            with Phase() as p:
                Y = algo(X)
        net.append(p.net), peak.append(p.peak)
        del algo
        require(p.net >= Y.numel() * Y.element_size(), "the result itself is not accounted for")
        del Y
    net, peak = net[1:], peak[1:]
    for i in range(2, len(net)):
        require(abs(net[i] - net[1]) <= SLACK, f"{op}: {net} bytes live after 1, 2, ... iterations")
        require(peak[i] - peak[1] <= SLACK, f"{op}: peak of {peak} bytes for 1, 2, ... iterations")
    return dict(states=len(net), transitions=len(net), outcome=f"{k['op']} {net[-1]} {peak[-1]}")


def subject(o):
    """-> function of (input, options), inputs"""
    if isinstance(o, int):
        op = dict(ops.ALGOS[o])
        algo = ops.make_algo(op, 4).double()
        c = 3 if ops.supports(op, 3) is not False else 2
        X = [tt(sig.mixture(c, 4, n, 5, (), "reverb")) for n in (24, 40)]
        return algo, X
    x = [tt(sig.wave(2, n, 3)) for n in (120, 200)]
    X = [tt(sig.mixture(2, 5, n, 5)) for n in (24, 40)]
    if o.startswith("bss_"):
        a = o[4:]
        m = PlainMasks() if a == "mvdr" else ops.Weights()
        return torchiva.nn.BSSSeparator(8, algo=a, n_iter=2, source_model=m, n_src=1 if a == "five" else None).double(), x
    if o == "stft":
        s = torchiva.STFT(8, hop_length=4, dtype=torch.float64)
        return (lambda x: s.inv(s(x))), x
    if o == "l2":
        return (lambda a: torchiva.minimum_distortion_l2_phase(a, a[:1])), X
    if o == "md":
        return (lambda a: torchiva.minimum_distortion(a, a[:1], max_iter=3)), X
    if o in ("laplace", "gauss", "nmf"):
        m = ops.make_model(o)

        def f(a):
            if hasattr(m, "reset"):
                m.reset()
            return m(a)
        return f, X
    m = ops.small_net(o.split("_")[0], 5)
    if o.endswith("train"):
        m.train()
    return m, X


class Abort(Exception):
    pass


def call(f, xs, what):
    if what == "plain":
        with torch.no_grad():
            f(xs[0])
        return
    if what == "verbose":
        opt = dict(verbose=True) if "verbose" in inspect.signature(getattr(f, "forward", f)).parameters else {}
        with torch.no_grad(), contextlib.redirect_stdout(io.StringIO()):
            f(xs[0], **opt)
        return
    if what == "eval":
        f.eval() if isinstance(f, torch.nn.Module) else None
        f(xs[1])
        return
    if what == "fail":
        # no frames at all, or the wrong number of dimensions
        try:
            f(xs[0][0, 0])
        except Exception:
            pass
        return
    x = (xs[1] if what == "other" else xs[0]).clone().requires_grad_(True)
    Y = f(x)
    if what == "backward" and Y.requires_grad:
        L = (Y.abs().square() if Y.is_complex() else Y.square()).sum()
        try:
            L.backward()
        except RuntimeError as e:
            if "eigh_backward" not in str(e):
                raise
    if isinstance(f, torch.nn.Module):
        f.zero_grad(set_to_none=True)


def tensors():
    gc.collect()
    return sum(isinstance(o, torch.Tensor) for o in gc.get_objects())


def run_repeat(k):
    """many calls of one kind do not leave any tensor behind, however small"""
    f, xs = subject(k["op"])
    n = []
    gc.unfreeze()
    for i in range(13):
        call(f, xs, k["call"])
        if i in (1, 4, 12):
            n.append(tensors())
    require(n[0] == n[1] == n[2], f"{k['op']}: {n} tensors live after 2, 5 and 13 calls ({k['call']})")
    return dict(states=13, transitions=13, outcome=f"{k['op']} {k['call']}")


def run_leak(k):
    f, xs = subject(k["op"])
    with Phase() as p:
        for w in CALLS:
            call(f, xs, w)
        call(f, xs, "plain")
        p.mark()
        for w in k["word"]:
            call(f, xs, CALLS[w])
        if k["op"] == "nmf":  # keeps its estimates until the next reset
            call(f, xs, "plain")
    require(abs(p.net) <= SLACK, f"{k['op']}: the calls {[CALLS[w] for w in k['word']]} leave {p.net} bytes")
    require(p.count > 0, "no allocation recorded")
    return dict(states=len(k["word"]) + 1, transitions=len(k["word"]) + 1, outcome=str(k["op"]))
