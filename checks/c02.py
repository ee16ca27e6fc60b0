"""History independence and purity"""
import copy
import itertools

import numpy as np
import torch

import torchiva
from mc import ops, sig
from mc.util import coarse, compare, digest, nn, require, tt

ID = "C02"
TITLE = "A call depends only on its own arguments, never on earlier calls"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive exploration of all call histories up to depth 3 on shared separator objects, differential against fresh objects"
RULE = (
    "all sequences of up to 3 calls over an alphabet of 8 call kinds (base, other shape, batch, overridden "
    "parameters, call failing half-way, backward pass, other precision, other contents in the same buffer) on one object, for every algorithm and "
    "model, also in evaluation mode and with two separators sharing one model, and words of end-to-end (time-domain) calls in both precisions; after every history the results of probe calls are compared "
    "with those of a fresh object and inputs, earlier results, settings and weights with their snapshots"
)
ASSUMPTIONS = [
    "models with random initialization are seeded identically before every call",
    "neural models in eval mode",
]


class Boom(Exception):
    pass


class Raiser(torch.nn.Module):
    """a model that fails at its k-th call"""

    def __init__(self, inner, k):
        super().__init__()
        self.inner, self.k, self.n = inner, k, 0

    def forward(self, X):
        self.n += 1
        if self.n >= self.k:
            raise Boom()
        return self.inner(X)


EXTRA = [
    dict(algo="tiss", n_iter=2, model="nmf"),
    dict(algo="tiss", n_iter=2, model="running"),
    dict(algo="ip", n_iter=2, model="nmf", n_src=2),
    dict(algo="ip2", n_iter=2, model="running"),
    dict(algo="five", n_iter=2, model="running"),
    dict(algo="wpe", n_iter=2, n_taps=1, n_delay=0, model="wperunning"),
    dict(algo="tiss", n_iter=1, model="glu"),
    dict(algo="mvdr", model="mvdrsup"),
]

SHARED = [
    ("tiss", "tiss", "nmf"),
    ("tiss", "ip", "nmf"),
    ("ip", "ip2", "nmf"),
    ("ip2", "tiss", "running"),
    ("five", "tiss", "running"),
    ("tiss", "ip", "global_nmf"),
    ("tiss", "ip2", "default"),
]

CHUNK = 1
ALPHABET = ["a", "b", "batch", "over", "fail", "grad", "c64", "reuse"]


def cases(tier):
    out = []
    depth = 3 if tier == "quick" else 4
    algos = ops.ALGOS + EXTRA
    for d in range(1, depth + 1):
        for op in algos:
            # one case per (op, first call): the case explores the sub-tree
            for head in itertools.product(ALPHABET, repeat=min(d, 1)):
                out.append(dict(kind="algo", op=op, head=list(head), depth=d))
        # in evaluation mode: shorter histories, models with a state in full
        for op in ops.ALGOS + EXTRA:
            if d == 1 or op.get("model") in ("nmf", "running", "wperunning"):
                for head in ALPHABET:
                    out.append(dict(kind="algo", op=op, head=[head], depth=d, eval=True))
        for sh in SHARED:
            out.append(dict(kind="shared", pair=list(sh), depth=d + 1))
            out.append(dict(kind="shared", pair=list(sh), depth=min(d + 1, 3), eval=True))
        for algo in ("tiss", "ip2", "five", "mvdr", "mwf", "gev", "tiss_nmf"):
            out.append(dict(kind="sep", algo=algo, depth=d))
            out.append(dict(kind="sep", algo=algo, depth=d, eval=True))
    for name in ("stft", "func"):
        out.append(dict(kind=name, depth=2))
    for algo in ("tiss", "ip2", "five", "mvdr", "mwf", "gev", "tiss_nmf", "tiss_dmc", "tiss_net", "five_power"):
        for double in (False, True):
            for head in SEP_CALLS:
                out.append(dict(kind="sep_calls", algo=algo, double=double, head=head, depth=2 if tier == "quick" else 3))
    return out


class WpeRunning(torch.nn.Module):
    def __init__(self):
        super().__init__()
        self.reset()

    def reset(self):
        self.P = None

    def forward(self, Y):
        P = (Y.real.square() + Y.imag.square()).mean(dim=-3).detach()
        if self.P is not None:
            P = 0.5 * P + 0.5 * self.P
        self.P = P
        return 1.0 / (P + 0.01)


def build(op, f):
    op = dict(op)
    if op.get("model") == "wperunning":
        op.pop("model")
        return torchiva.WPE(model=WpeRunning(), n_iter=op["n_iter"], n_taps=op["n_taps"], n_delay=op["n_delay"])
    return ops.make_algo(op, f)


def overrides(op):
    a = op["algo"]
    o = {}
    if a in ("tiss", "ip", "ip2", "five", "wpe"):
        o["n_iter"] = 1 if op.get("n_iter", 2) != 1 else 3
        o["eps"] = 1e-4
    if a in ("tiss", "ip", "ip2", "five"):
        o["proj_back_mic"] = 1 if not op.get("proj_back_mic") else 0
        o["model"] = ops.make_model("weights2")
    if a == "tiss":
        o.update(n_taps=3, n_delay=2, n_src=1, use_dmc=not op.get("use_dmc", False))
    if a == "ip":
        o.update(n_src=1)
    if a == "five":
        o["n_power_iter"] = 2
    if a == "wpe":
        o.update(n_taps=1, n_delay=2, model=ops.make_model("wpegauss"))
    if a in ops.BEAMFORMERS:
        o.update(ref_mic=1 if not op.get("ref_mic") else 0, eps=1e-3)
        nm = 4 if (a == "mwf") else 2
        o["mask_model"] = ops.Masks(1, nm, shift=0.3)
        if a == "mvdr":
            o.update(mvdr_type="scm" if op.get("mvdr_type", "rtf") == "rtf" else "rtf", n_power_iter=2)
        if a == "mwf":
            o.update(time_invariant=not op.get("time_invariant", True))
    return o


SETTINGS = ("n_iter", "n_taps", "n_delay", "n_src", "proj_back_mic", "use_dmc", "eps", "ref_mic",
            "mvdr_type", "n_power_iter", "time_invariant")


def snapshot(m):
    s = {k: getattr(m, k) for k in SETTINGS if hasattr(m, k)}
    s["model"] = id(getattr(m, "model", None)) if hasattr(m, "model") else id(getattr(m, "mask_model", None))
    s["sd"] = {k: digest(v) for k, v in m.state_dict().items()}
    s["training"] = [x.training for x in m.modules()]
    s["grad_enabled"] = torch.is_grad_enabled()
    s["dtype"] = str(torch.get_default_dtype())
    s["req"] = [p.requires_grad for p in m.parameters()]
    return s


_INPUTS = {}


def inputs(c, f):
    if (c, f) not in _INPUTS:
        Xa = sig.mixture(c, f, 14, 1, (), "reverb")
        Xb = sig.mixture(c, f, 21, 2, (), "reverb") * 2.0
        _INPUTS[(c, f)] = dict(
            a=tt(Xa), b=tt(Xb), batch=tt(sig.mixture(c, f, 14, 3, (2,), "reverb")), over=tt(Xa), fail=tt(Xa),
            grad=tt(Xa * 1.5), reuse=tt(sig.mixture(c, f, 14, 7, (), "reverb")), c64=tt(sig.mixture(c, f, 14, 4, (), "reverb"), torch.complex64),
        )
    return _INPUTS[(c, f)]


class Hist:
    """one object, a growing history of calls"""

    def __init__(self, op, c, f, ev=False):
        self.op, self.c, self.f = op, c, f
        self.obj = build(op, f)
        if ev:
            self.obj.eval()
        self.inp = {k: v.clone() for k, v in inputs(c, f).items()}
        self.ref_inp = {k: digest(v) for k, v in self.inp.items()}
        self.snap = snapshot(self.obj)
        self.kept = []
        self.n = 0

    def call(self, kind, keep=True):
        x = self.inp["a" if kind == "reuse" else kind]
        torch.manual_seed(11)
        self.n += 1
        kw = {}
        if kind == "over":
            kw = overrides(self.op)
        elif kind == "fail":
            bf = self.op["algo"] in ops.BEAMFORMERS
            key = "mask_model" if bf else "model"
            if self.op["algo"] == "wpe":
                inner = ops.make_model("wpegauss")
            elif bf:
                inner = ops.Masks(2, 2)
            else:
                inner = ops.make_model("weights")
            kw = {key: Raiser(inner, 1 if bf else 2)}
            try:
                self.obj(x, **kw)
            except Boom:
                return None
            if self.op.get("n_iter", 2) < 2:
                return None
            raise AssertionError("the exception of the model was swallowed")
        if kind == "c64" and self.op.get("model") in ("glu", "mvdrsup", "blstm"):
            x = self.inp["a"]
        if kind == "grad":
            x = x.clone().requires_grad_(True)
            y = self.obj(x, **kw)
            y.abs().square().sum().backward()
            for p in self.obj.parameters():
                p.grad = None
            y = y.detach()
        elif kind == "reuse":
            # the same tensor with other contents, restored afterwards
            old = x.clone()
            x = self.inp["a"]
            x.copy_(inputs(self.c, self.f)["reuse"])
            with torch.no_grad():
                y = self.obj(x, **kw)
            x.copy_(old)
        else:
            with torch.no_grad():
                y = self.obj(x, **kw)
        if keep:
            self.kept.append((y, digest(y)))
        return y

    def check(self, hist):
        for k, v in self.inp.items():
            require(digest(v) == self.ref_inp[k], f"history {hist}: the input tensor of call {k} was modified")
        for y, d in self.kept:
            require(digest(y) == d, f"history {hist}: a result returned earlier was modified by a later call")
        s = snapshot(self.obj)
        for k in self.snap:
            require(s[k] == self.snap[k], f"history {hist}: {k} changed from {self.snap[k]} to {s[k]}")


_FRESH = {}


def run(case):
    if case["kind"] == "algo":
        return run_algo(case)
    return globals()["run_" + case["kind"]](case)


def run_algo(case):
    op = case["op"]
    c, f = (2, 3) if op["algo"] == "ip2" else (3, 3)
    fresh = {}
    for k in ALPHABET:
        if k != "fail":
            fresh[k] = Hist(op, c, f, case.get("eval")).call(k)
    n, states, outc = 0, 0, set()
    tails = itertools.product(ALPHABET, repeat=case["depth"] - 1)
    for tail in tails:
        hist = case["head"] + list(tail)
        h = Hist(op, c, f, case.get("eval"))
        for k in hist:
            y = h.call(k)
            if k == "reuse":
                compare(y, fresh[k], 1e-10, f"history {hist}: result for new contents in the buffer of an earlier call")
        for probe in ("a", "over") if hist[-1] != "over" else ("a", "b"):
            y = h.call(probe)
            compare(y, fresh[probe], 1e-10, f"history {hist} then {probe}: result differs from a fresh object")
        y = h.call("reuse")
        compare(y, fresh["reuse"], 1e-10, f"history {hist}: result for new contents in the buffer of an earlier call")
        h.check(hist)
        n += h.n
        states += 1
    return dict(transitions=n, states=states, validated=states, outcome=coarse(fresh["a"]))


def run_shared(case):
    p, q, mname = case["pair"]
    c, f = (2, 3)

    def make():
        torch.manual_seed(0)
        if mname == "global_nmf":
            model = torchiva.source_models["nmf"] if hasattr(torchiva, "source_models") else torchiva.models.source_models["nmf"]
        elif mname == "default":
            model = None
        else:
            model = ops.make_model(mname)
        A = ops.CLASSES[p](n_iter=2, model=model)
        B = ops.CLASSES[q](n_iter=2, model=model)
        if case.get("eval"):
            A.eval(), B.eval()
        return A, B

    inp = inputs(c, f)
    calls = [("A", "a"), ("A", "b"), ("A", "batch"), ("B", "a"), ("B", "b"), ("B", "batch")]

    def do(objs, w):
        o, k = w
        torch.manual_seed(11)
        with torch.no_grad():
            return objs["AB".index(o)](inp[k])

    fresh = {w: do(make(), w) for w in calls}
    n = states = 0
    for hist in itertools.product(calls, repeat=case["depth"] - 1):
        objs = make()
        for w in hist:
            do(objs, w)
        for w in (("A", "a"), ("B", "a"), ("A", "b")):
            compare(do(objs, w), fresh[w], 1e-10, f"{p}/{q} sharing {mname}: history {hist} then {w}")
        n += len(hist) + 3
        states += 1
    return dict(transitions=n, states=states, validated=states, outcome=coarse(*fresh.values()))


def run_sep(case):
    algo = case["algo"]

    def make():
        torch.manual_seed(0)
        sm = ops.Masks(2, 2) if algo in ops.BEAMFORMERS else None
        if algo == "tiss_nmf":
            sm = ops.make_model("nmf")
        sep = torchiva.nn.BSSSeparator(16, n_iter=2, hop_length=4, algo=algo.split("_")[0], source_model=sm)
        return sep.eval() if case.get("eval") else sep

    inp = {
        "a": tt(sig.wave(2, 70, 1), torch.float32),
        "long": tt(sig.wave(2, 131, 2), torch.float32),
        "batch": tt(sig.wave(2, 70, 3, (2,)), torch.float32),
        "loud": tt(sig.wave(2, 70, 4) * 3, torch.float32),
    }
    keep = {k: digest(v) for k, v in inp.items()}

    def do(s, k):
        torch.manual_seed(11)
        with torch.no_grad():
            return s(inp[k])

    fresh = {k: do(make(), k) for k in inp}
    n = states = 0
    for hist in itertools.product(list(inp), repeat=case["depth"]):
        s = make()
        sd = {k: digest(v) for k, v in s.state_dict().items()}
        res = []
        for k in hist:
            y = do(s, k)
            res.append((y, digest(y)))
        for k in ("a", "long"):
            compare(do(s, k), fresh[k], 1e-6, f"separator {algo}: history {hist} then {k}")
        # other contents in the same buffer
        old = inp["a"].clone()
        inp["a"].copy_(inp["loud"])
        y = do(s, "a")
        inp["a"].copy_(old)
        compare(y, fresh["loud"], 1e-6, f"separator {algo}: history {hist}, then new contents in the buffer of an earlier call")
        require(all(digest(y) == d for y, d in res), f"separator {algo}: earlier result modified ({hist})")
        require(all(digest(v) == keep[k] for k, v in inp.items()), f"separator {algo}: input modified ({hist})")
        require(sd == {k: digest(v) for k, v in s.state_dict().items()}, f"separator {algo}: weights or window modified")
        n += len(hist) + 2
        states += 1
    return dict(transitions=n, states=states, validated=states, outcome=coarse(*fresh.values()))


SEP_CALLS = ["plain", "long", "batch", "grad", "loss", "single", "double", "fail", "short", "noreset", "copy"]


def config_of(m):
    """the settings of all the parts of a separator"""
    s = {}
    for name, x in m.named_modules():
        for a in SETTINGS + ("n_fft", "hop_length", "window_type", "algo", "n_basis", "training"):
            if hasattr(x, a):
                s[f"{name}.{a}"] = getattr(x, a)
    s["state"] = {k: (v.dtype, digest(v)) for k, v in m.state_dict().items()}
    s["requires_grad"] = [p.requires_grad for p in m.parameters()]
    s["grad_mode"], s["dtype"] = torch.is_grad_enabled(), torch.get_default_dtype()
    return s


def run_sep_calls(case):
    """end-to-end objects: words of calls with and without gradients, in both precisions, failing, too short"""
    algo, dbl = case["algo"], case["double"]
    base = torch.float64 if dbl else torch.float32

    def make():
        torch.manual_seed(0)
        kw = {}
        sm = ops.Masks(2, 2) if algo in ops.BEAMFORMERS else None
        if algo == "tiss_nmf":
            sm = ops.make_model("nmf")
        if algo in ("tiss_dmc", "tiss_net"):
            sm = ops.small_net("simple", 9, double=dbl)
            kw = dict(use_dmc=algo == "tiss_dmc", n_taps=1, n_delay=1)
        if algo == "five_power":
            kw = dict(n_power_iter=3)
        return torchiva.nn.BSSSeparator(16, n_iter=2, hop_length=4, algo=algo.split("_")[0], source_model=sm, **kw).to(base)

    x = {"plain": sig.wave(2, 70, 1), "long": sig.wave(2, 131, 2), "batch": sig.wave(2, 70, 3, (2,)), "grad": sig.wave(2, 70, 4),
         "loss": sig.wave(2, 70, 1), "single": sig.wave(2, 70, 5), "double": sig.wave(2, 70, 5), "fail": sig.wave(2, 70, 1), "short": sig.wave(2, 6, 1),
         "noreset": sig.wave(2, 70, 6), "copy": sig.wave(2, 70, 1)}
    x = {k: tt(v, {"single": torch.float32, "double": torch.float64}.get(k, base)) for k, v in x.items()}

    def do(s, k):
        torch.manual_seed(11)
        if k in ("fail", "short"):
            try:
                s(x[k][0] if k == "fail" else x[k])
            except Exception as e:
                return type(e).__name__
            return "no error"
        if k == "copy":
            return copy.deepcopy(s)(x[k]).detach()
        if k in ("grad", "loss"):
            y = s(x[k].clone().requires_grad_(True))
            y.square().sum().backward()
            g = [p.grad.clone() for p in s.parameters() if p.grad is not None]
            s.zero_grad(set_to_none=True)
            return torch.cat([y.detach().reshape(-1)] + [a.reshape(-1) for a in g])
        try:
            with torch.no_grad():
                return s(x[k], **(dict(reset=False) if k == "noreset" else {}))
        except RuntimeError as e:  # a network in another precision
            return type(e).__name__

    def same(a, b, what):
        if isinstance(b, str):
            require(a == b, f"{what}: {a if isinstance(a, str) else 'a result'} instead of {b}")
        else:
            require(not isinstance(a, str), f"{what}: {a}")
            require(a.dtype == b.dtype, f"{what}: {a.dtype} instead of {b.dtype}")
            compare(a, b, 1e-9 if dbl else 1e-4, what)

    fresh = {k: do(make(), k) for k in SEP_CALLS}
    n = states = 0
    for tail in itertools.product(SEP_CALLS, repeat=case["depth"] - 1):
        hist = (case["head"],) + tail
        s = make()
        conf = config_of(s)
        for k in hist:
            same(do(s, k), fresh[k], f"separator {algo}: call {k} in the history {hist}")
        after = config_of(s)
        diff = [k for k in conf if conf[k] != after[k]]
        require(not diff, f"separator {algo}: the history {hist} changed {diff}")
        for k in ("plain", "grad", "double"):
            same(do(s, k), fresh[k], f"separator {algo}: history {hist} then {k}")
        n += len(hist) + 3
        states += 1
    return dict(transitions=n, states=states, validated=states, outcome=coarse(fresh["plain"]))


def run_stft(case):
    n = 0
    waves = [tt(sig.wave(1, k, k), torch.float64) for k in (40, 41, 57)]
    for win in (None, "hamming"):
        eng = torchiva.STFT(16, hop_length=4, window=win, dtype=torch.float64)
        w0 = digest(eng.window)
        fresh = [torchiva.STFT(16, hop_length=4, window=win, dtype=torch.float64)(w) for w in waves]
        finv = [torchiva.STFT(16, hop_length=4, window=win, dtype=torch.float64).inv(X) for X in fresh]
        d0 = [digest(w) for w in waves]
        for hist in itertools.product(range(3), ("f", "i"), range(3), ("f", "i"), range(3)):
            a, m1, b, m2, c = hist
            for i, m in ((a, m1), (b, m2)):
                eng(waves[i]) if m == "f" else eng.inv(fresh[i])
            compare(eng(waves[c]), fresh[c], 1e-12, f"STFT after {hist}")
            compare(eng.inv(fresh[c]), finv[c], 1e-12, f"inverse STFT after {hist}")
            n += 4
        require(digest(eng.window) == w0, "window modified")
        require([digest(w) for w in waves] == d0, "STFT input modified")
    return dict(transitions=n, states=n // 4, validated=n // 4)


def run_func(case):
    """pure functions leave their arguments alone and repeat themselves"""
    from checks import c01

    n = 0
    for name in c01.func_ops():
        call, inp, det = c01.make_func(name, (2,), "same")
        inp = [tt(x) for x in inp]
        d = [digest(x) for x in inp]
        with torch.no_grad():
            y1 = c01.outputs(call(*inp))
            d1 = [digest(y) for y in y1]
            call2, inp2, _ = c01.make_func(name, (3,), "mixed")
            call(*[tt(x) for x in inp2])
            y2 = c01.outputs(call(*inp))
        require([digest(x) for x in inp] == d, f"{name}: argument modified")
        require([digest(y) for y in y1] == d1, f"{name}: earlier result modified")
        for u, v in zip(y1, y2):
            compare(u, v, 1e-12, f"{name}: the same call gives another result after a different one")
        n += 3
    return dict(transitions=n, states=n // 3, validated=n // 3)
