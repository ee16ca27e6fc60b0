"""Per-call parameters and defaults"""
import itertools

import numpy as np
import torch

import torchiva
from mc import ops, sig
from mc.engine import Violation
from mc.util import coarse, compare, require, tt

ID = "C03"
TITLE = "Parameters given per call act exactly like constructor parameters"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of all subsets of overridden parameters x value pairs, differential constructor vs call"
RULE = (
    "for every algorithm, every subset of its parameters is passed to the call of an object constructed with the "
    "other value of each parameter (both directions, values include 0, False and the last microphone) and compared "
    "with an object constructed with the effective values; omitted parameters are compared with the documented "
    "defaults; n_src beyond the channels must be refused"
)
ASSUMPTIONS = ["None cannot be passed per call (documented: None means 'use the constructor value')"]

# (value A, value B) of every parameter
DOMAINS = {
    "tiss": dict(n_iter=(2, 0), n_taps=(1, 0), n_delay=(2, 0), n_src=(3, 2), model=("weights", "laplace"),
                 proj_back_mic=(2, 0), use_dmc=(True, False), eps=(1e-3, 1e-6)),
    "ip": dict(n_iter=(2, 0), n_src=(3, 2), model=("weights", "laplace"), proj_back_mic=(2, 0), eps=(1e-2, 1e-6)),
    "ip2": dict(n_iter=(2, 0), model=("weights", "laplace"), proj_back_mic=(1, 0), eps=(1e-2, 1e-6)),
    "five": dict(n_iter=(2, 0), model=("weights", "laplace"), proj_back_mic=(2, 0), eps=(1e-2, 1e-6), n_power_iter=(1, 3)),
    "wpe": dict(n_iter=(2, 0), n_taps=(2, 1), n_delay=(1, 0), model=("wpegauss", "wpeflat"), eps=(1e-1, 1e-6)),
    "mvdr": dict(mask_model=((2, 2, 0.0), (1, 3, 0.4)), ref_mic=(2, 0), eps=(1e-1, 1e-6), mvdr_type=("scm", "rtf"),
                 n_power_iter=(1, 3)),
    "mwf": dict(mask_model=((2, 4, 0.0), (1, 4, 0.4)), ref_mic=(2, 0), eps=(1e-1, 1e-6), time_invariant=(False, True)),
    "gev": dict(mask_model=((2, 2, 0.0), (1, 2, 0.4)), ref_mic=(2, 0), eps=(1e-1, 1e-6)),
}

# other value pairs, one axis at a time against the base (A) configuration
MORE = {
    "tiss": dict(n_iter=(1, 5), n_taps=(3, 2), n_delay=(1, 3), n_src=(1, 3), model=("gauss", "weights2"),
                 proj_back_mic=(1, 2), eps=(1e-5, 1e-1)),
    "ip": dict(n_iter=(1, 4), n_src=(1, 3), model=("gauss", "weights2"), proj_back_mic=(1, 2), eps=(1e-5, 1e-1)),
    "ip2": dict(n_iter=(1, 4), model=("gauss", "weights2"), eps=(1e-5, 1e-1)),
    "five": dict(n_iter=(1, 4), model=("gauss", "weights2"), proj_back_mic=(1, 2), n_power_iter=(2, 7)),
    "wpe": dict(n_iter=(1, 4), n_taps=(3, 4), n_delay=(2, 3), eps=(1e-5, 1e-2)),
    "mvdr": dict(ref_mic=(1, 2), n_power_iter=(2, 7), eps=(1e-5, 1e-2)),
    "mwf": dict(ref_mic=(1, 2), eps=(1e-5, 1e-2)),
    "gev": dict(ref_mic=(1, 2), eps=(1e-5, 1e-2)),
}

DEFAULTS = {
    "tiss": dict(n_iter=10, n_taps=0, n_delay=0, n_src=3, model="laplace", proj_back_mic=0, use_dmc=False, eps=1e-5),
    "ip": dict(n_iter=10, n_src=3, model="laplace", proj_back_mic=0, eps=1e-5),
    "ip2": dict(n_iter=10, model="laplace", proj_back_mic=0, eps=1e-5),
    "five": dict(n_iter=10, model="laplace", proj_back_mic=0, eps=1e-5),
    "wpe": dict(n_iter=3, n_taps=5, n_delay=3, eps=1e-5),
    "mvdr": dict(ref_mic=0, eps=1e-5, mvdr_type="rtf"),
    "mwf": dict(ref_mic=0, eps=1e-5, time_invariant=True),
    "gev": dict(ref_mic=0, eps=1e-5),
}


def n_chan(algo):
    return 2 if algo == "ip2" else 3


class WpeFlat(torch.nn.Module):
    def forward(self, Y):
        return torch.ones(Y.shape[:-3] + Y.shape[-2:], dtype=Y.real.dtype)


def value(p, v):
    if p == "model":
        return WpeFlat() if v == "wpeflat" else ops.make_model(v)
    if p == "mask_model":
        return ops.Masks(*v)
    return v


def cases(tier):
    out = []
    for algo, dom in DOMAINS.items():
        ps = list(dom)
        for r in range(len(ps) + 1):
            for sub in itertools.combinations(ps, r):
                for base in (0, 1):
                    out.append(dict(kind="subset", algo=algo, sub=list(sub), base=base, dom="main"))
        for p, pair in MORE[algo].items():
            for base in (0, 1):
                out.append(dict(kind="subset", algo=algo, sub=[p], base=base, dom=p))
        d = DEFAULTS[algo]
        for r in range(len(d) + 1):
            for sub in itertools.combinations(list(d), r):
                out.append(dict(kind="default", algo=algo, given=list(sub)))
    for algo in ("tiss", "ip"):
        for c in (2, 3, 4):
            for n_src in range(1, c + 3):
                for where in ("ctor", "call"):
                    out.append(dict(kind="nsrc", algo=algo, c=c, n_src=n_src, where=where))
            out.append(dict(kind="nsrc", algo=algo, c=c, n_src=None, where="ctor"))
    for algo in ("tiss", "ip2", "five", "mvdr", "mwf", "gev"):
        for ref in (0, 1):
            for n_iter in (0, 1, 2, 20):
                for eps in (1e-5, 1e-3):
                    out.append(dict(kind="sep", algo=algo, ref=ref, n_iter=n_iter, eps=eps))
    if tier == "thorough":
        # all pairs of parameters with the additional values
        for algo, dom in MORE.items():
            for p, q in itertools.combinations(list(dom), 2):
                for i, j in itertools.product((0, 1), repeat=2):
                    out.append(dict(kind="pairs", algo=algo, p=[p, i], q=[q, j]))
    return out


def domain(algo, dom):
    d = dict(DOMAINS[algo])
    if dom != "main":
        d[dom] = MORE[algo][dom]
    return d


def _construct(algo, kw):
    kw = {p: value(p, v) for p, v in kw.items()}
    if algo in ops.BEAMFORMERS:
        m = kw.pop("mask_model", None)
        m = ops.Masks(2, 2 if algo != "mwf" else 4) if m is None else m
        return ops.CLASSES[algo](m, **kw)
    return ops.CLASSES[algo](**kw)


def call(obj, X, kw):
    torch.manual_seed(1)
    with torch.no_grad():
        return obj(X, **{p: value(p, v) for p, v in kw.items()})


def run(case):
    algo = case["algo"]
    if case["kind"] in ("subset", "default", "pairs"):
        X = tt(sig.mixture(n_chan(algo), 3, 16, 2, (2,), "reverb"))
    if case["kind"] == "subset":
        d = domain(algo, case["dom"])
        base, sub = case["base"], case["sub"]
        ctor = {p: v[base] for p, v in d.items()}
        over = {p: d[p][1 - base] for p in sub}
        want = call(_construct(algo, {**ctor, **over}), X, {})
        got = call(_construct(algo, ctor), X, over)
        compare(got, want, 1e-9, f"{algo} constructed with {ctor}, called with {over}")
        # the same when everything is passed per call on a default object
        if len(sub) == len(d):
            got = call(_construct(algo, {}), X, over)
            compare(got, want, 1e-9, f"default {algo} called with {over}")
        return dict(transitions=2, outcome=coarse(want))
    if case["kind"] == "pairs":
        d = {p: v[0] for p, v in DOMAINS[algo].items()}
        over = {k: MORE[algo][k][i] for k, i in (case["p"], case["q"])}
        want = call(_construct(algo, {**d, **over}), X, {})
        compare(call(_construct(algo, d), X, over), want, 1e-9, f"{algo} {d} called with {over}")
        return dict(transitions=2, outcome=coarse(want))
    if case["kind"] == "default":
        d = DEFAULTS[algo]
        want = call(_construct(algo, d), X, {})
        given = {p: d[p] for p in case["given"]}
        compare(call(_construct(algo, given), X, {}), want, 1e-9, f"{algo}({given}) vs documented defaults {d}")
        return dict(transitions=2, outcome=coarse(want))
    if case["kind"] == "nsrc":
        c, k = case["c"], case["n_src"]
        X = tt(sig.mixture(c, 2, 20, 3))
        kw = {} if k is None else dict(n_src=k)
        obj = ops.CLASSES[algo](n_iter=1, **(kw if case["where"] == "ctor" else {}))
        ckw = kw if case["where"] == "call" else {}
        if k is not None and k > c:
            try:
                obj(X, **ckw)
            except Exception:
                return dict(outcome="refused")
            raise Violation(f"{algo}: n_src={k} with {c} channels was not refused")
        y = obj(X, **ckw)
        require(tuple(y.shape) == (k or c, 2, 20), f"{algo} n_src={k}: shape {tuple(y.shape)}")
        if k is None or k == c:
            compare(y, ops.CLASSES[algo](n_iter=1, n_src=c)(X), 1e-9, f"{algo}: n_src=None vs n_src={c}")
        return dict(transitions=2, outcome=f"{k}")
    # BSSSeparator parameters reach the algorithm
    sm = ops.Masks(2, 2) if algo in ops.BEAMFORMERS else None
    X = tt(sig.wave(2, 130, 1), torch.float32)
    sep = torchiva.nn.BSSSeparator(16, n_iter=case["n_iter"], hop_length=4, algo=algo, source_model=sm,
                                   proj_back_mic=case["ref"], eps=case["eps"])
    stft = torchiva.STFT(16, hop_length=4)
    if algo in ops.BEAMFORMERS:
        kw = dict(ref_mic=case["ref"], eps=case["eps"])
        obj = ops.CLASSES[algo](ops.Masks(2, 2), **kw)
    else:
        obj = ops.CLASSES[algo](n_iter=case["n_iter"], proj_back_mic=case["ref"], eps=case["eps"])
    with torch.no_grad():
        want = stft.inv(obj(stft(X)))
        got = sep(X)
    m = min(got.shape[-1], want.shape[-1])
    compare(got[..., :m], want[..., :m], 1e-4, "BSSSeparator vs the algorithm with the same parameters")
    return dict(transitions=2, outcome=coarse(want))
