"""Concurrent calls on shared objects"""
import numpy as np
import torch

import torchiva
from mc import ops, sched, sig
from mc.util import coarse, compare, require, tt

ID = "C22"
TITLE = "Concurrent calls on one object do not disturb each other"
LEVEL = "model_checking"
TECHNIQUE = "stateless model checking of the real code: two threads under a controlled line-level scheduler, all schedules with one preemption and a grid of schedules with two, compared with sequential calls"
RULE = (
    "for every algorithm in every mode, and for two objects sharing a source model: thread A calls the object, is preempted before "
    "each executed line of the package, thread B runs its own call (other signal, size, parameters) to completion or to its "
    "own preemption, then A continues; both results equal those of separate objects"
)
ASSUMPTIONS = ["source models without internal state", "switches happen between lines of the package", "at most two preemptions, two threads"]
CHUNK = 2
POINTS = sched.make_is_point(files=tuple(
    f"torchiva/{f}.py" for f in ("t_iss", "auxiva_ip", "auxiva_ip2", "five", "beamformer", "wpe", "base", "nn", "stft", "linalg",
                                 "scaling", "fftconvolve", "utils", "models/classic", "models/glu", "models/blstm", "models/simple")))

EXTRA = ["bss_tiss", "bss_five", "bss_mvdr", "stft", "glu", "laplace", "shared_model"]


def cases(tier):
    out = []
    for i, op in enumerate(ops.ALGOS):
        for first in (0, 1):
            for bound in (1, 2):
                for part in range(4):
                    out.append(dict(op=i, first=first, bound=bound, part=part, parts=4, grid=16 if tier == "quick" else 45))
    for e in EXTRA:
        for first in (0, 1):
            for bound in (1, 2):
                out.append(dict(op=e, first=first, bound=bound, part=0, parts=1, grid=16 if tier == "quick" else 45))
    return out


def setup(k):
    """-> (make objects, two calls on them)"""
    o = k["op"]
    if isinstance(o, int):
        op = dict(ops.ALGOS[o])
        if "n_iter" in op:
            op["n_iter"] = 1
        c = 2
        kind = "reverb" if op["algo"] == "wpe" else "iva"
        X = tt(sig.mixture(c, 3, 14, key=41, kind=kind))
        Z = tt(sig.mixture(c, 3, 11, key=42, kind=kind, batch=(2,)))
        kw = {}
        if op["algo"] in ("tiss", "five", "ip"):
            kw = dict(proj_back_mic=0, eps=1e-4)
        elif op["algo"] == "wpe":
            kw = dict(n_taps=1)
        elif op["algo"] in ops.BEAMFORMERS:
            kw = dict(ref_mic=0)
        if op["algo"] == "ip2":
            kw = dict(proj_back_mic=0)
        return (lambda: [ops.make_algo(op, 3)] * 2), [lambda s: s(X), lambda s: s(Z, **kw)]
    x, z = tt(sig.wave(2, 90, key=3)), tt(sig.wave(2, 70, key=4, batch=(2,)))
    X, Z = tt(sig.mixture(2, 5, 12, key=41)), tt(sig.mixture(2, 5, 9, key=42, batch=(2,)))
    if o.startswith("bss_"):
        algo = o[4:]
        make = lambda: [torchiva.nn.BSSSeparator(8, n_iter=1, window=tt(np.hanning(8) + 0.01), algo=algo,  # noqa: E731
                                                 source_model=ops.Masks(2, 2) if algo == "mvdr" else None)] * 2
        return make, [lambda s: s(x), lambda s: s(z)]
    if o == "stft":
        return (lambda: [torchiva.STFT(8, dtype=torch.float64)] * 2), [lambda s: s.inv(s(x)), lambda s: s(z)]
    if o == "glu":
        return (lambda: [ops.small_net("glu", 5)] * 2), [lambda s: s(X), lambda s: s(Z)]
    if o == "laplace":
        return (lambda: [torchiva.LaplaceModel()] * 2), [lambda s: s(X), lambda s: s(Z)]

    def shared():
        m = ops.small_net("glu", 5)
        return [torchiva.T_ISS(n_iter=1, model=m), torchiva.AuxIVA_IP(n_iter=1, model=m)]

    return shared, [lambda s: s(X), lambda s: s(Z)]


def run(k):
    make, calls = setup(k)
    with torch.no_grad():
        want = [c(o) for c, o in zip(calls, make())]
        want = [c(o) for c, o in zip(calls[::1], [make()[0], make()[1]])]
    N = []
    for i in (0, 1):
        objs = make()
        N.append(sched.count_points(lambda: calls[i](objs[i]), POINTS))
    require(min(N) > 2, f"too few points {N}")
    f = k["first"]
    nf, ns = N[f], N[1 - f]
    if k["bound"] == 1:
        schedules = [[i] for i in range(nf + 1)]
    else:
        a = range(1, nf, max(1, nf // k["grid"]))
        b = range(1, ns, max(1, ns // k["grid"]))
        schedules = [[i, j] for i in a for j in b]
    n, outs = 0, set()
    for s in schedules[k["part"] :: k["parts"]]:
        objs = make()
        it = sched.Interleaver([lambda i=i: calls[i](objs[i]) for i in (0, 1)], s, POINTS, first=f)
        res, err = it.run()
        for i in (0, 1):
            require(err[i] is None, f"call {i} failed under schedule {s}: {err[i]!r}")
            compare(res[i], want[i], 1e-9, f"call {i} under schedule {s}")
        # and the object is still good
        n += 1
        outs.add(it.n_switch)
    objs = make()
    return dict(states=n, transitions=n * sum(N), validated=n, outcomes=outs)
