"""Pre-trained model download cache under faults, crashes and concurrent use"""
import contextlib
import io
import itertools
import os
import shutil
import tempfile
from pathlib import Path

import numpy as np
import torch
import yaml

import torchiva
from mc import sched, sig, web
from mc.util import coarse, require, tt

ID = "C18"
TITLE = "The model cache never serves a wrong or partial model"
LEVEL = "model_checking"
TECHNIQUE = "systematic fault injection: all network fault sequences up to depth 3, a crash at every executed line of the download, all thread interleavings up to 2 preemptions, on the real code with a scratch home folder and a loopback server"
RULE = (
    "every sequence of up to 3 loads over {ok, 404, 500, reset, truncated} for both files; a process crash before each executed "
    "line of the download followed by every single fault and a load; all schedules of two loads with at most 2 "
    "preemptions; every ordered pair of URLs. a load either fails or yields the published weights and settings, and "
    "a load with a healthy server always succeeds"
)
ASSUMPTIONS = ["truncation is visible to the client (Content-Length)", "a published model does not change", "rename within a folder is atomic"]
CHUNK = 4

FAULTS = ["ok", "404", "reset", "trunc0", "trunc50", "trunc99"]
URLS = ["/m", "/a/m", "/b/m", "/a/b/m", "/a/m2", "/m/", "/a-b/m", "/a_b/m", "/A/m", "/m.v1", "/m%20x"]


def config(seed):
    return dict(n_fft=8, n_iter=1 + seed % 3, hop_length=4, n_taps=seed % 2, n_src=2, algo="tiss",
                source_model=dict(name="torchiva.models.GLUMask", kwargs=dict(n_freq=5, n_bottleneck=8, n_sublayers=1)))


_PUB = {}


def published(seed):
    """(weights file, config file, state dict, output)"""
    if seed not in _PUB:
        cfg = config(seed)
        with torch.random.fork_rng():
            torch.manual_seed(100 + seed)
            sep = torchiva.nn.BSSSeparator(**cfg)
        buf = io.BytesIO()
        torch.save(sep.state_dict(), buf)
        _PUB[seed] = (buf.getvalue(), yaml.safe_dump(cfg).encode(), {k: v.clone() for k, v in sep.state_dict().items()}, output(sep))
    return _PUB[seed]


def output(sep):
    sep.eval()
    with torch.no_grad():
        return sep(tt(sig.wave(2, 60, key=1)).float())


def publish(w, path, seed):
    a, b, _, _ = published(seed)
    p = path.rstrip("/")
    w.files[p + "/model_weights.ckpt"] = a
    w.files[p + "/model_config.yaml"] = b


class Home:
    def __enter__(self):
        self.old = os.environ.get("HOME")
        self.dir = tempfile.mkdtemp(prefix="vp_c18_")
        os.environ["HOME"] = self.dir
        return self.dir

    def __exit__(self, *a):
        if self.old is None:
            os.environ.pop("HOME", None)
        else:
            os.environ["HOME"] = self.old
        shutil.rmtree(self.dir, ignore_errors=True)


def load(url, **kw):
    with contextlib.redirect_stdout(io.StringIO()):
        return torchiva.load_separator(url, **kw)


def check(sep, seed, what):
    _, _, sd, y = published(seed)
    got = sep.state_dict()
    require(set(got) == set(sd), f"{what}: other parameter names")
    for k in sd:
        require(torch.equal(got[k], sd[k]), f"{what}: parameter {k} differs from the published one")
    require(sep.n_iter == config(seed)["n_iter"], f"{what}: n_iter {sep.n_iter}")
    out = output(sep)
    require(torch.allclose(out, y, atol=1e-6), f"{what}: output differs from that of the published model")


def cases(tier):
    q = tier == "quick"
    out = []
    for f in itertools.product(FAULTS + ["500", "trunc10"], repeat=2):
        out.append(dict(kind="faults", seq=[list(f)]))
    fl = ["ok", "404", "reset", "trunc50"] if q else FAULTS
    for f in itertools.product(itertools.product(fl, repeat=2), repeat=2):
        out.append(dict(kind="faults", seq=[list(g) for g in f]))
    if not q:
        for f in itertools.product(itertools.product(["ok", "404", "trunc50"], repeat=2), repeat=3):
            out.append(dict(kind="faults", seq=[list(g) for g in f]))
    for i in range(16):
        out.append(dict(kind="crash", part=i, parts=16, then=[]))
        out.append(dict(kind="crash", part=i, parts=16, then=["trunc50", "ok"]))
        out.append(dict(kind="crash", part=i, parts=16, then=["ok", "reset"]))
        if not q:
            out.append(dict(kind="crash2", part=i, parts=16))
    for a, b in itertools.product(range(len(URLS)), repeat=2):
        if URLS[a].rstrip("/") != URLS[b].rstrip("/"):
            out.append(dict(kind="urls", a=a, b=b))
    out.append(dict(kind="slash"))
    out.append(dict(kind="override"))
    for how in ("missing", "extra", "shape"):
        out.append(dict(kind="mismatch", how=how))
    for same in (True, False):
        for first in (0, 1):
            for i in range(32):
                out.append(dict(kind="threads", same=same, first=first, part=i, parts=32, bound=2, grid=12 if q else 40))
    return out


POINTS = sched.make_is_point(
    files=("torchiva/loader.py",),
    functions=(("urllib/request.py", "urlretrieve"), ("shutil.py", "copyfileobj"), ("shutil.py", "move"),
               ("tempfile.py", "_mkstemp_inner"), ("tempfile.py", "mkstemp")),
)
# for the interleavings: the lines of the package and the blocks of the transfer
THREAD_POINTS = POINTS


def run(k):
    return globals()["run_" + k["kind"]](k)


def attempt(w, url, seed, faults, what):
    """one load under the given faults; -> True when it gave a model"""
    w.plan = {"model_weights.ckpt": [faults[0]], "model_config.yaml": [faults[1]]} if faults else {}
    try:
        sep = load(url)
    except Exception as e:
        healthy = not faults or all(f == "ok" for f in faults)
        require(not healthy, f"{what}: failed with a healthy server: {e!r}")
        return False
    check(sep, seed, what)
    return True


def run_faults(k):
    w = web.get_web()
    publish(w, "/x/m", 1)
    url = w.url("/x/m")
    seq = k["seq"]
    hist = ""
    with Home():
        for i, f in enumerate(seq):
            hist += "+" if attempt(w, url, 1, f, f"load {i} of {seq}") else "-"
        attempt(w, url, 1, None, f"load after {seq}")
        # now the model is there: the server is not needed any more
        w.plan = {"model_weights.ckpt": ["reset"] * 9, "model_config.yaml": ["reset"] * 9}
        try:
            sep = load(url)
        except Exception as e:
            require(False, f"the cached model needed the server again after {seq}: {e!r}")
        check(sep, 1, f"cached model after {seq}")
        w.plan = {}
    return dict(states=len(seq) + 2, transitions=len(seq) + 2, validated=1, outcome=hist)


def n_points(w, url):
    with Home():
        w.plan = {}
        return sched.count_points(lambda: load(url), POINTS)


def run_crash(k):
    w = web.get_web()
    publish(w, "/x/m", 1)
    url = w.url("/x/m")
    published(1)
    N = n_points(w, url)
    require(N >= 5, f"only {N} crash points found")
    outs, n = set(), 0
    for c in range(1 + k["part"], N + 2, k["parts"]):
        with Home() as h:
            w.plan = {}
            r = sched.crash_at(lambda: load(url), c, POINTS)
            require(r in ("crash", "done"), f"the load before crash point {c} ended with {r}")
            left = sorted(p.name.split(".")[-1] for p in Path(h).rglob("*") if p.is_file())
            outs.add((r,) + tuple(left))
            if k["then"]:
                attempt(w, url, 1, k["then"], f"load with {k['then']} after a crash at point {c}/{N}")
            attempt(w, url, 1, None, f"load after a crash at point {c}/{N}, then {k['then']}")
            n += 1
    return dict(states=n, transitions=2 * n, validated=n, outcomes=outs)


def run_crash2(k):
    """two crashes in a row"""
    w = web.get_web()
    publish(w, "/x/m", 1)
    url = w.url("/x/m")
    published(1)
    N = n_points(w, url)
    outs, n = set(), 0
    for c in range(1 + k["part"], N + 2, k["parts"]):
        for d in range(1, N + 1, 2):
            with Home():
                w.plan = {}
                sched.crash_at(lambda: load(url), c, POINTS)
                sched.crash_at(lambda: load(url), d, POINTS)
                attempt(w, url, 1, None, f"load after crashes at points {c} and {d}")
                n += 1
    return dict(states=n, transitions=3 * n, validated=n, outcomes=outs)


def run_urls(k):
    w = web.get_web()
    a, b = URLS[k["a"]], URLS[k["b"]]
    with Home():
        for p, s in ((a, 1), (b, 2)):
            publish(w, p, s)
        for p, s in ((a, 1), (b, 2), (a, 1)):
            attempt(w, w.url(p), s, None, f"{p} after loading {a} and {b}")
        for p in (a, b):
            w.files.clear()
    return dict(states=3, transitions=3, validated=3, outcome=f"{a}{b}")


def run_slash(k):
    """a trailing slash names the same folder"""
    w = web.get_web()
    publish(w, "/x/m", 1)
    with Home():
        for u in ("/x/m", "/x/m/", "/x/m"):
            attempt(w, w.url(u), 1, None, u)
    return dict(states=3, transitions=3)


def run_mismatch(k):
    """published weights that do not fit the published settings cannot be loaded exactly: the load fails"""
    w = web.get_web()
    n = 0
    _, yml, sd, _ = published(1)
    for key in sorted(n for n in sd if "num_batches" not in n):  # that counter is optional in torch
        bad = dict(sd)
        if k["how"] == "missing":
            del bad[key]
        elif k["how"] == "extra":
            bad[key + "_extra"] = sd[key]
        else:
            bad[key] = torch.cat((sd[key].reshape(-1),) * 3)
        buf = io.BytesIO()
        torch.save(bad, buf)
        w.files["/z/m/model_weights.ckpt"], w.files["/z/m/model_config.yaml"] = buf.getvalue(), yml
        w.plan = {}
        for again in range(2):
            with Home():
                n += 1
                try:
                    load(w.url("/z/m"))
                except Exception:
                    continue
                require(False, f"weights that are not the ones of the published model were loaded ({k['how']}, {key})")
    w.files.clear()
    return dict(states=n, transitions=n, outcome="refused")


def run_override(k):
    """overrides of one load do not stick"""
    w = web.get_web()
    publish(w, "/x/m", 1)
    n = 0
    with Home():
        for over in ({}, dict(n_iter=7), dict(algo="five"), dict(n_taps=3, n_delay=1), {}):
            w.plan = {}
            sep = load(w.url("/x/m"), **over)
            for key, val in over.items():
                got = getattr(sep, key, None)
                if got is None:
                    got = getattr(sep.separator, key)
                require(got == val, f"override {key}={val} not applied: {got}")
            attempt(w, w.url("/x/m"), 1, None, f"after overrides {over}")
            n += 1
    return dict(states=n, transitions=2 * n)


def run_threads(k):
    w = web.get_web()
    publish(w, "/x/m", 1)
    publish(w, "/y/m", 2)
    urls = [w.url("/x/m"), w.url("/x/m" if k["same"] else "/y/m")]
    seeds = [1, 1 if k["same"] else 2]
    w.plan = {}
    published(1), published(2)
    with Home():
        with contextlib.redirect_stdout(io.StringIO()):
            N = sched.count_points(lambda: torchiva.load_separator(urls[0]), THREAD_POINTS)
    pts = list(range(0, N + 1, max(1, N // k["grid"])))
    schedules = [[i] for i in range(0, N + 1)] + [[i, j] for i in pts for j in pts]
    outs, n = set(), 0
    for s in schedules[k["part"] :: k["parts"]]:
        with Home():
            with contextlib.redirect_stdout(io.StringIO()):
                it = sched.Interleaver([lambda u=u: torchiva.load_separator(u) for u in urls], s, THREAD_POINTS, first=k["first"])
                res, err = it.run()
            for i in range(2):
                require(err[i] is None, f"load {i} failed under schedule {s}: {err[i]!r}")
                check(res[i], seeds[i], f"load {i} under schedule {s}")
            attempt(w, urls[0], seeds[0], None, f"load after schedule {s}")
            outs.add(tuple(it.count))
        n += 1
    return dict(states=n, transitions=n * 3, validated=n, outcomes=outs)
