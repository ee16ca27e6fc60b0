"""Training and validation of a separator"""
import bisect
import copy
import itertools
import math
import random

import numpy as np
import torch

import torchiva
from checks.c29 import MODELS, load_scripts
from mc.util import coarse, compare, require, tt

ID = "C32"
TITLE = "Training follows the best assignment; validation leaves no trace"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive exploration of all histories of training steps and validation epochs on the real training model, against a reference trainer; exhaustive enumeration of the loss over orders, levels, lengths and numbers of estimated sources"
RULE = (
    "loss: all orders x level patterns of up to 3 estimated sources x lengths x batches against a brute force search of the assignment; "
    "histories: every word of up to 4 (thorough 5) steps over two training batches and a validation epoch, for every algorithm and "
    "settings, against a trainer that has its own loss, clipping and optimiser state and sees no validation"
)
ASSUMPTIONS = ["pytorch_lightning is replaced by a stand-in that runs its documented order of calls", "signal-to-distortion ratios of single pairs are taken from fast_bss_eval"]
CHUNK = 1

N = 600


def cases(tier):
    q = tier == "quick"
    out = []
    for n_est, n_src in ((1, 1), (2, 1), (2, 2), (3, 1), (3, 2), (3, 3)):
        for lv in itertools.product((1.0, 0.05, 20.0), repeat=n_est):
            if len(set(lv)) == n_est or n_est == n_src:
                for d in (0, 7, -7) if q else (0, 1, -1, 7, -7):
                    out.append(dict(kind="loss", n_est=n_est, n_src=n_src, levels=list(lv), d=d))
    depth = 4 if q else 5
    for algo, model, over in configs():
        for first in "ABV":
            out.append(dict(kind="history", algo=algo, model=model, over=over, first=first, depth=depth if not over else 3))
    return out


def configs():
    for algo, model in (("tiss", "glu"), ("ip2", "glu_ri"), ("five", "glu"), ("mvdr", "mvdrsup"), ("mwf", "mvdrsup3"), ("gev", "mvdrsup"), ("tiss", "blstm")):
        yield algo, model, {}
    for over in (dict(autoclip_p=0), dict(autoclip_p=50), dict(autoclip_p=None), dict(use_dmc=True), dict(n_chan=2), dict(n_taps=2), dict(wd=0.1),
                 dict(ref_mic=1), dict(n_src=1)):
        yield "tiss", "glu", over


def config(k):
    o = k["over"]
    src = copy.deepcopy(MODELS[k["model"]])
    if k["algo"] == "five":
        src["kwargs"]["n_freq"] = 4
    n_src = 1 if k["algo"] == "five" else o.get("n_src", 2)
    tr = dict(seed=0, lr=0.01, weight_decay=o.get("wd", 0.0), lr_scheduler_kwargs=dict(mode="min", factor=0.5, patience=0),
              loss_type="cisdr", n_chan=o.get("n_chan", 3 if k["algo"] in ("five", "mvdr") else 2), n_src=n_src, autoclip_p=o.get("autoclip_p", 10))
    if tr["autoclip_p"] is None:
        del tr["autoclip_p"]
    taps = o.get("n_taps", 0)
    m = dict(n_fft=8, hop_length=4, n_iter=1, n_taps=taps, n_delay=1 if taps else 0, use_dmc=o.get("use_dmc", False), ref_mic=o.get("ref_mic", 0),
             source_model=src)
    if k["algo"] in ("mvdr", "five"):
        m["n_power_iter"] = 2
    return dict(name="x", algorithm=k["algo"], training=tr, model=m)


def run(k):
    return globals()["run_" + k["kind"]](k)


def reference_loss(est, ref, n_src):
    """distortion of the best assignment of the most energetic estimates, averaged"""
    import fast_bss_eval

    m = min(est.shape[-1], ref.shape[-1])
    est, ref = est[..., :m], ref[..., :m]
    total = []
    for e, r in zip(est, ref):
        power = [float((s.detach() ** 2).sum()) for s in e]
        keep = sorted(range(len(power)), key=lambda i: -power[i])[:n_src]
        e = e[keep]
        loss = torch.stack([torch.stack([fast_bss_eval.sdr_loss(e[None, i], r[None, j], clamp_db=50)[0] for j in range(n_src)]) for i in range(n_src)])
        best = min((sum(loss[i, p] for i, p in enumerate(perm)) / n_src for perm in itertools.permutations(range(n_src))), key=float)
        total.append(best)
    return sum(total) / len(total)


def batch(seed, n_chan=3, n_src=2, n=N, b=2):
    r = np.random.default_rng(300 + seed)
    s = r.laplace(size=(b, n_src, n + 4))
    s = s[..., 4:] + 0.5 * s[..., 2:-2] - 0.3 * s[..., :-4]
    A = r.standard_normal((b, n_chan, n_src))
    x = A @ s + 0.05 * r.standard_normal((b, n_chan, n))
    return tt(x).float(), tt(s).float()


def run_loss(k):
    WSJModel = load_scripts()
    torch.manual_seed(0)
    model = WSJModel(config(dict(algo="five" if k["n_src"] == 1 else "tiss", model="glu", over=dict(n_src=k["n_src"]))))
    model.n_src = k["n_src"]
    n = 0
    vals = []
    for perm in itertools.permutations(range(k["n_est"])):
        r = np.random.default_rng(5)
        s = r.laplace(size=(2, 3, N))
        ref = tt(s[:, : k["n_src"]]).double()
        est = s + 0.4 * r.standard_normal(s.shape)
        est = np.stack([est[0][list(perm)], est[1][list(perm)[::-1]]]) if k["n_est"] == 3 else est[:, list(perm)]
        est = tt(est * np.array(k["levels"])[:, None]).double()
        if k["d"] > 0:
            # the part without reference is loud in the weakest estimates
            est = torch.cat((est, 1e3 * est[..., : k["d"]] / tt(np.array(k["levels"])[:, None] ** 2)), dim=-1)
        elif k["d"] < 0:
            est = est[..., : k["d"]]
        est.requires_grad_()
        e0, r0 = est.detach().clone(), ref.clone()
        got = model.compute_metrics(est, ref)
        require(set(got) == {"cisdr_loss"}, f"metrics {sorted(got)}")
        want = reference_loss(est, ref, k["n_src"])
        compare(got["cisdr_loss"].reshape(1), want.reshape(1), 1e-6, "loss", atol=1e-6)
        g1, = torch.autograd.grad(got["cisdr_loss"], est)
        g2, = torch.autograd.grad(want, est)
        compare(g1, g2, 1e-5, "gradient of the loss")
        require(torch.equal(est, e0) and torch.equal(ref, r0), "the loss changed its inputs")
        vals.append(float(want))
        n += 1
    return dict(states=n, transitions=n, outcome=coarse(np.array(vals)))


class Trainer:
    """the order of calls of pytorch_lightning for automatic optimisation"""

    def __init__(self, model):
        self.model = model
        opt = model.configure_optimizers()
        self.scheduler, self.monitor = opt["lr_scheduler"], opt["monitor"]
        self.optimizers = [opt["optimizer"]]
        self.global_step = 0
        self.logged = {}
        model.trainer = self
        model.logger = self
        model.log = lambda name, value: self.logged.__setitem__(name, value)
        model.train()

    def log_metrics(self, metrics, step):
        require(step == self.global_step, "metrics logged for another step")
        for n, v in metrics.items():
            require(np.isfinite(float(v)), f"{n} is {v}")

    def train(self, batch, i=0):
        out = self.model.training_step(batch, i)
        self.optimizers[0].zero_grad()
        out.backward()
        self.model.on_after_backward()
        self.optimizers[0].step()
        self.global_step += 1
        return float(out)

    def validate(self, batches):
        self.model.eval()
        with torch.no_grad():
            self.model.on_validation_epoch_start()
            outs = [self.model.validation_step(b, i) for i, b in enumerate(batches)]
            self.model.validation_epoch_end(outs)
        self.model.train()
        return self.logged


class Reference:
    """own loss, clipping and optimiser around a separator"""

    def __init__(self, cfg, state):
        m = cfg["model"]
        self.cfg = cfg["training"]
        self.sep = torchiva.nn.BSSSeparator(
            m["n_fft"], m["n_iter"], hop_length=m["hop_length"], n_taps=m["n_taps"], n_delay=m["n_delay"], n_src=self.cfg["n_src"],
            algo=cfg["algorithm"], source_model=torchiva.utils.instantiate(**copy.deepcopy(m["source_model"])), proj_back_mic=m["ref_mic"],
            use_dmc=m["use_dmc"], n_power_iter=m.get("n_power_iter"))
        self.sep.load_state_dict(state)
        self.sep.train()
        self.norms, self.t, self.mom = [], 0, None
        # the learning rate follows the validation loss
        self.opt = torch.optim.SGD([torch.nn.Parameter(torch.zeros(1))], lr=self.cfg["lr"])
        self.plateau = torch.optim.lr_scheduler.ReduceLROnPlateau(self.opt, **self.cfg["lr_scheduler_kwargs"])

    def loss(self, batch):
        x, y = batch
        return reference_loss(self.sep(x[..., : self.cfg["n_chan"], :]), y[..., : self.cfg["n_src"], :], self.cfg["n_src"])

    def train(self, batch):
        ps = [p for p in self.sep.parameters() if p.requires_grad]
        loss = self.loss(batch)
        for p in ps:
            p.grad = None
        loss.backward()
        gs = [p.grad for p in ps]
        norm = math.sqrt(sum(float(g.double().square().sum()) for g in gs if g is not None))
        bisect.insort(self.norms, norm)
        p = self.cfg.get("autoclip_p", 100) / 100
        top = self.norms[min(int(p * len(self.norms)), len(self.norms) - 1)]
        f = min(1.0, top / (norm + 1e-6))
        self.t += 1
        self.grads = [None] * len(ps)
        if self.mom is None:
            self.mom = [(torch.zeros_like(p), torch.zeros_like(p)) for p in ps]
        with torch.no_grad():
            for i, (p, g) in enumerate(zip(ps, gs)):
                if g is None:
                    continue
                g = g * f
                self.grads[i] = g
                g = g + self.cfg["weight_decay"] * p
                a, b = self.mom[i]
                a, b = 0.9 * a + 0.1 * g, 0.999 * b + 0.001 * g * g
                self.mom[i] = a, b
                p -= self.opt.param_groups[0]["lr"] * (a / (1 - 0.9**self.t)) / ((b / (1 - 0.999**self.t)).sqrt() + 1e-8)
        return float(loss.detach())

    def validate(self, batches):
        self.sep.eval()
        with torch.no_grad():
            v = sum(float(self.loss(b)) for b in batches) / len(batches)
        self.sep.train()
        self.plateau.step(v)
        return v


BATCHES = dict(A=batch(1), B=batch(2, n=N + 6, b=3))
VALID = [batch(3, b=1), batch(4, n=N - 5, b=2)]


def snapshot(tr):
    m = tr.model
    grads = [None if p.grad is None else p.grad.clone() for p in m.parameters()]
    return dict(state={n: v.clone() for n, v in m.state_dict().items()}, grads=grads, clip=list(m.autoclipper.grad_norm_history),
                opt=copy.deepcopy(tr.optimizers[0].state_dict()["state"]), rng=torch.get_rng_state().clone(), py=random.getstate(),
                np=np.random.get_state()[1].tolist(), mode=[x.training for x in m.modules()])


def equal(a, b):
    if torch.is_tensor(a):
        return torch.equal(a, b)
    if isinstance(a, dict):
        return set(a) == set(b) and all(equal(a[i], b[i]) for i in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(equal(i, j) for i, j in zip(a, b))
    return a == b


def double(batches):
    return {n: (x.double(), y.double()) for n, (x, y) in batches.items()} if isinstance(batches, dict) else [(x.double(), y.double()) for x, y in batches]


def pick(b, n_src):
    return b[0], b[1][..., :n_src, :]


def run_history(k):
    WSJModel = load_scripts()
    cfg = config(k)
    n_src = cfg["training"]["n_src"]
    train = {n: pick(b, n_src) for n, b in double(BATCHES).items()}
    valid = [pick(b, n_src) for b in double(VALID)]
    torch.manual_seed(3)
    start = WSJModel(copy.deepcopy(cfg)).separator.double().state_dict()
    start = {n: v.clone() for n, v in start.items()}
    torch.set_default_dtype(torch.float64)
    try:
        return explore(WSJModel, k, cfg, start, train, valid)
    finally:
        torch.set_default_dtype(torch.float32)


def weights_agree(sep, ref, w):
    state, expected = sep.state_dict(), ref.sep.state_dict()
    names = [n for n, p in ref.sep.named_parameters() if p.requires_grad]
    for name in expected:
        a, b = state[name].double(), expected[name].double()
        if name in names and ref.mom is not None:
            # the optimiser amplifies the rounding noise of weights without influence
            v = ref.mom[names.index(name)][1] / (1 - 0.999**ref.t)
            a = torch.where(v.sqrt() > 1e-5, a, b)
        compare(a, b, 1e-3, f"{name} after {w}", atol=1e-4)


def explore(WSJModel, k, cfg, start, train, valid):
    memo = {"": Reference(cfg, start)}
    want = {}

    def reference(word):
        if word not in memo:
            r = copy.deepcopy(reference(word[:-1]))
            torch.manual_seed(len(word))  # dropout
            want[word] = r.validate(valid) if word[-1] == "V" else r.train(train[word[-1]])
            memo[word] = r
        return memo[word]

    n = 0
    for tail in itertools.product("ABV", repeat=k["depth"] - 1):
        word = k["first"] + "".join(tail)
        model = WSJModel(copy.deepcopy(cfg)).double()
        model.separator.load_state_dict(start)
        tr = Trainer(model)
        inputs = {i: [t.clone() for t in b] for i, b in train.items()}
        for i, op in enumerate(word):
            w = word[: i + 1]
            ref = reference(w)
            n += 1
            torch.manual_seed(len(w))
            if op == "V":
                before = snapshot(tr)
                log = dict(tr.validate(valid))
                after = snapshot(tr)
                for what in before:
                    require(equal(before[what], after[what]), f"validation changed the {what} of the training run ({w})")
                require(set(log) == {"val_loss", "val_cisdr"}, f"logged {sorted(log)}")
                compare(np.array([float(log["val_loss"]), float(log["val_cisdr"])]), np.array([want[w], -want[w]]), 1e-4, f"validation metrics after {w}", atol=1e-4)
                tr.scheduler.step(log[tr.monitor])
            else:
                loss = tr.train(train[op], i)
                compare(np.array([loss]), np.array([want[w]]), 1e-4, f"training loss after {w}", atol=1e-4)
                scale = max(float(g.norm()) for g in ref.grads if g is not None)
                for (name, p), g in zip(model.separator.named_parameters(), ref.grads):
                    require((p.grad is None) == (g is None), f"gradient of {name} after {w}")
                    if g is not None:
                        compare(p.grad, g, 1e-3, f"gradient of {name} after {w}", atol=1e-4 * scale)
            weights_agree(model.separator, ref, w)
            model.separator.load_state_dict(ref.sep.state_dict())  # rounding differences do not accumulate
            require(tr.optimizers[0].param_groups[0]["lr"] == ref.opt.param_groups[0]["lr"], f"learning rate after {w}")
        for i, b in train.items():
            require(equal(list(b), inputs[i]), "training changed the batch")
    return dict(states=len(memo), transitions=n, validated=n, outcome=coarse(np.array([want[w] for w in sorted(want)])))
