"""Linear algebra helpers"""
import itertools

import numpy as np
import torch

from mc import sig
from mc.engine import product
from mc.util import coarse, compare, nn, require, tt
from torchiva import linalg as L

ID = "C24"
TITLE = "Linear algebra helpers equal their definitions on every kind of matrix"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of the complete lattice of small-integer matrices (singular and null ones included), operand kinds and memory views; definitions checked on the result of the real code for each"
RULE = (
    "all 2x2 matrices over a small complex alphabet as left-hand sides, all kinds of operands (real, complex, conjugated, "
    "transposed, expanded views; broadcast batch shapes) x precision x size x scale; solutions against the regularized "
    "system solved by LAPACK, products and windows against loops"
)
ASSUMPTIONS = ["regularization constants are part of the definition", "systems with condition number above 1e9 checked for finiteness only"]

ALPHA = [0, 1, -1, 2j, 1 - 1j]
DT = dict(c128=torch.complex128, c64=torch.complex64, f64=torch.float64, f32=torch.float32)
VIEWS = ["plain", "conj", "transposed", "expanded", "sliced", "flipped_neg"]


def cases(tier):
    q = tier == "quick"
    out = []
    for fn in ("solve_loaded", "solve_loaded_general", "inv_loaded", "inv_2x2"):
        for dt in ("c128", "c64"):
            for scale in (1.0, 1e-4, 1e3) + ((1e-8, 1e6) if fn == "inv_2x2" else ()):
                out.append(dict(kind="lattice", fn=fn, dt=dt, scale=scale, alpha=5 if q else 5))
        for n in (1, 2, 3, 4, 6, 12):
            if fn == "inv_2x2" and n != 2:
                continue
            for k in product(batch=[[], [3], [2, 2]], dt=list(DT), load=[None, 1e-3, 0.1], view=VIEWS, sing=[0, 1]):
                out.append(dict(kind="dense", fn=fn, n=n, **k))
    for fn in ("multiply", "bmm", "hermite", "mag_sq", "mag", "divide", "diagonal_loading"):
        for k in product(d1=["c128", "c64", "f64", "f32"], d2=["c128", "c64", "f64", "f32"], v1=VIEWS, v2=VIEWS):
            out.append(dict(kind="elem", fn=fn, **k))
    for k in product(n=[1, 2, 3, 7, 12, 30], rows=[1, 2, 3, 7, 12, 20, 30], batch=[[], [2], [2, 3]], view=VIEWS, dt=list(DT)):
        if k["rows"] <= k["n"]:
            out.append(dict(kind="hankel", **k))
    out.append(dict(kind="types"))
    return out


def run_types(k):
    import torchiva.dtypes as T

    n = 0
    for d, (c, f) in {torch.float32: (torch.complex64, torch.float32), torch.float64: (torch.complex128, torch.float64),
                      torch.complex64: (torch.complex64, torch.float32), torch.complex128: (torch.complex128, torch.float64)}.items():
        for a in (d, torch.zeros((), dtype=d), torch.ones((2, 0, 3), dtype=d), torch.ones(2, 3, dtype=d).mT):
            require(T.is_complex_type(a) is (c == d), f"is_complex_type({d})")
            require(T.dtype_f2cpx(a) == c, f"complex type of {d}: {T.dtype_f2cpx(a)}")
            require(T.dtype_cpx2f(a) == f, f"real type of {d}: {T.dtype_cpx2f(a)}")
            n += 3
    for d in (torch.int32, torch.bool, torch.float16):
        require(T.is_complex_type(d) is False, f"is_complex_type({d})")
        for fn in (T.dtype_f2cpx, T.dtype_cpx2f):
            try:
                r = fn(d)
            except Exception:
                n += 1
                continue
            require(False, f"{fn.__name__}({d}) gives {r} instead of being refused")
    return dict(states=n, transitions=n, validated=n)


def view(x, kind):
    """the tensor with the same values held in another kind of memory"""
    x = x.clone()
    if kind == "conj" and x.is_complex():
        return x.conj().resolve_conj().conj()
    if kind == "transposed" and x.ndim >= 2:
        return x.transpose(-1, -2).contiguous().transpose(-1, -2)
    if kind == "expanded":
        return x[None].expand((2,) + x.shape)[1]
    if kind == "sliced":
        big = x.new_full(tuple(2 * s + 1 for s in x.shape), 7)
        idx = tuple(slice(1, None, 2) for _ in x.shape)
        big[idx] = x
        return big[idx]
    if kind == "flipped_neg" and not x.is_complex():
        # the imaginary part of a conjugate: a view with the negative bit
        return torch.complex(torch.zeros_like(x), -x).conj().imag
    if kind == "flipped_neg":
        return torch.flip(torch.flip(x, dims=(-1,)), dims=(-1,)).mT.mT if x.ndim >= 2 else x
    return x


def run(k):
    return globals()["run_" + k["kind"]](k)


def cond(M):
    s = np.linalg.svd(M, compute_uv=False)
    return s[..., 0] / np.maximum(s[..., -1], 1e-300)


def reference(fn, A, b, load):
    n = A.shape[-1]
    eye = np.eye(n)
    if fn in ("solve_loaded", "inv_loaded"):
        load = 1e-6 if load is None else load
        lf = np.maximum(load * np.abs(A).max((-2, -1), keepdims=True), load)
        M = A + lf * eye
        rhs = b if fn == "solve_loaded" else np.broadcast_to(eye, M.shape)
    elif fn == "solve_loaded_general":
        load = 1e-5 if load is None else load
        w = 1.0 / np.maximum(np.linalg.norm(A, axis=-1, keepdims=True), 1e-5)
        A2, b2 = A * w, b * w
        M = np.swapaxes(A2.conj(), -1, -2) @ A2 + load * eye
        rhs = np.swapaxes(A2.conj(), -1, -2) @ b2
    else:
        # inverse, unless the terms of the determinant cancel (judged whatever the scale)
        eps = 1e-6 if load is None else load
        t1, t2 = A[..., 0, 0] * A[..., 1, 1], A[..., 0, 1] * A[..., 1, 0]
        adj = np.stack((np.stack((A[..., 1, 1], -A[..., 0, 1]), -1), np.stack((-A[..., 1, 0], A[..., 0, 0]), -1)), -2)
        top, det = np.abs(t1) + np.abs(t2), t1 - t2
        ok = (top > 0) & (np.abs(det) > 4 * eps * top)
        det = np.where(ok, det, 1)
        return adj / det[..., None, None], np.where(ok, top / np.abs(det), 1), ok
    with np.errstate(all="ignore"):
        c = cond(M)
    ok = c < 1e9
    Ms = np.where(ok[..., None, None], M, eye)
    return np.linalg.solve(Ms, rhs), c, ok


def call(fn, A, b, load):
    if fn in ("solve_loaded", "solve_loaded_general"):
        return getattr(L, fn)(A, b) if load is None else getattr(L, fn)(A, b, load=load)
    if fn == "inv_loaded":
        return L.inv_loaded(A) if load is None else L.inv_loaded(A, load=load)
    return L.inv_2x2(A) if load is None else L.inv_2x2(A, eps=load)


def check_solution(fn, A, b, load, got, single, what):
    want, c, ok = reference(fn, A, b, load)
    got = nn(got)
    require(got.shape == want.shape, f"{what}: shape {got.shape}, expected {want.shape}")
    unit = 3e-6 if single else 1e-13
    ok = ok & (c * unit < 1e-2)
    s = np.abs(want).max((-2, -1)) + 1e-300
    err = np.abs(got - want).max((-2, -1)) / s
    bad = ok & ~(err <= 30 * unit * np.maximum(c, 10))
    require(not bad.any(), f"{what}: relative error {err[bad].max() if bad.any() else 0} for {A[bad][0].tolist() if bad.any() else ''}")
    return int(ok.sum())


def run_lattice(k):
    al = ALPHA[: k["alpha"]]
    A = np.array(list(sig.words(al, (2, 2)))).astype(complex) * k["scale"]
    if k["fn"] in ("solve_loaded", "inv_loaded"):  # meant for covariance matrices
        A = A @ np.swapaxes(A.conj(), -1, -2)
    b = np.broadcast_to(np.array([[1, 2j], [-1, 0.5]]), A.shape)
    single = k["dt"] == "c64"
    At, bt = tt(A, DT[k["dt"]]), tt(b, DT[k["dt"]])
    Aq = nn(At).astype(complex)
    got = call(k["fn"], At, bt, None)
    n = check_solution(k["fn"], Aq, b, None, got, single, "lattice")
    if k["fn"] == "inv_2x2":  # rows and columns of very different magnitudes
        for r, c in itertools.product((1e-5, 1.0, 1e4), repeat=2):
            As = tt(Aq * np.array([[1, r]]).T * np.array([[1, c]]), DT[k["dt"]])
            n += check_solution("inv_2x2", nn(As).astype(complex), b, None, L.inv_2x2(As), single, f"rows x {r}, columns x {c}")
    require(n > len(A) // 3, f"only {n} of {len(A)} decided")
    # regularized: never NaN
    require(bool(torch.isfinite(got.abs()).all()), "not finite")
    return dict(states=len(A), transitions=len(A), validated=n, outcome=coarse(got))


def run_dense(k):
    n, batch = k["n"], tuple(k["batch"])
    A = sig.cnormal(batch + (n, n), 11 + n)
    b = sig.cnormal(batch + (n, 3), 12)
    if k["sing"]:  # rank one
        A = A[..., :, :1] * A[..., :1, :]
        A = A @ np.swapaxes(A.conj(), -1, -2)
    if not DT[k["dt"]].is_complex:
        A, b = A.real, b.real
    At, bt = tt(A, DT[k["dt"]]), tt(b, DT[k["dt"]])
    A, b = nn(At).astype(complex), nn(bt).astype(complex)
    got = call(k["fn"], view(At, k["view"]), view(bt, k["view"]), k["load"])
    require(got.dtype == DT[k["dt"]], f"dtype {got.dtype}")
    m = check_solution(k["fn"], A, b, k["load"], got, k["dt"] in ("c64", "f32"), k["fn"])
    return dict(states=1, transitions=1, validated=1, outcome=coarse(got))


def run_elem(k):
    """operands of broadcastable shapes"""
    fn = k["fn"]
    outs, n = set(), 0

    def make(shape, d, key):
        x = sig.cnormal(shape, key)
        x = x if DT[d].is_complex else x.real
        return tt(x, DT[d])

    if fn in ("mag_sq", "mag", "hermite"):
        if k["d2"] != "c128" or k["v2"] != "plain":
            return dict(states=1, transitions=0, skipped=True)
        for shape in ((3,), (2, 3), (2, 3, 4)):
            if fn == "hermite" and len(shape) < 2:
                continue
            x = make(shape, k["d1"], 1)
            v = nn(x).astype(complex)
            want = {"mag_sq": np.abs(v) ** 2, "mag": np.abs(v), "hermite": np.swapaxes(v.conj(), -1, -2) if v.ndim > 1 else v}[fn]
            got = getattr(L, fn)(view(x, k["v1"]))
            compare(got, want, 1e-6, fn)
            if fn == "hermite" and len(shape) == 3:
                compare(L.hermite(view(x, k["v1"]), 0, 1), np.swapaxes(v.conj(), 0, 1), 1e-6, "hermite of other axes")
            else:
                require(not got.is_complex() or fn == "hermite", "complex magnitude")
            n += 1
        return dict(states=n, transitions=n, validated=n)
    if fn == "divide":
        if DT[k["d2"]].is_complex:
            return dict(states=1, transitions=0, skipped=True)
        for eps in (None, 1e-7, 0.5):
            x, y = make((2, 3, 4), k["d1"], 1), make((3, 1), k["d2"], 2).abs() * 0.8
            y[0] = 0
            want = nn(x).astype(complex) / np.maximum(nn(y).astype(float), 1e-7 if eps is None else eps)
            got = L.divide(view(x, k["v1"]), view(y, k["v2"])) if eps is None else L.divide(view(x, k["v1"]), view(y, k["v2"]), eps=eps)
            compare(got, want, 1e-5, f"divide eps={eps}")
            n += 1
        return dict(states=n, transitions=n, validated=n)
    if fn == "diagonal_loading":
        A, d = make((2, 3, 3), k["d1"], 1), make((2, 3), k["d2"], 2)
        got = L.diagonal_loading(view(A, k["v1"]), view(d, k["v2"]))
        want = nn(A).astype(complex) + nn(d).astype(complex)[..., None] * np.eye(3)
        compare(got, want, 1e-5, fn)
        return dict(states=1, transitions=1)
    if fn == "bmm":
        if not (DT[k["d1"]].is_complex and k["d1"] == k["d2"]):
            return dict(states=1, transitions=0, skipped=True)
        for s1, s2 in (((2, 3), (3, 4)), ((2, 2, 3), (2, 3, 4)), ((5, 1, 2, 3), (2, 3, 1)), ((1, 1), (1, 1)), ((2, 3), (4, 3, 2))):
            x, y = make(s1, k["d1"], 1), make(s2, k["d2"], 2)
            compare(L.bmm(view(x, k["v1"]), view(y, k["v2"])), nn(x) @ nn(y), 1e-5, f"bmm {s1} {s2}")
            n += 1
        return dict(states=n, transitions=n, validated=n)
    # multiply
    for s1, s2 in (((3,), (3,)), ((2, 3), (2, 3)), ((2, 3), (3,)), ((3,), (2, 3)), ((2, 1, 3), (4, 1)), ((1,), (2, 2))):
        x, y = make(s1, k["d1"], 1), make(s2, k["d2"], 2)
        want = nn(x).astype(complex) * nn(y).astype(complex)
        got = L.multiply(view(x, k["v1"]), view(y, k["v2"]))
        require(got.is_complex() == (x.is_complex() or y.is_complex()), "type of the product")
        compare(got, want, 1e-5, f"multiply {s1} {s2}")
        n += 1
    return dict(states=n, transitions=n, validated=n)


def run_hankel(k):
    x = sig.cnormal(tuple(k["batch"]) + (k["n"],), 4)
    x = tt(x if DT[k["dt"]].is_complex else x.real, DT[k["dt"]])
    got = nn(L.hankel_view(view(x, k["view"]), k["rows"]))
    v = nn(x)
    r, c = k["rows"], k["n"] - k["rows"] + 1
    want = np.stack([v[..., i : i + c] for i in range(r)], axis=-2)
    compare(got, want, 0, "hankel")
    return dict(states=1, transitions=1, outcome=coarse(got))
