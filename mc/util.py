import hashlib

import numpy as np
import torch

from .engine import Violation

CPX = {"c64": torch.complex64, "c128": torch.complex128}
FLT = {"f32": torch.float32, "f64": torch.float64}


def tt(x, dtype=None):
    t = torch.from_numpy(np.ascontiguousarray(x))
    return t if dtype is None else t.to(dtype)


def nn(x):
    return x.detach().resolve_conj().resolve_neg().cpu().numpy()


def require(cond, msg):
    if not cond:
        raise Violation(msg)


def relerr(a, b):
    """max deviation relative to the scale of b"""
    a, b = np.asarray(a), np.asarray(b)
    if a.size == 0 and b.size == 0:
        return 0.0
    scale = np.max(np.abs(b)) if b.size else 0.0
    d = np.max(np.abs(a - b)) if a.shape == b.shape else np.inf
    if not np.isfinite(d):
        return np.inf
    return float(d / max(scale, 1e-30)) if d > 0 else 0.0


def compare(got, want, tol, what, atol=0.0):
    """same shape, finite where the reference is, equal within tol (relative to the
    scale of the reference)"""
    got = nn(got) if torch.is_tensor(got) else np.asarray(got)
    want = nn(want) if torch.is_tensor(want) else np.asarray(want)
    if got.shape != want.shape:
        raise Violation(f"{what}: shape {got.shape}, expected {want.shape}")
    if got.size == 0:
        return 0.0
    fin = np.isfinite(want)
    if not np.all(np.isfinite(got) == fin):
        raise Violation(
            f"{what}: {np.sum(~np.isfinite(got))} non finite values, expected {np.sum(~fin)}"
        )
    g, w = np.where(fin, got, 0), np.where(fin, want, 0)
    scale = np.max(np.abs(w))
    err = np.max(np.abs(g - w))
    if err > tol * scale + atol:
        i = np.unravel_index(np.argmax(np.abs(g - w)), g.shape)
        raise Violation(
            f"{what}: differs by {err:.3e} (scale {scale:.3e}, tolerance {tol:.1e}) "
            f"at {tuple(int(k) for k in i)}: got {got[i]}, expected {want[i]}"
        )
    return float(err / scale) if scale > 0 else 0.0


def digest(*arrays):
    h = hashlib.sha256()
    for a in arrays:
        a = nn(a) if torch.is_tensor(a) else np.asarray(a)
        h.update(str(a.shape).encode())
        h.update(np.ascontiguousarray(a).tobytes())
    return h.hexdigest()[:12]


def coarse(*arrays):
    """a digest of rounded values, for counting distinct outcomes"""
    out = []
    for a in arrays:
        a = nn(a) if torch.is_tensor(a) else np.asarray(a)
        s = np.max(np.abs(a)) if a.size else 0
        with np.errstate(all="ignore"):
            out.append(np.round(a / (s if s > 0 else 1), 3) + 0.0)
    return digest(*out)
