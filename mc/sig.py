"""Deterministic signals (a fixed integer hash, no random generator state)."""
import itertools

import numpy as np


def _mix64(x):
    x = x.astype(np.uint64)
    with np.errstate(over="ignore"):
        x = x + np.uint64(0x9E3779B97F4A7C15)
        x = (x ^ (x >> np.uint64(30))) * np.uint64(0xBF58476D1CE4E5B9)
        x = (x ^ (x >> np.uint64(27))) * np.uint64(0x94D049BB133111EB)
        return x ^ (x >> np.uint64(31))


def uniform(shape, key):
    n = int(np.prod(shape, dtype=np.int64)) if len(shape) else 1
    base = _mix64(np.array([key], dtype=np.uint64))[0]
    with np.errstate(over="ignore"):
        idx = np.arange(1, n + 1, dtype=np.uint64) * np.uint64(0xD1342543DE82EF95) + base
    u = _mix64(idx) >> np.uint64(11)
    return ((u.astype(np.float64) + 0.5) / 2.0**53).reshape(shape)


def normal(shape, key):
    u1, u2 = uniform(shape, 2 * key + 1), uniform(shape, 2 * key + 2)
    return np.sqrt(-2.0 * np.log(u1)) * np.cos(2 * np.pi * u2)


def cnormal(shape, key):
    return (normal(shape, 3 * key + 17) + 1j * normal(shape, 3 * key + 18)) / np.sqrt(2)


def mixture(n_chan, n_freq, n_frames, key=0, batch=(), kind="iva", n_src=None):
    """(batch..., n_chan, n_freq, n_frames) complex128

    iva:    super-gaussian, jointly modulated sources, well conditioned mixing
    reverb: the same with a decaying multi-frame echo
    noise:  white complex noise
    """
    batch = tuple(batch)
    key = 1000 * key + 7
    if kind == "noise":
        return cnormal(batch + (n_chan, n_freq, n_frames), key)
    n_src = n_chan if n_src is None else n_src
    act = 0.15 + uniform(batch + (n_src, 1, n_frames), key + 1) ** 3 * 3.0
    s = cnormal(batch + (n_src, n_freq, n_frames), key + 2) * act
    A = 0.45 * cnormal(batch + (n_freq, n_chan, n_src), key + 3)
    A = A + np.eye(n_chan, n_src)
    X = np.einsum("...fcs,...sfn->...cfn", A, s)
    if kind == "reverb":
        Y = X.copy()
        for d, g in ((1, 0.3), (2, 0.45), (3, 0.3), (4, 0.2)):
            if d < n_frames:
                B = g * (0.5 * cnormal(batch + (n_freq, n_chan, n_chan), key + 10 + d) + np.eye(n_chan))
                Y[..., d:] += np.einsum("...fcd,...dfn->...cfn", B, X[..., :-d])
        X = Y
    X = X + 0.05 * cnormal(batch + (n_chan, n_freq, n_frames), key + 4)
    return X


def words(alphabet, shape):
    """every array of this shape over the alphabet (the whole lattice)"""
    n = int(np.prod(shape))
    for w in itertools.product(alphabet, repeat=n):
        yield np.array(w).reshape(shape)


def wave(n_chan, n_samples, key=0, batch=()):
    """time domain mixture, float64, amplitude about 0.3"""
    key = 1000 * key + 501
    s = normal(tuple(batch) + (n_chan, n_samples), key)
    act = 0.1 + uniform(tuple(batch) + (n_chan, n_samples // 64 + 2), key + 1) ** 2
    act = np.repeat(act, 64, axis=-1)[..., :n_samples]
    s = s * act
    A = np.eye(n_chan) + 0.4 * normal((n_chan, n_chan), key + 2)
    x = np.einsum("cs,...sn->...cn", A, s)
    return 0.3 * x / np.max(np.abs(x))
