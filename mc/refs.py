"""Reference models: the published algorithms written as plain NumPy loops over one signal
(n_chan, n_freq, n_frames), with the regularization constants of the package.

`model` is any callable on a complex ndarray returning the weights."""
import numpy as np
import scipy.linalg
import torch


def torch_model(m, dtype=None):
    """wrap a torch model as a callable on ndarrays"""

    def f(Y):
        t = torch.from_numpy(np.ascontiguousarray(Y))
        if dtype is not None:
            t = t.to(dtype)
        with torch.no_grad():
            return m(t).numpy().astype(np.float64)

    return f


def laplace(Y, eps=1e-5):
    r = 2 * np.sqrt(np.sum(np.abs(Y) ** 2, axis=-2, keepdims=True))
    return np.broadcast_to(1.0 / np.maximum(r, eps), Y.shape).copy()


def gauss(Y, eps=1e-5):
    r = np.mean(np.abs(Y) ** 2, axis=-2, keepdims=True)
    return np.broadcast_to(1.0 / np.maximum(r, eps), Y.shape).copy()


def solve_normal(A, b, load, eps):
    """row-normalized, diagonally loaded least squares solution of A x = b"""
    w = 1.0 / np.maximum(np.linalg.norm(A, axis=-1), eps)
    A = w[:, None] * A
    b = w[:, None] * b
    return np.linalg.solve(A.conj().T @ A + load * np.eye(A.shape[1]), A.conj().T @ b)


def solve_loaded(A, b, load):
    d = max(load * np.max(np.abs(A)), load)
    return np.linalg.solve(A + d * np.eye(len(A)), b)


def delayed(X, n_taps, n_delay):
    """(C, F, T, N); tap t is the signal delayed by n_delay + n_taps - t frames"""
    C, F, N = X.shape
    out = np.zeros((C, F, n_taps, N), dtype=X.dtype)
    for t in range(n_taps):
        d = n_delay + n_taps - t
        if d < N:
            out[:, :, t, d:] = X[:, :, : N - d]
    return out


def tiss(X, model, n_iter, n_taps=0, n_delay=0, n_src=None, ref=0, eps=1e-5):
    C, F, N = X.shape
    S = C if n_src is None else n_src
    Xb = delayed(X, n_taps, n_delay)
    W = np.zeros((F, S, C), dtype=complex)
    W[:] = np.eye(S, C)
    H = np.zeros((F, S, C, n_taps), dtype=complex)
    J = np.zeros((F, C - S, S), dtype=complex)

    def background(f, load):
        Yf = W[f] @ X[:, f] - np.einsum("sct,ctn->sn", H[f], Xb[:, f])
        A = Yf @ X[:, f].conj().T / N
        return solve_normal(A[:, :S], A[:, S:], load, load).conj().T

    if S < C:
        for f in range(F):
            J[f] = background(f, eps)
    Y = X[:S].copy()
    for it in range(n_iter):
        wts = np.array(model(Y))
        for s in range(S):
            g = max(np.mean(np.abs(Y[s]) ** 2), eps)
            q = max(np.sqrt(g), eps)
            Y[s] /= q
            W[:, s] /= q
            H[:, s] /= q
            wts[s] *= g
        for f in range(F):
            if S < C:
                J[f] = background(f, 1e-3)
                Z = J[f] @ X[:S, f] - X[S:, f]
            y, w, h, r = Y[:, f], W[f], H[f], wts[:, f]
            for s in range(S):
                v = np.zeros(S, dtype=complex)
                for c in range(S):
                    den = np.mean(r[c] * np.abs(y[s]) ** 2)
                    if c == s:
                        v[c] = 1 - 1 / np.sqrt(max(den, eps))
                    else:
                        v[c] = np.mean(r[c] * y[c] * y[s].conj()) / max(den, eps)
                y = y - np.outer(v, y[s])
                w = w - np.outer(v, w[s])
                h = h - v[:, None, None] * h[s]
            for b in range(C - S):
                v = np.array([np.sum(r[c] * y[c] * Z[b].conj()) / max(np.sum(r[c] * np.abs(Z[b]) ** 2), eps) for c in range(S)])
                y = y - np.outer(v, Z[b])
                w = w.copy()
                w[:, :S] -= np.outer(v, J[f][b])
                w[:, S + b] += v
            h = h.copy()
            for c2 in range(C):
                for t in range(n_taps):
                    x = Xb[c2, f, t]
                    v = np.array([np.sum(r[c] * y[c] * x.conj()) / max(np.sum(r[c] * np.abs(x) ** 2), eps) for c in range(S)])
                    y = y - np.outer(v, x)
                    h[:, c2, t] += v
            Y[:, f], W[f], H[f] = y, w, h
    if ref is not None and n_iter > 0:
        Y = Y * back(W, J, S, C, ref)
    return Y


def back(W, J, S, C, ref):
    """the entries of the inverse of the full demixing matrix in the row of the reference"""
    F = len(W)
    a = np.zeros((S, F, 1), dtype=complex)
    for f in range(F):
        B = W[f][:, :S] + (W[f][:, S:] @ J[f] if S < C else 0)
        if ref < S:
            rhs = np.eye(S)[:, [ref]]
        else:
            rhs = J[f][[ref - S]].T
        a[:, f] = solve_normal(B.T, rhs, 1e-5, 1e-5)
    return a


def auxiva_ip(X, model, n_iter, n_src=None, ref=0, eps=1e-5):
    C, F, N = X.shape
    S = C if n_src is None else n_src
    W = np.zeros((F, S, C), dtype=complex)
    W[:] = np.eye(S, C)
    J = np.zeros((F, C - S, S), dtype=complex)
    Cx = np.einsum("cfn,dfn->fcd", X, X.conj()) / N

    def constraint(f):
        A = W[f] @ Cx[f]
        return solve_normal(A[:, :S], A[:, S:], eps, eps).conj().T

    if S < C:
        for f in range(F):
            J[f] = constraint(f)
    Y = X[:S].copy()
    for it in range(n_iter):
        wts = np.array(model(Y))
        for s in range(S):
            g = max(np.mean(np.abs(Y[s]) ** 2), eps)
            W[:, s] /= max(np.sqrt(g), eps)
            wts[s] *= g
        for f in range(F):
            for k in range(S):
                full = W[f]
                if S < C:
                    J[f] = constraint(f)
                    full = np.vstack((W[f], np.hstack((J[f], -np.eye(C - S)))))
                V = (X[:, f] * wts[k, f]) @ X[:, f].conj().T
                w = solve_normal(full @ V, np.eye(C)[:, [k]], eps, eps)[:, 0].conj()
                q = np.real(w @ V @ w.conj())
                W[f, k] = w / np.sqrt(max(q, eps))
            Y[:, f] = W[f] @ X[:, f]
    if ref is not None:
        Y = Y * back(W, J, S, C, ref)
    return Y


def auxiva_ip2(X, model, n_iter, ref=0):
    C, F, N = X.shape
    Y = X.copy()
    A = np.zeros((F, 2, 2), dtype=complex)
    for it in range(n_iter):
        wts = np.array(model(Y))
        for s in range(2):
            wts[s] *= max(np.mean(np.abs(Y[s]) ** 2), 1e-5)
        for f in range(F):
            V = [(X[:, f] * wts[k, f]) @ X[:, f].conj().T / N for k in range(2)]
            lam, vec = scipy.linalg.eigh(V[1], V[0])
            w0, w1 = vec[:, 1], vec[:, 0]
            w0 = w0 / np.sqrt(np.real(w0.conj() @ V[0] @ w0))
            w1 = w1 / np.sqrt(np.real(w1.conj() @ V[1] @ w1))
            W = np.stack((w0.conj(), w1.conj()))
            A[f] = np.linalg.inv(W)
            Y[:, f] = W @ X[:, f]
    if ref is not None and n_iter > 0:
        Y = Y * np.moveaxis(A[:, [ref], :], -1, 0)
    return Y


def five(X, model, n_iter, ref=0, n_power_iter=None):
    C, F, N = X.shape
    X1 = X[:, 1:]
    F1 = F - 1
    Xw = np.zeros_like(X1)
    Qinv = np.zeros((F1, C, C), dtype=complex)
    Y = np.zeros((F1, N), dtype=complex)
    for f in range(F1):
        Cx = X1[:, f] @ X1[:, f].conj().T / N
        lam, E = np.linalg.eigh(0.5 * (Cx + Cx.conj().T))
        lam, E = lam[::-1], E[:, ::-1]
        sq = np.sqrt(np.maximum(lam, 1e-5))
        Xw[:, f] = (E.conj().T @ X1[:, f]) / sq[:, None]
        Qinv[f] = E * sq
        Y[f] = Xw[0, f]
        if ref is not None:
            # least squares projection of the reference microphone on the first component
            Y[f] = Y[f] * np.mean(X1[ref, f] * Xw[0, f].conj())
    for it in range(n_iter):
        wts = np.array(model(Y))
        for f in range(F1):
            V = (Xw[:, f] * wts[f]) @ Xw[:, f].conj().T
            V = 0.5 * (V + V.conj().T)
            if n_power_iter is None:
                _, E = np.linalg.eigh(V)
                u = E[:, 0]
            else:
                Vi = np.linalg.inv(V + max(1e-5 * np.max(np.abs(V)), 1e-5) * np.eye(C))
                u = Vi[:, 0]
                for _ in range(n_power_iter - 1):
                    u = Vi @ u
                    u = u / np.linalg.norm(u)
                u = u / np.linalg.norm(u)
            z = Qinv[f, ref] @ u if ref is not None else 1.0
            Y[f] = z * (u.conj() @ Xw[:, f])
    return np.concatenate((np.zeros((1, N)), Y))[None]


def wpe(X, n_iter, n_taps, n_delay, eps=1e-5, model=None):
    C, F, N = X.shape
    Xb = delayed(X, n_taps, n_delay)
    Y = X.copy()
    for it in range(n_iter):
        if model is None:
            w = 1.0 / np.maximum(np.mean(np.abs(Y) ** 2, axis=0), eps)
            w = w / np.sum(w, axis=-1, keepdims=True)
        else:
            w = np.array(model(Y))
        Y = Y.copy()
        for f in range(F):
            D = Xb[:, f].reshape(C * n_taps, N)
            R = (w[f] * D) @ D.conj().T
            P = (w[f] * D) @ X[:, f].conj().T
            G = solve_loaded(R, P, eps)
            Y[:, f] = X[:, f] - G.conj().T @ D
    return Y


# ---------------------------------------------------------------- beamformers


def covs(X, mask):
    """sum_n mask x x^H, (F, C, C)"""
    C, F, N = X.shape
    return np.stack([(X[:, f] * mask[f]) @ X[:, f].conj().T for f in range(F)])


def gevd_top(A, B):
    lam, vec = scipy.linalg.eigh(A, B)
    return lam[-1], vec[:, -1]


def rtf(Rt, Rn, ref, n_power=None):
    if n_power is None:
        _, v = gevd_top(Rt, Rn)
    else:
        Phi = solve_loaded(Rn, Rt, 1e-5)
        v = Phi[:, ref]
        for _ in range(n_power - 1):
            v = Phi @ v
            v = v / np.linalg.norm(v)
    d = Rn @ v
    return d / d[ref]


def mvdr_w(Rn, d, eps=1e-5):
    a = solve_loaded(Rn / np.max(np.abs(Rn)), d, eps)
    return a / max(np.real(d.conj() @ a), eps)


def beamform(X, masks, kind, ref=0, eps=1e-5, n_power=None, time_invariant=True):
    """masks (S, M, F, N) -> (S, F, N)"""
    S, M, F, N = masks.shape
    C = X.shape[0]
    Y = np.zeros((S, F, N), dtype=complex)
    for s in range(S):
        R = [covs(X, masks[s, m]) for m in range(M)]
        for f in range(F):
            x = X[:, f]
            if kind == "mvdr_rtf":
                nz = 1 if M == 2 else 2
                w = mvdr_w(R[1][f], rtf(R[0][f], R[nz][f], ref, n_power), eps)
            elif kind == "mvdr_scm":
                P = solve_loaded(R[1][f], R[0][f], 1e-7)
                w = P[:, ref] / np.trace(P).real
            elif kind == "mwf" and time_invariant:
                w = solve_loaded(R[0][f] + R[1][f], R[0][f][:, ref], 1e-6)
            elif kind == "mwf":
                for n in range(N):
                    Rt = R[0][f] * masks[s, 2, f, n]
                    Rn = R[1][f] * masks[s, 3, f, n]
                    w = solve_loaded(Rt + Rn, Rt[:, ref], 1e-6)
                    Y[s, f, n] = w.conj() @ x[:, n]
                continue
            elif kind == "gev":
                # the GEV filter scaled like the blind analytic normalization to the reference:
                # the steering vector of the top component has unit response at the reference
                lam, vec = scipy.linalg.eigh(R[0][f], R[1][f])
                A = np.linalg.inv(vec.conj().T)
                w = vec[:, -1] * np.conj(A[ref, -1])
            Y[s, f] = w.conj() @ x
    return Y
