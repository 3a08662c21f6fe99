"""Basis workloads."""
import numpy as np
import opinf
from .gen import orth, pick, spd


def spectrum(rng, m, kind=None):
    kind = kind or pick(rng, ["geometric", "linear", "flat", "steep"])
    j = np.arange(m)
    if kind == "geometric":
        s = 0.6**j
    elif kind == "linear":
        s = 1.0 / (1 + j)
    elif kind == "flat":
        s = 1 - 0.05 * j / max(m, 1) - 0.3 * (j % 2 == 1) * 0
        s = 1 - 0.5 * j / (m + 1)
    else:
        s = 10.0 ** (-3.0 * j / max(m, 4))
    return s


def snapshots(rng, n, k, kind=None, rank=None, scale=None):
    """(Q, s): snapshots with well separated singular values s (Euclidean).
    """
    m = min(n, k) if rank is None else min(n, k, rank)
    s = spectrum(rng, m, kind) * (10.0 ** rng.uniform(-3, 3)
                                  if scale is None else scale)
    return (orth(rng, n, m) * s) @ orth(rng, k, m).T, s


def weights(rng, n, kind):
    if kind == "none":
        return None, np.eye(n)
    if kind == "diag":
        w = rng.uniform(0.3, 3, n)
        return w, np.diag(w)
    W = spd(rng, n)
    return W, W


def worth(rng, n, r, W):
    """W-orthonormal n x r matrix."""
    L = np.linalg.cholesky(W)
    return np.linalg.solve(L.T, orth(rng, n, r))


def linear(rng, n, r=None, wkind=None, name=None):
    r = int(rng.integers(1, n + 1)) if r is None else r
    wkind = wkind or pick(rng, ["none", "none", "diag", "full"])
    w, W = weights(rng, n, wkind)
    V = worth(rng, n, r, W)
    B = opinf.basis.LinearBasis(V, weights=w, name=name)
    return B, V, W, f"Linear({wkind})"


SOLVERS = ["dense", "method-of-snapshots", "eigh", "randomized"]


def pod(rng, n, k, r=None, wkind=None, solver=None, **kw):
    m = min(n, k)
    r = int(rng.integers(1, m + 1)) if r is None else r
    wkind = wkind or pick(rng, ["none", "none", "diag", "full"])
    solver = solver or pick(rng, SOLVERS)
    w, W = weights(rng, n, wkind)
    B = opinf.basis.PODBasis(num_vectors=r, weights=w, svdsolver=solver, **kw)
    return B, r, W, f"POD({wkind},{solver})"
