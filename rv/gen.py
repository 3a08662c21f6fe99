"""Shared workload generators (all randomness from the case's rng)."""
import numpy as np

LAYOUTS = ["C", "F", "strided", "reversed", "rowslice", "readonly"]


def pick(rng, seq):
    return seq[int(rng.integers(len(seq)))]


def layout(rng, A, kind=None, w=False):
    """Same values as A (2-D or 1-D) in a different memory layout.

    w: the array may be written to (work in place), so it must be writable.
    """
    A = np.asarray(A)
    kind = kind or pick(rng, LAYOUTS[:-1] if w else LAYOUTS)
    if kind == "C":
        return np.ascontiguousarray(A).copy()
    if kind == "F":
        return np.array(A, order="F")
    if kind == "strided":
        big = np.full(tuple(2 * s for s in A.shape), 7.5).astype(A.dtype)
        v = big[tuple(slice(None, None, 2) for _ in A.shape)]
        v[...] = A
        return v
    if kind == "reversed":
        idx = tuple(slice(None, None, -1) for _ in A.shape)
        return np.array(A[idx])[idx]
    if kind == "rowslice":
        big = np.zeros((A.shape[0] + 3,) + A.shape[1:], dtype=A.dtype)
        big[1:-2] = A
        return big[1:-2]
    if kind == "readonly":  # e.g. a memory-mapped file
        out = np.array(A)
        out.flags.writeable = False
        return out
    raise ValueError(kind)


STATE_KINDS = ["normal", "offset", "rowscales", "positive", "lowrank",
               "big", "small", "smooth"]


def states(rng, n, k, kind=None):
    kind = kind or pick(rng, STATE_KINDS)
    Q = rng.standard_normal((n, k))
    if kind == "offset":
        Q = Q + 50 * rng.standard_normal((n, 1))
    elif kind == "rowscales":
        Q = Q * 10.0 ** rng.uniform(-2, 2, (n, 1)) + rng.standard_normal(
            (n, 1))
    elif kind == "positive":
        Q = np.abs(Q) + 0.1
    elif kind == "lowrank" and min(n, k) > 1:
        Q = np.outer(rng.standard_normal(n), rng.standard_normal(k)) + 1e-1 * Q
    elif kind == "big":
        Q = 10.0 ** pick(rng, [6, 6, 11]) * Q
    elif kind == "small":
        Q = 10.0 ** -pick(rng, [6, 6, 11]) * Q
    elif kind == "smooth":
        t = np.linspace(0, 1, k)
        Q = np.array([np.sin((i % 7 + 1) * t + i) + 0.3 * i % 5
                      for i in range(n)]) + 0.01 * Q
    return Q


def structured(rng, n, k):
    """Data with a pattern: triangles, diagonals, symmetry, zeros, repeats."""
    X = rng.standard_normal((n, k))
    kind = pick(rng, ["upper", "lower", "diag", "eye", "sym", "ones", "zeros",
                      "unit", "rows", "columns", "toeplitz", "skew",
                      "permutation", "sparse"])
    if kind == "upper":
        return np.triu(X)
    if kind == "lower":
        return np.tril(X)
    if kind == "diag":
        return X * np.eye(n, k)
    if kind == "eye":
        return np.eye(n, k)
    if kind in ("sym", "skew"):
        s = min(n, k)
        X[:s, :s] += X[:s, :s].T * (1 if kind == "sym" else -1)
    elif kind == "ones":
        return np.ones((n, k))
    elif kind == "zeros":
        return np.zeros((n, k))
    elif kind == "unit":
        Z = np.zeros((n, k))
        Z[rng.integers(n), rng.integers(k)] = rng.standard_normal()
        return Z
    elif kind == "rows":
        return np.tile(X[:1], (n, 1))
    elif kind == "columns":
        return np.tile(X[:, :1], (1, k))
    elif kind == "toeplitz":
        return np.subtract.outer(np.arange(n), np.arange(k)) * 1.0
    elif kind == "permutation":
        return np.eye(n, k)[:, rng.permutation(k)]
    elif kind == "sparse":
        X[rng.random((n, k)) < .7] = 0
    return X


def locs(rng, n):
    """A location set and its kind: slices and integer index arrays."""
    kind = pick(rng, ["sorted", "unsorted", "slice", "step", "negstep", "one",
                      "all", "negative", "repeat", "openslice"])
    if kind == "sorted":
        m = int(rng.integers(1, n + 1))
        return np.sort(rng.choice(n, m, replace=False)), kind
    if kind == "unsorted":
        m = int(rng.integers(1, n + 1))
        return rng.choice(n, m, replace=False), kind
    if kind == "slice":
        a = int(rng.integers(0, n))
        return slice(a, int(rng.integers(a + 1, n + 1))), kind
    if kind == "step":
        return slice(int(rng.integers(0, n)), None,
                     int(rng.integers(1, 4))), kind
    if kind == "negstep":
        return slice(None, None, -1), kind
    if kind == "one":
        return np.array([int(rng.integers(0, n))]), kind
    if kind == "all":
        return np.arange(n), kind
    if kind == "negative":
        m = int(rng.integers(1, n + 1))
        return rng.choice(n, m, replace=False) - n, kind
    if kind == "repeat":
        return rng.integers(0, n, int(rng.integers(1, n + 3))), kind
    return slice(-int(rng.integers(1, n + 1)), None), kind


def orth(rng, n, r):
    return np.linalg.qr(rng.standard_normal((n, r)))[0]


def spd(rng, n, cond=10.0):
    Q = orth(rng, n, n)
    d = 10.0 ** rng.uniform(-0.5 * np.log10(cond), 0.5 * np.log10(cond), n)
    W = (Q * d) @ Q.T
    return (W + W.T) / 2
