"""Transformer workloads with reference affine maps.

``make(rng, n, kind)`` returns ``(T, ref)`` where ``T`` is an untrained
transformer of the real code and ``ref(Q) -> (a, b)`` computes, from the
documented formulas and the training data, the affine map
``Q -> a[:, None] * Q + b[:, None]`` that T must have learned.
"""
import numpy as np
import opinf
from .gen import pick

SCALINGS = [None, "standard", "minmax", "minmaxsym", "maxabs", "maxabssym",
            "maxnorm", "maxnormsym"]


def configs():
    out = []
    for c in (False, True):
        for s in SCALINGS:
            for b in (False, True):
                if b and s in ("maxnorm", "maxnormsym"):
                    continue
                out.append((c, s, b))
    return out


CONFIGS = configs()  # 28 combinations


class Map(tuple):
    """(a, b) plus ``mag``: per-row magnitude, in original coordinates, of the
    offsets that enter the computation (for rounding-error scales)."""

    def __new__(cls, a, b, mag=None):
        self = super().__new__(cls, (a, b))
        self.mag = np.abs(b / a) if mag is None else mag
        return self


def ref_stats(Q, centering, scaling, byrow):
    """(mean, alpha, beta) by the documented formulas (alpha, beta as
    vectors), in extended precision."""
    Q = np.asarray(Q, dtype=np.longdouble)
    n = Q.shape[0]
    mean = Q.sum(axis=1) / Q.shape[1] if centering else np.zeros(
        n, dtype=np.longdouble)
    P = Q - mean[:, None]
    one = np.ones(n, dtype=np.longdouble)
    zero = 0 * one
    if scaling is None:
        return mean, one, zero
    blocks = [P[i:i + 1] for i in range(n)] if byrow else [P]
    al, be = [], []
    for B in blocks:
        mu = B.sum() / B.size
        if scaling == "standard":
            a = 1 / np.sqrt(((B - mu)**2).sum() / B.size)
            b = -mu * a
        elif scaling == "minmax":
            a = 1 / (B.max() - B.min())
            b = -B.min() * a
        elif scaling == "minmaxsym":
            a = 2 / (B.max() - B.min())
            b = -B.min() * a - 1
        elif scaling == "maxabs":
            a, b = 1 / np.abs(B).max(), 0
        elif scaling == "maxabssym":
            a = 1 / np.abs(B - mu).max()
            b = -mu * a
        elif scaling == "maxnorm":
            a, b = 1 / np.sqrt((B**2).sum(axis=0)).max(), 0
        elif scaling == "maxnormsym":
            a = 1 / np.sqrt(((B - mu)**2).sum(axis=0)).max()
            b = -mu * a
        al.append(a)
        be.append(b)
    return mean, np.array(al) * one, np.array(be) * one


def shiftscale(rng, n, cfg=None, name=None):
    c, s, b = cfg or pick(rng, CONFIGS)
    T = opinf.pre.ShiftScaleTransformer(centering=c, scaling=s, byrow=b,
                                        name=name)

    def ref(Q):
        m, a, be = ref_stats(Q, c, s, b)
        return Map(a, be - a * m, np.abs(m) + np.abs(be / a))

    return T, ref, f"SS({int(c)},{s},{int(b)})"


def shift(rng, n, name=None):
    q = rng.standard_normal(n)
    T = opinf.pre.ShiftTransformer(q, name=name)
    return T, (lambda Q: Map(np.ones(n), -q)), "Shift"


def scale(rng, n, name=None, byrow=None):
    byrow = bool(rng.integers(2)) if byrow is None else byrow
    if byrow:
        s = rng.uniform(0.2, 4, n) * rng.choice([-1, 1], n)
        T = opinf.pre.ScaleTransformer(s, name=name)
    else:
        s = float(rng.uniform(0.2, 4) * rng.choice([-1, 1]))
        T = opinf.pre.ScaleTransformer(s, name=name)
    return T, (lambda Q: Map(s * np.ones(n), np.zeros(n))), f"Scale({byrow})"


def null(rng, n, name=None):
    return (opinf.pre.NullTransformer(name=name),
            (lambda Q: Map(np.ones(n), np.zeros(n))), "Null")


LEAVES = [shiftscale, shiftscale, shiftscale, shift, scale, null]


def leaf(rng, n, name=None):
    return pick(rng, LEAVES)(rng, n, name=name)


def compose(refs):
    def ref(Q):
        Q = np.asarray(Q, dtype=np.longdouble)
        A = np.ones(Q.shape[0], dtype=np.longdouble)
        B = np.zeros(Q.shape[0], dtype=np.longdouble)
        mag = 0 * B
        for rf in refs:
            m = rf(Q)
            a, b = m
            mag = np.maximum(mag, m.mag / np.abs(A))
            Q = a[:, None] * Q + b[:, None]
            A, B = a * A, a * B + b
        return Map(A, B, mag)
    return ref


def stackref(refs, sizes):
    def ref(Q):
        Q = np.asarray(Q)
        ends = np.cumsum(sizes)
        ab = [rf(Q[e - s:e]) for rf, s, e in zip(refs, sizes, ends)]
        return Map(np.concatenate([m[0] for m in ab]),
                   np.concatenate([m[1] for m in ab]),
                   np.concatenate([m.mag for m in ab]))
    return ref


def pipeline(rng, n, parts=None, name=None, needdim=False):
    if parts is None:
        m = int(rng.integers(2, 4)) if rng.random() < .95 else 11
        parts = [leaf(rng, n) for _ in range(m)]
        if needdim:
            parts[int(rng.integers(m))] = shift(rng, n)
    seq = [p[0] for p in parts]
    T = opinf.pre.TransformerPipeline(
        tuple(seq) if rng.integers(2) else list(seq), name=name)
    return (T, compose([p[1] for p in parts]),
            "Pipe[" + ",".join(p[2] for p in parts) + "]")


def multi(rng, sizes, parts=None, allow_pipe=True):
    """TransformerMulti over variables of the given sizes."""
    if parts is None:
        parts = []
        for s in sizes:
            if allow_pipe and rng.random() < 0.2:
                parts.append(pipeline(rng, s, needdim=True))
            else:
                parts.append(leaf(rng, s))
    seq = []
    for p in parts:
        if p[2] == "Null" and rng.integers(2):
            seq.append(None)
        else:
            seq.append(p[0])
    equal = len(set(sizes)) == 1
    vs = None if (equal and rng.integers(2)) else list(sizes)
    T = opinf.pre.TransformerMulti(seq, variable_sizes=vs)
    return (T, stackref([p[1] for p in parts], sizes),
            "Multi[" + ",".join(p[2] for p in parts) + "]", parts)


def any_transformer(rng, i=None):
    """(T, ref, label, n, locs_vars): any class, any nesting.

    locs_vars is the number of variables when locs are per-variable (multi
    with equal sizes), 1 when locs index rows directly, 0 when locs are not
    supported."""
    i = int(rng.integers(10)) if i is None else i
    kind = i % 10
    n = int(pick(rng, [1, 2, 3, 5, 8, 13]))
    if kind < 4:
        T, ref, lab = shiftscale(rng, n, CONFIGS[(i // 10 * 4 + kind)
                                                 % len(CONFIGS)])
        return T, ref, lab, n, 1
    if kind == 4:
        return shift(rng, n) + (n, 1)
    if kind == 5:
        return scale(rng, n) + (n, 1)
    if kind == 6:
        if rng.integers(4) == 0:
            return null(rng, n) + (n, 1)
        return pipeline(rng, n) + (n, 1)
    nv = int(rng.integers(1, 5))
    if rng.random() < .08:  # two-digit variable numbers
        nv, n = int(rng.integers(11, 14)), int(rng.integers(1, 3))
    if kind in (7, 8):
        sizes = [n] * nv
    else:
        sizes = [int(rng.integers(1, 7)) for _ in range(nv)]
    T, ref, lab, _ = multi(rng, sizes)
    N = sum(sizes)
    lv = nv if len(set(sizes)) == 1 else 0
    if rng.integers(6) == 0:  # pipeline of a multi and a leaf
        T2, ref2, lab2 = leaf(rng, N)
        T = opinf.pre.TransformerPipeline([T, T2])
        return T, compose([ref, ref2]), f"Pipe[{lab},{lab2}]", N, 0
    return T, ref, lab, N, lv


def train_states(rng, n, sizes_min=2):
    """Training data for which every documented scaling is defined."""
    k = int(pick(rng, [3, 4, 7, 20]))
    kind = pick(rng, ["normal", "offset", "rowscales", "positive", "big",
                      "small"])
    from .gen import states
    return states(rng, n, k, kind), kind


class Mix(opinf.pre.TransformerTemplate):
    """A user-defined transformer q -> M (q - c): M invertible, not diagonal,
    c learned (the first training snapshot). ``impl`` False: the class does
    not implement transform_ddts()."""

    def __init__(self, M, impl=True, name=None):
        super().__init__(name=name)
        self.M, self.impl, self.c = M, impl, None

    def _out(self, out, X, inplace):
        if inplace:
            X[...] = out
            return X
        return out

    def fit_transform(self, states, inplace=False):
        self.state_dimension = states.shape[0]
        self.c = np.array(states[:, 0], dtype=float)
        return self.transform(states, inplace)

    def transform(self, states, inplace=False):
        c = self.c[:, None] if np.ndim(states) == 2 else self.c
        return self._out(self.M @ (states - c), states, inplace)

    def transform_ddts(self, ddts, inplace=False):
        if not self.impl:
            return NotImplemented
        return self._out(self.M @ ddts, ddts, inplace)

    def inverse_transform(self, states, inplace=False, locs=None):
        if locs is not None:
            raise NotImplementedError
        c = self.c[:, None] if np.ndim(states) == 2 else self.c
        return self._out(np.linalg.solve(self.M, states) + c, states,
                         inplace)


def mixmatrix(rng, n):
    if rng.integers(2):
        M = np.eye(n)[rng.permutation(n)]
        return M * rng.choice([-1., 1., 2.], n)
    U = np.linalg.qr(rng.standard_normal((n, n)))[0]
    return U * rng.uniform(.5, 2, n)


def mixture(rng, n=None, depth=0, impl=True):
    """A composition of user-defined and built-in stages that do not commute.
    Returns (T, label, n, smap) where smap(Q) is the dense pair (A, b) of the
    map that T must learn from the states Q."""
    kind = int(rng.integers(2))
    if kind == 0 or depth > 1 or (n is not None and n < 2):
        n = int(rng.integers(1, 8)) if n is None else n
        parts = [mixture(rng, n, 2 if depth else 1, impl) if rng.random() < .3
                 and not depth else _leafmix(rng, n, impl)
                 for _ in range(int(rng.integers(2, 4)))]
        T = opinf.pre.TransformerPipeline([p[0] for p in parts])

        def smap(Q):
            A, b = np.eye(n), np.zeros(n)
            for p in parts:
                A1, b1 = p[3](Q)
                Q = A1 @ Q + b1[:, None]
                A, b = A1 @ A, A1 @ b + b1
            return A, b
        return T, "Pipe[" + ",".join(p[1] for p in parts) + "]", n, smap
    if n is None:
        sizes = [int(rng.integers(1, 5)) for _ in range(rng.integers(2, 4))]
    else:
        cut = int(rng.integers(1, n))
        sizes = [cut, n - cut]
    parts = [_leafmix(rng, s, impl) for s in sizes]
    T = opinf.pre.TransformerMulti([p[0] for p in parts], sizes)
    ends = np.cumsum(sizes)

    def smap(Q):
        import scipy.linalg as la
        ab = [p[3](Q[e - s:e]) for p, s, e in zip(parts, sizes, ends)]
        return la.block_diag(*[x[0] for x in ab]), np.concatenate(
            [x[1] for x in ab])
    return (T, "Multi[" + ",".join(p[1] for p in parts) + "]",
            int(sum(sizes)), smap)


def _leafmix(rng, n, impl):
    if rng.random() < .6:
        M = mixmatrix(rng, n)
        im = impl is True or bool(rng.integers(2))
        return (Mix(M, im), "Mix" if im else "Mix-", n,
                lambda Q: (M, -M @ np.asarray(Q)[:, 0]))
    T, ref, lab = leaf(rng, n)

    def smap(Q):
        a, b = ref(Q)
        return np.diag(np.asarray(a, float)), np.asarray(b, float)
    return T, lab, n, smap
