"""C26: reported errors equal their norm definitions."""
import math

import numpy as np
import opinf

from rv import gen
from rv.core import Check

post = opinf.post
CHECK = Check(
    "C26",
    "A case draws true and approximate data (1-D or 2-D, any layout, scale, "
    "integer or float), a norm order and a time grid, and compares both "
    "returned errors with sums written out entry by entry in exact-order "
    "arithmetic (math.fsum).",
    require=["frobenius", "lp-abs", "lp-rel", "lp-normalized", "lp-inf",
             "lp-1d", "Lp-abs", "Lp-rel", "Lp-inf", "Lp-1d", "Lp-nonuniform",
             "projection", "projection-1d", "projection-nonsquare-order",
             "exact-approximation", "inputs-unchanged",
             "single-precision"])
TOL = 1e-11


def vnorm(v, p):
    v = [abs(float(x)) for x in v]
    if p == np.inf:
        return max(v)
    s = max(v)
    if s == 0:
        return 0.0
    return s * math.fsum((x / s) ** p for x in v) ** (1 / p)


def data(rng, ndim=2, n=None, k=None):
    n = n or int(rng.integers(1, 9) if rng.random() < .9
                 else rng.integers(20, 400))
    k = k or int(rng.integers(1, 9))
    shape = (n, k) if ndim == 2 else (k,)
    s = 10.0 ** rng.uniform(-3, 3)
    T = s * rng.standard_normal(shape)
    ints = rng.random() < 0.15
    if ints:
        T = rng.integers(-5, 6, shape)
        T[np.abs(T) == 0] = 1
    E = 10.0 ** rng.uniform(-3, 0.5) * s * rng.standard_normal(shape)
    if ints and rng.random() < 0.5:
        E = rng.integers(-3, 4, shape)
    A = T + E
    if ndim == 2 and rng.random() < 0.3:  # some columns are exact
        j = rng.random(k) < 0.4
        A[:, j] = T[:, j]
    return gen.layout(rng, T), gen.layout(rng, A), ints


def grid(rng, k):
    kind = gen.pick(rng, ["uniform", "nonuniform", "shifted", "tiny"])
    if kind == "uniform":
        return np.linspace(0, rng.uniform(.1, 5), k), kind
    if kind == "tiny":
        return 1e-4 * np.cumsum(rng.uniform(.1, 1, k)), kind
    t = np.cumsum(rng.uniform(.05, 1, k))
    return (t - 10 if kind == "shifted" else t), kind


def ratio(a, b):
    return a / b if b else (np.nan if a == 0 else np.inf)


def same(ctx, T, A, T0, A0):
    ctx.equal(T, T0, "inputs-unchanged")
    ctx.equal(A, A0, "inputs-unchanged")


@CHECK.family(quick=300, thorough=6000)
def frobenius(ctx, rng, i):
    T, A, ints = data(rng)
    T0, A0 = T.copy(), A.copy()
    a, r = post.frobenius_error(T, A)
    ctx.note(shape=T.shape, ints=ints)
    ea = vnorm((T - A).ravel(), 2)
    en = vnorm(T.ravel(), 2)
    ctx.close(a, ea, "frobenius", rtol=TOL, atol=1e-300)
    ctx.close(r, ratio(ea, en), "frobenius", rtol=TOL, atol=1e-300)
    same(ctx, T, A, T0, A0)
    a, r = post.frobenius_error(T, T.copy())
    ctx.ok(a == 0 and r == 0, "exact-approximation", f"{a} {r}")


ORDERS = [1, 2, 3, 4, 2.0, 1.5, 2.5, 6, 0.5, np.inf]


@CHECK.family(quick=600, thorough=12000)
def lp(ctx, rng, i):
    nd = 1 if rng.random() < 0.25 else 2
    T, A, ints = data(rng, nd)
    p = gen.pick(rng, ORDERS)
    norm = bool(rng.random() < 0.4)
    T0, A0 = T.copy(), A.copy()
    kw = {} if (p == 2 and rng.random() < .5) else dict(p=p)
    if norm or rng.random() < .5:
        kw["normalize"] = norm
    a, r = post.lp_error(T, A, **kw)
    ctx.note(shape=T.shape, p=p, normalize=norm, ints=ints)
    T2, A2 = (T0[:, None], A0[:, None]) if nd == 1 else (T0, A0)
    k = T2.shape[1]
    ea = np.array([vnorm(T2[:, j] - A2[:, j], p) for j in range(k)])
    en = np.array([vnorm(T2[:, j], p) for j in range(k)])
    er = ea / (en.max() if norm else en)
    lab = f"shape={T.shape} p={p} normalize={norm}"
    if nd == 1:
        ctx.ev("lp-1d")
        ea, er = ea[0], er[0]
    for x, y, rule in [(a, ea, "lp-abs"),
                       (r, er, "lp-normalized" if norm else "lp-rel")]:
        x, y = np.asarray(x), np.asarray(y)
        ctx.ok(x.shape == y.shape, rule, f"{lab} shape {x.shape}")
        ctx.ok(np.all((np.abs(x - y) <= TOL * np.abs(y)) | (x == y)), rule,
               f"{lab}: got {x} expected {y}")
    if p == np.inf:
        ctx.ev("lp-inf")
    same(ctx, T, A, T0, A0)
    z, zr = post.lp_error(T, T.copy(), p, norm)
    ctx.ok(np.all(z == 0) and np.all(zr == 0), "exact-approximation", lab)


@CHECK.family(quick=600, thorough=12000)
def Lp(ctx, rng, i):
    nd = 1 if rng.random() < 0.25 else 2
    k = int(rng.integers(2, 10) if rng.random() < .9 else
            rng.integers(10, 200))
    T, A, ints = data(rng, nd, k=k)
    p = gen.pick(rng, ORDERS)
    t, tk = grid(rng, k)
    T0, A0 = T.copy(), A.copy()
    lab = f"shape={T.shape} p={p} grid={tk}"
    ctx.note(shape=T.shape, p=p, grid=tk, ints=ints)
    args = dict(t=t) if p != np.inf or rng.random() < .5 else {}
    if p != 2 or rng.random() < .5:
        args["p"] = p
    a, r = post.Lp_error(T, A, **args)
    T2, A2 = (T0[None], A0[None]) if nd == 1 else (T0, A0)

    def norm(Z):
        if p == np.inf:
            return max(vnorm(z, np.inf) for z in Z.T)
        s = np.abs(Z).max()
        if s == 0:
            return 0.0
        g = [math.fsum((abs(float(x)) / s) ** p for x in z) for z in Z.T]
        return s * math.fsum((t[j + 1] - t[j]) * (g[j] + g[j + 1]) / 2
                             for j in range(k - 1)) ** (1 / p)
    ea, en = norm(T2 - A2), norm(T2)
    ctx.close(a, ea, "Lp-inf" if p == np.inf else "Lp-abs", rtol=TOL,
              atol=1e-300, msg=lab)
    ctx.close(r, ratio(ea, en), "Lp-rel", rtol=TOL, atol=1e-300, msg=lab)
    if nd == 1:
        ctx.ev("Lp-1d")
    if tk != "uniform":
        ctx.ev("Lp-nonuniform")
    same(ctx, T, A, T0, A0)


@CHECK.family(quick=300, thorough=6000)
def projection(ctx, rng, i):
    n = int(rng.integers(1, 9))
    r = int(rng.integers(1, n + 1))
    nd = 1 if rng.random() < 0.3 else 2
    k = int(rng.integers(1, 7))
    V = gen.layout(rng, gen.orth(rng, n, r))
    Q = rng.standard_normal((n, k) if nd == 2 else n)
    Q = gen.layout(rng, Q * 10.0 ** rng.uniform(-3, 3))
    Q0 = Q.copy()
    a, rel = post.projection_error(Q, V)
    ctx.note(n=n, r=r, k=k, nd=nd)
    # residual through the orthogonal complement
    comp = np.linalg.svd(np.hstack([V, np.zeros((n, 1))]))[0][:, r:]
    ea = vnorm(np.ravel(comp.T @ Q), 2) if r < n else 0.0
    en = vnorm(Q.ravel(), 2)
    rule = "projection-1d" if nd == 1 else "projection"
    ctx.close(a, ea, rule, rtol=1e-10, atol=1e-13 * en, msg=f"{n},{r},{k}")
    ctx.close(rel, ea / en, rule, rtol=1e-10, atol=1e-13,
              msg=f"{n},{r},{k}")
    ctx.equal(Q, Q0, "inputs-unchanged")
    G = rng.standard_normal((n, r))  # any matrix: Q - G G^T Q as documented
    a, rel = post.projection_error(Q, G)
    ea = vnorm(np.ravel(Q - np.dot(G, np.dot(G.T, Q))), 2)
    ctx.close(a, ea, "projection-nonsquare-order", rtol=1e-9,
              atol=1e-12 * en)
    ctx.close(rel, ea / en, "projection-nonsquare-order", rtol=1e-9,
              atol=1e-12)


@CHECK.family(quick=150, thorough=3000)
def single_precision(ctx, rng, i):
    """Snapshots stored in single precision, of any magnitude."""
    n, k = int(rng.integers(1, 9)), int(rng.integers(2, 9))
    s = 10.0 ** rng.uniform(-12, 12)
    T = (s * (1 + rng.random((n, k)))).astype(np.float32)
    A = (T * (1 + 10.0 ** rng.uniform(-2, 0) * rng.standard_normal(
        (n, k)))).astype(np.float32)
    X, Y = T.astype(float), A.astype(float)
    ctx.note(n=n, k=k, single=True)
    ctx.ev("single-precision")
    T, A = gen.layout(rng, T), gen.layout(rng, A)
    lab = f"single {n}x{k} scale {s:.1e}"
    kw = dict(rtol=1e-4, msg=lab)
    a, rel = post.frobenius_error(T, A)
    e, f = np.linalg.norm(X - Y), np.linalg.norm(X)
    ctx.close(a, e, "frobenius", **kw)
    ctx.close(rel, e / f, "frobenius", **kw)
    for p in (1, 2, np.inf):
        a, rel = post.lp_error(T, A, p)
        e = np.linalg.norm(X - Y, p, axis=0)
        ctx.close(a, e, "lp-abs", **kw)
        ctx.close(rel, e / np.linalg.norm(X, p, axis=0), "lp-rel", **kw)
    V = gen.orth(rng, n, int(rng.integers(1, n + 1)))
    a, rel = post.projection_error(T, V)
    e = np.linalg.norm(X - V @ (V.T @ X))
    ctx.close(a, e, "projection", rtol=1e-4, atol=1e-5 * f, msg=lab)
    ctx.close(rel, e / f, "projection", rtol=1e-4, atol=1e-5, msg=lab)
