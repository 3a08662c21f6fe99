"""C03: transform_ddts is the derivative (linear part) of transform."""
import numpy as np
import opinf

from rv import gen, pregen
from rv.core import Check

CHECK = Check(
    "C03",
    "A case trains one transformer (all classes, options and nestings) and "
    "compares transform_ddts with the linear part of the documented map, "
    "with exact difference quotients of transform along random directions "
    "and with linearity, for matrices and vectors, in place or not, and "
    "feeds arrays of wrong dimension.",
    require=["ddts-linear-part", "ddts-difference", "ddts-linearity",
             "ddts-zero", "ddts-vector", "ddts-shape-rejected",
             "custom-linear-part", "custom-vector", "custom-learned",
             "not-implemented-never-data"])


def closerow(ctx, got, want, s, rule, msg):
    got, want = np.asarray(got), np.asarray(want)
    ctx.ok(got.shape == want.shape, rule, f"{msg} {got.shape}")
    s = s.reshape((-1, 1)) if want.ndim == 2 else s
    d = np.abs(got - want) / (1e-9 * s + 1e-300)
    ctx.ok(np.all(d <= 1), rule,
           lambda: f"{msg}: off by {float(d.max()):.2e} x tolerance")


@CHECK.family(quick=1500, thorough=40000)
def derivative(ctx, rng, i):
    T, ref, lab, n, lv = pregen.any_transformer(rng, i)
    Q, kind = pregen.train_states(rng, n)
    if rng.integers(3) == 0:  # refit history
        T.fit(pregen.train_states(rng, n)[0])
    T.fit(gen.layout(rng, Q))
    m = ref(Q)
    a, b = (np.asarray(v, dtype=float) for v in m)
    mag = np.asarray(m.mag, dtype=float)
    k = int(rng.integers(1, 6))
    D = rng.standard_normal((n, k)) * 10.0 ** rng.uniform(-2, 2)
    ctx.note(cls=lab, n=n, k=k, data=kind)
    # relative error of the learned scale grows with offset / spread
    amp = 1 + 1e-4 * np.max(np.abs(a) * (np.abs(Q).max() + mag.max()))
    dn = np.abs(a) * np.abs(D).max(axis=1) * amp
    Z = T.transform_ddts(gen.layout(rng, D), inplace=False)
    closerow(ctx, Z, a[:, None] * D, dn, "ddts-linear-part", lab)
    A = gen.layout(rng, D, w=True)
    Zi = T.transform_ddts(A, inplace=True)
    ctx.ok(Zi is A, "ddts-inplace-identity", lab)
    closerow(ctx, Zi, a[:, None] * D, dn, "ddts-linear-part", lab)
    # exact difference quotient of the affine map
    X = Q[:, :1] + np.zeros((1, k))
    h = max(np.abs(Q).max(), 1e-300) / max(np.abs(D).max(), 1e-300)
    diff = T.transform(X + h * D) - T.transform(X)
    s = np.abs(a) * (np.abs(X).max(axis=1) + h * np.abs(D).max() + mag
                     + 1e-3 * mag.max()) + np.abs(b)
    closerow(ctx, h * Z, diff, s, "ddts-difference", lab)
    # linearity and zero
    D2 = rng.standard_normal((n, k))
    c = float(rng.uniform(-3, 3))
    L = T.transform_ddts(c * D + D2, inplace=False)
    R = c * Z + T.transform_ddts(D2.copy(), inplace=False)
    closerow(ctx, L, R, np.abs(a) * (np.abs(c) * np.abs(D).max()
                                     + np.abs(D2).max()),
             "ddts-linearity", lab)
    ctx.ok(not np.any(T.transform_ddts(np.zeros((n, k)), inplace=False)),
           "ddts-zero", f"{lab}: transform_ddts(0) != 0")
    z = T.transform_ddts(gen.layout(rng, D[:, 0], w=True),
                         inplace=bool(rng.integers(2)))
    closerow(ctx, z, a * D[:, 0], dn, "ddts-vector", lab)
    bad = n + int(rng.choice([-1, 1, n]))
    if bad > 0:
        with ctx.raises(ValueError, "ddts-shape-rejected",
                        f"{lab}: ddts with {bad} rows instead of {n}"):
            T.transform_ddts(np.ones((bad, k)))


@CHECK.family(quick=150, thorough=3000)
def timeseries(ctx, rng, i):
    """Derivatives of polynomial-in-time states, transformed, are the
    derivatives of the transformed polynomial states (exact by 6th order
    differences evaluated from the transformed coefficients)."""
    T, ref, lab, n, lv = pregen.any_transformer(rng, i)
    t = np.linspace(-1, 1, 9)
    C = rng.standard_normal((n, 4)) + 2
    Q = C @ np.array([t**p for p in range(4)])
    dQ = C @ np.array([p * t**max(p - 1, 0) for p in range(4)])
    T.fit(Q)
    Y = T.transform(Q)
    Z = T.transform_ddts(dQ, inplace=False)
    # differentiate the (degree-3) transformed data exactly
    V = np.vander(t, 4, increasing=True)
    coef = np.linalg.lstsq(V, Y.T, rcond=None)[0]
    dV = np.array([p * t**max(p - 1, 0) for p in range(4)]).T
    m = ref(Q)
    a = np.abs(np.asarray(m[0], dtype=float))
    s = 100 * (a * (np.abs(Q).max(axis=1) + np.asarray(m.mag, float)
                    + np.abs(dQ).max(axis=1)) + np.abs(Y).max(axis=1))
    ctx.note(cls=lab)
    closerow(ctx, Z, (dV @ coef).T, s, "ddts-timeseries", lab)


@CHECK.family(quick=400, thorough=8000)
def custom(ctx, rng, i):
    """Pipelines and multi-variable transformers with user-defined members
    that mix the rows, so that the stages do not commute."""
    T, lab, n, smap = pregen.mixture(rng)
    Q = rng.standard_normal((n, int(rng.integers(4, 9))))
    Q += rng.uniform(-2, 2, (n, 1))
    if rng.integers(3) == 0:
        T.fit(rng.standard_normal((n, 5)))
    ctx.note(cls=lab, n=n)
    if rng.integers(2):
        T.fit(gen.layout(rng, Q))
    else:
        T.fit_transform(Q.copy(), inplace=bool(rng.integers(2)))
    A, b = smap(Q)
    X = rng.standard_normal((n, int(rng.integers(1, 5))))
    big = np.abs(A).sum(axis=1).max() + np.abs(b).max()
    ctx.close(T.transform(X), A @ X + b[:, None], "custom-learned",
              rtol=1e-8, scale=big * (1 + np.abs(X).max()), msg=lab)
    D = rng.standard_normal((n, int(rng.integers(1, 6))))
    G = gen.layout(rng, D, w=True)
    ip = bool(rng.integers(2))
    Z = T.transform_ddts(G, inplace=ip)
    ctx.close(Z, A @ D, "custom-linear-part", rtol=1e-8,
              scale=big * np.abs(D).max(), msg=lab)
    if not ip:
        ctx.equal(G, D, "custom-linear-part", f"{lab}: input modified")
    z = T.transform_ddts(D[:, 0].copy(), inplace=bool(rng.integers(2)))
    ctx.ok(np.shape(z) == (n,), "custom-vector", lab)
    ctx.close(z, A @ D[:, 0], "custom-vector", rtol=1e-8,
              scale=big * np.abs(D).max(), msg=lab)


@CHECK.family(quick=150, thorough=3000)
def notimplemented(ctx, rng, i):
    """A member that cannot transform derivatives: NotImplemented (or an
    exception), never an array of untransformed derivatives."""
    for _ in range(50):
        T, lab, n, smap = pregen.mixture(rng, impl=False)
        if "Mix-" in lab:
            break
    else:
        return
    Q = rng.standard_normal((n, 6))
    T.fit(Q)
    D = rng.standard_normal((n, 3))
    ctx.note(cls=lab)
    try:
        out = T.transform_ddts(D.copy(), inplace=bool(rng.integers(2)))
    except Exception:
        ctx.ev("not-implemented-raises")
        out = NotImplemented
    ctx.ok(out is NotImplemented, "not-implemented-never-data",
           f"{lab}: transform_ddts() returned {type(out).__name__}")
