"""C10: time-derivative estimates are exact, aligned and linear."""
import numpy as np
import opinf
import scipy.interpolate as spi

from rv import gen
from rv.core import Check

CHECK = Check(
    "C10",
    "A case draws a scheme, a time grid and polynomial (or arbitrary) data "
    "in some memory layout, dtype and scale, runs the real estimator and "
    "compares with the analytic derivative at the claimed columns.",
    require=["exact", "aligned-states", "aligned-inputs", "linear",
             "function-exact", "nonuniform-exact", "interp-exact",
             "interp-new-domain", "mask", "ddt-dispatch", "integer",
             "interp-is-interpolant-derivative", "extreme-step",
             "single-precision", "even-accepted", "uneven-rejected"])

SCHEMES = ([f"fwd{i}" for i in range(1, 7)] + [f"bwd{i}" for i in range(1, 7)]
           + ["ctr2", "ctr4", "ctr6", "ord2", "ord4", "ord6"])


def columns(scheme, k):
    p = int(scheme[3])
    return {"fwd": np.arange(0, k - p), "bwd": np.arange(p, k),
            "ctr": np.arange(p // 2, k - p // 2),
            "ord": np.arange(k)}[scheme[:3]]


def poly(rng, r, deg):
    """r random polynomials of degree <= deg (in a local variable)."""
    C = rng.standard_normal((r, deg + 1))
    return [np.polynomial.Polynomial(c) for c in C]


def evalp(P, s):
    return np.array([p(s) for p in P])


@CHECK.family(quick=900, thorough=18000)
def uniform(ctx, rng, i):
    scheme = SCHEMES[i % len(SCHEMES)]
    p = int(scheme[3])
    k = p + 1 + int(gen.pick(rng, [0, 1, 2, 5, 20]))
    r = int(rng.integers(1, 5))
    dt = float(10.0 ** rng.uniform(-5, 2))
    t0 = float(gen.pick(rng, [0.0, -3.0, 10.0]))
    if rng.random() < .15:      # any unit of time
        dt = float(10.0 ** gen.pick(rng, [-12, -10, -8, 5, 8, 9, 12]))
        t0 = 0.0
        ctx.ev("extreme-step")
    s = np.arange(k) / k * 2 - 1        # local variable in [-1, 1)
    ds = 2 / k
    P = poly(rng, r, p)
    Q = evalp(P, s)
    dQ = evalp([q.deriv() for q in P], s) * ds / dt
    cols = columns(scheme, k)
    mi = gen.pick(rng, [None, 1, 2, "1d"])
    U = None
    if mi is not None:
        U = rng.standard_normal(k) if mi == "1d" else rng.standard_normal(
            (mi, k))
    lay = gen.pick(rng, gen.LAYOUTS)
    A = gen.layout(rng, Q, lay)
    lab = f"{scheme} r={r} k={k} dt={dt:.2e} {lay} inputs={mi}"
    ctx.note(scheme=scheme, k=k, r=r, inputs=mi, layout=lay)
    tol = 1e-11 * max(1.0, np.abs(Q).max()) / dt * 100

    def look(out, rule, Uin, oned):
        ctx.ok(isinstance(out, tuple)
               and len(out) == (2 if Uin is None else 3), rule, lab)
        ctx.equal(out[0], Q[:, cols], "aligned-states", msg=lab)
        ctx.close(out[1], dQ[:, cols], rule, atol=tol, msg=lab)
        if Uin is not None:
            ref = Uin[..., cols]
            ctx.equal(np.atleast_2d(out[2]), np.atleast_2d(ref),
                      "aligned-inputs", msg=lab)

    fn = getattr(opinf.ddt, scheme)
    look(fn(A, dt) if U is None else fn(A, dt, U), "function-exact", U, True)
    t = t0 + dt * np.arange(k) if t0 == 0 or dt > 1e-4 else \
        dt * np.arange(k)
    est = opinf.ddt.UniformFiniteDifferencer(t, scheme)
    dte = t[1] - t[0]
    out = est.estimate(A) if U is None else est.estimate(A, U)
    out = (out[0], np.asarray(out[1]) * dte / dt) + tuple(out[2:])
    look(out, "exact", U, False)
    ctx.ok(abs(est.dt - dte) <= 1e-12 * abs(dte), "exact", "dt")
    ctx.equal(est.mask(Q), Q[:, cols], "mask", msg=lab)
    ctx.equal(est.mask(Q[0]), Q[0][cols], "mask", msg=lab + " 1d")
    Q3 = np.stack([Q, 2 * Q, -Q])
    ctx.equal(est.mask(Q3), Q3[..., cols], "mask", msg=lab + " 3d")
    # arbitrary data: linear, localized
    X, Y = rng.standard_normal((2, r, k))
    a, b = rng.standard_normal(2)
    ctx.close(est.estimate(a * X + b * Y)[1],
              a * est.estimate(X)[1] + b * est.estimate(Y)[1], "linear",
              atol=1e-10 / dt * 100, msg=lab)
    j = int(rng.integers(r))
    ctx.close(est.estimate(X[j:j + 1])[1], est.estimate(X)[1][j:j + 1],
              "linear", atol=1e-11 / dt * 100, msg=lab + " row")
    # integer data give the same as the same values in floating point
    Z = rng.integers(-50, 50, (r, k))
    Zi = Z.astype(gen.pick(rng, [np.int64, np.int32, np.int16]))
    ctx.close(est.estimate(Zi)[1], est.estimate(Z.astype(float))[1],
              "integer", atol=1e-9 / dt * 100, msg=lab)
    # a long record is differentiated pointwise: extending it changes nothing
    # where the same stencil applies
    if scheme[:3] in ("fwd", "ctr"):
        more = np.hstack([X, rng.standard_normal((r, 3))])
        n = len(cols)
        ctx.close(fn(more, dt)[1][:, :n], fn(X, dt)[1], "linear",
                  atol=1e-11 / dt * 100, msg=lab + " extend")
    elif scheme[:3] == "bwd":
        more = np.hstack([rng.standard_normal((r, 3)), X])
        ctx.close(fn(more, dt)[1][:, 3:], fn(X, dt)[1], "linear",
                  atol=1e-11 / dt * 100, msg=lab + " extend")


@CHECK.family(quick=200, thorough=4000)
def old_api(ctx, rng, i):
    order = [2, 4, 6][i % 3]
    k = order + 1 + int(rng.integers(0, 12))
    r = int(rng.integers(1, 4))
    dt = float(10.0 ** rng.uniform(-3, 1))
    if rng.random() < .2:
        dt = float(10.0 ** gen.pick(rng, [-12, -9, 6, 9, 12]))
    P = poly(rng, r, order)
    s = np.linspace(-1, 1, k)
    ds = s[1] - s[0]
    Q = evalp(P, s)
    dQ = evalp([q.deriv() for q in P], s) * ds / dt
    ctx.note(fn="ddt", order=order, k=k, r=r)
    tol = 1e-9 / dt
    A = gen.layout(rng, Q)
    for out in (opinf.ddt.ddt_uniform(A, dt, order),
                opinf.ddt.ddt_uniform(A, dt, order=order),
                opinf.ddt.ddt(A, dt, order),
                opinf.ddt.ddt(A, dt, order=order),
                opinf.ddt.ddt(A, dt=dt, order=order)):
        ctx.close(out, dQ, "ddt-dispatch", atol=tol, msg=f"order {order}")
    P2 = poly(rng, r, 2)
    Q2, dQ2 = evalp(P2, s), evalp([q.deriv() for q in P2], s) * ds / dt
    t = dt * np.arange(k)
    for out in (opinf.ddt.ddt_uniform(Q2, dt), opinf.ddt.ddt(Q2, dt),
                opinf.ddt.ddt(Q2, dt=dt), opinf.ddt.ddt(Q2, t),
                opinf.ddt.ddt(Q2, t=t), opinf.ddt.ddt_nonuniform(Q2, t)):
        ctx.close(out, dQ2, "ddt-dispatch", atol=tol, msg="order 2")
    Z = rng.integers(-20, 20, (r, k))
    ctx.close(opinf.ddt.ddt_uniform(Z, dt, order),
              opinf.ddt.ddt_uniform(Z * 1.0, dt, order), "integer",
              atol=1e-9 / dt, msg=f"ddt_uniform order {order}")


def grid(rng, k):
    kind = gen.pick(rng, ["random", "geometric", "chebyshev", "uniform",
                          "jitter"])
    if kind == "random":
        t = np.cumsum(rng.uniform(0.2, 2.0, k))
    elif kind == "geometric":
        t = 1.3 ** np.arange(k)
    elif kind == "chebyshev":
        t = -np.cos(np.pi * (np.arange(k) + .5) / k) * 3
    elif kind == "uniform":
        t = np.linspace(-1, 4, k)
    else:
        t = np.arange(k) + 0.3 * rng.uniform(-1, 1, k)
    return t, kind


@CHECK.family(quick=150, thorough=3000)
def uneven(ctx, rng, i):
    """Grids in any unit of time: the uniform scheme takes the even ones."""
    k = int(gen.pick(rng, [7, 9, 20]))
    unit = float(10.0 ** gen.pick(rng, [-12, -10, -9, -8, -5, -2, 0, 3, 9]))
    t = unit * np.arange(k)
    if rng.random() < .5 and unit > 1e-4:
        t = t + 1.5
    scheme = SCHEMES[i % len(SCHEMES)]
    lab = f"{scheme} k={k} unit={unit:g}"
    ctx.note(scheme=scheme, k=k, unit=unit)
    est = opinf.ddt.UniformFiniteDifferencer(t, scheme)
    ctx.close(est.dt, unit, "even-accepted", rtol=1e-9, msg=lab)
    j = int(rng.integers(1, k - 1))
    bent = t.copy()
    bent[j] += unit * float(gen.pick(rng, [-.5, -.1, .02, .3, .7]))
    for bad in (bent, bent[::-1].copy(), np.append(t[:-1], t[-1] + unit)):
        with ctx.raises(ValueError, "uneven-rejected", lab):
            opinf.ddt.UniformFiniteDifferencer(bad, scheme)
    opinf.ddt.NonuniformFiniteDifferencer(bent)


@CHECK.family(quick=400, thorough=8000)
def nonuniform(ctx, rng, i):
    k = int(gen.pick(rng, [3, 4, 5, 9, 30]))
    r = int(rng.integers(1, 4))
    t, kind = grid(rng, k)
    if rng.random() < .2:
        t = t * 10.0 ** float(gen.pick(rng, [-12, -9, 6, 9, 12]))
    c, h = t.mean(), np.ptp(t) / 2
    P = poly(rng, r, 2)
    Q = evalp(P, (t - c) / h)
    dQ = evalp([q.deriv() for q in P], (t - c) / h) / h
    est = opinf.ddt.NonuniformFiniteDifferencer(t)
    m = gen.pick(rng, [None, 1, 3])
    U = None if m is None else rng.standard_normal((m, k))
    A = gen.layout(rng, Q)
    out = est.estimate(A) if U is None else est.estimate(A, U)
    ctx.note(fn="nonuniform", grid=kind, k=k, r=r, m=m)
    lab = f"nonuniform {kind} k={k}"
    ctx.ok(len(out) == (2 if U is None else 3), "nonuniform-exact", lab)
    ctx.equal(out[0], Q, "aligned-states", msg=lab)
    tol = 1e-9 / np.diff(t).min()
    ctx.close(out[1], dQ, "nonuniform-exact", atol=tol, msg=lab)
    if U is not None:
        ctx.equal(out[2], U, "aligned-inputs", msg=lab)
    ctx.equal(est.mask(Q), Q, "mask", msg=lab)
    X, Y = rng.standard_normal((2, r, k))
    ctx.close(est.estimate(2.5 * X - Y)[1],
              2.5 * est.estimate(X)[1] - est.estimate(Y)[1], "linear",
              atol=tol, msg=lab)
    ctx.close(opinf.ddt.ddt_nonuniform(A, t), dQ, "nonuniform-exact",
              atol=tol, msg=lab)
    Z = rng.integers(-9, 9, (r, k))
    ctx.close(est.estimate(Z)[1], est.estimate(Z * 1.0)[1], "integer",
              atol=tol, msg=lab)


@CHECK.family(quick=400, thorough=8000)
def interpolation(ctx, rng, i):
    name = ["cubic", "akima", "pchip", "class"][i % 4]
    cls = {"cubic": spi.CubicSpline, "akima": spi.Akima1DInterpolator,
           "pchip": spi.PchipInterpolator}.get(name)
    k = int(gen.pick(rng, [4, 5, 8, 25]))
    r = int(rng.integers(1, 4))
    t, kind = grid(rng, k)
    c, h = t.mean(), np.ptp(t) / 2
    deg = 3 if name in ("cubic", "class") else 1
    P = poly(rng, r, deg)

    def f(s):
        return evalp(P, (s - c) / h)

    def df(s):
        return evalp([q.deriv() for q in P], (s - c) / h) / h

    t2 = None
    if rng.integers(2):
        n2 = int(rng.integers(1, 2 * k))
        t2 = np.sort(rng.uniform(t[0], t[-1], n2))
        if rng.integers(2):
            t2[0] = t[0]
            t2[-1] = t[-1] if n2 > 1 else t[0]
        if rng.random() < 0.25:  # also beyond the data
            t2 = np.sort(rng.uniform(t[0] - h / 3, t[-1] + h / 3, n2))
            if name == "akima":  # (which does not extrapolate)
                t2 = np.clip(t2, t[0], t[-1])
        if rng.random() < 0.4:
            t2 = rng.permutation(t2)
    arg = name
    opts = {}
    if name == "class":
        def build(x, y, **kw):
            return spi.CubicSpline(x, y, axis=1, **kw)

        class arg(spi.CubicSpline):
            def __init__(self, x, y, **kw):
                super().__init__(x, y, axis=1, **kw)
        cls = None
    est = opinf.ddt.InterpDerivativeEstimator(t, arg, new_time_domain=t2,
                                              **opts)
    m = gen.pick(rng, [None, 1, 2])
    U = None if m is None else rng.standard_normal((m, k))
    Q = f(t)
    A = gen.layout(rng, Q)
    out = est.estimate(A) if U is None else est.estimate(A, U)
    te = t if t2 is None else t2
    lab = f"interp {name} {kind} k={k} new={t2 is not None}"
    ctx.note(fn="interp", cls=name, grid=kind, k=k, new=t2 is not None, m=m)
    ctx.ok(len(out) == (2 if U is None else 3), "interp-exact", lab)
    sc = 1 / np.diff(t).min() + 1
    ctx.close(out[0], f(te), "aligned-states", atol=1e-9 * sc, msg=lab)
    ctx.close(out[1], df(te), "interp-exact", atol=1e-8 * sc, msg=lab)
    ref = (lambda y: (cls or spi.CubicSpline)(t, y, axis=1))
    if U is not None:
        ctx.close(out[2], U if t2 is None else ref(U)(te),
                  "aligned-inputs", atol=1e-9 * sc, msg=lab)
    X = rng.standard_normal((r, k))
    o = est.estimate(X)
    ctx.close(o[0], X if t2 is None else ref(X)(te),
              "interp-new-domain", atol=1e-9 * sc, msg=lab)
    ctx.close(o[1], ref(X).derivative()(te),
              "interp-is-interpolant-derivative", atol=1e-8 * sc, msg=lab)
    ctx.close(est.mask(X), o[0], "mask", atol=1e-10, msg=lab)
    if name in ("cubic", "class"):
        Y = rng.standard_normal((r, k))
        ctx.close(est.estimate(X - 2 * Y)[1], o[1] - 2 * est.estimate(Y)[1],
                  "linear", atol=1e-8 * sc, msg=lab)


@CHECK.family(quick=60, thorough=600)
def convergence(ctx, rng, i):
    """Halving the step reduces the error at the documented rate."""
    scheme = SCHEMES[i % len(SCHEMES)]
    p = int(scheme[3])
    w, ph = rng.uniform(0.5, 1.5), rng.uniform(0, 6)
    errs = []
    N = {1: 40, 2: 40, 3: 30, 4: 24, 5: 24, 6: 20}[p]
    for n in (N, 2 * N):
        t = np.linspace(0, 2, n + 1)
        Q = np.sin(w * t + ph)[None]
        est = opinf.ddt.UniformFiniteDifferencer(t, scheme)
        q, d = est.estimate(Q)
        truth = est.mask(w * np.cos(w * t + ph)[None])
        errs.append(np.sqrt(np.mean((d - truth)**2)) + 1e-15)
    ctx.note(scheme=scheme, conv=True)
    rate = np.log2(errs[0] / errs[1])
    ctx.ok(rate > p - 0.75 or errs[1] < 1e-11, "convergence",
           f"{scheme}: observed rate {rate:.2f} errors {errs}")


@CHECK.family(quick=150, thorough=3000)
def single_precision(ctx, rng, i):
    """Snapshots stored in single precision."""
    scheme = SCHEMES[i % len(SCHEMES)]
    p = int(scheme[3])
    k, r = p + 1 + int(rng.integers(0, 9)), int(rng.integers(1, 4))
    dt = float(10.0 ** rng.uniform(-8, 8))
    X = (rng.standard_normal((r, k)) * 10.0 ** rng.uniform(-6, 6)).astype(
        np.float32)
    lab = f"single {scheme} r={r} k={k} dt={dt:.1e}"
    ctx.note(scheme=scheme, k=k, r=r, single=True)
    ctx.ev("single-precision")
    est = opinf.ddt.UniformFiniteDifferencer(dt * np.arange(k), scheme)
    tol = 2e-4 * np.abs(X).max() / dt
    want = est.estimate(X.astype(float))
    got = est.estimate(gen.layout(rng, X))
    ctx.equal(np.asarray(got[0], float), want[0], "aligned-states", msg=lab)
    ctx.close(got[1], want[1], "exact", atol=tol, msg=lab)
    ctx.close(getattr(opinf.ddt, scheme)(X, dt)[1], want[1],
              "function-exact", atol=tol, msg=lab)
    t = np.cumsum(rng.uniform(.3, 1, k)) * dt
    if k >= 3:
        est = opinf.ddt.NonuniformFiniteDifferencer(t)
        ctx.close(est.estimate(X)[1], est.estimate(X.astype(float))[1],
                  "nonuniform-exact", atol=10 * tol, msg=lab)
    if k >= 5:
        est = opinf.ddt.InterpDerivativeEstimator(t)
        ctx.close(est.estimate(X)[1], est.estimate(X.astype(float))[1],
                  "interp-is-interpolant-derivative", atol=10 * tol, msg=lab)
