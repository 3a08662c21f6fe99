"""C02: learned normalizations have the documented statistics."""
import numpy as np
import opinf

from rv import gen, pregen
from rv.core import Check, quiet

CHECK = Check(
    "C02",
    "A case trains a shift/scale transformer (all 28 option combinations, "
    "enumerated) on generated data, compares the learned quantities with the "
    "documented formulas evaluated in extended precision, measures the "
    "statistics of the transformed training data and maps further data; "
    "further families drive refit histories, user-set parameters and the "
    "standalone functions.",
    require=["mean_", "scale_", "shift_", "stat-centering", "stat-scaling",
             "new-data", "refit-forgets", "shift-fn", "scale-fn",
             "user-set"])
LD = np.longdouble


def check_map(ctx, T, cfg, Q, X, lab, rule="new-data"):
    """T trained on Q maps X by the documented formula."""
    c, s, b = cfg
    m, a, be = pregen.ref_stats(Q, c, s, b)
    want = (np.asarray(X, dtype=LD) - m[:, None]) * a[:, None] + be[:, None]
    mag = (np.abs(X).max(axis=1) + np.abs(m)) * np.abs(a) + np.abs(be)
    amp = 1 + (np.abs(Q).max(axis=1) * np.abs(a)).max()
    mag = (mag + (s is not None)) * 2e-13 * amp
    for inplace in (False, True):
        A = gen.layout(ctx.rng_, X, w=inplace)
        Y = T.transform(A, inplace=inplace)
        ctx.ok(Y.shape == X.shape, rule, f"{lab} shape {Y.shape}")
        d = np.abs(Y - want) / (mag[:, None] + 1e-300)
        ctx.ok(np.all(d <= 1), rule,
               lambda: f"{lab} inplace={inplace}: transform deviates from "
               f"the documented formula by {float(d.max()):.2e} x tolerance")
    j = int(ctx.rng_.integers(X.shape[1]))
    y = T.transform(np.array(X[:, j]))
    ctx.ok(y.shape == (X.shape[0],) and np.all(
        np.abs(y - want[:, j]) <= mag + 1e-300), rule,
        f"{lab}: transform of a single snapshot deviates from the formula")
    return want


def check_learned(ctx, T, cfg, Q, lab):
    c, s, b = cfg
    n = Q.shape[0]
    m, a, be = pregen.ref_stats(Q, c, s, b)
    qs = np.abs(Q).max(axis=1)
    if c:
        ctx.ok(T.mean_.shape == (n,) and np.all(
            np.abs(T.mean_ - m) <= 1e-13 * qs), "mean_", f"{lab}: mean_")
    else:
        ctx.ok(T.mean_ is None, "mean_", f"{lab}: mean_ set w/o centering")
    if s is None:
        ctx.ok(T.scale_ is None and T.shift_ is None, "scale_", lab)
        return
    shape = (n,) if b else ()
    ctx.ok(np.shape(T.scale_) == shape and np.shape(T.shift_) == shape,
           "scale_", f"{lab}: shapes {np.shape(T.scale_)} "
           f"{np.shape(T.shift_)}")
    q = qs if b else qs.max()
    aa, bb = (a, be) if b else (a[0], be[0])
    amp = 1 + q * np.abs(aa)
    ctx.ok(np.all(np.abs(T.scale_ - aa) <= 1e-13 * np.abs(aa) * amp),
           "scale_", f"{lab}: scale_ {T.scale_} expected {aa}")
    ctx.ok(np.all(np.abs(T.shift_ - bb) <= 1e-13 * amp * (1 + np.abs(bb))),
           "shift_", f"{lab}: shift_ {T.shift_} expected {bb}")


def check_statistics(ctx, cfg, Q, Y, lab):
    c, s, b = cfg
    m, a, be = pregen.ref_stats(Q, c, s, b)
    Y = np.asarray(Y, dtype=LD)
    amp = 1 + (np.abs(Q).max(axis=1) * np.abs(a)).max()
    tol = 2e-13 * amp
    if c:
        # rows are centered before the scaling, so row means equal the shift
        t = 2e-13 * amp * (np.abs(a) * np.abs(Q).max(axis=1) + np.abs(be))
        ctx.ok(np.all(np.abs(Y.mean(axis=1) - be) <= t + 1e-300),
               "stat-centering", f"{lab}: row means {Y.mean(axis=1)}")
        ctx.ok(np.all(np.abs(be) <= tol) or s in ("minmax", "minmaxsym"),
               "stat-centering", lab)
    if s is None:
        return
    blocks = [Y[i:i + 1] for i in range(len(Y))] if b else [Y]
    for B in blocks:
        R = "stat-scaling"
        if s == "standard":
            mu = B.mean()
            sd = np.sqrt(((B - mu)**2).mean())
            ctx.ok(abs(mu) <= tol and abs(sd - 1) <= tol, R,
                   f"{lab}: mean {mu} std {sd}")
        elif s in ("minmax", "minmaxsym"):
            lo = 0 if s == "minmax" else -1
            ctx.ok(abs(B.min() - lo) <= tol and abs(B.max() - 1) <= tol, R,
                   f"{lab}: range [{B.min()}, {B.max()}]")
        elif s in ("maxabs", "maxabssym"):
            ctx.ok(abs(np.abs(B).max() - 1) <= tol, R,
                   f"{lab}: max|.| = {np.abs(B).max()}")
            if s == "maxabssym":
                ctx.ok(abs(B.mean()) <= tol, R, f"{lab}: mean {B.mean()}")
        else:
            nr = np.sqrt((B**2).sum(axis=0))
            ctx.ok(abs(nr.max() - 1) <= tol, R,
                   f"{lab}: max column norm {nr.max()}")
            if s == "maxnormsym":
                ctx.ok(abs(B.mean()) <= tol, R, f"{lab}: mean {B.mean()}")


def train_data(rng, n, cfg):
    kinds = ["normal", "offset", "rowscales", "positive", "big", "small",
             "smooth"]
    kind = gen.pick(rng, kinds)
    k = int(gen.pick(rng, [2, 3, 4, 9, 25]))
    return gen.states(rng, n, k, kind), kind


def degenerate(Q, cfg):
    m, a, be = pregen.ref_stats(Q, *cfg)
    amp = np.abs(a) * np.abs(Q).max()
    return not (np.all(np.isfinite(a)) and np.all(amp < 1e6))


@CHECK.family(quick=1400, thorough=40000)
def learned(ctx, rng, i):
    ctx.rng_ = rng
    cfg = pregen.CONFIGS[i % len(pregen.CONFIGS)]
    n = int(gen.pick(rng, [1, 2, 3, 6, 12]))
    Q, kind = train_data(rng, n, cfg)
    if degenerate(Q, cfg):
        return
    verbose = rng.random() < 0.1
    T = opinf.pre.ShiftScaleTransformer(
        centering=cfg[0], scaling=cfg[1], byrow=cfg[2], verbose=verbose)
    lab = f"{cfg} n={n} k={Q.shape[1]} {kind}"
    ctx.note(cfg=cfg, n=n, k=Q.shape[1], data=kind)
    A = gen.layout(rng, Q, w=True)
    with quiet():
        w = int(rng.integers(3))
        if w == 0:
            T.fit(A)
            Y = T.transform(A)
        else:
            Y = T.fit_transform(A, inplace=(w == 2))
    check_learned(ctx, T, cfg, Q, lab)
    check_statistics(ctx, cfg, Q, Y, lab)
    check_map(ctx, T, cfg, Q, Q, lab, "train-data")
    X = gen.states(rng, n, 5, "normal") * np.abs(Q).max()
    check_map(ctx, T, cfg, Q, X, lab)


@CHECK.family(quick=60, thorough=1500)
def single_snapshot(ctx, rng, i):
    """Training on one column, wherever the statistics are defined."""
    ctx.rng_ = rng
    cfgs = [c for c in pregen.CONFIGS
            if not c[0] and not (c[2] and c[1] != "maxabs")] + [
                (True, None, False), (True, None, True)]
    cfg = cfgs[i % len(cfgs)]
    n = int(rng.integers(2, 9))
    Q = gen.states(rng, n, 1, "normal") + 1
    T = opinf.pre.ShiftScaleTransformer(*cfg)
    Y = T.fit_transform(Q.copy())
    lab = f"{cfg} n={n} k=1"
    ctx.note(cfg=cfg, n=n, k=1)
    check_learned(ctx, T, cfg, Q, lab)
    check_statistics(ctx, cfg, Q, Y, lab)
    check_map(ctx, T, cfg, Q, gen.states(rng, n, 4, "normal"), lab)


@CHECK.family(quick=300, thorough=8000)
def history(ctx, rng, i):
    """Interleaved uses and refits on one object."""
    ctx.rng_ = rng
    cfg = pregen.CONFIGS[i % len(pregen.CONFIGS)]
    T = opinf.pre.ShiftScaleTransformer(
        centering=cfg[0], scaling=cfg[1], byrow=cfg[2])
    n = int(rng.integers(1, 8))
    steps = []
    Q = None
    for step in range(int(rng.integers(3, 7))):
        op = "fit" if Q is None else gen.pick(
            rng, ["fit", "transform", "inverse", "ddts", "fitsize"])
        steps.append(op)
        if op in ("fit", "fitsize"):
            if op == "fitsize":
                n = int(rng.integers(1, 8))
            Q, kind = train_data(rng, n, cfg)
            while degenerate(Q, cfg):
                Q = gen.states(rng, n, 5, "normal")
            inp = bool(rng.integers(2))
            A = gen.layout(rng, Q, w=True)
            Y = T.fit_transform(A, inplace=inp)
            ctx.ok(T.state_dimension == n, "state_dimension", str(cfg))
            check_learned(ctx, T, cfg, Q, f"{cfg} {steps}")
            check_statistics(ctx, cfg, Q, Y, f"{cfg} {steps}")
        else:
            X = gen.states(rng, n, 3)
            if op == "transform":
                T.transform(X.copy(), inplace=bool(rng.integers(2)))
            elif op == "inverse":
                T.inverse_transform(X.copy(), inplace=bool(rng.integers(2)))
            else:
                T.transform_ddts(X.copy(), inplace=bool(rng.integers(2)))
        check_map(ctx, T, cfg, Q, gen.states(rng, n, 3, "normal"),
                  f"{cfg} {steps}", "refit-forgets")
    ctx.note(cfg=cfg, steps=tuple(steps))


@CHECK.family(quick=100, thorough=2000)
def user_set(ctx, rng, i):
    """Parameters assigned by the user define the map."""
    cfg = pregen.CONFIGS[i % len(pregen.CONFIGS)]
    c, s, b = cfg
    n = int(rng.integers(1, 8))
    T = opinf.pre.ShiftScaleTransformer(centering=c, scaling=s, byrow=b)
    m = rng.standard_normal(n)
    a = rng.uniform(0.5, 2, n) if b else float(rng.uniform(0.5, 2))
    be = rng.standard_normal(n) if b else float(rng.standard_normal())
    if rng.integers(2):
        T.fit(gen.states(rng, n, 6, "normal"))
    else:
        T.state_dimension = n
    if c:
        T.mean_ = m
    if s:
        T.scale_ = a
        T.shift_ = be
    X = rng.standard_normal((n, 4))
    want = X - (m[:, None] if c else 0)
    if s:
        want = (want * (a[:, None] if b else a)
                + (be[:, None] if b else be))
    ctx.note(cfg=cfg, n=n)
    ctx.close(T.transform(X), want, "user-set", msg=str(cfg), rtol=1e-12)
    ctx.close(T.inverse_transform(want), X, "user-set", msg=str(cfg),
              rtol=1e-10, atol=1e-10)


@CHECK.family(quick=300, thorough=6000)
def fixed(ctx, rng, i):
    """Shift and Scale transformers subtract / multiply what they hold."""
    n = int(rng.integers(1, 9))
    w = i % 3
    X = gen.states(rng, n, int(rng.integers(1, 6)))
    if w == 0:
        q = rng.standard_normal(n) * np.abs(X).max()
        T = opinf.pre.ShiftTransformer(q)
        want = X - q[:, None]
        ctx.equal(T.reference, q, "reference")
    elif w == 1:
        sc = rng.uniform(0.1, 5, n) * rng.choice([-1, 1], n)
        T = opinf.pre.ScaleTransformer(sc)
        want = X * sc[:, None]
    else:
        sc = float(rng.uniform(0.1, 5) * rng.choice([-1, 1]))
        T = opinf.pre.ScaleTransformer(sc if rng.integers(2) else
                                       np.float64(sc))
        want = X * sc
    ctx.note(kind=w, n=n, k=X.shape[1])
    inp = bool(rng.integers(2))
    Y = T.fit_transform(gen.layout(rng, X, w=inp), inplace=inp)
    ctx.close(Y, want, "fixed-fit_transform", rtol=1e-13)
    T.fit(gen.states(rng, n, 3))
    for inp in (False, True):
        ctx.close(T.transform(gen.layout(rng, X, w=True), inplace=inp), want,
                  "fixed-transform", rtol=1e-13)
    ctx.close(T.transform(X[:, 0].copy()), want[:, 0], "fixed-transform",
              rtol=1e-13)


@CHECK.family(quick=300, thorough=6000)
def functions(ctx, rng, i):
    n, k = int(rng.integers(1, 9)), int(rng.integers(2, 9))
    Q = gen.states(rng, n, k)
    sc = np.abs(Q).max()
    ctx.note(fn="shift/scale", n=n, k=k)
    A = gen.layout(rng, Q, w=True)
    Y, q = opinf.pre.shift(A)
    ctx.close(q, np.asarray(Q, LD).mean(axis=1), "shift-fn", rtol=1e-13,
              scale=sc)
    ctx.close(Y, Q - q[:, None], "shift-fn", rtol=1e-14, scale=sc)
    v = rng.standard_normal(n)
    ctx.close(opinf.pre.shift(A, v), Q - v[:, None], "shift-fn", rtol=1e-14,
              scale=sc)
    ctx.close(opinf.pre.shift(A, v[:, None]), Q - v[:, None], "shift-fn",
              rtol=1e-14, scale=sc)
    ctx.close(opinf.pre.shift(opinf.pre.shift(A, v), -v), Q, "shift-fn",
              rtol=1e-12, scale=sc + np.abs(v).max())
    lo, hi = sorted(rng.uniform(-5, 5, 2))
    hi += 0.5
    if rng.integers(3) == 0:
        lo, hi = hi, lo
    if Q.max() - Q.min() < 1e-4 * sc:
        return
    Y, to, fr = opinf.pre.scale(A, (lo, hi))
    ctx.ok(tuple(to) == (lo, hi), "scale-fn", f"scaled_to {to}")
    ctx.close(np.array(fr), [Q.min(), Q.max()], "scale-fn", rtol=1e-14)
    amp = 1e-10 * (1 + sc / (Q.max() - Q.min()))
    want = ((np.asarray(Q, LD) - Q.min()) / (LD(Q.max()) - Q.min())
            * (hi - lo) + lo)
    ctx.close(Y, want, "scale-fn", atol=10 * amp)
    a, b = sorted(rng.uniform(-3, 3, 2))
    b += 0.5
    X = rng.standard_normal((n, 3))
    Z = opinf.pre.scale(X, (lo, hi), (a, b))
    ctx.close(Z, (X - a) / (b - a) * (hi - lo) + lo, "scale-fn", atol=1e-10)
    ctx.close(opinf.pre.scale(Z, (a, b), (lo, hi)), X, "scale-fn",
              atol=1e-9)
