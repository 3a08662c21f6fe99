"""C01: inverse_transform undoes transform for every transformer."""
import os

import numpy as np
import opinf

from rv import gen, pregen
from rv.core import Check, scratch

CHECK = Check(
    "C01",
    "A case builds one transformer (class/options enumerated by case index, "
    "nested composites included), trains it on generated data and pushes "
    "training data, new data, vectors, memory layouts and location subsets "
    "through transform and inverse_transform, comparing with the original.",
    require=["roundtrip-train", "roundtrip-new", "roundtrip-vector",
             "roundtrip-locs", "fit-transform-consistent",
             "roundtrip-new-after-refit", "roundtrip-after-load",
             "roundtrip-locs-after-refit", "roundtrip-custom",
             "roundtrip-custom-vector"])


def scales(T_ab, X):
    """Entrywise tolerance scale in original coordinates."""
    X = np.asarray(X, dtype=float)
    off = np.asarray(T_ab.mag, dtype=float)
    s = np.maximum(np.abs(X).max(axis=1) if X.ndim == 2 else np.abs(X), off)
    g = s.max()
    return s, g


def roundtrip_close(ctx, got, want, s, g, rule, msg, eps=1e-9):
    want = np.asarray(want)
    tol = eps * s + 1e-3 * eps * g + 1e-300
    tol = tol.reshape((-1, 1)) if want.ndim == 2 else tol
    ctx.ev(rule)
    got = np.asarray(got)
    ctx.ok(got.shape == want.shape, rule,
           f"{msg}: shape {got.shape} != {want.shape}")
    d = np.abs(got.astype(float) - want)
    ctx.ok(bool(np.all(d <= tol)), rule,
           lambda: f"{msg}: recovered data differ from the original by "
           f"{np.max(d / tol):.3e} x tolerance")


def exercise(ctx, rng, T, ab, lab, n, lv, Q, suffix=""):
    """All the round trips on one trained transformer."""
    eps = 1e-9
    # training data
    Y = T.transform(gen.layout(rng, Q))
    s, g = scales(ab, Q)
    inplace = bool(rng.integers(2))
    Yc = np.array(Y)
    R = T.inverse_transform(Yc, inplace=inplace)
    roundtrip_close(ctx, R, Q, s, g, "roundtrip-train" + suffix, lab, eps)
    if inplace:
        ctx.ok(R is Yc, "inplace-identity",
               f"{lab}: inverse_transform(inplace=True) returns another array")
    # new data, not seen in training
    X = Q[:, :1] * rng.uniform(-2, 2, (1, 6)) + np.abs(Q).max() * (
        rng.standard_normal((n, 6)))
    s, g = scales(ab, X)
    Z = T.transform(gen.layout(rng, X))
    R = T.inverse_transform(gen.layout(rng, Z))
    roundtrip_close(ctx, R, X, s, g, "roundtrip-new" + suffix, lab, eps)
    # other direction: transform(inverse_transform(z)) = z
    a, b = (np.asarray(v, dtype=float) for v in ab)
    zs = np.abs(Z).max(axis=1) + np.abs(b) + np.abs(a) * (
        g + ab.mag.astype(float).max())
    Z2 = T.transform(T.inverse_transform(np.array(Z)))
    d = np.abs(Z2 - Z)
    ctx.ok(np.all(d <= 1e-9 * zs[:, None]), "roundtrip-reverse" + suffix,
           f"{lab}: transform(inverse_transform(z)) != z")
    # single snapshots: same as a column
    x = gen.layout(rng, X[:, 2])
    z = T.transform(x)
    ctx.ok(z.shape == (n,), "vector-shape", f"{lab}: {z.shape}")
    ctx.ok(np.all(np.abs(z - Z[:, 2]) <= 1e-9 * zs), "vector-column",
           f"{lab}: transform of a snapshot differs from that column of the "
           "transformed matrix")
    sv, gv = scales(ab, X[:, 2])
    r = T.inverse_transform(np.array(z), inplace=bool(rng.integers(2)))
    roundtrip_close(ctx, r, X[:, 2], sv, gv, "roundtrip-vector" + suffix,
                    lab, eps)
    # locations
    if lv:
        nv = n // lv
        for _ in range(3):
            L, kind = gen.locs(rng, nv)
            ctx.note(cls=lab.split("[")[0].split("(")[0], locs=kind,
                     suffix=suffix)
            rows = np.concatenate([np.arange(v * nv, (v + 1) * nv)[L]
                                   for v in range(lv)])
            if rows.size == 0:
                continue
            for A, B, S in ((Z, X, s), (Z[:, 2], X[:, 2], sv)):
                part = gen.layout(rng, A[rows], w=True)
                inp = bool(rng.integers(2))
                R = T.inverse_transform(part, inplace=inp, locs=L)
                roundtrip_close(ctx, R, B[rows], np.maximum(S, s)[rows], g,
                                "roundtrip-locs" + suffix,
                                f"{lab} locs={kind}", eps)
                if inp:
                    ctx.ok(R is part, "inplace-identity",
                           f"{lab} inverse_transform(locs, inplace=True)")


def train(rng, T, Q):
    """Train one of the equivalent ways; returns the transformed data."""
    w = int(rng.integers(4))
    A = gen.layout(rng, Q, w=True)
    if w == 0:
        out = T.fit(A)
        return None, out is T
    if w == 1:
        return T.fit_transform(A, inplace=False), True
    if w == 2:
        return T.fit_transform(A, inplace=True), True
    return T.fit_transform(A), True


def fit_consistent(ctx, T, Yfit, Q, ab, lab):
    if Yfit is None:
        return
    a, b = (np.asarray(v, dtype=float) for v in ab)
    Y = T.transform(Q.copy())
    s = np.abs(a) * (np.abs(Q).max(axis=1) + ab.mag.astype(float)) + np.abs(b)
    # scalar shifts/means are computed over the whole array
    s = s + 1e-3 * s.max()
    ctx.ok(np.shape(Yfit) == Y.shape and np.all(
        np.abs(Yfit - Y) <= 1e-9 * s[:, None]), "fit-transform-consistent",
        f"{lab}: fit_transform(Q) differs from transform(Q) afterwards")


@CHECK.family(quick=1500, thorough=30000)
def roundtrip(ctx, rng, i):
    T, ref, lab, n, lv = pregen.any_transformer(rng, i)
    Q, kind = pregen.train_states(rng, n)
    ctx.note(cls=lab, n=n, k=Q.shape[1], data=kind)
    Y, isself = train(rng, T, Q)
    ctx.ok(isself, "fit-returns-self", lab)
    ab = ref(Q)
    fit_consistent(ctx, T, Y, Q, ab, lab)
    exercise(ctx, rng, T, ab, lab, n, lv, Q)


@CHECK.family(quick=400, thorough=9000)
def history(ctx, rng, i):
    """fit -> use -> refit (other data/columns) -> use -> ... one object."""
    T, ref, lab, n, lv = pregen.any_transformer(rng)
    steps = []
    Q, _ = pregen.train_states(rng, n)
    train(rng, T, Q)
    exercise(ctx, rng, T, ref(Q), lab, n, lv, Q)
    for _ in range(int(rng.integers(1, 4))):
        op = gen.pick(rng, ["refit", "use", "refit"])
        steps.append(op)
        if op == "refit":
            Q, kind = pregen.train_states(rng, n)
            Y, _ = train(rng, T, Q)
            fit_consistent(ctx, T, Y, Q, ref(Q), lab)
        exercise(ctx, rng, T, ref(Q), lab, n, lv, Q, "-after-refit")
    ctx.note(cls=lab, n=n, steps=tuple(steps))


@CHECK.family(quick=200, thorough=4000)
def resize_history(ctx, rng, i):
    """ShiftScale/scalar Scale/Null refitted with another state dimension."""
    cfg = pregen.CONFIGS[i % len(pregen.CONFIGS)]
    n = int(rng.integers(1, 9))
    w = i % 4
    if w < 2:
        T, ref, lab = pregen.shiftscale(rng, n, cfg)
    elif w == 2:
        T, lab = opinf.pre.NullTransformer(), "Null"

        def ref(Q):
            return pregen.Map(np.ones(len(Q)), np.zeros(len(Q)))
    else:
        s = float(rng.uniform(0.5, 3))
        T, lab = opinf.pre.ScaleTransformer(s), "Scale(False)"

        def ref(Q):
            return pregen.Map(s * np.ones(len(Q)), np.zeros(len(Q)))
    for _ in range(3):
        n = int(rng.integers(1, 9))
        Q, _ = pregen.train_states(rng, n)
        train(rng, T, Q)
        ctx.ok(T.state_dimension == n, "state-dimension",
               f"{lab}: {T.state_dimension} after fitting {n} rows")
        exercise(ctx, rng, T, ref(Q), lab, n, 1, Q, "-after-refit")
    ctx.note(cls=lab, cfg=cfg if w < 2 else None, n=n)


@CHECK.family(quick=200, thorough=4000)
def persistence(ctx, rng, i):
    """The loaded transformer undoes what the saved one did."""
    n = int(gen.pick(rng, [1, 2, 5, 9]))
    w = i % 5
    if w == 0:
        T, ref, lab = pregen.shiftscale(
            rng, n, pregen.CONFIGS[(i // 5) % len(pregen.CONFIGS)])
    elif w == 1:
        T, ref, lab = pregen.shift(rng, n)
    elif w == 2:
        T, ref, lab = pregen.scale(rng, n)
    elif w == 3:
        T, ref, lab = pregen.pipeline(rng, n)
    else:
        T, ref, lab, _ = pregen.multi(rng, [n] * 3, allow_pipe=False)
        n = 3 * n
    Q, _ = pregen.train_states(rng, n)
    train(rng, T, Q)
    with scratch() as d:
        f = os.path.join(d, "t.h5")
        T.save(f)
        if w in (3, 4):
            T2 = type(T).load(f, [type(t) for t in T.transformers])
        else:
            T2 = type(T).load(f)
    ctx.note(cls=lab, n=n)
    ab = ref(Q)
    s, g = scales(ab, Q)
    roundtrip_close(ctx, T2.inverse_transform(T.transform(Q)), Q, s, g,
                    "roundtrip-after-load", lab)
    roundtrip_close(ctx, T.inverse_transform(T2.transform(Q)), Q, s, g,
                    "roundtrip-after-load", lab)
    exercise(ctx, rng, T2, ab, lab, n, {3: 1, 4: 3}.get(w, 1), Q,
             "-after-load")


@CHECK.family(quick=120, thorough=2000)
def float32(ctx, rng, i):
    """Single-precision data (in place or not) round-trip too."""
    T, ref, lab, n, lv = pregen.any_transformer(rng, i)
    k = 5
    Q = rng.standard_normal((n, k)).astype(np.float32)
    ab = ref(Q)
    train(rng, T, Q)
    Y = T.transform(Q.copy(), inplace=bool(rng.integers(2)))
    R = T.inverse_transform(Y.copy())
    s, g = scales(ab, Q)
    roundtrip_close(ctx, R, Q, s + g, g, "roundtrip-float32", lab, 1e-4)
    ctx.note(cls=lab, dtype="float32")


@CHECK.family(quick=300, thorough=6000)
def custom(ctx, rng, i):
    """Composites with user-defined members that do not commute."""
    T, lab, n, smap = pregen.mixture(rng)
    ctx.note(cls=lab, n=n)
    for rnd in range(1 + int(rng.integers(2))):
        Q = rng.standard_normal((n, int(rng.integers(4, 9))))
        Q += rng.uniform(-2, 2, (n, 1))
        if rng.integers(2):
            T.fit(gen.layout(rng, Q))
            inp = bool(rng.integers(2))
            Y = T.transform(gen.layout(rng, Q, w=inp), inplace=inp)
        else:
            Y = T.fit_transform(gen.layout(rng, Q, w=True),
                                inplace=bool(rng.integers(2)))
        A, b = smap(Q)
        s = np.linalg.cond(A) * (np.abs(Q).max() + np.abs(
            np.linalg.solve(A, b)).max())
        B = T.inverse_transform(gen.layout(rng, Y, w=True),
                                inplace=bool(rng.integers(2)))
        ctx.close(B, Q, "roundtrip-custom", rtol=1e-9, scale=s, msg=lab)
        X = rng.standard_normal((n, 3))
        B = T.inverse_transform(T.transform(X.copy()))
        ctx.close(B, X, "roundtrip-custom", rtol=1e-9,
                  scale=s + np.linalg.cond(A) * np.abs(X).max(), msg=lab)
        v = T.inverse_transform(T.transform(X[:, 0].copy()))
        ctx.close(v, X[:, 0], "roundtrip-custom-vector", rtol=1e-9,
                  scale=s + np.linalg.cond(A) * np.abs(X).max(), msg=lab)
