"""C07: projection algebra of bases."""
import os

import numpy as np
import opinf

from rv import basisgen, gen
from rv.core import Check, scratch

CHECK = Check(
    "C07",
    "A case builds a basis (linear with no/diagonal/full weights, POD with "
    "every solver, multi-variable, loaded or copied, after dimension "
    "changes) and evaluates the projection identities and the documented "
    "matrix formulas on random states, vectors, layouts and location sets.",
    require=["compress-formula", "decompress-formula", "compress-decompress",
             "project-idempotent", "residual-orthogonal", "projection_error",
             "vector-column", "linear", "decompress-locs", "dim-change",
             "integer-states",
             "single-precision"])


def near(ctx, got, want, s, rule, msg):
    got, want = np.asarray(got), np.asarray(want)
    ctx.ok(got.shape == want.shape, rule,
           f"{msg}: shape {got.shape} expected {want.shape}")
    d = np.abs(got - want)
    ctx.ok(bool(np.all(d <= 1e-9 * s + 1e-300)), rule,
           lambda: f"{msg}: off by {float(d.max()):.2e} (scale {s:.2e})")


def exercise(ctx, rng, B, V, W, lab, orthonormal=True, nv=1):
    """V: dense entries, W: dense weights, as they ought to be."""
    n, r = V.shape
    ctx.ok(B.full_state_dimension == n and B.reduced_state_dimension == r
           and tuple(B.shape) == (n, r), "shape", f"{lab}: {B.shape}")
    vs = max(1.0, np.abs(V).max()) * max(1.0, np.abs(W).max()) * n
    X = rng.standard_normal((n, 5)) * 10.0 ** rng.uniform(-3, 3)
    xs = np.abs(X).max() * vs
    C = B.compress(gen.layout(rng, X))
    near(ctx, C, V.T @ (W @ X), xs, "compress-formula", lab)
    c = rng.standard_normal((r, 4))
    D = B.decompress(gen.layout(rng, c))
    near(ctx, D, V @ c, vs, "decompress-formula", lab)
    # vectors act like columns
    near(ctx, B.compress(gen.layout(rng, X[:, 1])), C[:, 1], xs,
         "vector-column", lab)
    near(ctx, B.compress(X[:, 1:2]), C[:, 1:2], xs, "vector-column", lab)
    near(ctx, B.decompress(gen.layout(rng, c[:, 1])), D[:, 1], vs,
         "vector-column", lab)
    near(ctx, B.decompress(c[:, 1:2]), D[:, 1:2], vs, "vector-column", lab)
    # linearity
    al = float(rng.uniform(-2, 2))
    near(ctx, B.compress(al * X[:, :2] + X[:, 2:4]),
         al * C[:, :2] + C[:, 2:4], 4 * xs, "linear", lab)
    near(ctx, B.decompress(al * c[:, :2] + c[:, 2:]),
         al * D[:, :2] + D[:, 2:], 4 * vs, "linear", lab)
    # locations
    nx = n // nv
    for _ in range(2):
        L, lk = gen.locs(rng, nx)
        rows = np.concatenate([np.arange(v * nx, (v + 1) * nx)[L]
                               for v in range(nv)])
        near(ctx, B.decompress(c, locs=L), D[rows], vs, "decompress-locs",
             f"{lab} {lk}")
        near(ctx, B.decompress(c[:, 0], locs=L), D[rows, 0], vs,
             "decompress-locs", f"{lab} {lk}")
    # integer data are numbers like any other
    if rng.random() < .5:
        Z = rng.integers(-9, 10, (n, 3))
        ctx.ev("integer-states")
        dt = gen.pick(rng, [np.int64, np.int32, np.int8])
        zs = 9 * vs
        near(ctx, B.compress(Z.astype(dt)), V.T @ (W @ Z), zs,
             "compress-formula", lab + " integers")
        near(ctx, B.compress(Z[:, 0].astype(dt)), V.T @ (W @ Z[:, 0]), zs,
             "compress-formula", lab + " integers")
        near(ctx, B.project(Z.astype(dt)), V @ (V.T @ (W @ Z)), zs * vs,
             "project-formula", lab + " integers")
        near(ctx, B.projection_error(Z.astype(dt), relative=False),
             np.linalg.norm(Z - V @ (V.T @ (W @ Z))), zs * vs,
             "projection_error", lab + " integers")
        z = rng.integers(-9, 10, (r, 2))
        near(ctx, B.decompress(z.astype(dt)), V @ z, zs,
             "decompress-formula", lab + " integers")
    # projection
    P = B.project(gen.layout(rng, X))
    near(ctx, P, V @ (V.T @ (W @ X)), xs * vs, "project-formula", lab)
    near(ctx, B.project(X[:, 0]), P[:, 0], xs * vs, "vector-column", lab)
    for Z, PZ in ((X, P), (X[:, 3], P[:, 3])):
        e = np.linalg.norm(Z - PZ)
        nz = np.linalg.norm(Z)
        near(ctx, B.projection_error(gen.layout(rng, Z), relative=False), e,
             xs * vs, "projection_error", lab)
        near(ctx, B.projection_error(Z), e / nz, vs * vs * 10,
             "projection_error", lab)
        near(ctx, B.projection_error(Z, relative=True), e / nz,
             vs * vs * 10, "projection_error", lab)
    if orthonormal:
        near(ctx, B.compress(D), c, 100 * vs * vs, "compress-decompress", lab)
        near(ctx, B.project(P), P, xs * vs * vs, "project-idempotent", lab)
        near(ctx, V.T @ (W @ (X - P)), np.zeros((r, 5)), xs * vs * vs,
             "residual-orthogonal", lab)
        near(ctx, B.project(D), D, 100 * vs * vs, "project-idempotent", lab)


@CHECK.family(quick=800, thorough=20000)
def linear(ctx, rng, i):
    n = int(gen.pick(rng, [1, 2, 3, 6, 11]))
    wk = ["none", "diag", "full"][i % 3]
    orthonormal = (i // 3) % 4 != 3
    if orthonormal:
        B, V, W, lab = basisgen.linear(rng, n, wkind=wk)
    else:
        w, W = basisgen.weights(rng, n, wk)
        V = rng.standard_normal((n, int(rng.integers(1, n + 1))))
        B = opinf.basis.LinearBasis(gen.layout(rng, V), weights=w,
                                    check_orthogonality=bool(rng.integers(2)))
        lab = f"LinearNonorth({wk})"
    ctx.note(cls=lab, n=n, r=V.shape[1])
    ctx.equal(B.entries, V, "entries")
    ctx.equal(B[:], V, "entries")
    exercise(ctx, rng, B, V, W, lab, orthonormal)
    w = i % 5
    if w == 0:
        B2 = B.copy()
    elif w == 1:
        with scratch() as d:
            f = os.path.join(d, "b.h5")
            B.save(f)
            B2 = opinf.basis.LinearBasis.load(f)
    elif w == 2:
        B2 = B.fit(rng.standard_normal((n, 3)))
        ctx.ok(B2 is B, "fit-self", lab)
    else:
        return
    exercise(ctx, rng, B2, V, W, lab + "'", orthonormal)


@CHECK.family(quick=600, thorough=12000)
def pod(ctx, rng, i):
    n, k = int(gen.pick(rng, [1, 2, 5, 9])), int(gen.pick(rng, [1, 3, 6, 12]))
    solver = basisgen.SOLVERS[i % 4]
    wk = ["none", "diag", "full"][(i // 4) % 3]
    B, r, W, lab = basisgen.pod(rng, n, k, wkind=wk, solver=solver)
    Q, s = basisgen.snapshots(rng, n, k, kind="linear")
    if rng.integers(3) == 0:
        B.fit(basisgen.snapshots(rng, n, k, kind="linear")[0])
    if rng.integers(3) == 0:
        C = B.fit_compress(gen.layout(rng, Q))
        near(ctx, C, B.compress(Q), np.abs(Q).max() * n, "fit_compress", lab)
    else:
        B.fit(gen.layout(rng, Q))
    ctx.note(cls=lab, n=n, k=k, r=r)
    V = np.array(B.entries)
    ctx.ok(V.shape == (n, r), "shape", f"{lab} {V.shape} r={r}")
    exercise(ctx, rng, B, V, W, lab)
    full = np.array(B.leftvecs)
    for _ in range(2):
        r2 = int(rng.integers(1, full.shape[1] + 1))
        if rng.integers(2):
            B.reduced_state_dimension = r2
        else:
            B.set_dimension(num_vectors=r2)
        ctx.ev("dim-change")
        exercise(ctx, rng, B, full[:, :r2], W, lab + f" r->{r2}")


@CHECK.family(quick=200, thorough=5000)
def multi(ctx, rng, i):
    nv = 1 + i % 4
    n = int(rng.integers(1, 7))
    Bs, Vs, Ws = [], [], []
    for _ in range(nv):
        B, V, W, lab = basisgen.linear(rng, n)
        if rng.integers(2):
            P, r, W, lab = basisgen.pod(rng, n, 6)
            P.fit(basisgen.snapshots(rng, n, 6, kind="linear")[0])
            B, V = P, np.array(P.entries)
        Bs.append(B)
        Vs.append(V)
        Ws.append(W)
    import scipy.linalg as la
    M = opinf.basis.BasisMulti(Bs)
    ctx.note(cls="multi", nv=nv, n=n)
    exercise(ctx, rng, M, la.block_diag(*Vs), la.block_diag(*Ws),
             "BasisMulti", nv=nv)


@CHECK.family(quick=150, thorough=3000)
def single_precision(ctx, rng, i):
    """Snapshots stored in single precision."""
    n = int(gen.pick(rng, [1, 3, 8, 15]))
    B, V, W, lab = basisgen.linear(rng, n, wkind=["none", "diag",
                                                  "full"][i % 3])
    if i % 2:
        B, _, W, lab = basisgen.pod(rng, n, 6)
        B.fit(basisgen.snapshots(rng, n, 6, kind="linear")[0])
        V = np.array(B.entries)
    X = (rng.standard_normal((n, 4)) * 10.0 ** rng.uniform(-8, 8)).astype(
        np.float32)
    if rng.random() < .5:
        X = X[:, 0]
    Y = X.astype(float)
    X = gen.layout(rng, X)
    ctx.note(cls=lab, n=n)
    ctx.ev("single-precision")
    s = 1e3 * np.abs(Y).max() * max(1.0, np.abs(V).max()) * max(
        1.0, np.abs(W).max()) * n
    near(ctx, B.compress(X), V.T @ (W @ Y), s, "compress-formula", lab)
    P = V @ (V.T @ (W @ Y))
    s *= max(1.0, np.abs(V).max())
    near(ctx, B.project(X), P, s, "project-formula", lab)
    near(ctx, B.projection_error(X, relative=False), np.linalg.norm(Y - P),
         s, "projection_error", lab)
