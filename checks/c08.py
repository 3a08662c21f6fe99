"""C08: POD optimality and agreement of all ways to compute it."""
import numpy as np
import opinf

from rv import basisgen, gen
from rv.core import Check

CHECK = Check(
    "C08",
    "A case constructs snapshots with known singular values (any shape, "
    "rank, weight, spectrum), computes the POD basis with one of the solvers "
    "or interfaces and checks orthonormality, singular values, energies, "
    "right vectors, the optimal projection error for every dimension and the "
    "subspace against the known factorization.",
    require=["orthonormal", "svdvals", "optimal-error", "energy",
             "rightvecs", "subspace", "pod_basis", "method_of_snapshots",
             "from_svd", "max_vectors",
             "single-precision", "custom-solver", "options-passed"])


def build(rng, n, k, wk, rank=None, kind=None):
    m = min(n, k) if rank is None else min(n, k, rank)
    w, W = basisgen.weights(rng, n, wk)
    s = basisgen.spectrum(rng, m, kind) * 10.0 ** rng.uniform(-1, 3)
    U = basisgen.worth(rng, n, m, W)
    Z = gen.orth(rng, k, m)
    return (U * s) @ Z.T, U, s, Z, w, W


def wnorm2(E, W):
    return float(np.sum(E * (W @ E)))


def verify(ctx, V, sv, R, Q, U, s, Z, W, lab, tol, normalized=True):
    """V: leading left vectors, sv: singular values, R: right vectors or
    None."""
    m = len(s)
    q = min(V.shape[1], m)
    ctx.ok(V.shape[0] == Q.shape[0], "orthonormal", f"{lab} {V.shape}")
    Vq = V[:, :q]
    G = Vq.T @ (W @ Vq)
    ctx.close(G, np.eye(q), "orthonormal", atol=tol, msg=lab)
    ref = s / s[0] if normalized else s
    top = ref[0]
    c = min(len(sv), m)
    ctx.ok(c >= q, "svdvals", f"{lab}: only {len(sv)} singular values")
    ctx.close(sv[:c], ref[:c], "svdvals", atol=tol * top, msg=lab)
    ctx.ok(np.all(np.abs(sv[m:]) <= 1e-6 * top), "svdvals",
           f"{lab}: spurious singular values {sv[m:]}")
    ctx.ok(np.all(np.diff(sv) <= 1e-12 * top), "svdvals-sorted", lab)
    # subspaces for every dimension with a spectral gap after it
    tot = float(np.sum(s**2))
    for r in range(1, q + 1):
        Vr = V[:, :r]
        E = Q - Vr @ (Vr.T @ (W @ Q))
        ctx.close(np.array(wnorm2(E, W)), np.array(np.sum(s[r:]**2)),
                  "optimal-error", atol=tol * tot, msg=f"{lab} r={r}")
        if r == m or s[r] < 0.98 * s[r - 1]:
            C = U[:, :r].T @ (W @ Vr)
            sig = np.linalg.svd(C, compute_uv=False)
            ctx.ok(np.all(np.abs(sig - 1) <= 100 * tol), "subspace",
                   f"{lab} r={r}: cosines {sig}")
    if R is not None:
        ctx.ok(R.shape == (Q.shape[1], V.shape[1]), "rightvecs",
               f"{lab}: rightvecs shape {R.shape}")
        ctx.close(Vq.T @ (W @ Q), s[:q, None] * R[:, :q].T, "rightvecs",
                  atol=10 * tol * s[0], msg=lab)


@CHECK.family(quick=1200, thorough=25000)
def fit(ctx, rng, i):
    solver = (basisgen.SOLVERS + ["custom"])[i % 5]
    wk = ["none", "diag", "full"][(i // 5) % 3]
    n = int(gen.pick(rng, [1, 2, 5, 9, 12]))
    k = int(gen.pick(rng, [1, 2, 4, 8, 12]))
    rank = None if rng.integers(3) else int(rng.integers(1, min(n, k) + 1))
    Q, U, s, Z, w, W = build(rng, n, k, wk, rank)
    m = min(n, k)
    q = len(s)
    mv = None if rng.integers(2) else int(rng.integers(1, m + 2))
    r = int(rng.integers(1, q + 1))
    if mv is not None:
        r = min(r, mv)
    kw = {}
    if solver == "randomized" and rng.integers(2):
        kw["random_state"] = int(rng.integers(1000))
    sol = solver
    if solver == "custom":
        def sol(X, **options):
            a, b, c = np.linalg.svd(X, full_matrices=False)
            return a, b, c
    lab = f"{solver} {wk} n={n} k={k} rank={q} r={r} max={mv}"
    ctx.note(solver=solver, w=wk, n=n, k=k, rank=q, mv=mv)
    first = sol
    if not kw and rng.integers(5) == 0:  # solver chosen after construction
        first = gen.pick(rng, basisgen.SOLVERS)
        lab += f" (constructed with {first})"
    B = opinf.basis.PODBasis(num_vectors=r, svdsolver=first, weights=w,
                             max_vectors=mv, **kw)
    if first is not sol:
        if rng.integers(2):
            B.fit(rng.standard_normal((n, k + 1)))
        B.svdsolver = sol
    A = gen.layout(rng, Q)
    if rng.integers(3) == 0:  # several trajectories
        nt = int(gen.pick(rng, [d for d in range(1, k + 1) if k % d == 0]))
        A = np.array(np.split(Q, nt, axis=1))
        lab += f" 3d({nt})"
    if rng.integers(4) == 0:  # refit
        B.fit(rng.standard_normal((n, k + 1)))
    ctx.ok(B.fit(A) is B, "fit-self", lab)
    tol = 1e-8 if solver in ("method-of-snapshots", "eigh") else 1e-9
    keep = min(m, mv) if mv is not None else m
    if solver == "randomized" and keep + 10 < m:  # approximate as documented
        tol = 1e-5
    V = np.array(B.leftvecs)
    if solver in ("method-of-snapshots", "eigh"):
        ctx.ok(min(q, keep) <= V.shape[1] <= keep, "max_vectors",
               f"{lab}: {V.shape[1]} vectors")
    else:
        ctx.ok(V.shape[1] == keep, "max_vectors",
               f"{lab}: {V.shape[1]} vectors")
    ctx.ok(B.max_vectors == V.shape[1], "max_vectors", lab)
    ctx.equal(B.entries, V[:, :r], "entries", msg=lab)
    ctx.ok(B.reduced_state_dimension == r, "entries", lab)
    ctx.ok(B.full_state_dimension == n, "entries", lab)
    verify(ctx, V, B.svdvals, B.rightvecs, Q, U, s, Z, W, lab, tol)
    if not (solver == "randomized" and keep < m):
        e = np.sum(s[:r]**2) / np.sum(s**2)
        ctx.close(np.array(B.cumulative_energy), np.array(e), "energy",
                  atol=1e-8, msg=lab)
        ctx.close(np.array(B.residual_energy), np.array(1 - e), "energy",
                  atol=1e-8, msg=lab)
    if wk == "none":
        ctx.close(np.array(B.projection_error(Q)),
                  np.sqrt(np.array(np.sum(s[r:]**2) / np.sum(s**2))),
                  "optimal-error", atol=1e-6, msg=lab)


@CHECK.family(quick=300, thorough=6000)
def functional(ctx, rng, i):
    """pod_basis() and method_of_snapshots()."""
    n = int(gen.pick(rng, [1, 2, 6, 10]))
    k = int(gen.pick(rng, [1, 2, 5, 9]))
    wk = ["none", "diag", "full"][i % 3]
    Q, U, s, Z, w, W = build(rng, n, k, wk)
    m = min(n, k)
    ctx.note(fn="functional", w=wk, n=n, k=k)
    solver = gen.pick(rng, ["dense", "method-of-snapshots", "eigh",
                            "randomized"])
    r = int(rng.integers(1, m + 1))
    lab = f"pod_basis {solver} {wk} {n}x{k} r={r}"
    V, sv, R = opinf.basis.pod_basis(
        gen.layout(rng, Q), num_vectors=r, svdsolver=solver, weights=w,
        return_rightvecs=True)
    ctx.ok(V.shape == (n, r), "pod_basis", lab)
    verify(ctx, V, sv, R, Q, U, s, Z, W, lab, 1e-8)
    V2, sv2 = opinf.basis.pod_basis(Q, weights=w)
    ctx.ok(V2.shape == (n, m), "pod_basis", "default dimension")
    verify(ctx, V2, sv2, None, Q, U, s, Z, W, "pod_basis default", 1e-9)
    # the solver given is the one used, with the options given
    seen = []

    def custom(X, **opts):
        seen.append((np.shape(X), opts))
        A, b, C = np.linalg.svd(X, full_matrices=False)
        return -A, b, -C
    V3, sv3 = opinf.basis.pod_basis(Q, num_vectors=r, svdsolver=custom,
                                    weights=w, full=7)
    ctx.ok(seen == [((n, k), dict(full=7))], "custom-solver",
           f"{wk} {n}x{k} {seen}")
    verify(ctx, V3, sv3, None, Q, U, s, Z, W, "pod_basis custom", 1e-9)
    seen.clear()
    P = opinf.basis.PODBasis(num_vectors=r, svdsolver=custom, weights=w,
                             opt="x")
    V4 = P.fit(Q).entries
    ctx.ok(seen == [((n, k), dict(opt="x"))] and P.svdsolver == "custom",
           "custom-solver", f"{wk} {n}x{k} {seen}")
    ctx.equal(V4, V3, "custom-solver", f"{wk} {n}x{k}")
    if r < m:
        R1, t1 = opinf.basis.pod_basis(Q, num_vectors=r, weights=w,
                                       svdsolver="randomized",
                                       random_state=int(i))
        R2, t2 = opinf.basis.pod_basis(Q, num_vectors=r, weights=w,
                                       svdsolver="randomized",
                                       random_state=int(i))
        ctx.equal(R1, R2, "options-passed", "randomized")
        if s[r] > 1e-6 * s[0]:
            if s[r - 1] > 1.2 * s[r]:
                V5, sv5 = opinf.basis.pod_basis(
                    Q, weights=w, svdsolver="eigh",
                    minthresh=s[r - 1] * s[r] / k)
                ctx.ok(V5.shape[1] == r, "options-passed",
                       f"minthresh {V5.shape} {r}")
    V, sv, Wt = opinf.basis.method_of_snapshots(gen.layout(rng, Q), w)
    lab = f"method_of_snapshots {wk} {n}x{k}"
    ctx.ok(V.shape[1] >= m == len(s), "method_of_snapshots",
           f"{lab}: {V.shape[1]} vectors of {m}")
    ctx.ok(len(sv) == V.shape[1] == Wt.shape[0], "method_of_snapshots", lab)
    verify(ctx, V, sv, Wt.T, Q, U, s, Z, W, lab, 1e-8, normalized=False)
    ctx.close((V * sv) @ Wt, Q, "method_of_snapshots", atol=1e-7 * s[0],
              msg=lab + " factorization")


@CHECK.family(quick=200, thorough=4000)
def from_svd(ctx, rng, i):
    n = int(gen.pick(rng, [2, 6, 10]))
    k = int(gen.pick(rng, [1, 4, 9]))
    wk = ["none", "diag", "full"][i % 3]
    Q, U, s, Z, w, W = build(rng, n, k, wk)
    m = len(s)
    r = None if rng.integers(3) == 0 else int(rng.integers(1, m + 1))
    right = Z if rng.integers(2) else None
    B = opinf.basis.PODBasis.from_svd(U.copy(), s.copy(), right,
                                      num_vectors=r, weights=w)
    lab = f"from_svd {wk} r={r}"
    ctx.note(fn="from_svd", w=wk, r=r, n=n, k=k)
    ctx.ok(B.reduced_state_dimension == (r or m), "from_svd", lab)
    ctx.equal(B.leftvecs, U, "from_svd", lab)
    verify(ctx, np.array(B.leftvecs), B.svdvals, B.rightvecs, Q, U, s, Z, W,
           lab, 1e-9)
    c = rng.standard_normal((r or m, 3))
    ctx.close(B.decompress(c), U[:, :r] @ c, "from_svd", rtol=1e-12)
    ctx.close(B.compress(Q), U[:, :r].T @ (W @ Q), "from_svd", rtol=1e-11,
              scale=np.abs(Q).max() * 100)
    e = np.sum(s[:(r or m)]**2) / np.sum(s**2)
    ctx.close(np.array(B.cumulative_energy), np.array(e), "energy",
              atol=1e-12, msg=lab)
    ctx.close(np.array(B.residual_energy), np.array(1 - e), "energy",
              atol=1e-12, msg=lab)


@CHECK.family(quick=30, thorough=400)
def larger(ctx, rng, i):
    """Tall and wide matrices; all exact solvers agree."""
    n, k = [(120, 10), (12, 90), (60, 60)][i % 3]
    Q, U, s, Z, w, W = build(rng, n, k, ["none", "diag"][i % 2],
                             kind="geometric" if min(n, k) < 20 else "linear")
    for solver in ("dense", "method-of-snapshots", "randomized"):
        if solver == "randomized" and min(n, k) > 20:
            continue
        B = opinf.basis.PODBasis(num_vectors=5, svdsolver=solver, weights=w)
        B.fit(Q)
        ctx.note(solver=solver, n=n, k=k)
        verify(ctx, np.array(B.leftvecs), B.svdvals, B.rightvecs, Q, U, s, Z,
               W, f"large {solver} {n}x{k}", 1e-7)


@CHECK.family(quick=100, thorough=2000)
def single_precision(ctx, rng, i):
    """Snapshots stored in single precision, of any magnitude."""
    n, k = int(rng.integers(2, 20)), int(rng.integers(2, 12))
    m = min(n, k)
    solver = basisgen.SOLVERS[i % 3]
    # the method of snapshots has a documented absolute threshold
    s = np.sort(rng.uniform(.3, 1, m))[::-1] * 10.0 ** rng.uniform(
        -8 if solver == "dense" else -1, 8)
    Q = ((gen.orth(rng, n, m) * s) @ gen.orth(rng, k, m).T).astype(
        np.float32)
    r = int(rng.integers(1, m + 1))
    w, W = basisgen.weights(rng, n, gen.pick(rng, ["none", "diag"]))
    lab = f"single {solver} {n}x{k} r={r} weights={w is not None}"
    ctx.note(solver=solver, n=n, k=k)
    ctx.ev("single-precision")
    X = Q.astype(float)
    L = np.sqrt(np.diag(W))[:, None]
    ref = np.linalg.svd(L * X, compute_uv=False)
    B = opinf.basis.PODBasis(num_vectors=r, svdsolver=solver, weights=w)
    B.fit(gen.layout(rng, Q))
    V = np.asarray(B.entries, dtype=float)
    ctx.ok(V.shape == (n, r), "orthonormal", f"{lab} {V.shape}")
    ctx.close(V.T @ (W @ V), np.eye(r), "orthonormal", atol=2e-3, msg=lab)
    sv = np.asarray(B.svdvals, dtype=float)[:r]
    ctx.close(sv / sv[0], (ref / ref[0])[:r], "svdvals", atol=1e-3, msg=lab)
    E = L * (X - V @ (V.T @ (W @ X)))
    ctx.close(np.array(np.sum(E ** 2)), np.array(np.sum(ref[r:] ** 2)),
              "optimal-error", atol=2e-3 * np.sum(ref ** 2), msg=lab)
