"""Models with known truth, training data and reference regressions."""
import numpy as np
import opinf

from rv import gen, opgen as og

M = opinf.models
L = opinf.lstsq
Steady = M.mono._nonparametric.SteadyModel


def structure(rng, maxr=4, letters="cAHGBN", steady=False, nmax=5):
    """(kinds in order, r, m)."""
    pool = [x for x in letters if not (steady and x in "BN")]
    n = int(rng.integers(1, min(nmax, len(pool)) + 1))
    kinds = [str(x) for x in rng.choice(pool, n, replace=False)]
    r = int(rng.integers(1, maxr + 1))
    if "G" in kinds:
        r = min(r, 3)
    if "Q" in kinds:
        r = min(r, 2)
    return kinds, r, int(rng.integers(1, 4))


def uses(kinds):
    return any(og.KINDS[k][2] for k in kinds)


def samples(rng, d, r, m, extra=None):
    """Well-conditioned random states and inputs."""
    k = d + int(rng.integers(3, 20) if extra is None else extra)
    k = max(k, int(1.5 * d) + 3)
    return rng.standard_normal((r, k)), rng.standard_normal((m, k))


def dref(kinds, Q, U):
    """Reference data matrix (k x d), blocks in the given order."""
    rows = []
    for j in range(Q.shape[1]):
        rows.append(np.concatenate([
            np.asarray(og.block(kd, Q[:, j], None if U is None else U[:, j]),
                       float) for kd in kinds]))
    return np.array(rows)


def solver(rng, r, d, smax=1.0):
    """(what is passed as solver=, reference solve(D, Z) -> O, label)."""
    f = gen.pick(rng, ["none", "zero", "plain", "scalar", "l2", "l2dec",
                       "tik", "tikdec", "tsvd", "class-l2zero"])

    def ridge(G):
        def ref(D, Z):
            A = np.vstack([D, G])
            B = np.vstack([Z.T, np.zeros((G.shape[0], Z.shape[0]))])
            return np.linalg.lstsq(A, B, rcond=None)[0].T
        return ref

    def decoupled(Gs):
        def ref(D, Z):
            return np.vstack([ridge(G)(D, Z[i:i + 1])
                              for i, G in enumerate(Gs)])
        return ref
    plain = ridge(np.zeros((1, d)))
    if f == "none":
        return None, plain, f
    if f == "zero":
        return 0, plain, f
    if f == "plain":
        return L.PlainSolver(), plain, f
    if f == "class-l2zero":
        return L.L2Solver(0), plain, f
    if f == "tsvd":
        return L.TruncatedSVDSolver(d), plain, f
    lam = float(smax * 10.0 ** rng.uniform(-2, 0.5))
    if f == "scalar":
        return lam, ridge(lam * np.eye(d)), f
    if f == "l2":
        return L.L2Solver(lam), ridge(lam * np.eye(d)), f
    if f == "l2dec":
        v = lam * rng.uniform(.5, 2, r)
        return L.L2DecoupledSolver(v), decoupled(
            [x * np.eye(d) for x in v]), f
    if f == "tik":
        v = lam * rng.uniform(.2, 2, d)
        return L.TikhonovSolver(v), ridge(np.diag(v)), f
    vs = [lam * rng.uniform(.2, 2, d) for _ in range(r)]
    return L.TikhonovDecoupledSolver(vs), decoupled(
        [np.diag(v) for v in vs]), f


def split(kinds, O, r, m):
    out, i = {}, 0
    for kd in kinds:
        n = og.ncols(kd, r, m)
        out[kd] = O[:, i:i + n]
        i += n
    return out


def dense(op, kd):
    e = og.dense(op)
    return e.reshape(-1, 1) if kd == "c" else e
