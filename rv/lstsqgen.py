"""Least-squares problems, solver settings and independent references."""
import numpy as np
import opinf
import scipy.sparse as sparse

from rv import gen

L = opinf.lstsq
KINDS = ["plain", "tsvd", "l2", "l2dec", "tik", "tikdec", "tls"]
CLS = dict(plain=L.PlainSolver, tsvd=L.TruncatedSVDSolver, l2=L.L2Solver,
           l2dec=L.L2DecoupledSolver, tik=L.TikhonovSolver,
           tikdec=L.TikhonovDecoupledSolver, tls=L.TotalLeastSquaresSolver)


def matrix(rng, k, d, kind=None):
    """k x d matrix with controlled singular values; returns (D, svals)."""
    kind = kind or gen.pick(rng, ["well", "well", "decay", "scaled", "ints"])
    if kind == "ints":
        D = rng.integers(-6, 7, (k, d)) + np.where(np.eye(k, d), 25, 0)
        return D
    m = min(k, d)
    U = np.linalg.qr(rng.standard_normal((k, m)))[0]
    V = np.linalg.qr(rng.standard_normal((d, m)))[0]
    if kind == "well":
        s = rng.uniform(0.5, 4.0, m)
    elif kind == "decay":
        s = 10.0 ** -np.linspace(0, rng.uniform(0.5, 3), m)
    else:
        s = rng.uniform(0.5, 4.0, m) * 10.0 ** rng.uniform(-3, 3)
    return (U * s) @ V.T


def problem(rng, kind, d=None, r=None, mkind=None):
    d = int(d or rng.integers(1, 8))
    r = int(r or rng.integers(1, 5))
    if kind == "tls":
        k = d + r + int(rng.integers(0, 12))
    elif rng.random() < 0.25 and d > 1:
        k = int(rng.integers(1, d))
    else:
        k = d + int(rng.integers(0, 14))
    if k == d and rng.random() < 0.5:
        k += 1
    D = matrix(rng, k, d, mkind)
    zk = gen.pick(rng, ["random", "random", "near", "big", "ints"])
    if zk == "ints":
        Z = rng.integers(-9, 10, (r, k))
    elif zk == "near":
        Z = rng.standard_normal((r, d)) @ D.T + 1e-3 * rng.standard_normal(
            (r, k))
    else:
        Z = rng.standard_normal((r, k)) * (1e4 if zk == "big" else 1.0)
    if kind == "tls" and D.dtype.kind == "f":
        s = np.abs(D).max()
        Z = (rng.standard_normal((r, d)) @ D.T
             + 1e-2 * s * rng.standard_normal((r, k)))
        D = D + 1e-2 * s * rng.standard_normal((k, d))
    return gen.layout(rng, D), gen.layout(rng, Z)


def gamma(rng, d, form=None, scale=1.0):
    """A regularizer given to the solver, and its dense matrix."""
    form = form or gen.pick(rng, ["diag", "list", "matrix", "full", "sparse",
                                  "zeros"])
    if form in ("diag", "list"):
        v = scale * rng.uniform(0.3, 2.0, d)
        return (v if form == "diag" else list(v)), np.diag(v), form
    if form == "matrix":
        G = scale * gen.spd(rng, d, 5.0)
        return G, G.copy(), form
    if form == "full":  # not symmetric: GammaT Gamma is what matters
        G = scale * (gen.orth(rng, d, d) * rng.uniform(0.5, 2, d))
        return G, G.copy(), form
    if form == "sparse":
        v = scale * rng.uniform(0.3, 2.0, d)
        return sparse.diags(v), np.diag(v), form
    v = scale * rng.uniform(0.3, 2.0, d)
    if d > 1:
        v[int(rng.integers(d))] = 0
    return v, np.diag(v), form


def settings(rng, kind, d, r, k, smax, keep=None):
    """Random settings: dict of what is passed plus dense references."""
    s = dict(kind=kind)
    under = k < d
    if kind == "plain":
        s["cond"] = gen.pick(rng, [None, None, 1e-12])
        s["lapack_driver"] = gen.pick(rng, [None, "gelsd", "gelsy", "gelss"])
    elif kind == "tsvd":
        m = min(k, d)
        s["num_svdmodes"] = gen.pick(
            rng, [None, int(rng.integers(1, m + 1)),
                  -int(rng.integers(0, m))])
        s["lapack_driver"] = gen.pick(rng, ["gesdd", "gesvd"])
    elif kind == "l2":
        lam = float(smax * 10.0 ** rng.uniform(-2, 1))
        if not under and rng.random() < 0.2:
            lam = 0.0
        if rng.random() < 0.2:
            lam = gen.pick(rng, [int(np.ceil(lam)) or 1, np.float64(lam or 1)])
        s["regularizer"] = s["dense"] = lam
        s["lapack_driver"] = gen.pick(rng, ["gesdd", "gesvd"])
    elif kind == "l2dec":
        lam = smax * 10.0 ** rng.uniform(-2, 1, r)
        if not under and rng.random() < 0.3:
            lam[int(rng.integers(r))] = 0.0
        f = gen.pick(rng, ["array", "list", "ints"])
        if f == "ints":
            lam = np.ceil(lam).astype(int) + 1
        s["regularizer"] = list(lam) if f == "list" else lam
        s["dense"] = np.array(lam, dtype=float)
        s["lapack_driver"] = gen.pick(rng, ["gesdd", "gesvd"])
    elif kind in ("tik", "tikdec"):
        s["method"] = gen.pick(rng, ["lstsq", "normal"])
        s["lapack_driver"] = gen.pick(rng, [None, None, "gelsy", "gelsd"])
        forms = ["diag", "list", "matrix", "full", "sparse"]
        if not under:
            forms += ["zeros"]
        sc = smax * 10.0 ** rng.uniform(-2, 1)
        if kind == "tik":
            g, s["dense"], s["form"] = gamma(rng, d, gen.pick(rng, forms), sc)
            s["regularizer"] = g
        else:
            gs = [gamma(rng, d, gen.pick(rng, forms), sc) for _ in range(r)]
            s["regularizer"] = [g[0] for g in gs]
            s["dense"] = [g[1] for g in gs]
            s["form"] = ",".join(g[2] for g in gs)
    else:
        s["lapack_driver"] = gen.pick(rng, ["gesdd", "gesvd"])
    return s


ARGS = ("cond", "lapack_driver", "num_svdmodes", "regularizer", "method")


def build(s):
    return CLS[s["kind"]](**{a: s[a] for a in ARGS if a in s})


def gammas(s, d, r):
    """Dense regularization matrix of every row (None without)."""
    kind = s["kind"]
    if kind == "l2":
        return [s["dense"] * np.eye(d)] * r
    if kind == "l2dec":
        return [x * np.eye(d) for x in s["dense"]]
    if kind == "tik":
        return [s["dense"]] * r
    if kind == "tikdec":
        return list(s["dense"])
    return None


def nmodes(s, k, d):
    m = min(k, d)
    n = s["num_svdmodes"]
    return m if n is None else (n if n > 0 else m + n)


def reference(s, D, Z):
    """Solution from an independent formula."""
    D = np.asarray(D, dtype=float)
    Z = np.atleast_2d(np.asarray(Z, dtype=float))
    k, d = D.shape
    r = Z.shape[0]
    kind = s["kind"]
    if kind == "plain":
        return np.linalg.lstsq(D, Z.T, rcond=None)[0].T
    if kind == "tsvd":
        n = nmodes(s, k, d)
        lam, V = np.linalg.eigh(D.T @ D)
        V = V[:, ::-1][:, :n]
        DV = D @ V
        c = np.linalg.lstsq(DV, Z.T, rcond=None)[0]
        return (V @ c).T
    if kind == "tls":
        A = np.hstack((D, Z.T))
        _, V = np.linalg.eigh(A.T @ A)
        W = V[:, :r]  # smallest
        return -np.linalg.solve(W[d:].T, W[:d].T)
    out = np.empty((r, d))
    for i, G in enumerate(gammas(s, d, r)):
        A = np.vstack((D, G))
        b = np.concatenate((Z[i], np.zeros(d)))
        out[i] = np.linalg.lstsq(A, b, rcond=None)[0]
    return out


def system_cond(s, D, Z):
    D = np.asarray(D, dtype=float)
    Z = np.atleast_2d(np.asarray(Z, dtype=float))
    k, d = D.shape
    if s["kind"] in ("plain", "tsvd"):
        sv = np.linalg.svd(D, compute_uv=False)
        if s["kind"] == "tsvd":
            n = nmodes(s, k, d)
            gap = (sv[0] / max(sv[n - 1] - sv[n], 1e-300)
                   if n < len(sv) else 1.0)
            return max(sv[0] / sv[n - 1], gap) ** 2
        return sv[0] / sv[-1]
    if s["kind"] == "tls":
        sv = np.linalg.svd(np.hstack((D, Z.T)), compute_uv=False)
        gap = sv[0] / max(sv[d - 1] - sv[d], 1e-300)
        return gap ** 2 * max(1.0, np.abs(reference(s, D, Z)).max()) ** 2
    c = max(np.linalg.cond(np.vstack((D, G)))
            for G in gammas(s, d, Z.shape[0]))
    return c ** 2
