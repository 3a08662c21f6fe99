"""Operators with random entries and reference evaluations."""
import itertools

import numpy as np
import opinf
import scipy.sparse as sparse

from rv import gen

O = opinf.operators
# letter -> (class, polynomial degree in state, uses inputs)
KINDS = dict(
    c=(O.ConstantOperator, 0, False), A=(O.LinearOperator, 1, False),
    H=(O.QuadraticOperator, 2, False), G=(O.CubicOperator, 3, False),
    Q=(O.QuarticOperator, 4, False), B=(O.InputOperator, 0, True),
    N=(O.StateInputOperator, 1, True))
AFF = dict(c=O.AffineConstantOperator, A=O.AffineLinearOperator,
           H=O.AffineQuadraticOperator, G=O.AffineCubicOperator,
           B=O.AffineInputOperator, N=O.AffineStateInputOperator)
INT = dict(c=O.InterpConstantOperator, A=O.InterpLinearOperator,
           H=O.InterpQuadraticOperator, G=O.InterpCubicOperator,
           B=O.InterpInputOperator, N=O.InterpStateInputOperator)


def monomials(r, p):
    """Multi-indices i >= j >= k ... of the compressed Kronecker product."""
    return [t for t in itertools.product(range(r), repeat=p)
            if all(a >= b for a, b in zip(t, t[1:]))]


def ncols(kind, r, m):
    if kind == "c":
        return 1
    if kind == "B":
        return m
    if kind == "N":
        return r * m
    return len(monomials(r, KINDS[kind][1]))


def block(kind, q, u):
    """Reference data vector d(q, u) for one state/input (1-D arrays)."""
    q = np.asarray(q)
    if kind == "c":
        return np.ones(1)
    if kind == "B":
        return np.asarray(u)
    if kind == "N":
        return np.array([uj * qi for uj in u for qi in q])
    return np.array([np.prod(q[list(t)]) for t in
                     monomials(len(q), KINDS[kind][1])])


def value(kind, E, q, u):
    """Reference evaluation for one state; E is (r, ncols)."""
    return E @ block(kind, q, u)


def batch(kind, E, Q, U):
    k = Q.shape[1]
    return np.array([value(kind, E, Q[:, j], None if U is None else U[:, j])
                     for j in range(k)]).T.reshape(E.shape[0], k)


def jac(kind, E, q, u):
    """Derivative of value() in q by complex steps (machine precision)."""
    r = len(q)
    J = np.empty((r, r))
    for j in range(r):
        z = np.asarray(q, complex).copy()
        z[j] += 1e-30j
        J[:, j] = np.imag(value(kind, E.astype(complex), z,
                                None if u is None else np.asarray(
                                    u, complex))) / 1e-30
    return J


def expand(kind, E, rng=None):
    """A full (r, r^p) form with the same evaluation: the coefficient of
    each monomial is spread over the permutations (unevenly with rng)."""
    p = KINDS[kind][1]
    r = E.shape[0]
    idx = {}
    for c, t in enumerate(monomials(r, p)):
        perms = sorted(set(itertools.permutations(t)))
        w = np.full(len(perms), 1 / len(perms))
        if rng is not None:
            w = rng.standard_normal(len(perms))
            w += (1 - w.sum()) / len(w)
        for a, pm in zip(w, perms):
            idx[pm] = (c, a)
    F = np.zeros((r,) + (r,) * p)
    for pm, (c, a) in idx.items():
        F[(slice(None),) + pm] = a * E[:, c]
    return F.reshape(r, r**p)


def entries(rng, kind, r, m, scale=None, ints=False):
    n = ncols(kind, r, m)
    if ints:
        return rng.integers(-4, 5, (r, n))
    s = 1.0 if scale is None else scale
    E = s * rng.standard_normal((r, n))
    E[rng.random(E.shape) < 0.15] = 0
    return E


FORMS = dict(
    c=["vec", "col", "row", "sparse"], A=["dense", "sparse", "coo"],
    H=["dense", "full", "tensor"], G=["dense", "full", "tensor"],
    Q=["dense", "full", "tensor"], B=["dense", "vec"], N=["dense"])


def given(rng, kind, E, form=None):
    """Entries as a user may pass them; (passed object, form)."""
    r = E.shape[0]
    form = form or gen.pick(rng, FORMS[kind] + (["scalar", "one"] if E.size
                                                == 1 else []))
    if form == "scalar" and E.size == 1:
        return E[0, 0].item(), form
    if form == "one" and E.size == 1:
        return E[0], form
    if kind == "c":
        v = E[:, 0]
        if form == "vec":
            return gen.layout(rng, v), form
        if form == "col":
            return v[:, None].copy(), form
        if form == "row":
            return v[None, :].copy(), form
        return sparse.csr_array(v[:, None]), form
    if kind == "A" and form == "sparse":
        return sparse.csr_array(E), form
    if kind == "A" and form == "coo":
        return sparse.coo_array(E), form
    if kind in "HGQ" and form in ("full", "tensor"):
        F = expand(kind, E, rng)
        if form == "tensor":
            F = F.reshape((r,) * (KINDS[kind][1] + 1))
        return F, form
    if kind == "B" and form == "vec" and E.shape[1] == 1 and r > 1:
        return E[:, 0].copy(), form
    return gen.layout(rng, E), "dense"


def make(rng, kind, r, m, scale=None):
    """(operator, reference entries (r, ncols), form)."""
    ints = rng.random() < 0.15
    E = entries(rng, kind, r, m, scale, ints)
    g, form = given(rng, kind, E)
    if form in ("full", "tensor"):
        E = E.astype(float)
    return KINDS[kind][0](g), E, form + ("-int" if ints else "")


def dense(op):
    e = op.entries
    return e.toarray() if sparse.issparse(e) else np.asarray(e)
