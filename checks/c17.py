"""C17: parametric operators evaluate to the right operator."""
import warnings

import numpy as np
import opinf
import scipy.interpolate as si
import scipy.sparse as sparse
from scipy.spatial import Delaunay

from rv import gen, opgen as og
from rv.core import Check

O = opinf.operators
CHECK = Check(
    "C17",
    "A case builds an affine operator (coefficients as list of callables, "
    "one callable, or an integer; scalar or vector parameters) or an "
    "interpolatory operator (1-D or 2-D parameters in any order, several "
    "interpolator classes, entries given as list, array, stacked block, or "
    "operators) and drives a history of evaluate / apply / set_entries / "
    "copy / set_interpolator calls; each result is compared with the sum of "
    "terms or with entry-wise scalar interpolation written independently.",
    require=["affine-evaluate", "affine-apply", "affine-block",
             "affine-datablock", "affine-dimension", "affine-history",
             "interp-at-training", "interp-between", "interp-apply",
             "interp-permuted", "interp-block", "interp-datablock",
             "interp-2d", "interp-outside", "interp-class", "interp-history",
             "interp-from-operators", "interp-vector-parameter",
             "wrong-parameter", "independent", "int-coeffs", "vector-params",
             "sparse-affine", "dims", "equality",
             "one-dimensional"])


def arr(e):
    return e.toarray() if sparse.issparse(e) else np.asarray(e)


def asE(op, kd):
    e = arr(op.entries)
    return e.reshape(-1, 1) if kd == "c" else e


def dimsof(rng, kd):
    r = int(rng.integers(1, dict(H=6, G=4).get(kd, 8) + 1))
    return r, int(rng.integers(1, 4))


def give(rng, kd, Es):
    """Entries of all terms as the user may pass them."""
    out = [give1(rng, kd, E) for E in Es]
    if len({np.shape(x) for x in out}) > 1:
        out = [E if kd != "c" else E[:, 0] for E in Es]
    return out


def give1(rng, kd, E):
    if kd == "c":
        return E[:, 0].copy() if rng.random() < .7 else E.copy()
    if kd in "HG" and rng.random() < .3:
        return og.expand(kd, E.astype(float), rng)
    if kd == "B" and E.shape[1] == 1 and E.shape[0] > 1 \
            and rng.random() < .5:
        return E[:, 0].copy()
    return gen.layout(rng, E)


def checkeval(ctx, rng, op, kd, mu, E, r, m, rule, lab, tol=1e-12):
    ev = op.evaluate(mu)
    s = np.abs(E).max() + 1e-300
    ctx.ok(type(ev) is og.KINDS[kd][0], rule, f"{lab} {type(ev)}")
    ctx.close(asE(ev, kd), E, rule, rtol=tol, msg=lab,
              scale=max(s, getattr(op, "_rv_scale", 0)))
    q, u = rng.standard_normal(r), rng.standard_normal(m)
    uses = og.KINDS[kd][2]
    a = op.apply(mu, q, u if uses else None)
    b = ev.apply(q, u if uses else None)
    ctx.close(a, b, rule.split("-")[0] + "-apply", rtol=1e-13, msg=lab,
              atol=1e-300)
    ref = og.value(kd, E, q, u)
    t = 100 * tol * max(og.value(kd, np.full(E.shape, max(
        s, getattr(op, "_rv_scale", 0))), np.abs(q), np.abs(u)).max(), 1e-300)
    ctx.close(np.reshape(a, ref.shape), ref, rule.split("-")[0] + "-apply",
              atol=t, rtol=0, msg=lab)
    k = int(rng.integers(1, 4))
    Q, U = rng.standard_normal((r, k)), rng.standard_normal((m, k))
    ctx.close(op.apply(mu, Q, U if uses else None),
              ev.apply(Q, U if uses else None),
              rule.split("-")[0] + "-apply", rtol=1e-13, atol=1e-300,
              msg=lab)
    return ev


def snaps(rng, r, m, s):
    ks = rng.integers(1, 7, s)
    Q = [gen.layout(rng, rng.standard_normal((r, k))) for k in ks]
    U = [gen.layout(rng, rng.standard_normal((m, k))) for k in ks]
    return Q, U


def flat(ctx, rng, Q, r):
    """Sometimes hand one-row data over as one-dimensional arrays."""
    if r > 1 or rng.random() < .4:
        return Q
    ctx.ev("one-dimensional")
    return [x[0] if rng.random() < .8 else x for x in Q]


def coefficients(rng, A, vec):
    """A affine coefficient functions of scalars or 2-vectors."""
    if vec:
        bank = [lambda mu: mu[0], lambda mu: mu[1] ** 2 - mu[0],
                lambda mu: 1.0, lambda mu: np.sin(mu[0] * mu[1]),
                lambda mu: float(np.dot(mu, mu))]
    else:
        bank = [lambda mu: mu, lambda mu: mu**2 - 1, lambda mu: 1.0,
                np.sin, lambda mu: 1 / (2 + mu)]
    idx = rng.choice(len(bank), A, replace=False)
    return [bank[j] for j in idx]


@CHECK.family(quick=500, thorough=12000)
def affine(ctx, rng, i):
    kd = list(og.AFF)[i % 6]
    r, m = dimsof(rng, kd)
    A = int(rng.integers(1, 5))
    form = gen.pick(rng, ["list", "list", "tuple", "callable", "int"])
    vec = bool(rng.random() < .5)
    sparse_ = kd == "A" and rng.random() < .25
    if form == "int":
        vec = A > 1
        fs = [(lambda mu, j=j: np.atleast_1d(mu)[j]) for j in range(A)]
        coeffs, kw = A, {}
        p = A
        ctx.ev("int-coeffs")
    else:
        fs = coefficients(rng, A, vec)
        p = 2 if vec else 1
        coeffs, kw = (list(fs) if form == "list" else tuple(fs)), {}
        if form == "callable":
            kind = gen.pick(rng, ["array", "list", "tuple"])
            wrap = dict(array=np.array, list=list, tuple=tuple)[kind]
            coeffs = (lambda mu: wrap([f(mu) for f in fs]))
            kw = dict(nterms=A)
            if A == 1 and rng.random() < .5:
                coeffs = fs[0]
    if vec:
        ctx.ev("vector-params")

    def param():
        if p == 1 and not vec:
            mu = float(rng.uniform(0, 2))
            return np.array([mu]) if form == "int" and rng.random() < .4 \
                else mu
        return rng.uniform(0, 2, p)

    def expect(mu, Es):
        return sum(np.ravel(f(mu))[0] * E for f, E in zip(fs, Es))

    def fresh():
        return [og.entries(rng, kd, r, m, 10.0 ** rng.uniform(-1, 1),
                           ints=rng.random() < .15) for _ in range(A)]
    lab = f"{kd} r={r} m={m} A={A} {form} vec={vec}"
    ctx.note(kind=kd, r=r, m=m, A=A, form=form, vec=vec, sparse=sparse_)
    Es = fresh()
    cls = og.AFF[kd]
    g = [sparse.csr_array(E) for E in Es] if sparse_ else give(rng, kd, Es)
    how = gen.pick(rng, ["init", "set", "block", "initblock"])
    if sparse_ and "block" in how:
        how = "init"
    block = np.hstack(Es)
    if how == "init":
        op = cls(coeffs, entries=g, **kw)
    elif how == "initblock":
        op = cls(coeffs, entries=block, fromblock=True, **kw)
    else:
        op = cls(coeffs, **kw)
        if how == "set":
            op.set_entries(g)
        else:
            op.set_entries(block, fromblock=True)
    if "block" in how:
        ctx.ev("affine-block")
    if sparse_:
        ctx.ev("sparse-affine")
    ctx.ok(op.nterms == A and op.state_dimension == r and op.shape == (
        (r,) if kd == "c" else (r, og.ncols(kd, r, m))), "dims",
        f"{lab} {op.shape}")
    if og.KINDS[kd][2]:
        ctx.ok(op.input_dimension == m, "dims", lab)
    for _ in range(3):
        mu = param()
        sc = sum(np.abs(np.ravel(f(mu))[0]) * np.abs(E).max()
                 for f, E in zip(fs, Es))
        op._rv_scale = sc
        ev = checkeval(ctx, rng, op, kd, mu, expect(mu, Es), r, m,
                       "affine-evaluate", lab)
        if not sparse.issparse(ev.entries):  # result does not alias the terms
            ev.entries[...] = 9
            ev2 = op.evaluate(mu)
            ctx.close(asE(ev2, kd), expect(mu, Es), "independent",
                      rtol=1e-12, scale=sc + 1e-300, msg=lab)
    ctx.ok(op.parameter_dimension == p, "dims", lab)
    with ctx.raises((ValueError, IndexError), "wrong-parameter", lab):
        op.evaluate(rng.uniform(0, 2, p + 1))
    # data block
    s = int(rng.integers(1, 5))
    mus = [param() for _ in range(s)]
    Q, U = snaps(rng, r, m, s)
    uses = og.KINDS[kd][2]
    D = op.datablock(mus, flat(ctx, rng, Q, r),
                     flat(ctx, rng, U, m) if uses else None)
    tot = sum(x.shape[1] for x in Q)
    ctx.ok(D.shape == (A * og.ncols(kd, r, m), tot)
           and op.operator_dimension(s, r, m) == D.shape[0],
           "affine-dimension", f"{lab} {D.shape}")
    ref = np.hstack([og.batch(kd, expect(mu, Es), Qi, Ui)
                     for mu, Qi, Ui in zip(mus, Q, U)])
    tol = 1e-11 * np.abs(ref).max() + 1e-10 * sc
    ctx.close(block @ D, ref, "affine-datablock", atol=tol, rtol=0, msg=lab)
    # stacked entries -> operator -> terms
    two = cls(coeffs, entries=block, fromblock=True, **kw)
    for a, E in zip(two.entries, Es):
        ctx.close(arr(a).reshape(E.shape), E, "affine-block", rtol=0,
                  msg=lab)
    # history
    c = op.copy()
    Es2 = fresh()
    op.set_entries(give(rng, kd, Es2))
    mu = param()
    for o, X in [(op, Es2), (c, Es)]:
        o._rv_scale = sum(np.abs(np.ravel(f(mu))[0]) * np.abs(E).max()
                          for f, E in zip(fs, X))
        checkeval(ctx, rng, o, kd, mu, expect(mu, X), r, m,
                  "affine-evaluate", lab + " history")
    ctx.ev("affine-history")
    ctx.ok(c.parameter_dimension == p and c.nterms == A, "dims", lab)
    if not sparse_:
        c.entries[0][...] = 5.0
        ctx.close(asE(op.evaluate(mu), kd), expect(mu, Es2), "independent",
                  rtol=1e-11, scale=op._rv_scale + 1e-300, msg=lab)


IC1 = [None, None, None, si.CubicSpline, si.PchipInterpolator,
       si.Akima1DInterpolator, si.BarycentricInterpolator,
       si.KroghInterpolator]
IC2 = [None, None, None, si.LinearNDInterpolator, si.NearestNDInterpolator]


def points(rng, p, sortit, s=None):
    if p == 1:
        s = s or int(rng.integers(2, 8))
        mus = np.arange(s) + rng.uniform(0, .8, s)
        mus = mus * 10.0 ** rng.uniform(-1, 1) - rng.uniform(0, 3)
        return mus if sortit else rng.permutation(mus)
    s = s or int(rng.integers(p + 2, 9))
    while True:  # avoid slivers, where SciPy's point location fails
        x = rng.uniform(-1, 1, (s, p))
        tri = Delaunay(x).simplices
        vol = [abs(np.linalg.det(x[t[1:]] - x[t[0]])) for t in tri]
        if min(vol) > 0.03:
            return x
        s = max(p + 2, s - (rng.random() < .3))


def inside(rng, mus):
    """A parameter inside the convex hull / interval."""
    if mus.ndim == 1:
        return float(rng.uniform(mus.min(), mus.max()))
    w = rng.dirichlet(np.ones(len(mus)))
    return w @ mus


def reference(IC, mus, Es, mu):
    """Interpolate every matrix entry on its own."""
    if mus.ndim == 1:
        o = np.argsort(mus)
        IC = IC or si.CubicSpline
        f = [IC(mus[o], np.array([E.ravel()[j] for E in Es], float)[o])
             for j in range(Es[0].size)]
        v = [float(np.ravel(g(mu))[0]) for g in f]
    else:
        IC = IC or si.LinearNDInterpolator
        v = [float(np.ravel(IC(mus, np.array([E.ravel()[j] for E in Es],
                                             float))(mu))[0])
             for j in range(Es[0].size)]
    return np.array(v).reshape(Es[0].shape)


@CHECK.family(quick=400, thorough=9000)
def interpolatory(ctx, rng, i):
    kd = list(og.INT)[i % 6]
    r, m = dimsof(rng, kd)
    if kd in "HG":
        r = min(r, 4)
    p = gen.pick(rng, [1, 1, 2, 2, 3])
    IC = gen.pick(rng, IC1 if p == 1 else IC2)
    mus = points(rng, p, IC is not None)
    s = len(mus)
    if IC is si.Akima1DInterpolator and s < 3:
        IC = None
    cls = og.INT[kd]

    def fresh():
        return [og.entries(rng, kd, r, m, 10.0 ** rng.uniform(-1, 1),
                           ints=rng.random() < .1) for _ in range(s)]
    Es = fresh()
    how = gen.pick(rng, ["init", "array", "set", "block",
                         "initblock", "operators", "column"])
    icname = None if IC is None else IC.__name__
    lab = f"{kd} r={r} m={m} p={p} s={s} {icname} {how}"
    ctx.note(kind=kd, r=r, m=m, p=p, s=s, ic=icname, how=how)
    g = give(rng, kd, Es)
    block = np.hstack(Es)
    kw = dict(InterpolatorClass=IC)
    given = mus if p > 1 or rng.random() < .6 else list(mus)
    if how == "init":
        op = cls(given, entries=g, **kw)
    elif how == "array":
        op = cls(given, entries=np.array(g), **kw)
    elif how == "initblock":
        op = cls(given, entries=block, fromblock=True, **kw)
    elif how == "operators":
        op = cls._from_operators(given, [og.KINDS[kd][0](x) for x in g],
                                 **kw)
        ctx.ev("interp-from-operators")
    elif how == "column" and p == 1:
        op = cls(mus[:, None], entries=g, **kw)
        ctx.ev("interp-vector-parameter")
    else:
        op = cls(**kw)
        op.set_training_parameters(given)
        if how == "block":
            op.set_entries(block, fromblock=True)
        else:
            op.set_entries(g)
    if "block" in how:
        ctx.ev("interp-block")
    if IC is not None:
        ctx.ev("interp-class")
    if p > 1:
        ctx.ev("interp-2d")
    ctx.ok(op.state_dimension == r and op.parameter_dimension == p
           and op.shape == ((r,) if kd == "c" else (r, og.ncols(kd, r, m))),
           "dims", lab)
    if og.KINDS[kd][2]:
        ctx.ok(op.input_dimension == m, "dims", lab)
    ctx.equal(np.asarray(op.training_parameters), mus, "dims", lab)
    sc = max(np.abs(E).max() for E in Es) + 1e-300
    tol = 1e-9
    op._rv_scale = sc

    def at(o, Xs, ic, n=2):
        o._rv_scale = max(np.abs(E).max() for E in Xs) + 1e-300
        for j in rng.permutation(s)[:n]:
            mu = mus[j]
            if p == 1 and rng.random() < .3:
                mu = np.array([mu])
            checkeval(ctx, rng, o, kd, mu, Xs[j].astype(float), r, m,
                      "interp-at-training", lab, tol)
        # anywhere between the training parameters, and close to one of them
        near = mus[rng.integers(s)]
        eps = 10.0 ** rng.uniform(-7, -1)
        todo = [inside(rng, mus), (1 - eps) * near + eps * mus.mean(0)]
        if p == 1:  # outside the training range the interpolant continues
            w = np.ptp(mus) * 10.0 ** rng.uniform(-3, -.5)
            todo.append(float(mus.min() - w if rng.integers(2) else
                              mus.max() + w))
            ctx.ev("interp-outside")
        for mu in todo:
            ref = reference(ic, mus, Xs, mu)
            if not np.isfinite(ref).all():
                continue
            o._rv_scale = max(o._rv_scale, np.abs(ref).max())
            checkeval(ctx, rng, o, kd, mu, ref, r, m, "interp-between", lab,
                      tol)
    at(op, Es, IC, 3)
    with ctx.raises((ValueError, IndexError), "wrong-parameter", lab):
        op.evaluate(rng.uniform(0, 1, p + 1))
    # construction in another order
    perm = rng.permutation(s)
    if IC is None:
        o2 = cls(mus[perm], entries=[g[j] for j in perm])
        mu = inside(rng, mus)
        a, b = asE(op.evaluate(mu), kd), asE(o2.evaluate(mu), kd)
        if np.isfinite(a).all():
            ctx.close(b, a, "interp-permuted", rtol=1e-7,
                      scale=max(sc, np.abs(a).max()), msg=lab)
        for j in range(s):
            ctx.close(asE(o2.evaluate(mus[j]), kd), Es[j], "interp-permuted",
                      rtol=tol, scale=sc, msg=lab)
    # data block
    Q, U = snaps(rng, r, m, s)
    uses = og.KINDS[kd][2]
    D = cls.datablock(mus, flat(ctx, rng, Q, r),
                      flat(ctx, rng, U, m) if uses else None)
    tot = sum(x.shape[1] for x in Q)
    ctx.ok(D.shape == (s * og.ncols(kd, r, m), tot)
           and cls.operator_dimension(s, r, m) == D.shape[0],
           "interp-datablock", f"{lab} {D.shape}")
    stack = np.hstack([arr(E).reshape(r, -1) for E in op.entries])
    ref = np.hstack([og.batch(kd, E, Qi, Ui) for E, Qi, Ui in zip(Es, Q, U)])
    ctx.close(stack @ D, ref, "interp-datablock", rtol=1e-11,
              atol=1e-10 * sc, msg=lab)
    # history
    c = op.copy()
    Es2 = fresh()
    op.set_entries([E if kd != "c" else E[:, 0] for E in Es2])
    at(op, Es2, IC)
    at(c, Es, IC)
    ctx.ok(c == op if all(np.allclose(a, b) for a, b in zip(Es, Es2))
           else c != op, "equality", lab)
    if p == 1 and s >= 3 and np.all(np.diff(mus) > 0):
        new = gen.pick(rng, IC1)
        op.set_interpolator(new)
        at(op, Es2, new)
        at(c, Es, IC)
    elif p > 1:
        new = gen.pick(rng, IC2)
        op.set_interpolator(new)
        at(op, Es2, new)
        at(c, Es, IC)
    ctx.ev("interp-history")
    d = op.copy()
    ctx.ok(d == op, "equality", lab)
    if not sparse.issparse(c.entries):
        e = np.array(op.entries, copy=True)
        c.entries[...] = 3
        ctx.equal(np.asarray(op.entries), e, "independent", lab)
    # other parameters after clearing
    if rng.random() < .5:
        op._clear()
        p2 = gen.pick(rng, [1, 2]) if IC is None and op_default(op) else p
        mus2 = points(rng, p2, True)
        if p2 == 1 and len(mus2) < 3:
            return
        op.set_training_parameters(mus2)
        X = [og.entries(rng, kd, r, m) for _ in mus2]
        op.set_entries([E if kd != "c" else E[:, 0] for E in X])
        for j in range(len(mus2)):
            ctx.close(asE(op.evaluate(mus2[j]), kd), X[j], "interp-history",
                      rtol=tol, scale=max(np.abs(E).max() for E in X)
                      + 1e-300, msg=lab + " cleared")


def op_default(op):
    return "None" in str(op).split("type(interpolator):")[1].split("\n")[0]


@CHECK.family(quick=60, thorough=800)
def mistakes(ctx, rng, i):
    """Inconsistent constructions are rejected."""
    kd = list(og.AFF)[i % 6]
    r, m = dimsof(rng, kd)
    E = [og.entries(rng, kd, r, m) for _ in range(4)]
    E = [e[:, 0] if kd == "c" else e for e in E]
    ctx.note(kind=kd, r=r, m=m)
    with ctx.raises(ValueError, "wrong-parameter"):
        og.AFF[kd]([np.sin, np.cos, np.exp], entries=E)
    with ctx.raises(ValueError, "wrong-parameter"):
        og.INT[kd]([1., 2., 3.], entries=E)
    with ctx.raises(ValueError, "wrong-parameter"):
        og.AFF[kd](lambda x: x)
    op = og.INT[kd]([1., 2., 3., 5.], entries=E)
    with ctx.raises(AttributeError, "wrong-parameter"):
        op.set_training_parameters([2., 3., 4., 5.])
    with ctx.raises(AttributeError, "wrong-parameter"):
        og.INT[kd]().set_entries(E)
    with ctx.raises(AttributeError, "wrong-parameter"):
        og.AFF[kd]([np.sin, np.cos]).evaluate(1.0)
    a = og.AFF[kd]([np.sin] * 4, entries=E)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with ctx.raises(ValueError, "wrong-parameter"):
            a.set_entries(E[:3])
    bad = list(E)
    bad[2] = og.entries(rng, kd, r + 1, m)
    bad[2] = bad[2][:, 0] if kd == "c" else bad[2]
    with ctx.raises(ValueError, "wrong-parameter"):
        a.set_entries(bad)
    # and the object still holds its previous entries
    ctx.close(asE(a.evaluate(0.7), kd), np.sin(.7) * sum(
        x.reshape(r, -1) for x in E), "wrong-parameter", rtol=1e-11,
        scale=4 * max(np.abs(x).max() for x in E) + 1e-300)
