"""C16: Galerkin projection commutes with evaluation."""
import numpy as np
import opinf
import scipy.sparse as sparse

from rv import gen, opgen as og
from rv.core import Check

O = opinf.operators
M = opinf.models
CHECK = Check(
    "C16",
    "A case builds operators or models (nonparametric with any entry form, "
    "affine, interpolatory; discrete, continuous, steady, parametric) and "
    "bases (orthonormal, general, biorthonormal, Petrov-Galerkin, square, "
    "one-dimensional) and compares the projected object at random reduced "
    "states, inputs and parameters with solve(W'V, W' f(Vq, u)) computed "
    "from an independent evaluation of the original.",
    require=["op-projection", "affine-projection", "interp-projection",
             "model-projection", "param-model-projection", "class-kept",
             "original-unchanged", "uncalibrated-kept", "petrov", "general",
             "square", "one-dimensional", "biorthonormal", "dimensions",
             "misaligned", "commutes-with-data", "sparse", "chain",
             "operators-not-shared", "nearly-biorthonormal"])
BASES = ["orth", "general", "petrov-orth", "petrov-general", "biorth",
         "square", "subset", "one", "signed", "oblique", "permuted", "near"]


def bases(rng, n):
    kind = gen.pick(rng, BASES)
    r = int(rng.integers(1, n + 1))
    if kind == "square":
        r = n
    if kind == "one":
        r = 1
    V = gen.orth(rng, n, r)
    W = None
    if kind in ("general", "one", "petrov-general", "square"):
        V = V @ (np.eye(r) * rng.uniform(0.5, 2, r)
                 + 0.3 * np.triu(rng.standard_normal((r, r)), 1))
        V *= rng.uniform(1.2, 2)
    if kind == "subset":
        V = np.eye(n)[:, rng.choice(n, r, replace=False)]
    if kind == "petrov-orth":
        W = gen.orth(rng, n, r)
        while r and abs(np.linalg.svd(W.T @ V)[1].min()) < 0.1:
            W = gen.orth(rng, n, r) + V
    if kind == "petrov-general" or (kind in ("square", "one")
                                    and rng.random() < .5):
        W = V @ np.diag(rng.uniform(.5, 2, r)) + 0.2 * rng.standard_normal(
            (n, r))
    if kind == "biorth":
        W = V + 0.3 * rng.standard_normal((n, r))
        W = np.linalg.solve(V.T @ W, np.eye(r)).T @ W.T
        W = W.T
        if not np.allclose(W.T @ V, np.eye(r)):
            W = W @ np.linalg.inv(V.T @ W)
    if kind == "signed":
        W = V * rng.choice([-1.0, 1.0], r)
    if kind == "oblique":  # W'V has a unit diagonal, yet is no identity
        M_ = rng.uniform(-1, 1, (r, r))
        M_ = np.triu(M_, 1) if rng.random() < .5 else np.tril(M_, -1)
        W = V @ (np.eye(r) + M_)
    if kind == "near":   # nearly, not exactly, biorthonormal
        W = V + 10.0 ** rng.uniform(-4, -2) * rng.standard_normal((n, r))
    if kind == "permuted":
        W = V[:, rng.permutation(r)]
    Wt = V if W is None else W
    G = Wt.T @ V
    if np.linalg.cond(G) > 200:
        return bases(rng, n)
    # the code may round W'V ~ I to I: stay clear of the borderline
    dev = np.abs(G - np.eye(r)).max()
    if 1e-13 < dev < 5e-5:
        return bases(rng, n)
    return kind, gen.layout(rng, V), None if W is None else gen.layout(rng, W)


def left(V, W, z):
    W = V if W is None else W
    return np.linalg.solve(W.T @ V, W.T @ z)


def mark(ctx, kind, W, r, n):
    if W is not None:
        ctx.ev("petrov")
    if kind in ("general", "petrov-general"):
        ctx.ev("general")
    if kind == "near":
        ctx.ev("nearly-biorthonormal")
    if kind == "biorth":
        ctx.ev("biorthonormal")
    if r == n:
        ctx.ev("square")
    if r == 1:
        ctx.ev("one-dimensional")


def tol(kd, E, V, W, q, u):
    W = V if W is None else W
    G = np.abs(np.linalg.inv(W.T @ V)) @ np.abs(W.T)
    x = np.abs(V) @ np.abs(q)
    return 1e-10 * (G @ og.value(kd, np.abs(E).astype(float), x,
                                 np.abs(u))).max() + 1e-300


def snapshot(op):
    e = op.entries
    if isinstance(e, list):
        return [og_dense(x).copy() for x in e]
    return og_dense(e).copy()


def og_dense(e):
    return e.toarray() if sparse.issparse(e) else np.asarray(e)


def unchanged(ctx, op, before, lab):
    now = snapshot(op)
    if isinstance(before, list):
        for a, b in zip(now, before):
            ctx.equal(a, b, "original-unchanged", lab)
    else:
        ctx.equal(now, before, "original-unchanged", lab)


def dims(kd, n):
    return n if kd != "Q" else min(n, 4)


@CHECK.family(quick=500, thorough=14000)
def operators(ctx, rng, i):
    kd = list(og.KINDS)[i % 7]
    n = int(rng.integers(1, dict(H=8, G=6, Q=4).get(kd, 12) + 1))
    m = int(rng.integers(1, 5))
    kind, V, W = bases(rng, n)
    r = V.shape[1]
    mark(ctx, kind, W, r, n)
    op, E, form = og.make(rng, kd, n, m, 10.0 ** rng.uniform(-2, 2))
    if form.startswith(("sparse", "coo")):
        ctx.ev("sparse")
    lab = f"{kd} n={n} r={r} m={m} {form} {kind}"
    ctx.note(kind=kd, n=n, r=r, m=m, form=form, basis=kind)
    before = snapshot(op)
    V0 = V.copy()
    red = op.galerkin(V) if W is None and rng.random() < .5 \
        else op.galerkin(V, W)
    ctx.ok(type(red) is type(op) and red is not op, "class-kept", lab)
    ctx.ok(red.state_dimension == r, "dimensions", lab)
    if og.KINDS[kd][2]:
        ctx.ok(red.input_dimension == m, "dimensions", lab)
    q, u = rng.standard_normal(r), rng.standard_normal(m)
    ref = left(V, W, og.value(kd, E.astype(float), V @ q, u))
    ctx.close(np.reshape(red.apply(q, u), ref.shape) if r == 1 else
              red.apply(q, u), ref, "op-projection",
              atol=tol(kd, E, V, W, q, u), rtol=0, msg=lab)
    # many states at once
    k = int(rng.integers(2, 5))
    Q, U = rng.standard_normal((r, k)), rng.standard_normal((m, k))
    refs = np.column_stack([left(V, W, og.value(
        kd, E.astype(float), V @ Q[:, j], U[:, j])) for j in range(k)])
    t = max(tol(kd, E, V, W, Q[:, j], U[:, j]) for j in range(k))
    ctx.close(red.apply(Q, U), refs, "op-projection", atol=t, rtol=0,
              msg=lab)
    # entries of the projection times its data block
    D = type(op).datablock(Q, U)
    ctx.close(og_dense(red.entries).reshape(r, -1) @ D, refs,
              "commutes-with-data", atol=t, rtol=0, msg=lab)
    unchanged(ctx, op, before, lab)
    ctx.equal(V, V0, "original-unchanged", lab)
    # changing the reduced entries must not touch the original
    if not sparse.issparse(red.entries):
        red.entries[...] = 7
        unchanged(ctx, op, before, lab)
        ctx.ev("operators-not-shared")
    # projecting in two steps
    if r > 1 and kd != "Q":
        r2 = int(rng.integers(1, r + 1))
        V2 = gen.orth(rng, r, r2)
        two = op.galerkin(V, W).galerkin(V2)
        q2 = rng.standard_normal(r2)
        ref = left(V2, None, left(V, W, og.value(kd, E.astype(float),
                                                 V @ (V2 @ q2), u)))
        ctx.close(np.reshape(two.apply(q2, u), ref.shape), ref, "chain",
                  atol=10 * tol(kd, E, V, W, V2 @ q2, u) * r, rtol=0,
                  msg=lab)


def rand_op(rng, kd, how, n, m, mus):
    if how == "affine":
        fs = [np.cos, (lambda x: x**2), (lambda x: 1.0 + x)][
            :int(rng.integers(1, 4))]
        A = [og.entries(rng, kd, n, m) for _ in fs]
        g = [og.given(rng, kd, a, "dense" if kd != "c" else "vec")[0]
             for a in A]
        if kd == "A" and rng.random() < .3:
            g = [sparse.csr_array(a) for a in A]
        op = og.AFF[kd](fs, entries=g)
        return op, (lambda mu: sum(f(mu) * a for f, a in zip(fs, A)))
    if how == "interp":
        A0, A1 = [og.entries(rng, kd, n, m) for _ in range(2)]
        A = [A0 + x * A1 for x in mus]
        op = og.INT[kd](mus, entries=[
            a if kd != "c" else a[:, 0] for a in A])
        return op, (lambda mu: A0 + mu * A1)
    op, E, _ = og.make(rng, kd, n, m)
    return op, (lambda mu: E)


@CHECK.family(quick=300, thorough=8000)
def parametric_operators(ctx, rng, i):
    kd = list(og.AFF)[i % 6]
    how = ["affine", "interp"][(i // 6) % 2]
    n = int(rng.integers(1, dict(H=7, G=5).get(kd, 9) + 1))
    m = int(rng.integers(1, 4))
    kind, V, W = bases(rng, n)
    r = V.shape[1]
    mark(ctx, kind, W, r, n)
    mus = rng.permutation(np.arange(4) + rng.uniform(0, .9, 4))
    op, at = rand_op(rng, kd, how, n, m, mus)
    lab = f"{how} {kd} n={n} r={r} m={m} {kind}"
    ctx.note(how=how, kind=kd, n=n, r=r, m=m, basis=kind)
    before = snapshot(op)
    red = op.galerkin(V, W)
    ctx.ok(type(red) is type(op) and red is not op, "class-kept", lab)
    ctx.ok(red.state_dimension == r, "dimensions", lab)
    if og.KINDS[kd][2]:
        ctx.ok(red.input_dimension == m, "dimensions", lab)
    for mu in [float(rng.uniform(mus.min(), mus.max())), float(mus[0])]:
        E = at(mu)
        q, u = rng.standard_normal(r), rng.standard_normal(m)
        ref = left(V, W, og.value(kd, E, V @ q, u))
        out = red.apply(mu, q, u)
        ctx.close(np.reshape(out, ref.shape) if r == 1 else out, ref,
                  how + "-projection",
                  atol=10 * tol(kd, np.abs(E) + 5, V, W, q, u), rtol=0,
                  msg=lab)
    unchanged(ctx, op, before, lab)


@CHECK.family(quick=250, thorough=6000)
def models(ctx, rng, i):
    n, m = int(rng.integers(1, 5)), int(rng.integers(1, 4))
    kinds = [str(x) for x in rng.choice(list("cAHGQBN"), int(
        rng.integers(1, 6)), replace=False)]
    kind, V, W = bases(rng, n)
    r = V.shape[1]
    mark(ctx, kind, W, r, n)
    made = [og.make(rng, kd, n, m) for kd in kinds]
    ops = [x[0] for x in made]
    uses = any(og.KINDS[kd][2] for kd in kinds)
    cls = gen.pick(rng, [M.DiscreteModel, M.ContinuousModel] + (
        [] if uses else [opinf.models.mono._nonparametric.SteadyModel]))
    model = cls(ops)
    lab = "".join(kinds) + f" {cls.__name__} n={n} r={r} m={m} {kind}"
    ctx.note(kinds="".join(kinds), cls=cls.__name__, n=n, r=r, basis=kind)
    before = [snapshot(op) for op in model.operators]
    red = model.galerkin(V, W)
    ctx.ok(type(red) is cls and red is not model, "class-kept", lab)
    ctx.ok(red.state_dimension == r and
           [type(o) for o in red.operators] ==
           [type(o) for o in model.operators], "class-kept", lab)
    if uses:
        ctx.ok(red.input_dimension == m, "dimensions", lab)
    q, u = rng.standard_normal(r), rng.standard_normal(m)
    full = sum(og.value(kd, x[1].astype(float), V @ q, u)
               for kd, x in zip(kinds, made))
    t = sum(tol(kd, x[1], V, W, q, u) for kd, x in zip(kinds, made))
    ref = left(V, W, full)
    if cls is M.DiscreteModel:
        out = red.rhs(q, u if uses else None)
        org = model.rhs(V @ q, u if uses else None)
    elif cls is M.ContinuousModel:
        f = (lambda s: u * s) if uses else None
        out, org = red.rhs(1.0, q, f), model.rhs(1.0, V @ q, f)
    else:
        out, org = red.rhs(q), model.rhs(V @ q)
    ctx.close(np.reshape(out, ref.shape), ref, "model-projection", atol=t,
              rtol=0, msg=lab)
    ctx.close(np.reshape(out, ref.shape), left(V, W, np.ravel(org)),
              "model-projection", atol=t, rtol=0, msg=lab)
    for op, b in zip(model.operators, before):
        unchanged(ctx, op, b, lab)
    ctx.ok(model.state_dimension == n, "original-unchanged", lab)


@CHECK.family(quick=150, thorough=4000)
def parametric_models(ctx, rng, i):
    n, m = int(rng.integers(1, 5)), int(rng.integers(1, 4))
    kinds = [str(x) for x in rng.choice(list("cAHGBN"), int(
        rng.integers(1, 5)), replace=False)]
    kind, V, W = bases(rng, n)
    r = V.shape[1]
    mus = rng.permutation(np.arange(4) + rng.uniform(0, .9, 4))
    allint = rng.random() < .3
    hows = [("interp" if allint else gen.pick(
        rng, ["affine", "interp", "plain"])) for _ in kinds]
    if all(h == "plain" for h in hows):
        hows[0] = "affine"
    made = [rand_op(rng, kd, h, n, m, mus) for kd, h in zip(kinds, hows)]
    uses = any(og.KINDS[kd][2] for kd in kinds)
    cont = rng.random() < .5
    if allint:
        cls = M.InterpContinuousModel if cont else M.InterpDiscreteModel
    else:
        cls = M.ParametricContinuousModel if cont else \
            M.ParametricDiscreteModel
    model = cls([x[0] for x in made])
    lab = f"{cls.__name__} {kinds} {hows} n={n} r={r} m={m} {kind}"
    ctx.note(kinds=kinds, hows=hows, cls=cls.__name__, n=n, r=r, basis=kind)
    before = [snapshot(op) for op in model.operators]
    red = model.galerkin(V, W)
    ctx.ok(type(red) is cls, "class-kept", lab)
    mu = float(rng.uniform(mus.min(), mus.max()))
    q, u = rng.standard_normal(r), rng.standard_normal(m)
    Es = [at(mu) for _, at in made]
    ref = left(V, W, sum(og.value(kd, E.astype(float), V @ q, u)
                         for kd, E in zip(kinds, Es)))
    t = sum(10 * tol(kd, np.abs(E) + 5, V, W, q, u)
            for kd, E in zip(kinds, Es))
    if cont:
        out = red.rhs(1.0, mu, q, (lambda s: u * s) if uses else None)
    else:
        out = red.rhs(mu, q, u if uses else None)
    ctx.close(np.reshape(out, ref.shape), ref, "param-model-projection",
              atol=t, rtol=0, msg=lab)
    ev = red.evaluate(mu)
    out = ev.rhs(1.0, q, (lambda s: u * s) if uses else None) if cont else \
        ev.rhs(q, u if uses else None)
    ctx.close(np.reshape(out, ref.shape), ref, "param-model-projection",
              atol=t, rtol=0, msg=lab)
    for op, b in zip(model.operators, before):
        unchanged(ctx, op, b, lab)


@CHECK.family(quick=60, thorough=1200)
def edges(ctx, rng, i):
    n = int(rng.integers(2, 6))
    r = int(rng.integers(1, n))
    V = gen.orth(rng, n, r)
    op, E, _ = og.make(rng, gen.pick(rng, list("cAHB")), n, 2)
    new = gen.pick(rng, [O.LinearOperator, O.QuadraticOperator,
                         O.CubicOperator])()
    if type(new) is type(op):
        new = O.QuarticOperator()
    model = M.ContinuousModel([op, new])
    red = model.galerkin(V)
    lab = f"{type(op).__name__} {type(new).__name__} n={n} r={r}"
    ctx.note(op=type(op).__name__, new=type(new).__name__, n=n, r=r)
    ctx.ok(red.operators[1].entries is None
           and type(red.operators[1]) is type(new)
           and red.operators[1] is not model.operators[1]
           and model.operators[1].entries is None, "uncalibrated-kept", lab)
    ctx.ok(red.operators[0].state_dimension == r, "dimensions", lab)
    with ctx.raises((ValueError, opinf.errors.DimensionalityError),
                    "misaligned", lab):
        op.galerkin(gen.orth(rng, n + 1, r))
    with ctx.raises((ValueError, opinf.errors.DimensionalityError),
                    "misaligned", lab):
        op.galerkin(V, gen.orth(rng, n, r + 1))
    with ctx.raises(AttributeError, "misaligned", lab):
        new.galerkin(V)
