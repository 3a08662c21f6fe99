"""C14: operators, data blocks and full Kronecker forms agree."""
import numpy as np
import opinf

from rv import gen, opgen as og
from rv.core import Check

O = opinf.operators
CHECK = Check(
    "C14",
    "A case builds operators (every nonparametric type, dimensions, entry "
    "forms: compressed / full / tensor / scalar / sparse / integer) and "
    "compares evaluations for single states, batches, one-dimensional "
    "shortcuts, layouts and integer data with a term-by-term reference, "
    "with entries @ datablock, and with the full Kronecker form.",
    require=["apply-single", "apply-batch", "apply-1d-batch", "apply-scalar",
             "datablock", "datablock-rows", "entries@datablock",
             "full-kronecker", "compress-of-expand", "expand-eval",
             "ckron", "ckron-indices", "poly-apply", "poly-datablock",
             "poly-dimension", "input-1d", "entries-history", "add",
             "compress-linear", "model-rhs", "large-r",
             "patterns",
             "single-precision"])


def anysize(rng, kind=""):
    """A magnitude for entries."""
    return 10.0 ** (rng.uniform(-2, 2) if rng.random() < (
        .5 if kind == "A" else .75) else gen.pick(rng, [-14, -9, 9, 14]))


def inp(rng, m, k, ints=False):
    U = rng.standard_normal((m, k))
    return rng.integers(-3, 4, (m, k)) if ints else U


def exercise(ctx, rng, op, E, kind, r, m, lab):
    k = int(rng.integers(1, 9))
    ints = rng.random() < 0.2
    sc = 10.0 ** rng.uniform(-2, 2)
    Q = rng.integers(-5, 6, (r, k)) if ints else sc * rng.standard_normal(
        (r, k))
    U = inp(rng, m, k, ints and rng.random() < 0.5)
    if rng.random() < .4:      # patterns, often square
        if rng.random() < .6 or r == m:
            k = r if rng.random() < .5 else m
            Q = sc * rng.standard_normal((r, k))
            U = inp(rng, m, k)
        if rng.random() < .7:
            Q = gen.structured(rng, r, k)
        if rng.random() < .8:
            U = gen.structured(rng, m, k)
        ctx.ev("patterns")
    uses = og.KINDS[kind][2]
    ref = og.batch(kind, E, Q, U)
    tol = 1e-12 * max(np.abs(og.batch(kind, np.abs(E), np.abs(Q),
                                      np.abs(U))).max(), 1e-300)
    # data block
    D = op.datablock(gen.layout(rng, Q), gen.layout(rng, U) if uses else None)
    Dref = np.array([og.block(kind, Q[:, j], U[:, j])
                     for j in range(k)]).T.reshape(-1, k)
    ctx.close(D, Dref, "datablock", rtol=1e-12, msg=lab)
    ctx.ok(type(op).operator_dimension(r, m) == Dref.shape[0] ==
           og.ncols(kind, r, m), "datablock-rows", lab)
    ed = og.dense(op)
    ctx.close(ed.reshape(r, -1) @ D, ref, "entries@datablock", atol=tol,
              rtol=0, msg=lab)
    # batch
    for Ui in ([gen.layout(rng, U)] + ([U[0]] if m == 1 else [])
               if uses else [None, gen.layout(rng, U)]):
        if uses and m == 1 and Ui.ndim == 1:
            if k == 1 and r > 1 and kind == "B":
                continue  # one number is one input
            out = op.apply(gen.layout(rng, Q), Ui)
            ctx.close(np.reshape(out, ref.shape) if 1 in (k, r) else out, ref,
                      "input-1d", atol=tol, rtol=0, msg=lab)
            continue
        out = op.apply(gen.layout(rng, Q), Ui)
        ctx.close(out, ref, "apply-batch", atol=tol, rtol=0, msg=lab)
    # columns
    j = int(rng.integers(k))
    q, u = gen.layout(rng, Q[:, j]), gen.layout(rng, U[:, j])
    ctx.close(op.apply(q, u if uses or rng.random() < .5 else None),
              ref[:, j], "apply-single", atol=tol, rtol=0, msg=lab)
    if uses and m == 1:
        us = u[0] if rng.random() < 0.5 else u[0].item()
        out = op.apply(q, us)
        ctx.close(np.reshape(out, (1,)) if r == 1 else out, ref[:, j],
                  "input-1d", atol=tol, rtol=0,
                  msg=lab + " scalar input")
    # one-dimensional shortcuts (r = 1)
    if r == 1:
        Ui = None
        if uses:
            Ui = U[0] if m == 1 else U
        out = op.apply(Q[0], Ui)
        ctx.close(np.reshape(out, ref[0].shape), ref[0], "apply-1d-batch",
                  atol=tol, rtol=0, msg=lab)
        if kind not in "BN" or m == 1:
            out = op.apply(Q[0, j].item(), U[0, j].item() if uses else None)
            ctx.ok(np.size(out) == 1, "apply-scalar", lab)
            ctx.close(np.reshape(out, ()), ref[0, j], "apply-scalar",
                      atol=tol, rtol=0, msg=lab)
        D1 = op.datablock(Q[0], (U[0] if m == 1 else U) if uses else None)
        ctx.close(D1, Dref, "datablock", rtol=1e-12, msg=lab + " 1d")
    if uses and m == 1:
        D1 = op.datablock(Q, U[0])
        ctx.close(D1, Dref, "datablock", rtol=1e-12, msg=lab + " 1d input")
    # full Kronecker form
    p = og.KINDS[kind][1]
    if kind in "HGQ":
        F = type(op).expand_entries(ed)
        ctx.ok(F.shape == (r, r**p), "expand-eval", lab)
        K = Q[:, j].astype(float)
        for _ in range(p - 1):
            K = np.kron(K, Q[:, j])
        ctx.close(F @ K, ref[:, j], "expand-eval", atol=10 * tol, rtol=0,
                  msg=lab)
        ctx.close(type(op).compress_entries(F), ed, "compress-of-expand",
                  rtol=1e-12, msg=lab)
        F2 = og.expand(kind, E.astype(float), rng)
        ctx.close(F2 @ K, ref[:, j], "full-kronecker", rtol=0,
                  atol=tol * 1e2, msg="(reference)")
        op2 = type(op)(F2)
        t2 = tol * max(1.0, np.abs(F2).max() / max(np.abs(E).max(), 1e-300))
        ctx.close(op2.apply(q), ref[:, j], "full-kronecker", rtol=0,
                  atol=10 * t2, msg=lab)
        ctx.close(op2.entries, E, "full-kronecker", rtol=1e-9, msg=lab)
    elif kind == "N":
        ctx.close(ed @ np.kron(U[:, j], Q[:, j]), ref[:, j],
                  "full-kronecker", atol=tol, rtol=0, msg=lab)
    if kind != "c":
        ctx.ok(op.shape == ed.shape, "shape", lab)
    ctx.ok(op.state_dimension == r and (not uses or
                                        op.input_dimension == m),
           "dimensions", lab)


@CHECK.family(quick=700, thorough=22000)
def operators(ctx, rng, i):
    kind = list(og.KINDS)[i % 7]
    rmax = dict(H=7, G=5, Q=4).get(kind, 9)
    r = int(rng.integers(1, rmax + 1))
    m = int(rng.integers(1, 5))
    if kind in "BN" and rng.random() < .3:
        m = r = min(m, r)
    op, E, form = og.make(rng, kind, r, m, anysize(rng, kind))
    lab = f"{kind} r={r} m={m} {form}"
    ctx.note(kind=kind, r=r, m=m, form=form)
    exercise(ctx, rng, op, E, kind, r, m, lab)
    act = gen.pick(rng, ["set", "prop", "del", "copy", "add", "none"])
    if act in ("set", "prop", "del"):
        # use, then new entries, perhaps of other dimensions
        if kind not in "cB":
            op.jacobian(rng.standard_normal(r), rng.standard_normal(m))
        r2 = int(rng.integers(1, rmax + 1))
        m2 = int(rng.integers(1, 5))
        E2 = og.entries(rng, kind, r2, m2, anysize(rng))
        g, form2 = og.given(rng, kind, E2)
        if act == "set":
            op.set_entries(g)
        else:
            if act == "del":
                del op.entries
                ctx.ok(op.entries is None and op.state_dimension is None
                       and op.shape is None, "entries-deleted", lab)
                with ctx.raises(AttributeError, "entries-deleted", lab):
                    op.apply(np.ones(r), np.ones(m))
            op.entries = g
        ctx.ev("entries-history")
        exercise(ctx, rng, op, E2, kind, r2, m2, lab + f"->{act} {form2}")
    elif act == "copy":
        c = op.copy()
        ctx.ok(c == op and type(c) is type(op), "copy-equal", lab)
        if "full" not in form and "tensor" not in form:
            g3, _ = og.given(rng, kind, E, "dense" if kind != "c" else "vec")
            ctx.ok(type(op)(g3) == op and op == type(op)(g3), "copy-equal",
                   lab)
        E3 = np.array(E)
        E3[tuple(rng.integers(0, s) for s in E3.shape)] += 1
        g3, _ = og.given(rng, kind, E3)
        ctx.ok(not (type(op)(g3) == op) and op != type(op)(), "copy-equal",
               lab)
        exercise(ctx, rng, c, E, kind, r, m, lab + "->copy")
    elif act == "add" and "sparse" not in form and "coo" not in form:
        E2 = og.entries(rng, kind, r, m, anysize(rng))
        s = op + type(op)(E2 if kind != "c" else E2[:, 0])
        exercise(ctx, rng, s, E + E2, kind, r, m, lab + "->add")
        ctx.ev("add")
        ctx.equal(np.asarray(s[:]).reshape(r, -1),
                  og.dense(s).reshape(r, -1), "getitem", lab)


@CHECK.family(quick=120, thorough=3000)
def kronecker(ctx, rng, i):
    """The static helpers on their own."""
    kind = "HGQ"[i % 3]
    cls, p, _ = og.KINDS[kind]
    r = int(rng.integers(1, dict(H=9, G=7, Q=5)[kind] + 1))
    k = int(rng.integers(1, 6))
    mon = og.monomials(r, p)
    ctx.note(kind=kind, r=r, k=k)
    ctx.equal(cls.ckron_indices(r), np.array(mon), "ckron-indices", f"{r}")
    for Q in (rng.standard_normal((r, k)), rng.integers(-4, 5, (r, k)),
              rng.standard_normal(r), gen.layout(
                  rng, rng.standard_normal((r, k)))):
        want = np.array([np.prod(Q[list(t)], axis=0) for t in mon])
        ctx.close(cls.ckron(Q), want, "ckron", rtol=1e-13, msg=f"{kind} {r}")
    # compress: linear, any number of rows; undoes expand; keeps evaluation
    a = int(rng.integers(1, 5))
    F = rng.standard_normal((a, r**p))
    x = rng.standard_normal(r)
    K = x
    for _ in range(p - 1):
        K = np.kron(K, x)
    C = cls.compress_entries(F)
    ctx.close(C @ cls.ckron(x), F @ K, "full-kronecker", rtol=1e-11,
              atol=1e-11 * np.abs(F).max() * np.abs(K).max() * r**p,
              msg=f"compress {kind} r={r}")
    ctx.close(cls.compress_entries(2.5 * F), 2.5 * C, "compress-linear",
              rtol=1e-12)
    Ec = rng.standard_normal((a, len(mon)))
    X = cls.expand_entries(Ec)
    ctx.close(X @ K, Ec @ cls.ckron(x), "expand-eval", rtol=0,
              atol=1e-11 * np.abs(Ec).max() * np.abs(K).max() * r**p,
              msg=f"{kind} r={r}")
    ctx.close(cls.compress_entries(X), Ec, "compress-of-expand", rtol=1e-12)
    T = X.reshape((a,) + (r,) * p)
    for ax in range(1, p):  # symmetric
        ctx.close(np.swapaxes(T, ax, ax + 1), T, "expand-symmetric",
                  rtol=1e-13)
    if a == 1:
        ctx.close(cls.compress_entries(F[0]), C, "compress-linear",
                  rtol=1e-13)
        ctx.close(cls.expand_entries(Ec[0]), X, "expand-eval", rtol=1e-13)
    with ctx.raises(ValueError, "bad-columns", kind):
        cls.compress_entries(np.ones((2, 2**p + 1)))
    big = int(rng.integers(1, dict(H=60, G=25, Q=12)[kind]))
    off = int(rng.integers(1, (big + 1)**p - big**p))
    with ctx.raises(ValueError, "bad-columns", f"{kind} {big}^{p}+{off}"):
        cls.compress_entries(np.ones((1, big**p + off)))
    lo, hi = (cls.operator_dimension(big + b) for b in (0, 1))
    if hi - lo > 1:
        with ctx.raises(ValueError, "bad-columns", f"{kind} r={big}"):
            cls.expand_entries(np.ones((1, int(rng.integers(lo + 1, hi)))))
    with ctx.raises(ValueError, "bad-columns", kind):
        cls.expand_entries(np.ones((2, dict(H=4, G=5, Q=6)[kind])))


@CHECK.family(quick=60, thorough=90)
def large(ctx, rng, i):
    """Compressed sizes of many dimensions are recognized."""
    r = i % 30 + 1
    for kind, top in (("H", 30), ("G", 30), ("Q", 14)):
        if r > top:
            continue
        cls, p, _ = og.KINDS[kind]
        n = cls.operator_dimension(r)
        ctx.ok(n == len(cls.ckron_indices(r)), "datablock-rows", f"{kind}{r}")
        E = rng.standard_normal((1, n))
        X = cls.expand_entries(E)
        ctx.ok(X.shape == (1, r**p), "large-r", f"{kind} {r}: {X.shape}")
        ctx.close(X.sum(), E.sum(), "large-r", rtol=1e-9,
                  atol=1e-9 * np.abs(E).sum())
        ctx.close(cls.ckron(np.ones(r)), np.ones(n), "large-r")
    ctx.note(r=r)


@CHECK.family(quick=120, thorough=3000)
def polynomial(ctx, rng, i):
    p = int(rng.integers(0, 6))
    r = int(rng.integers(1, {5: 3, 4: 4}.get(p, 6) + 1))
    k = int(rng.integers(1, 6))
    op = O.PolynomialOperator(gen.pick(rng, [p, float(p)]))
    mon = og.monomials(r, p)
    ctx.note(p=p, r=r, k=k)
    n = op.operator_dimension(r)
    ctx.ok(n == (1 if p == 0 else len(mon)), "poly-dimension", f"{p} {r}")
    Q = rng.standard_normal((r, k))
    want = np.array([np.prod(Q[list(t)], axis=0) for t in mon])
    D = op.datablock(gen.layout(rng, Q))
    ctx.ok(D.shape == (n, k), "poly-datablock", f"{D.shape}")
    ctx.close(D, np.ones((1, k)) if p == 0 else want, "poly-datablock",
              rtol=1e-12, msg=f"p={p} r={r}")
    if r == 1:
        ctx.close(op.datablock(Q[0]), D, "poly-datablock", rtol=1e-12)
    E = rng.standard_normal((r, n))
    op.set_entries(E if p or rng.random() < 0.5 else E[:, 0])
    ref = E @ D
    t = 1e-11 * (np.abs(E) @ np.abs(D)).max()
    ctx.close(op.apply(gen.layout(rng, Q)), ref, "poly-apply", atol=t,
              rtol=0, msg=f"p={p} r={r}")
    ctx.close(op.apply(gen.layout(rng, Q[:, 0])), ref[:, 0], "poly-apply",
              atol=t, rtol=0, msg=f"p={p} r={r}")
    if p <= 4:  # the named class of that order, same entries
        kind = "cAHGQ"[p]
        named = og.KINDS[kind][0](E if p else E[:, 0])
        ctx.close(named.apply(Q), ref, "poly-apply", atol=t, rtol=0,
                  msg="named")
        ctx.close(named.datablock(Q), D, "poly-datablock", rtol=1e-12)
    ctx.ok(op.copy() == op and op == O.PolynomialOperator(p, op.entries),
           "copy-equal", f"p={p}")
    ctx.ok(O.PolynomialOperator(p + 1) != O.PolynomialOperator(p)
           and (r > 1 or O.PolynomialOperator(p + 1, E)
                != O.PolynomialOperator(p, E)), "copy-equal", f"p={p}")
    with ctx.raises(ValueError, "poly-reject"):
        O.PolynomialOperator(gen.pick(rng, [-1, 1.5, -2]))
    if r > 1:
        with ctx.raises(ValueError, "poly-reject"):
            op.apply(np.ones(r + 1))


@CHECK.family(quick=120, thorough=3000)
def models(ctx, rng, i):
    """A model's right-hand side is the sum of its operators."""
    r, m = int(rng.integers(1, 5)), int(rng.integers(1, 4))
    n = int(rng.integers(1, 6))
    kinds = [str(x) for x in rng.choice(list("cAHGQBN"), n)]
    made = [og.make(rng, kd, r, m) for kd in kinds]
    ops = [x[0] for x in made]
    k = int(rng.integers(1, 6))
    Q = rng.integers(-3, 4, (r, k)) if rng.random() < .3 else \
        rng.standard_normal((r, k))
    U = rng.standard_normal((m, k))
    uses = any(og.KINDS[kd][2] for kd in kinds)
    ref = sum(og.batch(kd, x[1], Q, U) for kd, x in zip(kinds, made))
    t = 1e-11 * max(1, np.abs(ref).max(), *[np.abs(x[1]).max() * 100
                                             for x in made])
    ctx.note(kinds="".join(kinds), r=r, m=m)
    lab = "".join(kinds) + f" r={r} m={m}"
    dm = opinf.models.DiscreteModel(ops)
    cm = opinf.models.ContinuousModel(ops)
    j = int(rng.integers(k))
    ctx.close(dm.rhs(Q[:, j], U[:, j] if uses else None), ref[:, j],
              "model-rhs", atol=t, rtol=0, msg=lab)
    ctx.close(dm.rhs(Q, U if uses else None), ref, "model-rhs", atol=t,
              rtol=0, msg=lab + " batch")
    ctx.close(cm.rhs(float(j), Q[:, j], (lambda s: U[:, int(s)])
                     if uses else None), ref[:, j],
              "model-rhs", atol=t, rtol=0, msg=lab)
    if uses and m == 1:
        ctx.close(cm.rhs(float(j), Q[:, j], lambda s: U[0, int(s)]),
                  ref[:, j], "model-rhs", atol=t, rtol=0, msg=lab)
    if not uses:
        sm = opinf.models.mono.SteadyModel(ops) if hasattr(
            opinf.models.mono, "SteadyModel") else None
        if sm is not None:
            ctx.close(sm.rhs(Q[:, j]), ref[:, j], "model-rhs", atol=t,
                      rtol=0, msg=lab)


@CHECK.family(quick=140, thorough=3000)
def single_precision(ctx, rng, i):
    """States, inputs or entries stored in single precision."""
    kind = list(og.KINDS)[i % 7]
    r = int(rng.integers(1, dict(G=5, Q=4).get(kind, 7) + 1))
    m, k = int(rng.integers(1, 4)), int(rng.integers(2, 6))
    E = og.entries(rng, kind, r, m)
    Q = rng.standard_normal((r, k)).astype(np.float32)
    U = rng.standard_normal((m, k)).astype(np.float32)
    if rng.random() < .4:
        E = E.astype(np.float32)
    op = og.KINDS[kind][0](gen.layout(rng, E[:, 0] if kind == "c" else E))
    Ed, Qd, Ud = E.astype(float), Q.astype(float), U.astype(float)
    ref = og.batch(kind, Ed, Qd, Ud)
    tol = 1e-5 * np.abs(og.batch(kind, np.abs(Ed), np.abs(Qd),
                                 np.abs(Ud))).max() + 1e-300
    lab = f"single {kind} r={r} m={m} {E.dtype}"
    ctx.note(kind=kind, r=r, m=m, single=str(E.dtype))
    ctx.ev("single-precision")
    if r > 1 and (m > 1 or kind not in "BN"):
        ctx.close(op.apply(gen.layout(rng, Q), gen.layout(rng, U)), ref,
                  "apply-batch", atol=tol, rtol=0, msg=lab)
    ctx.close(np.reshape(op.apply(Q[:, 1], U[:, 1]), r), ref[:, 1],
              "apply-single", atol=tol, rtol=0, msg=lab)
    D = op.datablock(Q, U)
    ctx.close(D, np.array([og.block(kind, Qd[:, j], Ud[:, j])
                           for j in range(k)]).T.reshape(-1, k),
              "datablock", rtol=1e-5, msg=lab)
