"""C15: Jacobians are derivatives of the evaluation."""
import numpy as np
import opinf
import scipy.sparse as sparse

from rv import gen, opgen as og
from rv.core import Check

O = opinf.operators
M = opinf.models
CHECK = Check(
    "C15",
    "A case builds operators or whole models (nonparametric, affine, "
    "interpolatory; discrete, continuous, steady) and compares the reported "
    "Jacobian at random states, inputs and parameters with machine-precise "
    "complex-step derivatives of an independent reference evaluation and "
    "with central differences of the real evaluation, also after entries "
    "were replaced following a first Jacobian call.",
    require=["op-jacobian", "op-central-difference", "model-jacobian",
             "after-new-entries", "polynomial-jacobian", "affine-jacobian",
             "interp-jacobian", "param-model-jacobian", "int-state",
             "scalar-state", "model-sum", "steady-jacobian"])


def asmat(J, r):
    if sparse.issparse(J):
        J = J.toarray()
    if np.isscalar(J) and J == 0:
        return np.zeros((r, r))
    return np.asarray(J)


def tolerance(kind, E, q, u):
    aq = np.abs(np.asarray(q, float)) + 1e-30
    ref = og.jac(kind, np.abs(E).astype(float), aq, np.abs(u))
    return 1e-12 * np.abs(ref).max() + 1e-30


def one(ctx, rng, op, E, kind, r, m, rule, lab, call=None):
    ints = rng.random() < 0.2
    q = rng.integers(-4, 5, r) if ints else \
        rng.standard_normal(r) * 10.0 ** rng.uniform(-2, 2)
    u = rng.standard_normal(m)
    Ef = E.astype(float)
    ref = og.jac(kind, Ef, q, u)
    uses = og.KINDS[kind][2]
    uin = u if uses else gen.pick(rng, [None, u])
    call = call or op.jacobian
    J = asmat(call(gen.layout(rng, q), uin), r)
    ctx.close(J, ref, rule, atol=tolerance(kind, E, q, u), rtol=0, msg=lab)
    if ints:
        ctx.ev("int-state")
    if r == 1 and rng.random() < 0.5:
        J = asmat(call(q[0], uin if m > 1 or not uses else u[0]), r)
        ctx.close(np.reshape(J, (1, 1)), ref, "scalar-state",
                  atol=tolerance(kind, E, q, u), rtol=0, msg=lab)


def central(ctx, rng, f, J, q, rule, lab, emax=1.0):
    """Central differences of the real evaluation (third derivatives are
    bounded by emax, the largest entry of the operators)."""
    d = rng.standard_normal(len(q))
    h = 1e-5 * max(1.0, np.abs(q).max())
    fd = (f(q + h * d) - f(q - h * d)) / (2 * h)
    a, b = f(q), J @ d
    s = max(np.abs(b).max(), np.abs(a).max() / max(1, np.abs(q).max()), 1e-8)
    trunc = 100 * h**2 * emax * len(q) ** 2 * (1 + np.abs(q).max())
    ctx.close(fd, b, rule, atol=2e-5 * s + trunc, rtol=1e-5, msg=lab)


@CHECK.family(quick=600, thorough=18000)
def operators(ctx, rng, i):
    kind = list(og.KINDS)[i % 7]
    r = int(rng.integers(1, dict(H=7, G=5, Q=4).get(kind, 8) + 1))
    m = int(rng.integers(1, 5))
    op, E, form = og.make(rng, kind, r, m, 10.0 ** rng.uniform(-2, 2))
    lab = f"{kind} r={r} m={m} {form}"
    ctx.note(kind=kind, r=r, m=m, form=form)
    for _ in range(2):
        one(ctx, rng, op, E, kind, r, m, "op-jacobian", lab)
    q, u = rng.standard_normal(r), rng.standard_normal(m)
    if np.abs(E).max() > 0:
        central(ctx, rng, lambda x: np.asarray(op.apply(x, u), float),
                asmat(op.jacobian(q, u), r), q, "op-central-difference", lab,
                np.abs(E).max())
    # new entries after a first call
    r2 = r if rng.random() < 0.5 else int(rng.integers(1, 5))
    E2 = og.entries(rng, kind, r2, m)
    g, f2 = og.given(rng, kind, E2)
    act = gen.pick(rng, ["set", "prop", "del"])
    if act == "del":
        del op.entries
    if act == "set":
        op.set_entries(g)
    else:
        op.entries = g
    one(ctx, rng, op, E2, kind, r2, m, "after-new-entries", lab + "->" + f2)
    c = op.copy()
    one(ctx, rng, c, E2, kind, r2, m, "after-new-entries", lab + "->copy")
    op.set_entries(2 * E2 if kind != "c" else 2 * E2[:, 0])
    one(ctx, rng, c, E2, kind, r2, m, "after-new-entries", lab + "->copy2")
    one(ctx, rng, op, 2 * E2, kind, r2, m, "after-new-entries", lab)


@CHECK.family(quick=100, thorough=2500)
def polynomial(ctx, rng, i):
    p = int(rng.integers(0, 6))
    r = int(rng.integers(1, {5: 3, 4: 4}.get(p, 6) + 1))
    op = O.PolynomialOperator(p)
    mon = og.monomials(r, p)
    E = rng.standard_normal((r, len(mon) if p else 1))
    op.set_entries(E)
    q = rng.standard_normal(r) * 10.0 ** rng.uniform(-1, 1)
    if rng.random() < 0.2:
        q = rng.integers(-3, 4, r)
    ref = np.zeros((r, r))
    for j in range(r):
        z = q.astype(complex)
        z[j] += 1e-30j
        if p:
            v = E @ np.array([np.prod(z[list(t)]) for t in mon])
            ref[:, j] = v.imag / 1e-30
    ctx.note(p=p, r=r)
    ctx.close(np.asarray(op.jacobian(q)), ref, "polynomial-jacobian",
              atol=1e-12 * p * len(mon) * np.abs(E).max() * max(
                  1, np.abs(q).max()) ** max(p - 1, 0), rtol=0,
              msg=f"p={p} r={r}")


@CHECK.family(quick=250, thorough=7000)
def models(ctx, rng, i):
    r, m = int(rng.integers(1, 5)), int(rng.integers(1, 4))
    n = int(rng.integers(1, 6))
    kinds = [str(x) for x in rng.choice(list("cAHGQBN"), n)]
    made = [og.make(rng, kd, r, m) for kd in kinds]
    ops = [x[0] for x in made]
    uses = any(og.KINDS[kd][2] for kd in kinds)
    q = rng.integers(-3, 4, r) if rng.random() < 0.2 else \
        rng.standard_normal(r)
    u = rng.standard_normal(m)
    ref = sum(og.jac(kd, x[1].astype(float), q, u)
              for kd, x in zip(kinds, made))
    t = sum(tolerance(kd, x[1], q, u) for kd, x in zip(kinds, made))
    lab = "".join(kinds) + f" r={r} m={m}"
    ctx.note(kinds="".join(kinds), r=r, m=m)
    dm, cm = M.DiscreteModel(ops), M.ContinuousModel(ops)
    J = dm.jacobian(q, u if uses else None)
    ctx.close(asmat(J, r), ref, "model-jacobian", atol=t, rtol=0, msg=lab)
    s = float(rng.uniform(1, 2))
    J2 = cm.jacobian(s, q, (lambda x: u * x / s) if uses else None)
    ctx.close(asmat(J2, r), ref, "model-jacobian", atol=t, rtol=0, msg=lab)
    sm = sum(asmat(op.jacobian(q, u), r) for op in ops)
    ctx.close(asmat(J, r), sm, "model-sum", atol=t, rtol=0, msg=lab)
    qf = q.astype(float)
    central(ctx, rng, lambda x: dm.rhs(x, u if uses else None),
            asmat(dm.jacobian(qf, u if uses else None), r), qf,
            "op-central-difference", lab,
            max(np.abs(x[1]).max() for x in made))
    if not uses:
        st = opinf.models.mono._nonparametric.SteadyModel(ops)
        ctx.close(asmat(st.jacobian(q), r), ref, "steady-jacobian", atol=t,
                  rtol=0, msg=lab)


@CHECK.family(quick=250, thorough=7000)
def parametric(ctx, rng, i):
    """Affine and interpolatory operators and parametric models."""
    r, m = int(rng.integers(1, 4)), int(rng.integers(1, 3))
    n = int(rng.integers(1, 4))
    kinds = [str(x) for x in rng.choice(list("cAHGBN"), n, replace=False)]
    mus = np.sort(rng.uniform(0, 3, 4)) + np.arange(4)
    mu = float(rng.uniform(mus[0], mus[-1]))
    ops, Es, how = [], [], []
    for kd in kinds:
        h = gen.pick(rng, ["affine", "interp", "plain"])
        if h == "affine":
            fs = [np.cos, (lambda x: x**2), (lambda x: 1.0)][
                :int(rng.integers(1, 4))]
            A = [og.entries(rng, kd, r, m) for _ in fs]
            ops.append(og.AFF[kd](fs, entries=[
                a if kd != "c" else a[:, 0] for a in A]))
            Es.append(sum(f(mu) * a for f, a in zip(fs, A)))
        elif h == "interp":
            A0, A1 = [og.entries(rng, kd, r, m) for _ in range(2)]
            A = [A0 + x * A1 for x in mus]  # linear: spline is exact
            ops.append(og.INT[kd](mus, entries=[
                a if kd != "c" else a[:, 0] for a in A]))
            Es.append(A0 + mu * A1)
        else:
            op, E, _ = og.make(rng, kd, r, m)
            ops.append(op)
            Es.append(E)
        how.append(h)
    q, u = rng.standard_normal(r), rng.standard_normal(m)
    lab = f"{kinds} {how} r={r} m={m}"
    ctx.note(kinds=kinds, how=how, r=r, m=m)
    uses = any(og.KINDS[kd][2] for kd in kinds)
    tot, t = 0, 0
    for op, E, kd, h in zip(ops, Es, kinds, how):
        ref = og.jac(kd, E.astype(float), q, u)
        tl = 1e3 * tolerance(kd, np.abs(E) + 1e-3, q, u)
        if h != "plain":
            J = op.jacobian(mu, q, u)
            ctx.close(asmat(J, r), ref, f"{h}-jacobian", atol=tl, rtol=0,
                      msg=lab)
        tot, t = tot + ref, t + tl
    if all(h == "plain" for h in how):
        return
    pd = M.ParametricDiscreteModel(ops)
    pc = M.ParametricContinuousModel(ops)
    ctx.close(asmat(pd.jacobian(mu, q, u if uses else None), r), tot,
              "param-model-jacobian", atol=t, rtol=0, msg=lab)
    ctx.close(asmat(pc.jacobian(0.5, mu, q, (lambda x: 2 * x * u)
                                if uses else None), r), tot,
              "param-model-jacobian", atol=t, rtol=0, msg=lab)
    central(ctx, rng, lambda x: pd.rhs(mu, x, u if uses else None),
            asmat(pd.jacobian(mu, q, u if uses else None), r), q,
            "op-central-difference", lab, 50.0)
    if all(h == "interp" for h in how):
        im = M.InterpContinuousModel(ops)
        ctx.close(asmat(im.jacobian(0.5, mu, q, (lambda x: 2 * x * u)
                                    if uses else None), r), tot,
                  "param-model-jacobian", atol=t, rtol=0, msg=lab)
