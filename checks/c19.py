"""C19: predictions solve the learned model's equations."""
import warnings

import numpy as np
import opinf
import scipy.integrate as spi
import scipy.interpolate as si

from rv import gen, modelgen as mg, opgen as og
from rv.core import Check

M = opinf.models
CHECK = Check(
    "C19",
    "A case builds a trained model (entries given or learned, parametric or "
    "not, with or without inputs), predicts from an initial state and "
    "watches the trajectory: every step of a discrete prediction is "
    "recomputed with reference operators, every continuous prediction is "
    "compared with a tight-tolerance reference integration of the reference "
    "right-hand side on the requested time grid.",
    require=["initial-state", "discrete-step", "discrete-shape", "one-step",
             "discrete-more-inputs", "discrete-1d-input", "continuous",
             "continuous-shape", "input-callable", "input-scalar-callable",
             "input-array", "input-1d-array", "nonuniform-grid",
             "late-start", "backward", "method-RK23", "method-Radau", "method-BDF",
             "method-LSODA", "method-DOP853", "repeatable", "after-fit",
             "parametric-discrete", "parametric-continuous", "evaluated",
             "result-attribute", "callable-rejected", "superfluous-input",
             "input-not-extrapolated", "complete-not-warned",
             "incomplete-warned", "incomplete-prefix"])


def entries(rng, k, r, m, disc):
    """Entries giving bounded dynamics for a while."""
    E = rng.standard_normal((r, og.ncols(k, r, m)))
    if disc:
        w = dict(c=1, A=.4 / np.sqrt(r), H=.1, G=.05, Q=.02, B=1, N=.2)[k]
        return w * E
    w = dict(c=1, A=1, H=.15, G=.05, Q=.03, B=1, N=.3)[k]
    E = w * E
    if k == "A":
        E = E - 1.5 * np.sqrt(r) * np.eye(r)
    return E


def rhs(kinds, Es, q, u):
    return sum(og.value(k, E, q, u) for k, E in zip(kinds, Es))


def discrete_ref(ctx, kinds, Es, states, q0, niters, U, lab):
    ctx.ok(isinstance(states, np.ndarray)
           and states.shape == (len(q0), niters), "discrete-shape",
           f"{lab} {np.shape(states)} niters={niters}")
    ctx.equal(states[:, 0], q0, "initial-state", lab)
    for j in range(niters - 1):
        u = None if U is None else U[:, j]
        w = rhs(kinds, Es, states[:, j], u)
        mag = max(np.abs(og.value(k, np.abs(E), np.abs(states[:, j]),
                                  None if u is None else np.abs(u))).max()
                  for k, E in zip(kinds, Es))
        if not np.isfinite(mag):
            return
        ctx.close(states[:, j + 1], w, "discrete-step",
                  atol=1e-12 * mag + 1e-300, rtol=0, msg=f"{lab} step {j}")


def learn(rng, cls, kinds, Es, r, m):
    """A model that learned these operators from exact data."""
    d = sum(E.shape[1] for E in Es)
    Q, U = mg.samples(rng, d, r, m, 3 * d + 10)
    Z = sum(og.batch(k, E, Q, U) for k, E in zip(kinds, Es))
    model = cls("".join(kinds) if rng.random() < .5 else list(kinds))
    model.fit(Q, Z, U if mg.uses(kinds) else None)
    return model


def learned(model, kinds, Es, ctx, lab):
    """Entries the model holds (the equations to be solved)."""
    got = [mg.dense(op, k) for op, k in zip(model.operators, kinds)]
    for g, E in zip(got, Es):
        ctx.close(g, E, "after-fit", rtol=1e-6,
                  scale=max(np.abs(E).max() for E in Es) + 1e-300, msg=lab)
    return got


@CHECK.family(quick=500, thorough=20000)
def discrete(ctx, rng, i):
    fit = i % 4 == 0
    kinds, r, m = mg.structure(rng, letters="cAHGBN" if fit else "cAHGQBN")
    Es = [entries(rng, k, r, m, True) for k in kinds]
    hasu = mg.uses(kinds)
    lab = f"{kinds} r={r} m={m} fit={fit}"
    if fit:
        model = learn(rng, M.DiscreteModel, kinds, Es, r, m)
        Es = learned(model, kinds, Es, ctx, lab)
    else:
        model = M.DiscreteModel([og.KINDS[k][0](og.given(rng, k, E)[0])
                                 for k, E in zip(kinds, Es)])
    n = int(gen.pick(rng, [1, 2, 3, 10, 40]))
    ctx.note(kinds=str(kinds), r=r, m=m, niters=n, fit=fit)
    if n == 1:
        ctx.ev("one-step")
    q0 = rng.standard_normal(r)
    if rng.random() < .15:
        q0 = rng.integers(-1, 2, r)
    extra = int(gen.pick(rng, [0, 0, 1, 3]))
    U = rng.standard_normal((m, max(n - 1 + extra, 1)))
    args = []
    if hasu:
        if U.shape[1] > n - 1:
            ctx.ev("discrete-more-inputs")
        Ug = gen.layout(rng, U)
        if m == 1 and rng.random() < .6:
            Ug = Ug[0]
            ctx.ev("discrete-1d-input")
        elif rng.random() < .2:
            Ug = U.tolist()
        args = [Ug]
    q0g = gen.layout(rng, q0)
    S = model.predict(q0g, n, *args)
    discrete_ref(ctx, kinds, Es, S, q0, n, U if hasu else None, lab)
    T = model.predict(q0g, niters=n, inputs=args[0] if args else None)
    ctx.equal(T, S, "repeatable", lab)
    ctx.ok(not np.shares_memory(S, T), "repeatable", lab)
    if n > 2:  # a longer prediction restarts where a shorter one stops
        j = int(rng.integers(1, n - 1))
        V = model.predict(S[:, j], n - j, *([U[:, j:]] if hasu else []))
        discrete_ref(ctx, kinds, Es, V, S[:, j], n - j,
                     U[:, j:] if hasu else None, lab)
    if hasu:
        with ctx.raises(TypeError, "callable-rejected", lab):
            model.predict(q0, n, lambda t: np.ones(m))
    else:
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            V = model.predict(q0g, n, U)
        ctx.equal(V, S, "superfluous-input", lab)
        ctx.ok(any(issubclass(x.category, opinf.errors.OpInfWarning)
                   for x in w), "superfluous-input", lab)


METHODS = [None, None, "RK45", "RK23", "DOP853", "Radau", "BDF", "LSODA"]
# expected accuracy with rtol=1e-8, atol=1e-10 (scaled by the solution)
ACC = {None: 1e-5, "RK45": 1e-5, "RK23": 1e-5, "DOP853": 1e-5,
       "Radau": 1e-5, "BDF": 1e-4, "LSODA": 1e-4}


def inputs(ctx, rng, m, t, forms=("func", "array", "func", "array",
                                  "const")):
    """(argument, reference u(t), label)"""
    w = rng.uniform(.5, 3, m)
    ph = rng.uniform(0, 3, m)
    form = gen.pick(rng, list(forms))

    def u(s):
        return np.cos(w * s + ph) + .3 * s * w
    if form == "const":
        v = rng.standard_normal(m)
        ctx.ev("input-callable")
        return (lambda s: v), (lambda s: v), form
    if form == "func":
        if m == 1 and rng.random() < .6:
            ctx.ev("input-scalar-callable")
            return (lambda s: float(u(s)[0])), u, "scalarfunc"
        ctx.ev("input-callable")
        return u, u, form
    U = np.array([u(s) for s in t]).T + .1 * rng.standard_normal((m, len(t)))
    splines = [si.CubicSpline(t, U[j]) for j in range(m)]

    def ref(s):
        return np.array([float(sp(s)) for sp in splines])
    if m == 1 and rng.random() < .6:
        ctx.ev("input-1d-array")
        return U[0].copy(), ref, "1darray"
    ctx.ev("input-array")
    return gen.layout(rng, U), ref, "array"


def grid(ctx, rng):
    n = int(gen.pick(rng, [2, 3, 5, 12, 40]))
    t0 = float(gen.pick(rng, [0, 0, 1.5, -2.0]))
    T = float(rng.uniform(.3, 2))
    if t0:
        ctx.ev("late-start")
    if rng.random() < .4 and n > 2:
        ctx.ev("nonuniform-grid")
        x = np.sort(rng.uniform(.02, .98, n - 2))
        if n > 3 and np.diff(x).min() < 1e-3:
            x = np.linspace(.02, .98, n - 2) ** 2
        x = np.concatenate([[0], x, [1]])
    else:
        x = np.linspace(0, 1, n)
    return t0 + T * x


def reference(kinds, Es, q0, t, u):
    def f(s, q):
        return rhs(kinds, Es, q, None if u is None else u(s))
    out = spi.solve_ivp(f, [t[0], t[-1]], q0, t_eval=t, method="DOP853",
                        rtol=1e-11, atol=1e-12)
    return out.y if out.success else None


def continuous_ref(ctx, kinds, Es, got, q0, t, u, method, lab, opts):
    ctx.ok(isinstance(got, np.ndarray) and got.shape == (len(q0), len(t)),
           "continuous-shape", f"{lab} {np.shape(got)} nt={len(t)}")
    ctx.close(got[:, 0], q0, "initial-state", rtol=1e-11, atol=1e-12,
              msg=lab)
    R = reference(kinds, Es, q0, t, u)
    scale, own = 1 + np.abs(R).max(), 0.
    if not np.abs(got - R).max() <= ACC[method] * scale:
        # what the integrator itself achieves on this problem
        own = spi.solve_ivp(
            lambda s, q: rhs(kinds, Es, q, None if u is None else u(s)),
            [t[0], t[-1]], q0, t_eval=t, **opts)
        own = np.abs(own.y - R).max() if own.success else 1.
    ctx.close(got, R, "continuous", rtol=ACC[method], atol=5 * own,
              scale=scale, msg=f"{lab} {method}")


@CHECK.family(quick=150, thorough=5000)
def continuous(ctx, rng, i):
    fit = i % 4 == 0
    kinds, r, m = mg.structure(rng, letters="cAHGBN" if fit else "cAHGQBN")
    Es = [entries(rng, k, r, m, False) for k in kinds]
    hasu = mg.uses(kinds)
    method = METHODS[i % len(METHODS)]
    lab = f"{kinds} r={r} m={m} fit={fit}"
    t = grid(ctx, rng)
    q0 = .7 * rng.standard_normal(r)
    back = rng.random() < .2
    if back:    # from the last time to the first
        ctx.ev("backward")
        t = t[::-1].copy()
        lab += " backward"
    ug, u, ulab = inputs(ctx, rng, m, t, ("func", "const") if back else (
        "func", "array", "func", "array", "const")) if hasu else (
            None, None, "none")
    R = reference(kinds, Es, q0, t, u)
    if R is None or np.abs(R).max() > 20:
        Es = [.3 * E for E in Es]
        q0 = .5 * q0
        R = reference(kinds, Es, q0, t, u)
        if R is None or np.abs(R).max() > 20:
            return
    if fit:
        model = learn(rng, M.ContinuousModel, kinds, Es, r, m)
        Es = learned(model, kinds, Es, ctx, lab)
    else:
        model = M.ContinuousModel([og.KINDS[k][0](og.given(rng, k, E)[0])
                                   for k, E in zip(kinds, Es)])
    ctx.note(kinds=str(kinds), r=r, m=m, nt=len(t), method=method, u=ulab,
             fit=fit)
    lab += f" u={ulab} nt={len(t)}"
    opts = dict(rtol=1e-8, atol=1e-10)
    if method:
        opts["method"] = method
        ctx.ev("method-" + method)
    if rng.random() < .2:
        opts["max_step"] = abs(t[-1] - t[0]) / 20
    given = dict(opts)
    q0g, tg = gen.layout(rng, q0), gen.layout(rng, t)
    S = model.predict(q0g, tg, *([ug] if hasu else []), **opts)
    ctx.ok(opts == given, "repeatable", f"{lab} options changed")
    continuous_ref(ctx, kinds, Es, S, q0, t, u, method, lab, opts)
    res = model.predict_result_
    ctx.ok(res.success, "result-attribute", lab)
    ctx.equal(res.y, S, "result-attribute", lab)
    ctx.equal(res.t, t, "result-attribute", lab)
    T = model.predict(q0g, tg, input_func=ug, **opts)
    ctx.equal(T, S, "repeatable", lab)
    if ulab.endswith("array"):
        bad = (np.atleast_2d(ug)[:, :-1] if len(t) > 1 else None)
        with ctx.raises(ValueError, "input-not-extrapolated", lab):
            model.predict(q0, t, bad, **opts)
    if not hasu:
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            V = model.predict(q0g, tg, lambda s: np.ones(m), **opts)
        ctx.equal(V, S, "superfluous-input", lab)
        ctx.ok(any(issubclass(x.category, opinf.errors.OpInfWarning)
                   for x in w), "superfluous-input", lab)


@CHECK.family(quick=40, thorough=600)
def blowup(ctx, rng, i):
    """Solutions that escape: incomplete predictions are announced."""
    r = int(rng.integers(1, 4))
    a = rng.uniform(.5, 2)
    q0 = rng.uniform(.5, 2, r) * np.where(np.arange(r) == 0, 1, -1)
    # q_j' = a q_j^2: the first component escapes at 1 / (a q0)
    E = np.zeros((r, r * (r + 1) // 2))
    sq = [j * (j + 1) // 2 + j for j in range(r)]
    E[np.arange(r), sq] = a
    T = 1 / (a * q0[0])
    n = int(rng.integers(5, 40))
    past = i % 3 < 2
    t = np.linspace(0, T * (rng.uniform(1.05, 2) if past
                            else rng.uniform(.2, .8)), n)
    method = gen.pick(rng, [None, "RK45", "DOP853", "RK23"])
    opts = dict(rtol=1e-7, atol=1e-9)
    if method:
        opts["method"] = method
    model = M.ContinuousModel([opinf.operators.QuadraticOperator(E)])
    lab = f"r={r} past={past} {method} n={n}"
    ctx.note(r=r, past=past, method=method, n=n)
    with warnings.catch_warnings(record=True) as w, np.errstate(
            all="ignore"):
        warnings.simplefilter("always")
        S = model.predict(q0, t, **opts)
    told = [x for x in w if issubclass(x.category, spi.IntegrationWarning)]
    if not past:
        ctx.ok(S.shape == (r, n) and not told, "complete-not-warned",
               f"{lab} {S.shape} {[str(x.message) for x in told]}")
        ctx.ok(model.predict_result_.success, "result-attribute", lab)
        good = t
    else:
        good = t[t < .99 * T]
        ctx.ok(bool(told) or not np.isfinite(S).all()
               or np.abs(S).max() > 1e8, "incomplete-warned",
               f"{lab} {S.shape} {np.abs(S).max():.2e}")
        ctx.ok(bool(told) == (not model.predict_result_.success),
               "incomplete-warned", lab)
        ctx.ok(bool(told) or S.shape[1] == n, "incomplete-warned",
               f"{lab} {S.shape} without a warning")
        ctx.ok(S.shape[1] >= len(good), "incomplete-prefix", lab)
    true = q0[:, None] / (1 - a * q0[:, None] * good)
    ctx.close(S[:, :len(good)], true, "incomplete-prefix", rtol=2e-3,
              scale=np.abs(true).max(), msg=lab)


@CHECK.family(quick=150, thorough=5000)
def parametric(ctx, rng, i):
    disc = bool(i % 2)
    kinds, r, m = mg.structure(rng, letters="cAHGBN", maxr=3, nmax=4)
    style = gen.pick(rng, ["affine", "mixed", "interp"])
    hasu = mg.uses(kinds)
    s = int(rng.integers(3, 7))
    mus = np.sort(rng.uniform(0, .3, s) + np.arange(s)) / s
    types = ["interp"] * len(kinds)
    if style != "interp":
        types = ["affine"] + [gen.pick(rng, ["affine", "plain"] + (
            ["interp"] if style == "mixed" else [])) for _ in kinds[1:]]
    mu = float(gen.pick(rng, [rng.uniform(mus[0], mus[-1]), mus[1]]))
    ops, Es = [], []
    for k, tp in zip(kinds, types):
        E = [entries(rng, k, r, m, disc)]
        if tp == "plain":
            ops.append(og.KINDS[k][0](E[0]))
            Es.append(E[0])
        elif tp == "affine":
            E.append(.5 * entries(rng, k, r, m, disc))
            g = [e[:, 0] if k == "c" else e for e in E]
            ops.append(og.AFF[k]([np.cos, lambda x: x], entries=g))
            Es.append(np.cos(mu) * E[0] + mu * E[1])
        else:
            P = .3 * entries(rng, k, r, m, disc)
            X = [E[0] + np.sin(2 * a) * P for a in mus]
            g = [e[:, 0] if k == "c" else e for e in X]
            ops.append(og.INT[k](mus, entries=g))
            Es.append(si.CubicSpline(mus, np.array(X))(mu))
    if style == "interp":
        cls = M.InterpDiscreteModel if disc else M.InterpContinuousModel
    else:
        cls = (M.ParametricDiscreteModel if disc
               else M.ParametricContinuousModel)
    model = cls(ops)
    lab = f"{cls.__name__} {list(zip(kinds, types))} r={r} m={m} mu={mu:.3f}"
    ctx.note(cls=cls.__name__, kinds=str(kinds), types=str(types), r=r, m=m)
    q0 = .5 * rng.standard_normal(r)
    mug = np.array([mu]) if style == "interp" and rng.random() < .3 else mu
    if disc:
        n = int(rng.integers(1, 15))
        U = rng.standard_normal((m, n + 1))
        a = [U] if hasu else []
        S = model.predict(mug, q0, n, *a)
        discrete_ref(ctx, kinds, Es, S, q0, n, U if hasu else None, lab)
        ctx.equal(model.evaluate(mu).predict(q0, n, *a), S, "evaluated", lab)
        ctx.ev("parametric-discrete")
    else:
        t = grid(ctx, rng)
        ug, u, ulab = inputs(ctx, rng, m, t) if hasu else (None, None, "")
        R = reference(kinds, Es, q0, t, u)
        if R is None or np.abs(R).max() > 20:
            return
        method = METHODS[int(rng.integers(len(METHODS)))]
        opts = dict(rtol=1e-8, atol=1e-10)
        if method:
            opts["method"] = method
        S = model.predict(mug, q0, t, *([ug] if hasu else []), **opts)
        continuous_ref(ctx, kinds, Es, S, q0, t, u, method, lab, opts)
        V = model.evaluate(mu).predict(q0, t, input_func=ug, **opts)
        ctx.equal(V, S, "evaluated", lab)
        ctx.ev("parametric-continuous")
    # another parameter afterwards, then back
    model.evaluate(float(mus[0]))
    if disc:
        ctx.equal(model.predict(mu, q0, n, *a), S, "repeatable", lab)
