"""C18: learning recovers operators / solves the stated regression."""
import copy
import warnings

import numpy as np
import opinf
import scipy.interpolate as si

from rv import gen, modelgen as mg, opgen as og
from rv.core import Check, quiet
from checks.c17 import points as c17points

M = opinf.models
CHECK = Check(
    "C18",
    "A case builds a model with a random structure (operators given as "
    "letters, objects or mixtures; known operators anywhere, possibly of the "
    "same type as a learned one) and training data whose left-hand side is "
    "either generated by reference operators (exact recovery expected when "
    "the reference data matrix has full column rank) or arbitrary (the "
    "minimizer of the solver's objective over the reference data matrix is "
    "expected). After fit(), entries, known operators, data matrix, operator "
    "matrix and right-hand sides are compared with the references.",
    require=["repeated-parameters", "recovered", "regression",
             "known-untouched", "data-matrix",
             "operator-matrix", "rhs-sum", "known-first", "known-last",
             "same-type-known", "inputs", "no-nextstates", "extra-inputs",
             "stacked-trajectories", "one-dimensional", "steady",
             "affine-mixed", "affine-recovered", "affine-regression",
             "interp-recovered", "interp-regression", "interp-known",
             "interp-in-parametric", "refit-after-change", "trajectory",
             "fully-known", "integer-data", "integer-lhs", "accessors", "string-structure",
             "single-precision"])


def arr(op, kd):
    e = og.dense(op)
    return e.reshape(-1, 1) if kd == "c" else e


class Spec:
    """A nonparametric model structure with reference operators."""

    def __init__(self, rng, steady=False, letters="cAHGBN", maxr=4):
        self.kinds, self.r, self.m = mg.structure(
            rng, maxr=maxr, letters=letters, steady=steady)
        n = len(self.kinds)
        self.known = {}
        nk = int(gen.pick(rng, [0, 0, 1, 1, 2]))
        unknown = list(self.kinds)
        order = [(k, False) for k in self.kinds]
        for _ in range(nk):
            if rng.random() < .35 or len(unknown) == 1:
                k = gen.pick(rng, self.kinds)  # next to a learned one
                order.insert(int(rng.integers(len(order) + 1)), (k, True))
            else:
                k = gen.pick(rng, unknown)
                unknown.remove(k)
                order[order.index((k, False))] = (k, True)
        self.order = order
        self.infer = [k for k, kn in order if not kn]
        assert self.infer
        self.allkinds = [k for k, _ in order]
        self.hasu = mg.uses(self.allkinds)
        self.entries, self.ops, self.fixed = [], [], []
        s = 10.0 ** rng.uniform(-1, 1)
        for k, kn in order:
            if kn:
                op, E, _ = og.make(rng, k, self.r, self.m, s)
                self.fixed.append((op, k, E))
                self.ops.append(op)
            else:
                E = og.entries(rng, k, self.r, self.m, s)
                self.ops.append(og.KINDS[k][0]() if k == "Q" or
                                rng.random() < .4 else k)
            self.entries.append(E)
        self.d = sum(og.ncols(k, self.r, self.m) for k in self.infer)
        self.passed = list(self.ops)
        if all(isinstance(o, str) for o in self.ops) and rng.random() < .6:
            self.passed = "".join(self.ops)
        elif rng.random() < .3:
            self.passed = tuple(self.ops)
        elif len(self.ops) == 1 and not isinstance(self.ops[0], str) \
                and rng.random() < .5:
            self.passed = self.ops[0]

    def lab(self):
        return ",".join(k + ("*" if kn else "") for k, kn in self.order) + \
            f" r={self.r} m={self.m}"

    def f(self, Q, U):
        out = np.zeros((self.r, Q.shape[1]))
        for k, E in zip(self.allkinds, self.entries):
            out = out + og.batch(k, E, Q, U)
        return out

    def fknown(self, Q, U):
        out = np.zeros((self.r, Q.shape[1]))
        for op, k, E in self.fixed:
            out = out + og.batch(k, E, Q, U)
        return out

    def learned(self):
        return [E for (k, kn), E in zip(self.order, self.entries) if not kn]


def check_known(ctx, sp, model, lab):
    for op, k, E in sp.fixed:
        ctx.ok(any(op is o for o in model.operators), "known-untouched",
               f"{lab}: known operator replaced")
        ctx.close(arr(op, k), E.astype(float), "known-untouched", rtol=1e-14,
                  msg=lab)


def check_structure(ctx, sp, model, lab):
    ctx.ok([type(o) for o in model.operators]
           == [og.KINDS[k][0] for k in sp.allkinds], "rhs-sum",
           f"{lab}: {[type(o).__name__ for o in model.operators]}")
    ctx.ok(model.state_dimension == sp.r and model.input_dimension == (
        sp.m if sp.hasu else 0), "rhs-sum",
        f"{lab} {model.state_dimension} {model.input_dimension}")


def check_rhs(ctx, rng, sp, model, Es, cls, lab, tol=1e-11):
    """rhs = sum of operators (for the entries Es in model order)."""
    q, u = rng.standard_normal(sp.r), rng.standard_normal(sp.m)
    k = int(rng.integers(1, 4))
    Q, U = rng.standard_normal((sp.r, k)), rng.standard_normal((sp.m, k))

    def ref(X, V):
        return sum(og.batch(kd, E, X, V) for kd, E in zip(sp.allkinds, Es))
    big = sum(og.batch(kd, np.abs(E), np.abs(Q), np.abs(U)).max()
              for kd, E in zip(sp.allkinds, Es))
    w = ref(q[:, None], u[:, None])[:, 0]
    big = max(big, np.abs(w).max(), 1e-300)
    if cls is M.ContinuousModel:
        t = float(rng.uniform(0, 3))
        got = model.rhs(t, q, (lambda s: u * (s / t)) if sp.hasu else None)
        Qg = model.rhs(t, Q, (lambda s: U) if sp.hasu else None)
    elif cls is mg.Steady:
        got, Qg = model.rhs(q), model.rhs(Q)
    else:
        got = model.rhs(q, u if sp.hasu else None)
        Qg = model.rhs(Q, U if sp.hasu else None)
    ctx.close(got, w, "rhs-sum", atol=tol * big, rtol=0, msg=lab)
    ctx.close(Qg, ref(Q, U), "rhs-sum", atol=tol * big, rtol=0, msg=lab)


def fit(rng, model, cls, Q, Z, U, hasu):
    if cls is mg.Steady:
        out = model.fit(Q, Z)
    elif hasu:
        out = model.fit(Q, Z, U) if rng.random() < .5 else model.fit(
            Q, Z, inputs=U)
    else:
        out = model.fit(Q, Z)
    assert out is model
    return out


@CHECK.family(quick=1000, thorough=20000)
def nonparametric(ctx, rng, i):
    cls = [M.DiscreteModel, M.ContinuousModel, mg.Steady][
        i % 3 if i % 6 < 5 else 0]
    sp = Spec(rng, steady=cls is mg.Steady, letters="cAHGQBN")
    lab = f"{cls.__name__} {sp.lab()}"
    sol, ref, slab = mg.solver(rng, sp.r, sp.d)
    exact = slab in ("none", "zero", "plain", "tsvd", "class-l2zero") \
        and rng.random() < .7
    Q, U = mg.samples(rng, sp.d, sp.r, sp.m)
    if rng.random() < .15:
        Q = rng.integers(-3, 4, Q.shape)
        ctx.ev("integer-data")
    model = cls(sp.passed, solver=sol)
    if isinstance(sp.passed, str):
        ctx.ev("string-structure")
    for (k, kn), op in zip(sp.order, model.operators):
        if not kn and op.entries is not None:
            ctx.ok(False, "recovered", "entries before fit")
    D = mg.dref(sp.infer, Q, U)
    if np.linalg.matrix_rank(D) < sp.d:
        Q, U = mg.samples(rng, sp.d, sp.r, sp.m, 40)
        D = mg.dref(sp.infer, Q, U)
    if exact:
        Z = sp.f(Q, U)
    else:
        Z = sp.fknown(Q, U) + gen.states(rng, sp.r, Q.shape[1], "normal")
        if rng.random() < .25:  # states or derivatives that are counts
            Z = np.rint(10 * Z / (np.abs(Z).max() + 1e-300)).astype(int)
            ctx.ev("integer-lhs")
    ctx.note(cls=cls.__name__, order=str(sp.order), r=sp.r, m=sp.m,
             solver=slab, exact=exact, k=Q.shape[1])
    lab += f" {slab} exact={exact}"
    Qg, Zg = gen.layout(rng, Q), gen.layout(rng, Z)
    Ug = gen.layout(rng, U)
    if sp.r == 1 and rng.random() < .6 and cls is not M.DiscreteModel:
        Qg, Zg = Qg[0], Zg[0]
        ctx.ev("one-dimensional")
    if sp.m == 1 and rng.random() < .5:
        Ug = Ug[0]
    if cls is mg.Steady:
        ctx.ev("steady")
    if cls is M.DiscreteModel and sp.hasu and rng.random() < .4 \
            and Ug.shape[-1] == Q.shape[1]:
        extra = rng.standard_normal(Ug.shape[:-1] + (int(rng.integers(1, 4)),))
        Ug = np.concatenate([Ug, extra], axis=-1)
        ctx.ev("extra-inputs")
    fit(rng, model, cls, Qg, Zg, Ug, sp.hasu)
    if sp.hasu:
        ctx.ev("inputs")
    if sp.order[0][1]:
        ctx.ev("known-first")
    if sp.order[-1][1]:
        ctx.ev("known-last")
    if any(k in sp.infer for _, k, _ in sp.fixed):
        ctx.ev("same-type-known")
    check_structure(ctx, sp, model, lab)
    check_known(ctx, sp, model, lab)
    ctx.close(model.solver.data_matrix, D, "data-matrix", rtol=1e-13,
              msg=lab)
    R = Z - sp.fknown(Q, U)
    W = ref(D, R)
    cond = np.linalg.cond(D)
    zs = np.abs(R).max() + np.abs(Z).max()
    tol = 1e-13 * cond ** 2 * zs / max(np.linalg.norm(D, 2), 1e-300) \
        * np.sqrt(D.size) + 1e-12 * np.abs(W).max()
    if tol > 1e-3 * np.abs(W).max():
        return
    O = np.hstack([arr(op, k) for (k, kn), op in zip(
        sp.order, model.operators) if not kn])
    ctx.close(O, W, "regression", atol=tol, rtol=0, msg=lab)
    if exact:
        ctx.close(O, np.hstack(sp.learned()), "recovered", atol=tol, rtol=0,
                  msg=lab)
    ctx.close(model.operator_matrix, O, "operator-matrix", rtol=0, msg=lab)
    Es = [arr(op, k) for op, k in zip(model.operators, sp.allkinds)]
    check_rhs(ctx, rng, sp, model, Es, cls, lab)
    # named accessors
    for letter in "cAHGBN":
        first = [op for op, k in zip(model.operators, sp.allkinds)
                 if k == letter]
        ctx.ok(getattr(model, letter + "_") is (first[0] if first else None),
               "accessors", f"{lab} {letter}_")
    ctx.ok(all(a is b for a, b in zip(model, model.operators)), "accessors",
           lab)
    # new regularization: solve the same regression again
    if slab in ("scalar", "l2", "tik"):
        lam = float(10.0 ** rng.uniform(-2, .5))
        model.solver.regularizer = lam if slab != "tik" else np.full(
            sp.d, lam)
        model.refit()
        A = np.vstack([D, lam * np.eye(sp.d)])
        W2 = np.linalg.lstsq(A, np.vstack([R.T, np.zeros((sp.d, sp.r))]),
                             rcond=None)[0].T
        O = np.hstack([arr(op, k) for (k, kn), op in zip(
            sp.order, model.operators) if not kn])
        ctx.close(O, W2, "refit-after-change",
                  atol=tol + 1e-12 * np.abs(W2).max(), rtol=0, msg=lab)
        check_known(ctx, sp, model, lab)


@CHECK.family(quick=120, thorough=2500)
def trajectories(ctx, rng, i):
    """Discrete models learned from trajectories recover the dynamics."""
    sp = Spec(rng, letters="cABN", maxr=3)
    # contractive dynamics so that trajectories stay bounded
    for j, (k, kn) in enumerate(sp.order):
        E = sp.entries[j] = sp.entries[j].astype(float) * 0
        E += rng.standard_normal(E.shape) * {"A": .3, "N": .15}.get(k, 1.0)
        if kn:
            sp.ops[j] = og.KINDS[k][0](E if k != "c" else E[:, 0])
    sp.fixed = [(sp.ops[j], k, sp.entries[j])
                for j, (k, kn) in enumerate(sp.order) if kn]
    K = int(rng.integers(1, 4))
    Qs, Us = [], []
    n = 2 * sp.d + 6
    for _ in range(K):
        nk = n + int(rng.integers(0, 6)) if K == 1 else int(
            rng.integers(3, n))
        U = rng.standard_normal((sp.m, nk))
        Q = np.empty((sp.r, nk))
        Q[:, 0] = rng.standard_normal(sp.r)
        for j in range(nk - 1):
            Q[:, j + 1] = sp.f(Q[:, j:j + 1], U[:, j:j + 1])[:, 0]
        if not np.isfinite(Q).all() or np.abs(Q).max() > 1e3:
            return
        Qs.append(Q)
        Us.append(U)
    model = M.DiscreteModel(sp.ops)
    lab = f"trajectory {sp.lab()} K={K}"
    ctx.note(order=str(sp.order), r=sp.r, m=sp.m, K=K)
    Q0 = np.hstack([Q[:, :-1] for Q in Qs])
    Q1 = np.hstack([Q[:, 1:] for Q in Qs])
    V0 = np.hstack([U[:, :-1] for U in Us])
    D = mg.dref(sp.infer, Q0, V0)
    if K == 1 and rng.random() < .7:
        Ug = Us[0][:, :Qs[0].shape[1] - int(rng.integers(0, 2))]
        if sp.m == 1 and rng.random() < .5:
            Ug = Ug[0]
        if sp.hasu:
            model.fit(Qs[0], inputs=Ug)
        else:
            model.fit(Qs[0])
        ctx.ev("no-nextstates")
    else:
        out = M.DiscreteModel.stack_trajectories(
            [gen.layout(rng, Q) for Q in Qs],
            [(U[0] if sp.m == 1 else U)[..., :U.shape[1] - int(
                rng.integers(0, 2))] for U in Us] if sp.hasu else None)
        ctx.ok(len(out) == (3 if sp.hasu else 2), "stacked-trajectories", lab)
        ctx.equal(out[0], Q0, "stacked-trajectories", lab)
        ctx.equal(out[1], Q1, "stacked-trajectories", lab)
        if sp.hasu:
            ctx.equal(np.atleast_2d(out[2]), V0, "stacked-trajectories", lab)
        model.fit(*out)
    ctx.close(model.solver.data_matrix, D, "data-matrix", rtol=1e-13,
              msg=lab)
    check_known(ctx, sp, model, lab)
    c = np.linalg.cond(D)
    O = np.hstack([arr(op, k) for (k, kn), op in zip(
        sp.order, model.operators) if not kn])
    W = np.hstack(sp.learned())
    tol = 1e-11 * c * (np.abs(W).max() + np.abs(Q1).max())
    if D.shape[0] < sp.d or c > 1e7 or tol > 1e-2 * np.abs(W).max():
        return
    ctx.close(O, W, "trajectory", atol=tol, rtol=0, msg=lab)


@CHECK.family(quick=40, thorough=600)
def known_only(ctx, rng, i):
    """A model whose operators are all known ignores the data."""
    kinds, r, m = mg.structure(rng, letters="cAHGQBN", nmax=4)
    made = [og.make(rng, k, r, m) for k in kinds]
    cls = gen.pick(rng, [M.DiscreteModel, M.ContinuousModel])
    model = cls([o[0] for o in made])
    lab = f"known {kinds} r={r} m={m}"
    ctx.note(kinds=str(kinds), r=r, m=m, cls=cls.__name__)
    Q, U = mg.samples(rng, 5, r, m)
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        hasu = mg.uses(kinds)
        out = model.fit(Q, rng.standard_normal(Q.shape), U if hasu else None)
    ctx.ok(out is model and any(issubclass(x.category, opinf.errors
                                           .OpInfWarning) for x in w),
           "fully-known", lab)
    for o, k, (op, E, _) in zip(model.operators, kinds, made):
        ctx.ok(o is op, "fully-known", lab)
        ctx.close(arr(o, k), E.astype(float), "fully-known", rtol=1e-14,
                  msg=lab)
    ctx.ok(model.state_dimension == r, "fully-known", lab)


# Parametric ------------------------------------------------------------------
BANK1 = [lambda mu: mu, lambda mu: mu**2 - 1, lambda mu: 1.0, np.sin,
         lambda mu: 1 / (2 + mu)]
BANK2 = [lambda mu: mu[0], lambda mu: mu[1] ** 2 - mu[0], lambda mu: 1.0,
         lambda mu: np.sin(mu[0] * mu[1])]


class PSpec:
    """Mixed parametric structure: per operator plain/affine/interp."""

    def __init__(self, rng, s, p, mus, interp=True):
        self.kinds, self.r, self.m = mg.structure(
            rng, letters="cAHBNG", maxr=3, nmax=4)
        self.s, self.p, self.mus = s, p, mus
        n = len(self.kinds)
        types = ["plain", "affine", "affine"] + (["interp"] if interp else [])
        self.types = [gen.pick(rng, types) for _ in range(n)]
        if not any(t == "affine" for t in self.types):
            self.types[int(rng.integers(n))] = "affine"
        self.known = [bool(rng.random() < .3) for _ in range(n)]
        if all(self.known):
            self.known[int(rng.integers(n))] = False
        self.hasu = mg.uses(self.kinds)
        self.ops, self.terms, self.coef = [], [], []
        for k, t, kn in zip(self.kinds, self.types, self.known):
            if t == "plain":
                E = [og.entries(rng, k, self.r, self.m)]
                fs = [lambda mu: 1.0]
                op = og.KINDS[k][0](og.given(rng, k, E[0], "dense" if k
                                             != "c" else "vec")[0]) \
                    if kn else og.KINDS[k][0]()
            elif t == "affine":
                bank = BANK1 if p == 1 else BANK2
                A = int(rng.integers(1, 4))
                fs = [bank[j] for j in rng.choice(len(bank), A,
                                                  replace=False)]
                E = [og.entries(rng, k, self.r, self.m) for _ in fs]
                kw = dict(entries=[e[:, 0] if k == "c" else e for e in E]) \
                    if kn else {}
                op = og.AFF[k](list(fs), **kw)
            else:
                E = [og.entries(rng, k, self.r, self.m) for _ in range(s)]
                fs = None
                if kn:
                    op = og.INT[k](mus, entries=[
                        e[:, 0] if k == "c" else e for e in E])
                else:
                    op = og.INT[k]()
            self.ops.append(op)
            self.terms.append(E)
            self.coef.append(fs)
        self.d = sum(len(E) * og.ncols(k, self.r, self.m) for k, E, kn in zip(
            self.kinds, self.terms, self.known) if not kn)

    def at(self, j, mu, i):
        """Reference entries of operator j at training parameter i."""
        if self.coef[j] is None:
            return self.terms[j][i].astype(float)
        return sum(float(f(mu)) * E for f, E in zip(self.coef[j],
                                                    self.terms[j]))

    def f(self, i, Q, U, only=None):
        out = np.zeros((self.r, Q.shape[1]))
        for j, k in enumerate(self.kinds):
            if only is None or self.known[j] == only:
                out = out + og.batch(k, self.at(j, self.mus[i], i), Q, U)
        return out

    def D(self, Qs, Us):
        rows = []
        for i, (Q, U) in enumerate(zip(Qs, Us)):
            for c in range(Q.shape[1]):
                row = []
                for j, k in enumerate(self.kinds):
                    if self.known[j]:
                        continue
                    b = og.block(k, Q[:, c], U[:, c])
                    if self.coef[j] is None:
                        for l in range(self.s):
                            row.append(b if l == i else 0 * b)
                    else:
                        for f in self.coef[j]:
                            row.append(float(f(self.mus[i])) * b)
                rows.append(np.concatenate(row))
        return np.array(rows, float)


def pmus(rng, p, s):
    if p == 1:
        mus = np.sort(rng.uniform(0, 2, s) * .2 + np.arange(s))
        return mus if rng.random() < .6 else rng.permutation(mus)
    return c17points(rng, p, False, s) * 2


@CHECK.family(quick=500, thorough=10000)
def parametric(ctx, rng, i):
    cls = [M.ParametricDiscreteModel, M.ParametricContinuousModel][i % 2]
    p = int(rng.integers(1, 3))
    mus = pmus(rng, p, int(rng.integers(4, 8)))
    s = len(mus)
    sp = PSpec(rng, s, p, mus)
    if "interp" not in sp.types and rng.random() < .4:
        # several trajectories of one parameter
        for _ in range(int(rng.integers(1, 3))):
            a, b = rng.choice(s, 2, replace=False)
            mus[a] = mus[b]
        ctx.ev("repeated-parameters")
    lab = (f"{cls.__name__} p={p} s={s} "
           f"{list(zip(sp.kinds, sp.types, sp.known))} r={sp.r} m={sp.m}")
    ctx.note(cls=cls.__name__, kinds=str(sp.kinds), types=str(sp.types),
             known=str(sp.known), p=p, s=s, r=sp.r, m=sp.m)
    ki = max(3, int(np.ceil(2.0 * sp.d / s)))
    ki += max(sum(og.ncols(k, sp.r, sp.m) for k, t, kn in zip(
        sp.kinds, sp.types, sp.known) if t == "interp" and not kn), 0)
    Qs, Us = [], []
    for _ in range(s):
        k = ki + int(rng.integers(0, 4))
        Qs.append(rng.standard_normal((sp.r, k)))
        Us.append(rng.standard_normal((sp.m, k)))
    D = sp.D(Qs, Us)
    sol, ref, slab = mg.solver(rng, sp.r, sp.d)
    c = np.linalg.cond(D)
    if c > 1e6 and slab == "tsvd":
        return
    exact = slab in ("none", "zero", "plain", "class-l2zero")
    if exact:
        Zs = [sp.f(j, Q, U) for j, (Q, U) in enumerate(zip(Qs, Us))]
    else:
        Zs = [sp.f(j, Q, U, True) + rng.standard_normal(Q.shape)
              for j, (Q, U) in enumerate(zip(Qs, Us))]
    model = cls(sp.ops, solver=sol)
    given = mus if rng.random() < .5 else list(mus)
    Qg = [gen.layout(rng, Q) for Q in Qs]
    Zg = [gen.layout(rng, Z) for Z in Zs]
    Ug = [gen.layout(rng, U) for U in Us]
    if sp.r == 1 and rng.random() < .5 and i % 2:
        Qg, Zg = [Q[0] for Q in Qg], [Z[0] for Z in Zg]
        ctx.ev("one-dimensional")
    if sp.m == 1 and rng.random() < .5:
        Ug = [U[0] for U in Ug]
    if i % 2 == 0 and sp.hasu and rng.random() < .3:
        Ug = [np.concatenate([U, U[..., :1]], axis=-1) for U in Ug]
        ctx.ev("extra-inputs")
    keep = [[np.array(e) for e in op.entries] if kn else None
            for op, kn in zip(sp.ops, sp.known)]
    args = (given, Qg, Zg) + ((Ug,) if sp.hasu else ())
    ctx.ok(model.fit(*args) is model, "affine-mixed", lab)
    if len(set(sp.types)) > 1:
        ctx.ev("affine-mixed")
    if "interp" in sp.types:
        ctx.ev("interp-in-parametric")
    for op, kn, K in zip(sp.ops, sp.known, keep):
        if kn:
            for a, b in zip(op.entries, K):
                ctx.equal(np.asarray(a), b, "known-untouched", lab)
    ctx.ok(all(a is b for a, b in zip(model.operators, sp.ops)),
           "known-untouched", lab)
    ctx.close(model.solver.data_matrix, D, "data-matrix", rtol=1e-12,
              msg=lab)
    ctx.ok(model.parameter_dimension == p and model.state_dimension == sp.r
           and model.input_dimension == (sp.m if sp.hasu else 0),
           "affine-mixed", lab)
    R = np.hstack([Z - sp.f(j, Q, U, True) for j, (Q, U, Z) in enumerate(
        zip(Qs, Us, Zs))])
    W = ref(D, R)
    zs = np.abs(R).max() + np.abs(np.hstack(Zs)).max()
    tol = (1e-13 * min(c, 1e8) ** (1 if exact else 2) * zs * D.shape[0]
           / max(np.linalg.norm(D, 2), 1e-300) + 1e-11 * np.abs(W).max())
    if c > 1e8 or tol > 1e-3 * np.abs(W).max():
        return
    col = 0
    got = {}
    for j, (k, op, kn) in enumerate(zip(sp.kinds, sp.ops, sp.known)):
        if kn:
            continue
        n = og.ncols(k, sp.r, sp.m)
        es = [op.entries] if sp.types[j] == "plain" else list(op.entries)
        ctx.ok(len(es) == len(sp.terms[j]), "affine-regression", lab)
        got[j] = []
        for e, T in zip(es, sp.terms[j]):
            e = np.asarray(e).reshape(sp.r, -1)
            ctx.close(e, W[:, col:col + n], "affine-regression", atol=tol,
                      rtol=0, msg=f"{lab} {slab}")
            if exact:
                ctx.close(e, T.astype(float), "affine-recovered", atol=tol,
                          rtol=0, msg=lab)
            col += n
            got[j].append(e)
    # evaluation at the training parameters
    for l in rng.permutation(s)[:2]:
        q, u = rng.standard_normal(sp.r), rng.standard_normal(sp.m)
        want = np.zeros(sp.r)
        mag = 1e-300
        for j, k in enumerate(sp.kinds):
            T = got.get(j, sp.terms[j])
            if sp.coef[j] is None:
                cs = [1.0 * (x == l) for x in range(s)]
            else:
                cs = [float(f(mus[l])) for f in sp.coef[j]]
            for cc, E in zip(cs, T):
                want = want + cc * og.value(k, E, q, u)
                mag = max(mag, max(abs(cc), .01) * np.abs(og.value(
                    k, np.abs(E), np.abs(q), np.abs(u))).max())
        if i % 2 == 0:
            g = model.rhs(mus[l], q, u if sp.hasu else None)
        else:
            g = model.rhs(0.3, mus[l], q, (lambda t: u) if sp.hasu else None)
        ctx.close(g, want, "rhs-sum", atol=1e-9 * mag, rtol=0, msg=lab)


@CHECK.family(quick=300, thorough=7000)
def interpolatory(ctx, rng, i):
    """Each training parameter's operators solve their own regression."""
    cls = [M.InterpDiscreteModel, M.InterpContinuousModel][i % 2]
    kinds, r, m = mg.structure(rng, letters="cAHBNG", maxr=3, nmax=4)
    p = gen.pick(rng, [1, 1, 1, 2])
    s = int(rng.integers(2, 6)) + (3 if p == 2 else 0)
    mus = pmus(rng, p, s)
    s = len(mus)
    IC = None
    if p == 1 and rng.random() < .3:
        IC = gen.pick(rng, [si.CubicSpline, si.PchipInterpolator])
        mus = np.sort(mus)
    known = [bool(rng.random() < .25) for _ in kinds]
    if all(known):
        known[0] = False
    infer = [k for k, kn in zip(kinds, known) if not kn]
    d = sum(og.ncols(k, r, m) for k in infer)
    hasu = mg.uses(kinds)
    terms = [[og.entries(rng, k, r, m) for _ in range(s)] for k in kinds]
    ops = []
    for k, kn, T in zip(kinds, known, terms):
        if kn:
            ops.append(og.INT[k](mus, entries=[
                e[:, 0] if k == "c" else e for e in T]))
        else:
            ops.append(k if rng.random() < .6 else og.INT[k]())
    if all(isinstance(o, str) for o in ops) and rng.random() < .5:
        ops = "".join(ops)
    sol, ref, slab = mg.solver(rng, r, d)
    exact = slab in ("none", "zero", "plain", "class-l2zero")
    lab = (f"{cls.__name__} {kinds} known={known} r={r} m={m} p={p} s={s} "
           f"{slab}")
    ctx.note(cls=cls.__name__, kinds=str(kinds), known=str(known), r=r, m=m,
             p=p, s=s, solver=slab, ic=str(IC and IC.__name__))
    model = cls(ops, solver=sol, InterpolatorClass=IC)
    Qs, Us, Zs, Rs, Ds = [], [], [], [], []
    for j in range(s):
        Q, U = mg.samples(rng, d, r, m)
        kn = np.zeros_like(Q)
        un = np.zeros_like(Q)
        for k, b, T in zip(kinds, known, terms):
            v = og.batch(k, T[j].astype(float), Q, U)
            if b:
                kn = kn + v
            else:
                un = un + v
        if not exact:
            un = rng.standard_normal(Q.shape)
        Qs.append(Q)
        Us.append(U)
        Rs.append(un)
        Zs.append(un + kn)
        Ds.append(mg.dref(infer, Q, U))
    if any(known):
        ctx.ev("interp-known")
    given = mus if rng.random() < .5 else list(mus)
    args = (given, [gen.layout(rng, Q) for Q in Qs],
            [gen.layout(rng, Z) for Z in Zs])
    if hasu:
        args += ([U[0] if m == 1 and rng.random() < .5 else U for U in Us],)
    model.fit(*args)
    ctx.ok(model.parameter_dimension == p and model.state_dimension == r,
           "interp-regression", lab)
    for k, kn, op, T in zip(kinds, known, model.operators, terms):
        ctx.ok(type(op) is og.INT[k], "interp-regression", lab)
        ctx.equal(np.asarray(op.training_parameters), mus,
                  "interp-regression", lab)
        if kn:
            for e, E in zip(op.entries, T):
                ctx.equal(np.asarray(e).reshape(E.shape), E,
                          "known-untouched", lab)
    for j in range(s):
        W = ref(Ds[j], Rs[j])
        c = np.linalg.cond(Ds[j])
        zs = max(np.abs(Z).max() for Z in Zs) + np.abs(Rs[j]).max()
        tol = (1e-13 * c ** (1 if exact else 2) * zs * Ds[j].shape[0]
               / np.linalg.norm(Ds[j], 2) + 1e-11 * np.abs(W).max())
        if c > 1e6 or tol > 1e-3 * np.abs(W).max():
            continue
        ctx.close(model.solvers[j].data_matrix, Ds[j], "data-matrix",
                  rtol=1e-12, msg=lab)
        col = 0
        ev = model.evaluate(mus[j])
        for k, kn, op, T, e2 in zip(kinds, known, model.operators, terms,
                                    ev.operators):
            n = og.ncols(k, r, m)
            e = np.asarray(op.entries[j]).reshape(r, -1)
            if kn:
                continue
            ctx.close(e, W[:, col:col + n], "interp-regression", atol=tol,
                      rtol=0, msg=lab)
            if exact:
                ctx.close(e, T[j].astype(float), "interp-recovered",
                          atol=tol, rtol=0, msg=lab)
            ctx.close(arr(e2, k), e, "interp-regression",
                      atol=1e-9 * max(np.abs(np.asarray(op.entries,
                                                        float)).max(),
                                      1e-300), rtol=0, msg=lab)
            col += n


@CHECK.family(quick=100, thorough=2000)
def single_precision(ctx, rng, i):
    """Training data stored in single precision."""
    r, m = int(rng.integers(1, 4)), int(rng.integers(1, 3))
    kinds = gen.pick(rng, ["A", "cA", "AB", "cAB", "ABN", "cAHB"])
    k = 60
    E = {kd: .5 * og.entries(rng, kd, r, m) for kd in kinds}
    Q = rng.standard_normal((r, k)).astype(np.float32)
    U = rng.standard_normal((m, k)).astype(np.float32)
    Z = sum(og.batch(kd, E[kd], Q.astype(float), U.astype(float))
            for kd in kinds)
    if rng.random() < .5:
        Z = Z.astype(np.float32)
    cls = [M.ContinuousModel, M.DiscreteModel][i % 2]
    model = cls(list(kinds))
    u = gen.layout(rng, U) if set(kinds) & set("BN") else None
    kw = {"ddts" if i % 2 == 0 else "nextstates": gen.layout(rng, Z)}
    lab = f"single {cls.__name__} {kinds} r={r} m={m} {Z.dtype}"
    ctx.note(kinds=kinds, r=r, m=m, single=str(Z.dtype))
    ctx.ev("single-precision")
    with quiet():
        model.fit(gen.layout(rng, Q), inputs=u, **kw)
    for op, kd in zip(model.operators, kinds):
        ctx.close(arr(op, kd), E[kd].reshape(r, -1), "recovered",
                  atol=5e-4, msg=lab)
