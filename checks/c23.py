"""C23: Bayesian models carry the correct posterior."""
import contextlib
import copy
import io
import os
import warnings

import numpy as np
import opinf

from rv import gen, modelgen as mg, opgen as og
from rv.core import Check, scratch

M = opinf.models
L = opinf.lstsq
Posterior = opinf.roms.OperatorPosterior
CHECK = Check(
    "C23",
    "Family 'distribution' builds operator posteriors from means and "
    "precisions (or covariances), also with rows of different lengths, one "
    "row, one column or ill-conditioned covariances, saves and loads them, "
    "and compares means and covariances with dense inverses; draws with "
    "seeded random numbers are examined through their Mahalanobis distances, "
    "whitened means and correlations over rows, and through exact shift and "
    "scaling identities. Family 'learned' fits Bayesian reduced-order models "
    "and compares the posterior with the formulas for the data and "
    "regularization in force, the operators drawn with the draws of the "
    "posterior, and predictions with those of the drawn operators. Family "
    "'selection' runs regularization searches while a hook records every "
    "prediction; objective values are recomputed from the recorded "
    "predictions, the winner from the recorded objective values. Family "
    "'singular' fits data with a zero state (whose precision is singular): "
    "no posterior may remain, and draws and predictions must fail.",
    require=["no-posterior", "predict-after-refit", "many-rows",
             "means", "covariances", "draw-shape", "draw-distance",
             "draw-mean", "draw-correlation", "draw-shift", "draw-scaling",
             "saved", "loaded-ill-conditioned", "equality", "uneven-rows",
             "one-row", "one-column", "posterior-mean",
             "posterior-covariance", "drawn-operators", "predict-drawn",
             "fresh-draws", "refit-posterior", "fit-gives-mean",
             "selection-objective", "selection-unstable", "selection-winner",
             "selection-posterior", "selection-draws", "selection-again",
             "selection-testcase", "selection-all-fail", "stages"])


def precision(rng, d, cond):
    U = np.linalg.qr(rng.standard_normal((d, d)))[0]
    s = np.geomspace(1, cond, d) * 10.0 ** (
        rng.uniform(-2, 2) if rng.random() < .8 else 11)
    P = (U * s) @ U.T
    return (P + P.T) / 2


def examine_draws(ctx, post, means, precs, n, lab, seed):
    """Distances, whitened means and correlations of n seeded draws."""
    np.random.seed(seed)
    draws = [post.rvs() for _ in range(n)]
    r = len(means)
    even = len({len(m) for m in means}) == 1
    for x in draws[:3]:
        if even:
            ctx.ok(isinstance(x, np.ndarray) and x.shape == (
                r, len(means[0])), "draw-shape", f"{lab} {np.shape(x)}")
        else:
            ctx.ok(isinstance(x, list) and [np.shape(v) for v in x] == [
                np.shape(m) for m in means], "draw-shape", lab)
    W = []
    for i in range(r):
        C = np.linalg.cholesky(precs[i])
        X = np.array([x[i] for x in draws]) - means[i]
        w = X @ C                       # white if P = C C^T
        d = w.shape[1]
        dist = np.mean(np.sum(w ** 2, axis=1))
        ctx.close(dist, d, "draw-distance", atol=8 * np.sqrt(2 * d / n)
                  + 60 * d / n, rtol=0, msg=f"{lab} row {i} d={d}")
        ctx.ok(np.abs(w.mean(axis=0)).max() < 7 / np.sqrt(n), "draw-mean",
               f"{lab} row {i} {w.mean(axis=0)}")
        W.append(w)
    W = np.hstack(W)
    K = W.T @ W / n - np.eye(W.shape[1])
    K -= np.diag(np.diag(K))
    ctx.ok(np.abs(K).max() < 8 / np.sqrt(n) + 60 / n, "draw-correlation",
           f"{lab} {np.abs(K).max()}")


@CHECK.family(quick=140, thorough=4000)
def distribution(ctx, rng, i):
    r = int(gen.pick(rng, [1, 2, 3, 4] * 3 + [11, 13]))
    d = int(gen.pick(rng, [1, 2, 3, 6][:4 if r < 10 else 2]))
    ctx.ev("many-rows", r > 10)
    uneven = r > 1 and rng.random() < .25
    ds = [int(rng.integers(1, 6)) for _ in range(r)] if uneven else [d] * r
    uneven = len(set(ds)) > 1
    cond = float(gen.pick(rng, [1, 10, 1e3, 1e6, 1e11]))
    means = [rng.standard_normal(x) * 10.0 ** rng.uniform(-2, 2) for x in ds]
    precs = [precision(rng, x, cond) for x in ds]
    inverted = rng.random() < .35 and cond <= 1e6
    covs = [np.linalg.inv(P) for P in precs]
    lab = f"r={r} ds={ds} cond={cond:g} inverted={inverted}"
    ctx.note(ds=str(ds), cond=cond, inverted=inverted)
    ctx.ev("uneven-rows", uneven)
    ctx.ev("one-row", r == 1)
    ctx.ev("one-column", 1 in ds)
    array = not uneven and rng.random() < .5
    mg_ = np.array(means) if array else [m.copy() for m in means]
    pg = [gen.layout(rng, C if inverted else P)
          for C, P in zip(covs, precs)]
    if array and rng.random() < .5:
        pg = np.array(pg)
    kw = dict(alreadyinverted=True) if inverted else {}

    def examine(post, lab, seed):
        ctx.ok(post.nrows == r, "means", lab)
        for j in range(r):
            ctx.close(post.means[j], means[j], "means", rtol=1e-14, msg=lab)
            ctx.close(post.covs[j], covs[j], "covariances",
                      rtol=1e-9 + 1e-14 * cond, msg=lab)
        examine_draws(ctx, post, means, precs, 400, lab, seed)
    post = Posterior(mg_, pg, **kw)
    s1 = int(rng.integers(2 ** 31))
    examine(post, lab, s1)
    # shifted means, scaled covariances
    np.random.seed(s1)
    X = post.rvs()
    sh = [rng.standard_normal(x) for x in ds]
    other = Posterior([m + s for m, s in zip(means, sh)], list(pg), **kw)
    np.random.seed(s1)
    Y = other.rvs()
    tol = 1e-9
    for j in range(r):
        sc = np.abs(X[j] - means[j]).max() + np.abs(means[j]).max() + 1
        ctx.close(Y[j] - X[j], sh[j], "draw-shift", atol=tol * sc, msg=lab)
    c = float(2.0 ** rng.integers(-3, 4))
    other = Posterior(means, [P * (c ** 2 if inverted else c ** -2)
                              for P in pg], **kw)
    np.random.seed(s1)
    Z = other.rvs()
    for j in range(r):
        sc = np.abs(X[j] - means[j]).max() + np.abs(means[j]).max()
        ctx.close((Z[j] - means[j]) / c, X[j] - means[j], "draw-scaling",
                  atol=tol * sc * (1 + 1 / c) + 1e-6 * np.abs(
                      X[j] - means[j]).max(), msg=lab)
    # persistence
    with scratch() as tmp:
        path = os.path.join(tmp, "post.h5")
        post.save(path)
        back = Posterior.load(path)
    ctx.ev("saved")
    if cond > 1e9:
        ctx.ev("loaded-ill-conditioned")
    ctx.ok(back == post and post == back, "equality", lab)
    for j in range(r):
        ctx.equal(back.means[j], post.means[j], "saved", lab)
        ctx.equal(back.covs[j], post.covs[j], "saved", lab)
    if cond <= 1e6:
        examine(back, lab + " loaded", s1 + 1)
    # inequality
    m2 = [m.copy() for m in means]
    m2[-1][0] += 1
    ctx.ok(not (post == Posterior(m2, list(pg), **kw)), "equality", lab)
    p2 = [P.copy() for P in pg]
    p2[-1] = p2[-1] * 2
    ctx.ok(not (post == Posterior(means, p2, **kw)), "equality", lab)


# -- learned posteriors ------------------------------------------------------
SOLVERS = ["l2", "l2dec", "tik", "tikdec", "tikfull", "tikdecfull"]


class Problem:
    def __init__(self, rng):
        self.rng = rng
        self.disc = rng.random() < .5
        self.kinds, self.r, self.m = mg.structure(
            rng, maxr=3, letters="cAHB", nmax=3)
        if "A" not in self.kinds:
            self.kinds.append("A")
        self.hasu = mg.uses(self.kinds)
        r, m = self.r, self.m
        self.d = sum(og.ncols(k, r, m) for k in self.kinds)
        self.n = r + int(gen.pick(rng, [0, 0, 3]))
        self.staged = self.n > r or rng.random() < .3
        self.sk = gen.pick(rng, SOLVERS)
        # a regularization matrix that is not symmetric
        self.G0 = np.diag(rng.uniform(.5, 2, self.d)) + .5 * np.triu(
            rng.standard_normal((self.d, self.d)), 1)
        self.G0[0, 0] = 1.
        self.V = np.linalg.qr(rng.standard_normal((self.n, r)))[0]
        A = rng.standard_normal((r, r))
        A = A - A.T
        self.A = A / (np.abs(np.linalg.eigvals(A)).max() + .3) - .1 * np.eye(
            r)
        self.B = .3 * rng.standard_normal((r, m))
        self.w = rng.uniform(.5, 3, m)
        self.dt = .1
        self.noise = float(10.0 ** rng.uniform(-4, -2))

    def reg(self, lam):
        r, d = self.r, self.d
        return {"l2": lambda: lam,
                "l2dec": lambda: lam * (1. + np.arange(r)),
                "tik": lambda: lam * (1. + np.arange(d) / d),
                "tikdec": lambda: [lam * (1. + i) * np.ones(d)
                                   for i in range(r)],
                "tikfull": lambda: lam * self.G0,
                "tikdecfull": lambda: [lam * (1. + i) * self.G0
                                       for i in range(r)]}[self.sk]()

    def gammas(self, lam):
        g = self.reg(lam)
        r, d = self.r, self.d
        if self.sk == "l2":
            return [g * np.eye(d)] * r
        if self.sk == "l2dec":
            return [x * np.eye(d) for x in g]
        if self.sk == "tik":
            return [np.diag(g)] * r
        if self.sk == "tikfull":
            return [g] * r
        if self.sk == "tikdecfull":
            return list(g)
        return [np.diag(x) for x in g]

    def rom(self, lam, est=None):
        cls = {"l2": L.L2Solver, "l2dec": L.L2DecoupledSolver,
               "tik": L.TikhonovSolver, "tikdec": L.TikhonovDecoupledSolver,
               "tikfull": L.TikhonovSolver,
               "tikdecfull": L.TikhonovDecoupledSolver}
        solver = cls[self.sk](self.reg(lam))
        mod = (M.DiscreteModel if self.disc else M.ContinuousModel)(
            "".join(self.kinds), solver=solver)
        kw = {}
        if self.staged:
            kw = dict(basis=opinf.basis.PODBasis(num_vectors=self.r),
                      transformer=opinf.pre.ShiftScaleTransformer(
                          centering=True))
        if not self.disc and est is not None:
            kw["ddt_estimator"] = opinf.ddt.UniformFiniteDifferencer(est)
        return opinf.roms.BayesianROM(mod, **kw)

    def u(self, s):
        return np.cos(self.w * s + np.arange(self.m))

    def trajectory(self, k):
        rng = self.rng
        q = rng.standard_normal(self.r)
        Q = [q]
        for j in range(k - 1):
            for i in range(4):
                f = self.A @ q
                if self.hasu:
                    f = f + self.B @ self.u((j + i / 4) * self.dt)
                q = q + self.dt / 4 * f
            Q.append(q)
        Q = self.V @ np.array(Q).T
        Q = Q + self.noise * rng.standard_normal(Q.shape)
        return Q + (1. if self.staged else 0.)

    def lab(self):
        return (f"{'disc' if self.disc else 'cont'} "
                f"{''.join(self.kinds)} r={self.r} n={self.n} "
                f"{self.sk}")


def prepared(rng, P, rom, Q):
    """Calibrate the stages with other data, sometimes; what to expect."""
    flags = {}
    if rng.random() < .35:
        rom.encode(np.hstack(Q + [P.trajectory(9)]), fit_transformer=True,
                   fit_basis=True)
        flags = dict(fit_transformer=bool(rng.integers(2)),
                     fit_basis=bool(rng.integers(2)))
    X = np.hstack(Q)
    tf, basis = copy.deepcopy(rom.transformer), copy.deepcopy(rom.basis)
    if flags.get("fit_transformer", True):
        tf.fit(X)
    if flags.get("fit_basis", True):
        basis.fit(tf.transform(X))
    return (X, tf, basis), flags


def same_stages(ctx, rom, X, tf, basis, lab):
    Y = tf.transform(X)
    ctx.close(rom.transformer.transform(X), Y, "stages", rtol=1e-10, msg=lab)
    sv = np.append(basis.svdvals[:basis.reduced_state_dimension + 1], 0)
    if (sv[:-1] - sv[1:]).min() < 1e-5 * sv[0]:
        return
    a, b = rom.basis.compress(Y), basis.compress(Y)
    a = a * np.sign(np.sum(a * b, axis=1, keepdims=True))
    ctx.close(a, b, "stages", rtol=1e-8, scale=np.abs(b).max(), msg=lab)


def expected(P, rom, lam):
    """(means, precisions) for the data held by the model's solver."""
    D = np.asarray(rom.model.solver.data_matrix, float)
    Z = np.atleast_2d(rom.model.solver.lhs_matrix)
    means, precs = [], []
    for G, z in zip(P.gammas(lam), Z):
        K = np.vstack([D, G])
        o = np.linalg.lstsq(K, np.concatenate([z, np.zeros(len(G))]),
                            rcond=None)[0]
        sig = (np.sum((D @ o - z) ** 2) + np.sum((G @ o) ** 2)) / len(D)
        means.append(o)
        precs.append((D.T @ D + G.T @ G) / sig)
    return means, precs


def judge_posterior(ctx, P, rom, lam, lab):
    means, precs = expected(P, rom, lam)
    post = rom.posterior
    ctx.ok(post is not None and post.nrows == P.r, "posterior-mean", lab)
    for j in range(P.r):
        cond = np.linalg.cond(precs[j])
        ctx.close(post.means[j], means[j], "posterior-mean",
                  rtol=1e-8 + 1e-14 * cond, msg=f"{lab} row {j}")
        ctx.close(post.covs[j], np.linalg.inv(precs[j]),
                  "posterior-covariance", rtol=1e-7 + 1e-13 * cond,
                  msg=f"{lab} row {j}")
    return means


def check_entries(ctx, P, rom, O, rule, lab):
    for op, kd, (k2, E) in zip(rom.model.operators, P.kinds, mg.split(
            P.kinds, np.asarray(O), P.r, P.m).items()):
        e = mg.dense(op, kd)
        ctx.close(e, E, rule, rtol=1e-12, msg=f"{lab} {kd}",
                  scale=np.abs(O).max())


def use_draws(ctx, rng, P, rom, lab, rnd):
    """Draw operators, predict with them; sometimes predict first."""
    if rnd and rng.random() < .6:
        ctx.ev("predict-after-refit")
        predicting(ctx, rng, P, rom, lab)
    # drawing operators
    s = int(rng.integers(2 ** 31))
    np.random.seed(s)
    O = np.array(rom.posterior.rvs())
    ctx.ok(O.shape == (P.r, P.d), "draw-shape", f"{lab} {O.shape}")
    np.random.seed(s)
    rom.draw_operators()
    check_entries(ctx, P, rom, O, "drawn-operators", lab)
    ctx.close(np.asarray(rom.model.operator_matrix), O, "drawn-operators",
              rtol=1e-12, msg=lab)
    rom.draw_operators()
    ctx.ok(not np.array_equal(rom.model.operator_matrix, O), "fresh-draws",
           lab)
    predicting(ctx, rng, P, rom, lab)


def predicting(ctx, rng, P, rom, lab):
    s = int(rng.integers(2 ** 30))
    q0 = P.trajectory(2)[:, 0]
    if P.disc:
        args = [6] + ([np.column_stack([P.u(.1 * j) for j in range(7)])]
                      if P.hasu else [])
    else:
        args = [np.linspace(0, .4, 5)] + ([P.u] if P.hasu else [])
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        np.random.seed(s + 1)
        A = rom.predict(q0, *args)
        O1 = np.array(rom.model.operator_matrix)
        A2 = rom.predict(q0, *args)
        O2 = np.array(rom.model.operator_matrix)
        np.random.seed(s + 1)
        O = np.array(rom.posterior.rvs())
        plain = (M.DiscreteModel if P.disc else M.ContinuousModel)(
            [og.KINDS[kd][0](E if kd != "c" else E.ravel())
             for kd, E in mg.split(P.kinds, O, P.r, P.m).items()])
        B = rom.decode(plain.predict(rom.encode(q0), *args))
    ctx.close(O1, O, "predict-drawn", rtol=1e-12, msg=lab)
    ctx.ok(not np.array_equal(O1, O2), "fresh-draws", lab)
    if np.isfinite(B).all() and A.shape == B.shape:
        ctx.close(A, B, "predict-drawn", rtol=1e-8, msg=lab,
                  scale=np.abs(B).max())
        if A.shape == A2.shape and A.shape[1] > 1:
            ctx.ok(not np.array_equal(A, A2), "fresh-draws", lab)
    else:
        ctx.ok(np.isfinite(A).all() == np.isfinite(B).all(),
               "predict-drawn", lab)


@CHECK.family(quick=350, thorough=9000)
def learned(ctx, rng, i):
    P = Problem(rng)
    lam = float(10.0 ** rng.uniform(-2, 1))
    k = P.d + int(rng.integers(8, 30))
    ns = int(gen.pick(rng, [1, 2]))
    est = P.dt * np.arange(k) if rng.random() < .6 else None
    rom = P.rom(lam, est)
    lab = P.lab() + f" lam={lam:.2e}"
    ctx.note(disc=P.disc, kinds="".join(P.kinds), r=P.r, n=P.n, sk=P.sk,
             k=k, ns=ns)
    rounds = 2 if rng.random() < .4 else 1
    for rnd in range(rounds):
        if rnd:
            ctx.ev("refit-posterior")
            lam = float(10.0 ** rng.uniform(-2, 1))
            rom.model.solver.regularizer = P.reg(lam)
        Q = [P.trajectory(k) for _ in range(ns)]
        kw = {}
        if not P.disc and est is None:
            kw["lhs"] = [np.gradient(x, P.dt, axis=1) for x in Q]
        if P.hasu:
            kw["inputs"] = [np.column_stack(
                [P.u(s) for s in P.dt * np.arange(k)])] * ns
        stages = None
        if P.staged:
            stages, flags = prepared(rng, P, rom, Q)
        if ns == 1 and rng.random() < .5:
            Q = Q[0]
            kw = {a: b[0] for a, b in kw.items()}
        if P.staged:
            kw.update(flags)
        rom.fit(Q, **kw)
        if P.staged:
            same_stages(ctx, rom, *stages, f"{lab} {flags}")
        means = judge_posterior(ctx, P, rom, lam, f"{lab} rnd={rnd}")
        check_entries(ctx, P, rom, np.array(rom.posterior.means),
                      "fit-gives-mean", lab)
        if rnd == rounds - 1 or rng.random() < .5:
            use_draws(ctx, rng, P, rom, f"{lab} rnd={rnd}", rnd)


@CHECK.family(quick=60, thorough=1500)
def singular(ctx, rng, i):
    """Data that determines no posterior after data that does."""
    r, m = int(rng.integers(2, 5)), int(rng.integers(1, 3))
    kinds = gen.pick(rng, ["A", "cA", "AB", "cAB", "AH"])
    disc = bool(i % 2)
    kind = gen.pick(rng, ["l2", "l2dec", "tik", "tikdec"])
    d = sum(og.ncols(kd, r, m) for kd in kinds)
    solver = {"l2": lambda: L.L2Solver(0.),
              "l2dec": lambda: L.L2DecoupledSolver(np.zeros(r)),
              "tik": lambda: L.TikhonovSolver(np.zeros(d)),
              "tikdec": lambda: L.TikhonovDecoupledSolver(
                  [np.zeros(d)] * r)}[kind]()
    rom = opinf.roms.BayesianROM((M.DiscreteModel if disc else
                                  M.ContinuousModel)(kinds, solver=solver))
    lab = f"{kinds} r={r} m={m} {'disc' if disc else 'cont'} {kind}"
    ctx.note(kinds=kinds, r=r, m=m, disc=disc, sk=kind)
    k = 2 * d + 8
    dead = int(rng.integers(r))

    def fit(zero):
        Q = [rng.standard_normal((r, k)) for _ in range(2)]
        if zero:
            for x in Q:
                x[dead] = 0
        kw = dict(lhs=[rng.standard_normal((r, k)) for _ in Q])
        if "B" in kinds:
            kw["inputs"] = [rng.standard_normal((m, k)) for _ in Q]
        rom.fit(Q, **kw)
    q0 = rng.standard_normal(r)
    u = [rng.standard_normal((m, 4))] if "B" in kinds and disc else (
        [lambda t: np.ones(m)] if "B" in kinds else [])
    args = [3] + u if disc else [np.linspace(0, .01, 3)] + u
    for zero in [[True], [False, True], [False, True, False]][i % 3]:
        try:
            fit(zero)
        except ValueError as ex:  # a loud error: no operators were learned
            ctx.ok(zero and "NaN" in str(ex), "no-posterior", f"{lab} {ex}")
            ctx.ev("singular-refused")
            return
        if not zero:
            ctx.ok(rom.posterior is not None and rom.posterior.nrows == r,
                   "posterior-mean", lab)
            np.random.seed(3)
            X = rom.posterior.rvs()
            np.random.seed(3)
            rom.draw_operators()
            ctx.close(rom.model.operator_matrix, X, "drawn-operators",
                      rtol=1e-12, msg=lab)
            continue
        ctx.ok(rom.posterior is None, "no-posterior",
               f"{lab} posterior of data with a zero state")
        with ctx.raises((AttributeError, ValueError, RuntimeError),
                        "no-posterior", lab):
            rom.draw_operators()
        with ctx.raises((AttributeError, ValueError, RuntimeError),
                        "no-posterior", lab):
            rom.predict(q0, *args)


@CHECK.family(quick=80, thorough=2000)
def selection(ctx, rng, i):
    P = Problem(rng)
    if i % 3:
        P.disc = True
    P.noise = float(10.0 ** rng.uniform(-3, -1))
    ks = int(rng.integers(P.d + 6, P.d + 20))
    t = P.dt * np.arange(ks)
    cands = [float(x) for x in 10.0 ** rng.uniform(
        -4, 2, int(gen.pick(rng, [2, 4, 6])))]
    ndraws = int(gen.pick(rng, [1, 3, 6])) if P.disc else 3
    margin = float(gen.pick(rng, [1.2, 2, 5]))
    est = t if rng.random() < .6 or P.disc else None
    rom = P.rom(1., est)
    factory = P.reg
    only = rng.random() < .75
    lab = P.lab() + f" nc={len(cands)} draws={ndraws} margin={margin}"
    ctx.note(disc=P.disc, kinds="".join(P.kinds), r=P.r, n=P.n, sk=P.sk,
             nc=len(cands), ndraws=ndraws, margin=margin, only=only)
    np.random.seed(int(rng.integers(2 ** 31)))
    for rnd in range(2 if rng.random() < .3 else 1):
        if rnd:
            ctx.ev("selection-again")
        ns = int(gen.pick(rng, [1, 2]))
        Q = [P.trajectory(ks) for _ in range(ns)]
        extra = int(gen.pick(rng, [0, 1, 10, 30]))
        kw = dict(num_posterior_draws=ndraws, stability_margin=margin,
                  gridsearch_only=only, regularizer_factory=factory)
        if P.staged:
            stages, flags = prepared(rng, P, rom, Q)
            kw.update(flags)
        tq = P.trajectory(2)[:, 0] if rng.random() < .3 else None
        tn = 12
        bound = float(gen.pick(rng, [2., 5., 1e-9]))
        if tq is not None:
            ctx.ev("selection-testcase")
            tkw = dict(bound=bound)
            if P.disc:
                if P.hasu:
                    tkw["inputs"] = np.column_stack(
                        [P.u(s) for s in P.dt * np.arange(tn)])
                tc = opinf.utils.DiscreteRegTest(tq, tn, **tkw)
            else:
                if P.hasu:
                    tkw["input_function"] = P.u
                tc = opinf.utils.ContinuousRegTest(
                    tq, P.dt * np.arange(tn), **tkw)
            kw["test_cases"] = [tc]
        seen, rec = [], []
        orig, opred = opinf.utils.gridsearch, rom.model.predict

        def predict(*a, **k):
            out = opred(*a, **k)
            seen.append((np.array(a[0]), np.array(out),
                         np.array(rom.model.operator_matrix)))
            return out

        def hook(func, candidates, *a, **k):
            def wrapped(x):
                seen.clear()
                v = func(x)
                rec.append((x, v, list(seen)))
                return v
            return orig(wrapped, candidates, *a, **k)
        opinf.utils.gridsearch, rom.model.predict = hook, predict
        failed = False
        try:
            with warnings.catch_warnings(), np.errstate(all="ignore"), \
                    contextlib.redirect_stdout(io.StringIO()):
                warnings.simplefilter("ignore")
                if P.disc:
                    if P.hasu:
                        kw["inputs"] = [np.column_stack(
                            [P.u(s) for s in P.dt * np.arange(ks + extra)]
                        )] * ns
                    rom.fit_regselect_discrete(
                        cands, Q, num_test_iters=extra, **kw)
                else:
                    if P.hasu:
                        kw["input_functions"] = P.u
                    if est is None:
                        kw["ddts"] = [np.gradient(x, P.dt, axis=1)
                                      for x in Q]
                    rom.fit_regselect_continuous(
                        cands, t, Q, test_time_length=extra * P.dt * (
                            1 + 1e-9), **kw)
        except RuntimeError as ex:
            if "failed" not in str(ex):
                raise
            failed = True
        except ValueError as ex:
            if "infs or NaNs" in str(ex):
                return
            raise
        finally:
            opinf.utils.gridsearch = orig
            del rom.model.predict
        if P.staged:
            same_stages(ctx, rom, *stages, f"{lab} {flags}")
        if tq is not None and bound < 1e-6:
            ctx.ok(failed, "selection-testcase",
                   f"{lab} no candidate can meet the bound of the test case")
        X = [rom.encode(x) for x in Q]
        if P.disc:
            X = [x[:, :-1] for x in X]
        judged = 0
        for x, v, calls in rec:
            judge_objective(ctx, P, X, t, margin, ndraws, extra, x, v,
                            calls, f"{lab} rnd={rnd}",
                            None if tq is None else
                            (rom.encode(tq), bound, tn))
            judged += 1
        grid = [(x, v) for x, v, _ in rec[:len(cands)]]
        if failed:
            ctx.ok(not any(np.isfinite(v) for _, v in grid),
                   "selection-all-fail", lab)
            return
        # the winner
        vals = [v for _, v in grid if np.isfinite(v)]
        if rec:
            ctx.ok(sorted(float(x) for x, _ in grid) == sorted(cands),
                   "selection-winner", f"{lab} candidates evaluated")
            ctx.ok(bool(vals), "selection-winner", f"{lab} all failed")
        got = rom.model.solver.regularizer
        first = np.ravel(got[0] if P.sk.startswith("tikdec") else got)
        lam = float(first[0])
        if only:
            hit = [c for c in cands if abs(c - lam) <= 1e-12 * c]
            ctx.ok(bool(hit), "selection-winner", f"{lab} {lam} {cands}")
            if rec:
                mine = [v for x, v in grid if x == hit[0]]
                ctx.ok(mine[0] == min(vals), "selection-winner",
                       f"{lab} {lam} has {mine[0]}, best {min(vals)}")
        elif rec:
            mine = [v for x, v, _ in rec if abs(float(x) - lam)
                    <= 1e-9 * lam]
            ctx.ok(mine and min(mine) <= min(vals), "selection-winner",
                   f"{lab} {lam} {mine} {min(vals)}")
        judge_posterior(ctx, P, rom, lam, f"{lab} selected")
        ctx.ev("selection-posterior")


def judge_objective(ctx, P, X, t, margin, ndraws, extra, x, v, calls, lab,
                    test):
    """Recompute an objective value from the predictions made for it."""
    if not calls:
        ctx.ok(not np.isfinite(v), "selection-unstable", f"{lab} {x}")
        return
    ops = [o for *_, o in calls]
    for a, b in zip(ops, ops[1:]):
        ctx.ok(not np.array_equal(a, b), "selection-draws",
               f"{lab} {x}: the same operators twice")
    bad = False
    unclear = False
    groups = [[] for _ in X]
    for q0, S, _ in calls:
        hit = [j for j, q in enumerate(X) if np.allclose(
            q[:, 0], q0, rtol=1e-9, atol=1e-12)]
        if hit:
            j = hit[0]
            q = X[j]
            groups[j].append(S)
            k = q.shape[1]
            n = k + extra
            qm = q.mean(axis=1, keepdims=True)
            lim = margin * np.abs(q - qm).max()
            if S.shape[1] < k or (P.disc and S.shape[1] < n):
                bad = True
            elif S.shape[1] < n - 2:
                bad = True
            elif not P.disc and S.shape[1] < n:
                unclear = True  # stopped within the last two steps
            elif not np.isfinite(S).all():
                bad = True
            else:
                dev = np.abs(S - qm).max()
                bad |= dev > lim * (1 + 1e-6)
                unclear |= lim * (1 - 1e-6) < dev <= lim * (1 + 1e-6)
        elif test is not None:
            q0e, bound, tn = test
            if not np.isfinite(S).all() or (not P.disc and S.shape[1] < tn):
                bad = True
            else:
                dev = np.abs(S - q0e[:, None]).max()
                bad |= dev > bound * (1 + 1e-6)
                unclear |= bound * (1 - 1e-6) < dev <= bound * (1 + 1e-6)
    if bad:
        ctx.ok(not np.isfinite(v), "selection-unstable",
               f"{lab} {x}: unstable prediction, objective {v}")
        return
    if unclear:
        return
    ctx.ok(np.isfinite(v), "selection-unstable",
           f"{lab} {x}: all predictions stable, objective {v}")
    err = 0
    for q, Ss in zip(X, groups):
        ctx.ok(len(Ss) == ndraws, "selection-draws",
               f"{lab} {len(Ss)} predictions, {ndraws} draws")
        k = q.shape[1]
        D = np.mean([S[:, :k] for S in Ss], axis=0) - q
        if P.disc:
            err += np.sqrt(np.sum(D ** 2) / np.sum(q ** 2))
        else:
            a, b = np.sum(D ** 2, axis=0), np.sum(q ** 2, axis=0)
            dt = np.diff(t[:k])
            err += np.sqrt(np.sum((a[1:] + a[:-1]) * dt)
                           / np.sum((b[1:] + b[:-1]) * dt))
    ctx.close(v, err / len(X), "selection-objective", rtol=1e-9,
              msg=f"{lab} {x}")
