"""C13: solver diagnostics equal their definitions."""
import numpy as np
import opinf

from rv import gen, lstsqgen as lg
from rv.core import Check

CHECK = Check(
    "C13",
    "A case fits a solver (any class, k/d/r, conditioning, settings), "
    "possibly after other data and regularizers, and compares residuals, "
    "condition numbers, regularized residuals, posterior means and "
    "precisions with dense evaluations of their definitions for the data "
    "and regularization in force.",
    require=["residual", "cond", "regcond", "regresidual", "tcond",
             "augcond", "error", "posterior-mean", "posterior-precision",
             "posterior-degenerate", "residual-1d", "dimension-error",
             "objective-at-solution", "illconditioned"])


def cond2(A):
    """Largest over smallest singular value of a tall matrix."""
    A = np.asarray(A, float)
    s = np.sqrt(np.maximum(np.linalg.eigvalsh(A.T @ A), 0))
    sv = np.linalg.svd(A, compute_uv=False)
    assert abs(s[-1] - sv[0]) <= 1e-6 * sv[0]
    return sv[0] / sv[-1]


def bounded(ctx, got, want, tol, rule, lab):
    got, want = np.asarray(got), np.asarray(want)
    ctx.ok(got.shape == want.shape and bool(np.all(
        np.abs(got - want) <= tol + 1e-300)), rule,
        lambda: f"{lab}: {got} instead of {want} (rounding {tol})")


def examine(ctx, rng, solver, s, D, Z, lab):
    kind = s["kind"]
    D, Z = np.asarray(D, float), np.atleast_2d(np.asarray(Z, float))
    k, d = D.shape
    r = Z.shape[0]
    zs = np.sum(Z**2)
    gam = lg.gammas(s, d, r)
    for O in (solver.solve(), rng.standard_normal((r, d)),
              rng.integers(-3, 4, (r, d)), np.zeros((r, d))):
        res = np.array([np.sum((D @ O[j] - Z[j]) ** 2) for j in range(r)])
        # rounding of every entry of D O^T - Z^T, propagated to the squares
        Oa = np.abs(np.asarray(O, float))
        dl = 20 * d * 2.3e-16 * (Oa @ np.abs(D).T + np.abs(Z))
        er = np.abs(np.asarray(O, float) @ D.T - Z)
        sc = np.sum(2 * er * dl + dl**2, axis=1)
        got = solver.residual(gen.layout(rng, np.asarray(O)))
        bounded(ctx, got, res, 1e-12 * res + sc, "residual", lab)
        if r == 1:
            bounded(ctx, solver.residual(np.array(O[0])), res,
                    1e-12 * res + sc, "residual-1d", lab)
        if gam is not None:
            want = res + [np.sum((gam[j] @ O[j])**2) for j in range(r)]
            gd = [20 * d * 2.3e-16 * np.abs(gam[j]) @ Oa[j] for j in range(r)]
            sc = sc + [np.sum(2 * np.abs(gam[j] @ O[j]) * g + g * g)
                       for j, g in enumerate(gd)]
            bounded(ctx, solver.regresidual(np.asarray(O)), want,
                    1e-12 * np.asarray(want) + sc, "regresidual", lab)
    for bad in ((r + 1, d), (r, d + 1), (d + 5, r + 7)):
        with ctx.raises(opinf.errors.DimensionalityError, "dimension-error",
                        lab):
            solver.residual(np.ones(bad))
    sv = np.linalg.svd(D, compute_uv=False)
    ctx.close(solver.cond(), sv[0] / sv[-1], "cond", rtol=1e-6, msg=lab)
    if kind == "tsvd":
        n = lg.nmodes(s, k, d)
        ctx.close(solver.tcond(), sv[0] / sv[n - 1], "tcond", rtol=1e-6,
                  msg=lab)
        ctx.ok(solver.num_svdmodes == n and solver.max_modes == min(k, d),
               "modes", f"{lab}: {solver.num_svdmodes} vs {n}")
    if kind == "tls":
        a = np.linalg.svd(np.hstack((D, Z.T)), compute_uv=False)
        ctx.close(solver.augcond, a[0] / a[-1], "augcond", rtol=1e-6,
                  msg=lab)
        opt = np.sqrt(np.sum(a[d:]**2))
        ctx.close(solver.error, opt, "error", rtol=1e-6, atol=1e-13 * a[0],
                  msg=lab)
    if gam is None:
        return
    want = [cond2(np.vstack((D, g))) for g in gam]
    got = solver.regcond()
    if kind in ("l2", "tik"):
        want = want[0]
    ctx.close(got, np.asarray(want), "regcond", rtol=1e-5, msg=lab)
    O = lg.reference(s, D, Z)
    rr = np.array([np.sum((D @ O[j] - Z[j])**2)
                   + np.sum((gam[j] @ O[j])**2) for j in range(r)])
    if rr.min() < 1e-8 * zs or rr.min() / k < 1e-10:
        return
    ctx.close(solver.regresidual(solver.solve()), rr,
              "objective-at-solution", rtol=1e-6, atol=1e-11 * zs, msg=lab)
    mean, prec = solver.posterior()
    ctx.equal(np.asarray(mean), solver.solve(), "posterior-mean", lab)
    ctx.ok(len(prec) == r, "posterior-precision", lab)
    for j in range(r):
        P = (D.T @ D + gam[j].T @ gam[j]) * k / rr[j]
        ctx.close(np.asarray(prec[j]), P, "posterior-precision", rtol=1e-6,
                  msg=f"{lab} row {j}")
        ctx.equal(prec[j], prec[j].T, "posterior-symmetric", lab)


@CHECK.family(quick=420, thorough=14000)
def diagnostics(ctx, rng, i):
    kind = lg.KINDS[i % len(lg.KINDS)]
    D, Z = lg.problem(rng, kind)
    if np.linalg.cond(D) > 1e6:
        D, Z = lg.problem(rng, kind, mkind="well")
    k, d = D.shape
    r = Z.shape[0]
    if kind != "tls" and k > d and rng.random() < .25:  # nearly exact fits
        Z = rng.standard_normal((r, d)) @ np.asarray(D, float).T
        Z = Z + 10. ** rng.uniform(-12, -5) * rng.standard_normal((r, k))
    s = lg.settings(rng, kind, d, r, k, float(np.linalg.norm(D, 2)))
    lab = f"{kind} k={k} d={d} r={r} {s.get('form')} {s.get('method')}"
    hist = int(rng.integers(0, 4))
    ctx.note(kind=kind, k=k, d=d, r=r, form=s.get("form"), hist=hist,
             method=s.get("method"), nm=s.get("num_svdmodes"))
    solver = lg.build(s)
    if hist == 1 and kind != "tls":  # other data of the same sizes first
        k0 = d + 3
        solver.fit(rng.standard_normal((k0, d)), rng.standard_normal((r, k0)))
        solver.solve(), solver.cond()
    solver.fit(D, Z)
    if hist == 2 and kind not in ("plain", "tls"):  # settings changed
        s2 = lg.settings(rng, kind, d, r, k, float(np.linalg.norm(D, 2)))
        examine(ctx, rng, solver, s, D, Z, lab)
        if kind == "tsvd":
            solver.num_svdmodes = s2["num_svdmodes"]
        else:
            solver.regularizer = s2["regularizer"]
            if "method" in s2:
                solver.method = s2["method"]
        s = s2
    if hist == 3:
        solver = solver.copy()
    examine(ctx, rng, solver, s, D, Z, lab)


@CHECK.family(quick=120, thorough=4000)
def illconditioned(ctx, rng, i):
    """Condition numbers far beyond the square root of the precision."""
    kind = ["l2", "l2dec", "tik", "tikdec", "plain", "tsvd"][i % 6]
    d, r = int(rng.integers(2, 6)), int(rng.integers(1, 4))
    k = d + int(rng.integers(0, 12))
    size = 10. ** rng.integers(-3, 4)
    sv = size * np.sort(10. ** rng.uniform(-11, 0, d))[::-1]
    sv[0], sv[-1] = size, size * 10. ** rng.uniform(-11, -9)
    sv[1:] = np.maximum(sv[1:], sv[-1])
    D = (gen.orth(rng, k, d) * sv) @ gen.orth(rng, d, d).T
    Z = rng.standard_normal((r, k))
    lam = size * 10. ** rng.uniform(-10.5, -7, (r, d))
    if kind in ("l2", "l2dec"):
        lam = np.repeat(lam[:, :1], d, axis=1)
    if kind in ("l2", "tik"):
        lam = np.repeat(lam[:1], r, axis=0)
    form = gen.pick(rng, ["vector", "matrix"])
    tik = [np.diag(x) if form == "matrix" else x for x in lam]
    ctx.note(kind=kind, k=k, d=d, r=r, form=form,
             c=int(np.log10(sv[0] / sv[-1])))
    lab = f"{kind} k={k} d={d} r={r} singular values {sv}"
    if kind in ("plain", "tsvd"):
        solver = lg.CLS[kind]() if kind == "plain" else lg.CLS[kind](d)
    else:
        solver = lg.CLS[kind](dict(l2=lam[0, 0], l2dec=lam[:, 0],
                                   tik=tik[0], tikdec=tik)[kind])
    if kind in ("tik", "tikdec"):
        solver.method = gen.pick(rng, ["lstsq", "normal"])
    solver.fit(D, Z)
    ctx.close(solver.cond(), sv[0] / sv[-1], "cond", rtol=1e-3, msg=lab)
    if kind in ("plain", "tsvd"):
        return
    want = []
    for g in (lam[:1] if kind in ("l2", "tik") else lam):
        x = np.linalg.svd(np.vstack((D, np.diag(g))), compute_uv=False)
        want.append(x[0] / x[-1])
    ctx.ev("illconditioned")
    ctx.close(solver.regcond(), want if kind in ("l2dec", "tikdec")
              else want[0], "regcond", rtol=1e-3, msg=f"{lab} {lam}")


@CHECK.family(quick=60, thorough=1500)
def degenerate(ctx, rng, i):
    """An exact fit has no posterior."""
    d, r = int(rng.integers(1, 6)), int(rng.integers(1, 4))
    k = d + int(rng.integers(0, 5))
    D = lg.matrix(rng, k, d, "well")
    kind = gen.pick(rng, ["l2", "l2dec", "tik", "tikdec"])
    reg = dict(l2=1.0, l2dec=np.ones(r), tik=np.ones(d),
               tikdec=[np.ones(d)] * r)[kind]
    Z = rng.standard_normal((r, k))
    Z[int(rng.integers(r))] = 0  # solution and residual vanish
    solver = lg.CLS[kind](reg).fit(D, Z)
    ctx.note(kind=kind, d=d, r=r)
    with ctx.raises(RuntimeError, "posterior-degenerate", kind):
        solver.posterior()
    solver = lg.CLS[kind]().fit(D, Z)
    for f in ("regcond", "posterior", "solve"):
        with ctx.raises(AttributeError, "regularizer-required", f):
            getattr(solver, f)()
    solver = lg.CLS[kind](reg)
    for f in ("regcond", "posterior", "solve", "cond"):
        with ctx.raises(AttributeError, "untrained", f):
            getattr(solver, f)()
