"""C11: least-squares solvers minimize their documented objectives."""
import numpy as np
import opinf

from rv import gen, lstsqgen as lg
from rv.core import Check

CHECK = Check(
    "C11",
    "A case draws a least-squares problem (any k/d/r, conditioning, integer "
    "or float data, memory layout) and a solver class with settings, fits, "
    "solves, and checks optimality of the result for the documented "
    "objective (normal equations, no lower neighbour, minimal norm, "
    "independent reference solution, row independence).",
    require=["cutoff", "tiny-regularizer", "ill-conditioned", "stationary", "no-lower", "min-norm", "reference",
             "rows-independent", "tls-objective", "tsvd-reference",
             "operator-regularizer", "lstsq-size", "solve-shape",
             "extend-l2", "repeat", "block-invariance",
             "single-precision"])


def fit(s, D, Z):
    solver = lg.build(s)
    ret = solver.fit(D, Z)
    return solver, ret


@CHECK.family(quick=900, thorough=30000)
def solve(ctx, rng, i):
    kind = lg.KINDS[i % len(lg.KINDS)]
    D, Z = lg.problem(rng, kind)
    k, d = D.shape
    r = Z.shape[0]
    smax = float(np.linalg.norm(D, 2))
    s = lg.settings(rng, kind, d, r, k, smax)
    lab = f"{kind} k={k} d={d} r={r} " + str(
        {a: s[a] for a in ("method", "form", "lapack_driver", "num_svdmodes")
         if a in s})
    ctx.note(kind=kind, k=k, d=d, r=r, ddt=D.dtype.kind, zdt=Z.dtype.kind,
             method=s.get("method"), form=s.get("form"),
             drv=s.get("lapack_driver"), nm=s.get("num_svdmodes"))
    onedim = r == 1 and rng.random() < 0.5
    Zin = Z[0] if onedim else Z
    solver, ret = fit(s, D, Zin)
    ctx.ok(ret is solver, "fit-returns-self", lab)
    O = solver.solve()
    ctx.ok(isinstance(O, np.ndarray) and O.shape == (r, d), "solve-shape",
           lambda: f"{lab}: {np.shape(O)}")
    ctx.ok(bool(np.all(np.isfinite(O))), "finite", lab)
    ctx.equal(solver.solve(), O, "repeat", lab)
    ctx.ok((solver.k, solver.d, solver.r) == (k, d, r), "dimensions", lab)
    Df, Zf = np.asarray(D, float), np.asarray(Z, float)
    os_ = max(np.abs(O).max(), np.linalg.norm(Zf) / smax * 1e-3, 1e-300)
    cnd = lg.system_cond(s, D, Z)

    # independent reference
    if cnd < 1e9:
        ref = lg.reference(s, D, Z)
        scale = max(os_, np.abs(ref).max())
        ctx.close(O, ref, "tsvd-reference" if kind == "tsvd" else
                  "reference", atol=1e-13 * cnd * scale + 1e-10 * scale,
                  rtol=0, msg=lab)

    # objective: stationarity and no lower neighbour
    gam = lg.gammas(s, d, r)
    if kind == "plain" or gam is not None:
        for j in range(r):
            A = Df if gam is None else np.vstack((Df, gam[j]))
            b = Zf[j] if gam is None else np.concatenate(
                (Zf[j], np.zeros(d)))
            N = A.T @ A
            g = N @ O[j] - A.T @ b
            gs = (np.linalg.norm(N, 2) * np.linalg.norm(O[j])
                  + np.linalg.norm(A, 2) * np.linalg.norm(b))
            ctx.ok(np.linalg.norm(g) <= 1e-10 * gs * max(1, d),
                   "stationary", lambda: f"{lab} row {j}: gradient "
                   f"{np.linalg.norm(g):.2e} scale {gs:.2e}")
            f0 = np.sum((A @ O[j] - b) ** 2)
            for _ in range(3):
                dl = rng.standard_normal(d)
                dl *= 10.0 ** rng.uniform(-4, 0) * (
                    np.linalg.norm(O[j]) + 1e-3) / np.linalg.norm(dl)
                f1 = np.sum((A @ (O[j] + dl) - b) ** 2)
                ctx.ok(f1 >= f0 - 1e-10 * (f0 + np.sum(b**2)), "no-lower",
                       f"{lab} row {j}: {f1} < {f0}")
    if kind == "plain" and k < d:
        # minimum-norm: the solution lies in the row space of D
        P = np.linalg.lstsq(Df, Df, rcond=None)[0]
        ctx.close(O @ P, O, "min-norm", atol=1e-9 * os_, rtol=0, msg=lab)
        ctx.close(O @ Df.T, Zf, "interpolates", rtol=1e-8 * cnd, msg=lab)
    if kind == "tls" and cnd < 1e7:
        R = Df @ O.T - Zf.T
        val = np.trace(R @ np.linalg.solve(np.eye(r) + O @ O.T, R.T))
        sv = np.linalg.svd(np.hstack((Df, Zf.T)), compute_uv=False)
        opt = np.sum(sv[d:] ** 2)
        ctx.ok(abs(val - opt) <= 1e-8 * opt + 1e-12 * sv[0] ** 2 * max(
            1, np.abs(O).max() ** 2),
               "tls-objective", f"{lab}: {val} vs optimum {opt}")
        ctx.ok(abs(solver.error**2 - opt) <= 1e-8 * opt + 1e-12 * sv[0]**2,
               "tls-error", f"{lab}: {solver.error**2} vs {opt}")
        for _ in range(3):
            O2 = O + rng.standard_normal(O.shape) * 10.0 ** rng.uniform(
                -4, 0) * os_
            R2 = Df @ O2.T - Zf.T
            v2 = np.trace(R2 @ np.linalg.solve(np.eye(r) + O2 @ O2.T, R2.T))
            ctx.ok(v2 >= val - 1e-9 * (val + 1e-12 * sv[0]**2) - 1e-12
                   * sv[0]**2, "no-lower", f"{lab}: {v2} < {val}")
    elif kind != "tls" and r > 1:
        # rows are independent: solve for one row, or a permutation, alone
        j = int(rng.integers(r))
        s1 = dict(s)
        if kind == "l2dec":
            s1["regularizer"] = s["dense"][j:j + 1]
            s1["dense"] = s["dense"][j:j + 1]
        elif kind == "tikdec":
            s1["regularizer"] = [s["regularizer"][j]]
            s1["dense"] = [s["dense"][j]]
        one = fit(s1, D, np.array(Z[j]))[0].solve()
        ctx.close(one[0], O[j], "rows-independent",
                  atol=1e-12 * min(cnd, 1e6) * os_, rtol=1e-9, msg=lab)
        Z2 = np.array(Z, dtype=float)
        for jj in range(r):
            if jj != j:
                Z2[jj] = rng.standard_normal(k) * 100
        ctx.close(fit(s, D, Z2)[0].solve()[j], O[j], "rows-independent",
                  atol=1e-12 * min(cnd, 1e6) * max(os_, 100 / smax), rtol=1e-9,
                  msg=lab)
    # snapshot order does not matter
    p = rng.permutation(k)
    o2 = fit(s, np.asarray(D)[p], np.asarray(Z)[:, p])[0].solve()
    if cnd < 1e9:
        ctx.close(o2, O, "block-invariance", rtol=0,
                  atol=1e-13 * cnd * os_ * 10 + 1e-9 * os_, msg=lab)


@CHECK.family(quick=150, thorough=4000)
def equivalences(ctx, rng, i):
    """Different classes set up for the same objective agree."""
    d, r = int(rng.integers(1, 7)), int(rng.integers(1, 5))
    D, Z = lg.problem(rng, "l2", d, r, gen.pick(rng, ["well", "decay",
                                                      "ints"]))
    k = D.shape[0]
    smax = np.linalg.norm(D, 2)
    lam = float(smax * 10.0 ** rng.uniform(-1, 1))
    ctx.note(k=k, d=d, r=r, e=int(np.log10(lam / smax) * 2))
    S = opinf.lstsq
    O = S.L2Solver(lam).fit(D, Z).solve()
    sc = max(np.abs(O).max(), 1e-4 * np.linalg.norm(Z) / smax)
    for nm, sol in dict(
            l2dec=S.L2DecoupledSolver([lam] * r),
            tik=S.TikhonovSolver(lam * np.eye(d)),
            tikn=S.TikhonovSolver([lam] * d, method="normal"),
            tikd=S.TikhonovDecoupledSolver([[lam] * d] * r),
            tikdn=S.TikhonovDecoupledSolver([lam * np.eye(d)] * r,
                                            method="normal")).items():
        ctx.close(sol.fit(D, Z).solve(), O, "extend-l2", atol=1e-9 * sc,
                  rtol=0, msg=nm)
    # a large regularizer drives the solution to zero, a small one to the
    # unregularized solution
    if k >= d:
        P = S.PlainSolver().fit(D, Z).solve()
        ctx.close(S.L2Solver(0).fit(D, Z).solve(), P, "extend-l2",
                  rtol=1e-7, atol=1e-7 * sc, msg="L2(0)=plain")
        ctx.close(S.TruncatedSVDSolver(None).fit(D, Z).solve(), P,
                  "extend-l2", rtol=1e-7, atol=1e-7 * sc, msg="TSVD(all)=plain")
        ctx.close(S.TikhonovSolver(np.zeros(d)).fit(D, Z).solve(), P,
                  "extend-l2", rtol=1e-7, atol=1e-7 * sc, msg="Tik(0)=plain")
    n1 = np.linalg.norm(S.L2Solver(lam * 2).fit(D, Z).solve())
    ctx.ok(n1 <= np.linalg.norm(O) * (1 + 1e-12), "shrinks", "")


@CHECK.family(quick=150, thorough=4000)
def operator_regularizer(ctx, rng, i):
    """get_operator_regularizer penalizes each operator by its constant."""
    r, m = int(rng.integers(1, 6)), int(rng.integers(1, 4))
    O = opinf.operators
    pool = dict(
        c=(O.ConstantOperator, 1), A=(O.LinearOperator, r),
        H=(O.QuadraticOperator, r * (r + 1) // 2),
        G=(O.CubicOperator, r * (r + 1) * (r + 2) // 6),
        B=(O.InputOperator, m), N=(O.StateInputOperator, r * m))
    aff = dict(
        c=(O.AffineConstantOperator, 1), A=(O.AffineLinearOperator, r),
        H=(O.AffineQuadraticOperator, r * (r + 1) // 2),
        G=(O.AffineCubicOperator, r * (r + 1) * (r + 2) // 6),
        B=(O.AffineInputOperator, m), N=(O.AffineStateInputOperator, r * m))
    nops = int(rng.integers(2, 5))
    ops, dims, regs = [], [], []
    hasin = False
    for _ in range(nops):
        key = gen.pick(rng, list(pool))
        hasin |= key in "BN"
        if rng.random() < 0.35:
            q = int(rng.integers(1, 4))
            ops.append(aff[key][0](coeffs=q))
            dims.append(q * aff[key][1])
        else:
            ops.append(pool[key][0]())
            dims.append(pool[key][1])
        regs.append(float(rng.uniform(0, 10)) if rng.random() < .8
                    else int(rng.integers(0, 5)))
    if rng.random() < 0.2:
        j = int(rng.integers(nops))
        regs[j] = rng.uniform(0, 3, dims[j])
    ctx.note(ops=[type(o).__name__ for o in ops], r=r, m=m)
    want = np.concatenate([np.full(n, 1.0) * g for n, g in zip(dims, regs)])
    for cls in (opinf.lstsq.TikhonovSolver,
                opinf.lstsq.TikhonovDecoupledSolver):
        got = cls.get_operator_regularizer(ops, regs, r, m if hasin else 0)
        ctx.equal(got, want, "operator-regularizer", str(dims))
    # the advertised size of the problem
    form = "".join(c for c in "cAHGB" if rng.random() < 0.6) or "A"
    affs = {c: [np.sin] * int(rng.integers(1, 4)) for c in form
            if rng.random() < 0.4}
    size = dict(c=1, A=r, H=r * (r + 1) // 2,
                G=r * (r + 1) * (r + 2) // 6, B=m)
    want = sum(size[c] * len(affs.get(c, [0])) for c in form)
    ctx.ok(opinf.lstsq.lstsq_size(form, r, m if "B" in form else 0,
                                  affs or None) == want, "lstsq-size",
           f"{form} r={r} m={m}")
    if "B" in form:
        with ctx.raises(ValueError, "lstsq-size-args"):
            opinf.lstsq.lstsq_size(form, r)
    else:
        with ctx.raises(ValueError, "lstsq-size-args"):
            opinf.lstsq.lstsq_size(form, r, m)


@CHECK.family(quick=300, thorough=6000)
def cutoff(ctx, rng, i):
    """`cond` drops the small singular values of the system solved."""
    kind = ["plain", "tik", "tikdec"][i % 3]
    d, r = int(rng.integers(2, 7)), int(rng.integers(1, 4))
    k = d + int(rng.integers(0, 8))
    m = d
    U = np.linalg.qr(rng.standard_normal((k, m)))[0]
    V = np.linalg.qr(rng.standard_normal((d, m)))[0]
    q = int(rng.integers(1, m))
    sv = np.concatenate((rng.uniform(.6, 1, q),
                         rng.uniform(1e-4, 1e-2, m - q)))
    D = (U * sv) @ V.T * 10.0 ** rng.uniform(-2, 2)
    Z = rng.standard_normal((r, k))
    cond = .1
    drv = gen.pick(rng, [None, "gelsd", "gelss"])
    gam = 1e-3 * np.linalg.norm(D, 2) * rng.uniform(.5, 1, (r, d))
    if kind == "plain":
        s, G = lg.L.PlainSolver(cond=cond, lapack_driver=drv), None
    elif kind == "tik":
        gam[:] = gam[0]
        s = lg.L.TikhonovSolver(gam[0], cond=cond, lapack_driver=drv)
    else:
        s = lg.L.TikhonovDecoupledSolver(list(gam), cond=cond,
                                         lapack_driver=drv)
    ctx.note(kind=kind, d=d, r=r, k=k, drv=drv)
    O = s.fit(D, Z).solve()
    for j in range(r):
        A = D if kind == "plain" else np.vstack((D, np.diag(gam[j])))
        b = Z[j] if kind == "plain" else np.concatenate((Z[j], np.zeros(d)))
        want = np.linalg.pinv(A, rcond=cond) @ b
        ctx.close(O[j], want, "cutoff", rtol=0, atol=1e-10 * (
            np.abs(want).max() + np.linalg.norm(b) / np.linalg.norm(D, 2)),
            msg=f"{kind} k={k} d={d} kept={q} {drv}")


@CHECK.family(quick=300, thorough=6000)
def tiny_regularizer(ctx, rng, i):
    """Weak directions of the data count when the regularizer is weaker."""
    kind = ["l2", "l2dec", "tik", "tikdec"][i % 4]
    d, r = int(rng.integers(2, 7)), int(rng.integers(1, 4))
    k = d + int(rng.integers(0, 8))
    U = np.linalg.qr(rng.standard_normal((k, d)))[0]
    V = np.linalg.qr(rng.standard_normal((d, d)))[0]
    q = int(rng.integers(1, d))
    sv = np.concatenate((rng.uniform(.6, 1, q),
                         10. ** rng.uniform(-10, -7, d - q)))
    scale = 10.0 ** rng.uniform(-2, 2)
    D = (U * sv) @ V.T * scale
    # data with something to say about the weak directions
    C = rng.standard_normal((r, d))
    Z = C @ (U * sv).T * scale
    gam = scale * 10. ** rng.uniform(-11, -8, r)
    if kind in ("l2", "tik"):
        gam[:] = gam[0]
    ctx.note(kind=kind, d=d, r=r, k=k, e=int(np.log10(sv[-1])))
    sol = dict(l2=lambda: lg.L.L2Solver(gam[0]),
               l2dec=lambda: lg.L.L2DecoupledSolver(gam),
               tik=lambda: lg.L.TikhonovSolver(gam[0] * np.eye(d)),
               tikdec=lambda: lg.L.TikhonovDecoupledSolver(
                   [np.full(d, g) for g in gam]))[kind]()
    O = sol.fit(D, Z).solve()
    for j in range(r):
        s = sv * scale
        want = V @ (C[j] * s**2 / (s**2 + gam[j]**2))
        ctx.close(O[j], want, "tiny-regularizer", rtol=0,
                  atol=1e-3 * np.abs(C).max(),
                  msg=f"{kind} k={k} d={d} kept={q} sv={sv} gam={gam/scale}")


@CHECK.family(quick=500, thorough=12000)
def illconditioned(ctx, rng, i):
    """The objective is minimal up to rounding however close to singular."""
    kind = ["plain", "tsvd", "l2", "l2dec", "tik", "tikdec"][i % 6]
    d, r = int(rng.integers(2, 8)), int(rng.integers(1, 4))
    k = d + int(rng.integers(0, 14))
    U = np.linalg.qr(rng.standard_normal((k, d)))[0]
    V = np.linalg.qr(rng.standard_normal((d, d)))[0]
    x = rng.uniform(3, 11)
    if kind == "tsvd" and rng.random() < .5:
        # every mode counts unless it was asked to be dropped
        x = rng.uniform(11, 13)
        k = d if rng.random() < .7 else k
        U = U[:k] if U.shape[0] == k else \
            np.linalg.qr(rng.standard_normal((k, d)))[0]
    scale = 10. ** rng.uniform(-3, 3)
    D = (U * 10. ** -np.linspace(0, x, d)) @ V.T * scale
    C = rng.standard_normal((r, d))
    Z = C @ D.T
    noise = gen.pick(rng, [1., 1e-2, 1e-6, 1e-10, 1e-14, 0])
    Z = Z + noise * np.abs(Z).max() * rng.standard_normal((r, k))
    D, Z = gen.layout(rng, D), gen.layout(rng, Z)
    lam = scale * 10. ** rng.uniform(-13, -2, r)
    if kind in ("l2", "tik"):
        lam[:] = lam[0]
    G = None
    drv = gen.pick(rng, [None, "gelsd", "gelss", "gelsy"])
    if kind == "plain":
        sol = lg.L.PlainSolver(lapack_driver=drv)
    elif kind == "tsvd":
        sol = lg.L.TruncatedSVDSolver(gen.pick(rng, [None, d, 0]))
    elif kind == "l2":
        sol, G = lg.L.L2Solver(lam[0]), [lam[0] * np.eye(d)] * r
    elif kind == "l2dec":
        sol, G = lg.L.L2DecoupledSolver(lam), [x * np.eye(d) for x in lam]
    else:
        w = [x * rng.uniform(.1, 3, d) for x in lam]
        if kind == "tik":
            w = [w[0]] * r
            sol = lg.L.TikhonovSolver(w[0], lapack_driver=drv)
        else:
            sol = lg.L.TikhonovDecoupledSolver(w, lapack_driver=drv)
        G = [np.diag(x) for x in w]
    ctx.note(kind=kind, d=d, r=r, k=k, e=int(x), noise=noise, drv=drv)
    sol.fit(D, Z)
    O = np.atleast_2d(sol.solve())
    for j in range(r):
        A, b = (D, Z[j]) if G is None else (
            np.vstack((D, G[j])), np.concatenate((Z[j], np.zeros(d))))
        ref = np.linalg.lstsq(A, b, rcond=1e-16)[0]
        f0, f1 = (np.linalg.norm(A @ v - b) for v in (ref, O[j]))
        na = np.linalg.norm(D, 2)
        tol = (20 if x > 11 else 300) * 2.2e-16 * max(k, 10) * (na * max(
            np.linalg.norm(O[j]), np.linalg.norm(ref)) + np.linalg.norm(b))
        ctx.ok(f1 <= f0 + tol, "ill-conditioned",
               lambda: f"{kind} k={k} d={d} {drv} cond=1e{x:.1f} noise="
               f"{noise}: objective {f1:.3e}, attainable {f0:.3e}, rounding "
               f"{tol:.1e}")


@CHECK.family(quick=150, thorough=3000)
def single_precision(ctx, rng, i):
    """Data stored in single precision, well conditioned."""
    kind = ["plain", "l2", "l2dec", "tik", "tikdec"][i % 5]
    d, r = int(rng.integers(1, 6)), int(rng.integers(1, 4))
    k = 4 * d + int(rng.integers(2, 9))
    D = (np.linalg.qr(rng.standard_normal((k, d)))[0] * rng.uniform(
        .5, 2, d)).astype(np.float32)
    Z = rng.standard_normal((r, k)).astype(np.float32)
    if rng.random() < .3:
        Z = Z.astype(float)
    L = opinf.lstsq
    lam = rng.uniform(.1, 1, r)
    G = [np.diag(rng.uniform(.1, 1, d)) for _ in range(r)]
    solver = {"plain": lambda: L.PlainSolver(),
              "l2": lambda: L.L2Solver(float(lam[0])),
              "l2dec": lambda: L.L2DecoupledSolver(lam),
              "tik": lambda: L.TikhonovSolver(G[0]),
              "tikdec": lambda: L.TikhonovDecoupledSolver(G)}[kind]()
    reg = [{"plain": np.zeros((d, d)), "l2": lam[0] * np.eye(d),
            "l2dec": lam[j] * np.eye(d), "tik": G[0], "tikdec": G[j]}[kind]
           for j in range(r)]
    Dd, Zd = D.astype(float), Z.astype(float)
    want = np.array([np.linalg.solve(Dd.T @ Dd + g.T @ g, Dd.T @ z)
                     for g, z in zip(reg, Zd)])
    lab = f"single {kind} k={k} d={d} r={r}"
    ctx.note(kind=kind, k=k, d=d, r=r, single=str(Z.dtype))
    ctx.ev("single-precision")
    got = solver.fit(gen.layout(rng, D), gen.layout(rng, Z)).solve()
    ctx.close(np.asarray(got, float), want, "reference", atol=2e-4 * (
        1 + np.abs(want).max()), rtol=0, msg=lab)
