"""C28: reprojected data recover the intrusive reduced operators."""
import importlib
import itertools

import numpy as np
import opinf

from rv import gen, modelgen as mg, opgen as og, basisgen
from rv.core import Check

M = opinf.models
U = importlib.import_module("opinf.utils._reprojection")
CHECK = Check(
    "C28",
    "Family 'loops' hands a recording full-order model (any function of the "
    "state and inputs, also discontinuous or of integer type) to the "
    "reprojection routines and compares every state the model was evaluated "
    "at, every input it was given, the number of evaluations and the "
    "returned columns with the projected recursion. Family 'intrusive' "
    "builds random polynomial full-order models (any structure, with inputs "
    "or not), reprojects data onto a random basis, learns the operators "
    "from them and compares with dense Galerkin projections of the full "
    "operators and with the library's own projection of the full model. "
    "Family 'rejected' gives data that do not fit the basis.",
    require=["initial-state", "next-state", "derivative", "projected-state",
             "evaluated-at", "inputs-given", "evaluations", "recovered",
             "galerkin", "no-inputs", "scalar-inputs", "vector-inputs",
             "one-iteration", "full-basis", "one-vector", "oblique",
             "rejected", "data-untouched", "scalar-vector-agree",
             "same-in-full-space", "pod-basis", "unit-vectors",
             "integer-data", "zero-inputs"])


def fom(rng, n, m):
    """A recording full-order model f(q[, u])."""
    A = rng.standard_normal((n, n)) / np.sqrt(n)
    B = rng.standard_normal((n, max(m, 1)))
    kind = gen.pick(rng, ["linear", "sin", "sign", "ints", "view"])
    calls = []
    keep = np.empty(n)

    def f(q, *u):
        calls.append((np.array(q), [np.array(x) for x in u], np.shape(q)))
        y = A @ q
        if kind == "sin":
            y = np.sin(y) + q ** 2 / (1 + q ** 2)
        elif kind == "sign":
            y = np.sign(y) + q
        if u:
            y = y + B @ np.ravel(u[0]) * np.cos(y)
        if kind == "ints":
            y = np.round(3 * y).astype(int)
        if kind == "view":
            keep[:] = y      # the same array is returned every time
            return keep
        return y
    return f, calls, kind


def abasis(rng, ctx):
    n = int(rng.integers(1, 12))
    r = int(rng.integers(1, n + 1))
    kind = gen.pick(rng, ["orth", "orth", "oblique", "full", "one", "pod",
                          "unit", "unit"])
    if kind == "full":
        r = n
        ctx.ev("full-basis")
    if kind == "one":
        r = 1
        ctx.ev("one-vector")
    V = gen.orth(rng, n, r)
    if kind == "oblique":
        V = V @ (np.eye(r) + .2 * rng.standard_normal((r, r)))
        ctx.ev("oblique")
    if kind == "unit":   # coordinates, stored as integers
        ctx.ev("unit-vectors")
        V = np.eye(n, dtype=int)[:, rng.permutation(n)[:r]]
        if rng.random() < .5:
            V = V * gen.pick(rng, [1, -1])
        return n, r, gen.layout(rng, V), kind
    if kind == "pod":
        V = opinf.basis.PODBasis(num_vectors=r).fit(
            gen.states(rng, n, n + 3, "normal")).entries
        ctx.ev("pod-basis")
    return n, r, gen.layout(rng, V), kind


@CHECK.family(quick=500, thorough=12000)
def loops(ctx, rng, i):
    n, r, V, bk = abasis(rng, ctx)
    m = int(rng.integers(0, 4))
    k = int(gen.pick(rng, [1, 2, 3, 8, 20]))
    disc = bool(i % 2)
    form = "none" if m == 0 else ("scalar" if m == 1 and rng.random() < .6
                                  else "vector")
    ctx.ev({"none": "no-inputs", "scalar": "scalar-inputs",
            "vector": "vector-inputs"}[form])
    f, calls, fk = fom(rng, n, m)
    ni = k - 1 if disc else k
    W = None
    if form != "none":
        W = rng.standard_normal((m, ni))
        if rng.random() < .15:
            W = rng.integers(-3, 4, (m, ni))
        elif rng.random() < .15:
            W = np.zeros((m, ni))
            ctx.ev("zero-inputs")
        if form == "scalar":
            W = W[0]
        W = gen.layout(rng, W)
    ctx.note(disc=disc, n=n, r=r, m=m, k=k, basis=bk, fom=fk, form=form)
    lab = f"disc={disc} n={n} r={r} m={m} k={k} {bk} {fk} {form}"
    Vd = np.array(V)

    def evalat(S, j):
        """Reference evaluation at reduced state S."""
        del calls[:]
        q = Vd @ S
        y = f(q) if W is None else f(q, W[..., j])
        return Vd.T @ np.array(y)

    def given(j):
        q, u, sh = log[j]
        ctx.ok(sh == (n,) and len(u) == (W is not None), "evaluated-at",
               f"{lab}: state of shape {sh}, {len(u)} inputs")
        ctx.close(q, Vd @ S[:, j], "evaluated-at", rtol=1e-13, msg=lab)
        if W is not None:
            ctx.equal(u[0], W[..., j], "inputs-given", lab)
    if disc:
        q0 = gen.layout(rng, rng.integers(-3, 4, n) if rng.random() < (
            .6 if bk == "unit" else .2)
                        else rng.standard_normal(n))
        cp = (np.array(q0), np.array(V), None if W is None else np.array(W))
        S = U.reproject_discrete(f, V, q0, k, W) if rng.random() < .5 \
            else U.reproject_discrete(f, V, q0, k, inputs=W)
        log = list(calls)
        ctx.ok(S.shape == (r, k), "next-state", f"{lab} {S.shape}")
        ctx.ok(len(log) == k - 1, "evaluations", f"{lab}: {len(log)}")
        ctx.close(S[:, 0], Vd.T @ q0, "initial-state", rtol=1e-13, msg=lab,
                  scale=np.abs(q0).sum())
        for j in range(k - 1):
            given(j)
            want = evalat(S[:, j], j)
            if fk not in ("sign", "ints"):
                ctx.close(S[:, j + 1], want, "next-state", rtol=1e-11,
                          atol=1e-13, msg=lab)
            else:
                ctx.ok(np.mean(np.abs(S[:, j + 1] - want)
                               > 1e-9 * (1 + np.abs(want))) < .5
                       or np.abs(S[:, j + 1] - want).max() < 4,
                       "next-state", lab)
        if k == 1:
            ctx.ev("one-iteration")
        ctx.ok(np.array_equal(q0, cp[0]) and np.array_equal(V, cp[1]) and
               (W is None or np.array_equal(W, cp[2])), "data-untouched",
               lab)
        return
    if rng.random() < (.6 if bk == "unit" else .15):
        X = gen.layout(rng, rng.integers(-5, 6, (n, k)))
        ctx.ev("integer-data")
    else:
        X = gen.layout(rng, rng.standard_normal((n, k)))
    cp = (np.array(X), np.array(V), None if W is None else np.array(W))
    S, D = U.reproject_continuous(f, V, X, W) if rng.random() < .5 \
        else U.reproject_continuous(f, V, X, inputs=W)
    log = list(calls)
    ctx.ok(S.shape == D.shape == (r, k), "derivative",
           f"{lab} {S.shape} {D.shape}")
    ctx.ok(len(log) == k, "evaluations", f"{lab}: {len(log)}")
    ctx.close(S, Vd.T @ np.array(X), "projected-state", rtol=1e-13, msg=lab,
              scale=np.abs(X).max() * n)
    for j in range(k):
        given(j)
        want = evalat(S[:, j], j)
        if fk not in ("sign", "ints"):
            ctx.close(D[:, j], want, "derivative", rtol=1e-11, atol=1e-13,
                      msg=lab)
    if bk == "full":
        # nothing is lost in the full space
        ctx.close(Vd @ S, np.array(X), "same-in-full-space", rtol=1e-12,
                  msg=lab, scale=np.abs(X).max() * n)
    if form == "vector" and m == 1:
        S2, D2 = U.reproject_continuous(f, V, X, W[0])
        ctx.close(D2, D, "scalar-vector-agree", rtol=1e-12, atol=1e-13,
                  msg=lab)
    ctx.ok(np.array_equal(X, cp[0]) and np.array_equal(V, cp[1]) and
           (W is None or np.array_equal(W, cp[2])), "data-untouched", lab)


def project(kd, E, V):
    """Dense Galerkin projection of compressed entries E (n x ncols)."""
    n, r = V.shape
    if kd in ("c", "B"):
        return V.T @ E
    if kd == "N":
        m = E.shape[1] // n
        return np.hstack([V.T @ E[:, j * n:(j + 1) * n] @ V
                          for j in range(m)])
    p = og.KINDS[kd][1]
    F = og.expand(kd, E).reshape((n,) * (p + 1))
    T = np.tensordot(V.T, F, axes=(1, 0))
    for _ in range(p):
        T = np.tensordot(T, V, axes=(1, 0))
    out = np.empty((r, len(og.monomials(r, p))))
    for c, t in enumerate(og.monomials(r, p)):
        out[:, c] = sum(T[(slice(None),) + pm]
                        for pm in set(itertools.permutations(t)))
    return out


@CHECK.family(quick=300, thorough=7000)
def intrusive(ctx, rng, i):
    disc = bool(i % 2)
    kinds, _, m = mg.structure(rng, letters="cAHBN" if rng.random() < .8
                               else "cAHGBN", nmax=4)
    n = int(rng.integers(1, 5 if "G" in kinds else 8))
    r = int(rng.integers(1, min(n, 3 if "G" in kinds else 4) + 1))
    hasu = mg.uses(kinds)
    s = .3 / n if disc else 1.0
    Es = {k: og.entries(rng, k, n, m, s) for k in kinds}
    if "c" in Es:
        Es["c"] = Es["c"] + .1
    ops = [og.KINDS[k][0](Es[k] if k != "c" else Es[k][:, 0])
           for k in kinds]
    cls = M.DiscreteModel if disc else M.ContinuousModel
    full = cls(ops)
    V = gen.orth(rng, n, r)
    want = {k: project(k, Es[k].astype(float), V) for k in kinds}
    d = sum(og.ncols(k, r, m) for k in kinds)

    def rhs(q, u=None):
        return sum(og.value(k, Es[k], q, None if u is None else
                            np.atleast_1d(u)) for k in kinds)
    scalar = m == 1 and rng.random() < .5
    ctx.note(disc=disc, kinds="".join(kinds), n=n, r=r, m=m, scalar=scalar)
    lab = f"{cls.__name__} {kinds} n={n} r={r} m={m}"
    if not disc:
        k = 2 * d + 6
        X = rng.standard_normal((n, k))
        W = rng.standard_normal(k if scalar else (m, k))
        S, D = U.reproject_continuous(rhs, V, X, W if hasu else None)
        args = (S, D) + ((W,) if hasu else ())
        lhs = D
    else:
        Qs, Zs, Ws = [], [], []
        while sum(q.shape[1] for q in Qs) < 3 * d + 8:
            k = int(rng.integers(2, 6))
            W = rng.standard_normal(k - 1 if scalar else (m, k - 1))
            S = U.reproject_discrete(rhs, V, rng.standard_normal(n), k,
                                     W if hasu else None)
            if not np.isfinite(S).all() or np.abs(S).max() > 1e3:
                return
            Qs.append(S[:, :-1])
            Zs.append(S[:, 1:])
            Ws.append(W)
        W = np.concatenate(Ws, axis=-1)
        S, lhs = np.hstack(Qs), np.hstack(Zs)
        args = (S, lhs) + ((W,) if hasu else ())
    model = cls(kinds if rng.random() < .5 else "".join(kinds))
    model.fit(*args)
    Dm = mg.dref(kinds, S, np.atleast_2d(W))
    c = np.linalg.cond(Dm)
    big = max(np.abs(w).max() for w in want.values())
    tol = 1e-12 * c ** 2 * max(big, np.abs(lhs).max())
    if Dm.shape[0] < d or c > 1e5 or tol > 1e-2 * big:
        return
    for op, k in zip(model.operators, kinds):
        ctx.close(mg.dense(op, k), want[k], "recovered", atol=tol, rtol=0,
                  msg=f"{lab} {k}")
    proj = full.galerkin(V)
    for op, k in zip(proj.operators, kinds):
        ctx.close(mg.dense(op, k), want[k], "galerkin", rtol=1e-11,
                  atol=1e-12 * big * n ** 3, msg=f"{lab} {k}")


@CHECK.family(quick=60, thorough=1000)
def rejected(ctx, rng, i):
    n, r, V, _ = abasis(rng, ctx)
    f, calls, _ = fom(rng, n, 1)
    bad = n + int(gen.pick(rng, [-1, 1, 4])) if n > 1 else n + 1
    ctx.note(n=n, r=r, bad=bad)
    with ctx.raises(ValueError, "rejected", f"n={n} init of size {bad}"):
        U.reproject_discrete(f, V, np.ones(bad), 4)
    with ctx.raises(ValueError, "rejected", "two-dimensional init"):
        U.reproject_discrete(f, V, np.ones((n, 1)), 4)
    with ctx.raises(ValueError, "rejected", f"n={n} states of size {bad}"):
        U.reproject_continuous(f, V, np.ones((bad, 3)))
    ctx.ok(not calls, "rejected", "model evaluated for bad data")
