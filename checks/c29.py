"""C29: inconsistent inputs are rejected instead of used."""
import warnings

import numpy as np
import opinf

from rv import gen, pregen, basisgen, opgen as og, lstsqgen as lg
from rv import modelgen as mg
from rv.core import Check, Violation, quiet

M = opinf.models
O = opinf.operators
CHECK = Check(
    "C29",
    "A case builds an object twice from the same description (subject and "
    "twin; untrained, trained or set by hand). The subject receives a random "
    "sequence of calls that do not fit it -- wrong number of rows, columns, "
    "inputs, locations, terms, trajectories or parameters (including the "
    "sizes 0, 1 and twice the right one, for which broadcasting would "
    "succeed), wrong kinds, untrained use -- mixed with valid calls. "
    "Monitors: every such call raises; after it, results for valid data and "
    "settings are identical to those of the twin, to which the call was not "
    "made; after a rejected fit the object accepts valid data and then "
    "equals a fresh object fitted to them; data given to rejected calls are "
    "not modified; superfluous inputs change no result.",
    require=["rejected", "unchanged", "refit-like-fresh", "data-untouched",
             "superfluous-ignored", "untrained-rejected", "setting-kept",
             "dimension-forgotten"])


def off(rng, n, lo=1):
    """A wrong size instead of n."""
    return int(gen.pick(rng, [x for x in {n + 1, n - 1, 2 * n, 1, n + 3, lo}
                              if x != n and x >= lo]))


class Subject:
    def __init__(self, label, make, probe):
        self.label = label
        self.make = make
        self.probe = probe
        self.bads = []       # (label, call(obj)) leaves the object as it was
        self.fitbads = []    # (label, call(obj)) rejected fits
        self.good = []       # (label, call(obj)) valid calls, any effect
        self.refit = None
        self.nfit = (1, 4)   # number of rejected fits

    def bad(self, label, fn, *arrays):
        self.bads.append((label, fn, arrays))

    def fitbad(self, label, fn, *arrays):
        self.fitbads.append((label, fn, arrays))


def flat(x):
    if isinstance(x, (list, tuple)):
        return [z for y in x for z in flat(y)]
    return [x]


def run(ctx, rng, S):
    """Drive one subject."""
    obj, twin = S.make(), S.make()
    hist = []

    def compare(rule, other):
        with quiet():
            a, b = flat(S.probe(obj)), flat(S.probe(other))
        ctx.ok(len(a) == len(b), rule, f"{S.label} {hist}")
        for x, y in zip(a, b):
            if isinstance(y, (str, type(None), bool)):
                ctx.ok(x == y, rule, f"{S.label} after {hist}: {x} != {y}")
            else:
                ctx.close(x, y, rule, rtol=1e-12,
                          msg=f"{S.label} after {hist}:")

    def attempt(label, fn, arrays):
        before = [np.array(a, copy=True) for a in arrays]
        hist.append(label)
        ctx.ev("rejected")
        try:
            with quiet():
                out = fn(obj)
        except Violation:
            raise
        except Exception:
            pass
        else:
            raise Violation(
                "rejected", f"{S.label}: {label} was accepted and gave "
                f"{repr(out)[:120]} (history {hist})", f"{S.label}:{label}")
        for a, b in zip(arrays, before):
            ctx.equal(a, b, "data-untouched", f"{S.label} {label}")
    nb = min(len(S.bads), int(rng.integers(1, 7)))
    for j in (rng.permutation(len(S.bads))[:nb] if S.bads else []):
        attempt(*S.bads[int(j)])
        if rng.random() < .5:
            compare("unchanged", twin)
        if S.good and rng.random() < .3:
            g = gen.pick(rng, S.good)
            hist.append(g[0])
            with quiet():
                g[1](obj)
                g[1](twin)
    if S.bads:
        compare("unchanged", twin)
    if S.fitbads:
        for _ in range(int(rng.integers(*S.nfit))):
            attempt(*gen.pick(rng, S.fitbads))
        with quiet():
            S.refit(obj)
            fresh = S.make()
            S.refit(fresh)
        hist.append("valid fit")
        compare("refit-like-fresh", fresh)
    ctx.note(label=S.label, hist=hist)


EXPLORE = {}


# Transformers ----------------------------------------------------------------
@CHECK.family(quick=400, thorough=10000)
def transformers(ctx, rng, i):
    seed = int(rng.integers(2**31))
    kind = i % 8
    n = int(gen.pick(rng, [1, 2, 3, 5, 8]))
    nv = 1
    names = ["SS", "SS", "SS", "Shift", "Scale", "Null", "Pipe", "Multi"]
    cfg = pregen.CONFIGS[(i // 8 * 3 + kind) % len(pregen.CONFIGS)]

    def build():
        g = np.random.default_rng(seed)
        if kind < 3:
            return pregen.shiftscale(g, n, cfg)[0]
        if kind == 3:
            return pregen.shift(g, n)[0]
        if kind == 4:
            return pregen.scale(g, n)[0]
        if kind == 5:
            return pregen.null(g, n)[0]
        if kind == 6:
            return pregen.pipeline(g, n)[0]
        return pregen.multi(g, [n] * nv if equal else sizes)[0]
    equal = bool(rng.integers(2))
    if kind == 7:
        nv = int(rng.integers(2, 4))
        sizes = [int(rng.integers(1, 5)) for _ in range(nv)]
    N = n if kind != 7 else (n * nv if equal else sum(sizes))
    k = int(rng.integers(4, 9))
    Q = gen.states(rng, N, k, "normal")
    P = gen.states(rng, N, 3, "normal")
    trained = rng.random() < .8

    def make():
        T = build()
        if trained:
            T.fit(Q.copy())
        return T

    def probe(T):
        out = [T.state_dimension]
        if not trained and T.state_dimension is None:
            T2 = T
            out.append(str(T2))
            return out
        if trained:
            Z = T.transform(P.copy())
            out += [Z, T.inverse_transform(Z.copy()),
                    T.transform_ddts(P.copy(), inplace=False)]
        if isinstance(T, opinf.pre.ShiftScaleTransformer):
            out += [T.mean_, T.scale_, T.shift_]
        return out
    S = Subject(names[kind] + (str(cfg) if kind < 3 else "")
                + ("" if trained else "/untrained"), make, probe)
    W = gen.states(rng, off(rng, N), int(rng.integers(1, 4)), "normal")
    w = rng.standard_normal(off(rng, N))
    ip = bool(rng.integers(2))
    known = kind == 3 or trained or (kind == 4 and False)
    if trained:
        S.bad("transform(rows)", lambda T: T.transform(W, inplace=ip), W)
        S.bad("transform(vector)", lambda T: T.transform(w, inplace=ip), w)
        S.bad("inverse(rows)",
              lambda T: T.inverse_transform(W, inplace=ip), W)
        S.bad("inverse(vector)",
              lambda T: T.inverse_transform(w, inplace=ip), w)
        S.bad("ddts(rows)", lambda T: T.transform_ddts(W, inplace=ip), W)
        if kind != 7 or equal:
            L = int(rng.integers(1, n + 1))
            lc = gen.pick(rng, [np.arange(L), slice(0, L)])
            X = gen.states(rng, off(rng, L * nv), 2, "normal")
            S.bad("inverse(locs)", lambda T: T.inverse_transform(
                X, inplace=ip, locs=lc), X)
        elif len(set(sizes)) > 1:
            Y = gen.states(rng, nv, 2, "normal")
            S.bad("inverse(locs, unequal)", lambda T: T.inverse_transform(
                Y, locs=np.array([0])), Y)
    elif kind in (0, 1, 2) and (cfg[0] or cfg[1]):
        ctx.ev("untrained-rejected")
        S.bad("untrained transform", lambda T: T.transform(P), P)
        S.bad("untrained inverse", lambda T: T.inverse_transform(P), P)
        S.bad("untrained ddts", lambda T: T.transform_ddts(P), P)
    if kind < 3:
        T0 = build()
        v = rng.standard_normal(off(rng, n))
        v2 = rng.standard_normal((n, 1))
        if trained:
            for a in ("mean_", "scale_", "shift_"):
                ok = T0.centering if a == "mean_" else T0.scaling is not None
                if ok and (a == "mean_" or T0.byrow):
                    S.bad(f"{a} = wrong size",
                          lambda T, a=a: setattr(T, a, v), v)
                    S.bad(f"{a} = 2-D",
                          lambda T, a=a: setattr(T, a, v2), v2)
        if not T0.centering:
            g = rng.standard_normal(n)
            S.bad("mean_ without centering",
                  lambda T: setattr(T, "mean_", g))
        if T0.scaling is None:
            S.bad("scale_ without scaling",
                  lambda T: setattr(T, "scale_", 2.))
            S.bad("shift_ without scaling",
                  lambda T: setattr(T, "shift_", 2.))
        S.fitbad("fit(1-D)", lambda T: T.fit(w), w)
        S.fitbad("fit_transform(3-D)",
                 lambda T: T.fit_transform(rng.standard_normal((n, 2, 3))))
    if kind == 3:
        S.fitbad("fit(rows)", lambda T: T.fit(W), W)
        S.bad("dimension = wrong",
              lambda T: setattr(T, "state_dimension", off(rng, N)))
    if kind == 4 and T_byrow(build()):
        S.fitbad("fit(rows)", lambda T: T.fit_transform(W), W)
        S.bad("dimension = wrong",
              lambda T: setattr(T, "state_dimension", off(rng, N)))
    fixed = kind == 7 and (trained or any(
        t.state_dimension is not None for t in build().transformers))
    if fixed:
        W2 = gen.states(rng, nv * off(rng, max(1, N // nv)), k, "normal")
        if len(W2) != N:
            S.fitbad("fit(all rows)", lambda T: T.fit(W2), W2)
        S.fitbad("fit(rows)", lambda T: T.fit(W), W)
        S.fitbad("fit_transform(rows)",
                 lambda T: T.fit_transform(W, inplace=ip), W)
    if kind == 7 and trained:
        S.bad("split(rows)", lambda T: T.split(W), W)
        S.bad("get_var(rows)", lambda T: T.get_var(0, W), W)
        S.bad("get_var(name)", lambda T: T.get_var("nobody", P), P)
    S.refit = lambda T: T.fit(Q.copy())
    if S.fitbads and not trained:
        def probe2(T):
            return probe(T) if not T_done(T) else [
                T.state_dimension, T.transform(P.copy())]
        S.probe = probe2
    S.good = [("str", str), ("transform", lambda T: T.transform(P.copy()))
              if trained else ("repr", repr)]
    if kind == 3 or (kind == 4 and T_byrow(build())) or (
            kind < 3 and trained):
        S.good.append(("dimension = right",
                       lambda T: setattr(T, "state_dimension", N)))
    run(ctx, rng, S)


def T_byrow(T):
    return T.byrow


def T_done(T):
    try:
        T.transform(np.ones((T.state_dimension, 1)))
        return True
    except Exception:
        return False


@CHECK.family(quick=60, thorough=1500)
def constructors(ctx, rng, i):
    """Objects that cannot be made from inconsistent parts."""
    n = int(gen.pick(rng, [2, 3, 5]))
    pre, B = opinf.pre, opinf.basis
    m = off(rng, n)
    Q = gen.states(rng, n, 4, "normal")
    R = gen.states(rng, m, 4, "normal")
    r = int(rng.integers(1, n + 1))
    V = gen.orth(rng, n, r)
    q, p = rng.standard_normal(n), rng.standard_normal(m)
    cases = dict(
        pipeline=lambda: pre.TransformerPipeline(
            [pre.ShiftTransformer(q), pre.ShiftTransformer(p)]),
        pipeline_trained=lambda: pre.TransformerPipeline(
            [pre.NullTransformer().fit(Q), pre.ShiftTransformer(p)]),
        pipeline_type=lambda: pre.TransformerPipeline(
            pre.ShiftTransformer(q)),
        multi_empty=lambda: pre.TransformerMulti([]),
        multi_sizes=lambda: pre.TransformerMulti(
            [None, pre.ShiftTransformer(q)], [n, m]),
        multi_nsizes=lambda: pre.TransformerMulti([None, None], [n] * 3),
        multi_nsizes1=lambda: pre.TransformerMulti([None, None], [n]),
        shift_kind=lambda: pre.ShiftTransformer(q.reshape(-1, 1)),
        shift_list=lambda: pre.ShiftTransformer(list(q)),
        scale_zero=lambda: pre.ScaleTransformer(0),
        scale_zeros=lambda: pre.ScaleTransformer(
            np.where(np.arange(n) == n - 1, 0, q)),
        scale_kind=lambda: pre.ScaleTransformer(q.reshape(-1, 1)),
        scaling=lambda: pre.ShiftScaleTransformer(scaling="standrd"),
        scaling_type=lambda: pre.ShiftScaleTransformer(scaling=2),
        scaling_byrow=lambda: pre.ShiftScaleTransformer(
            scaling="maxnorm", byrow=True),
        scaling_byrow2=lambda: pre.ShiftScaleTransformer(
            scaling="maxnormsym", byrow=True, centering=True),
        shift_by=lambda: pre.shift(Q, p),
        shift_by_2d=lambda: pre.shift(Q, Q),
        shift_1d=lambda: pre.shift(q),
        scale_to=lambda: pre.scale(Q, (0, 1, 2)),
        scale_from=lambda: pre.scale(Q, (0, 1), (1,)),
        linear_weights=lambda: B.LinearBasis(V, weights=np.abs(p)),
        linear_weights2=lambda: B.LinearBasis(V, weights=np.eye(m)),
        linear_weights3=lambda: B.LinearBasis(
            V, weights=np.ones((1, 1, 1))),
        pod_nothing=lambda: B.PODBasis(),
        pod_solver=lambda: B.PODBasis(1, svdsolver="fast"),
        pod_max=lambda: B.PODBasis(1, max_vectors=0),
        pod_weights=lambda: B.PODBasis(
            1, weights=np.abs(p)).fit(Q),
        pod_weights_mos=lambda: B.PODBasis(
            1, weights=np.abs(p), svdsolver="eigh").fit(Q),
        pod_weights2=lambda: B.PODBasis(1, weights=np.eye(m)).fit(Q),
        pod_weights2_mos=lambda: B.PODBasis(
            1, weights=np.eye(m), svdsolver="eigh").fit(Q),
        pod_function=lambda: B.pod_basis(Q, 1, weights=np.abs(p)),
        bmulti_empty=lambda: B.BasisMulti([]),
        bmulti_sizes=lambda: B.BasisMulti(
            [B.PODBasis(1), B.PODBasis(1)], [n] * 3),
        mos_weights=lambda: B.method_of_snapshots(Q, np.abs(p)),
    )
    for lab, fn in cases.items():
        ctx.ev("rejected")
        try:
            with quiet():
                out = fn()
        except Exception:
            continue
        raise Violation("rejected", f"{lab} (n={n}, m={m}) accepted: "
                        f"{out!r}"[:300], f"ctor:{lab}")
    ctx.note(n=n, m=m, r=r)


# Bases -----------------------------------------------------------------------
@CHECK.family(quick=300, thorough=8000)
def bases(ctx, rng, i):
    seed = int(rng.integers(2**31))
    kind = ["Linear", "POD", "POD", "Multi", "MultiPOD", "MultiMixed"][i % 6]
    n = int(gen.pick(rng, [2, 3, 5, 8]))
    k = int(rng.integers(n + 1, n + 6))
    nv = int(rng.integers(2, 4)) if "Multi" in kind else 1
    N = n * nv
    r = int(rng.integers(1, n + 1))
    wk = gen.pick(rng, ["none", "diag", "full"])
    sv = gen.pick(rng, ["dense", "method-of-snapshots", "eigh"])
    Q = gen.states(rng, N, k, "normal")
    trained = kind in ("Linear", "Multi") or rng.random() < .8

    def one(g, j=0):
        if kind == "Linear" or (j % 2 == 0 and kind in (
                "Multi", "MultiMixed")):
            return basisgen.linear(g, n, r, wk)[0]
        B = basisgen.pod(g, n, k, r, wk, sv)[0]
        return B.fit(Q[:n]) if kind == "Multi" else B

    def make():
        g = np.random.default_rng(seed)
        if nv == 1:
            B = one(g)
        else:
            B = opinf.basis.BasisMulti([one(g, j) for j in range(nv)])
        if trained:
            B.fit(Q)
        return B
    P = gen.states(rng, N, 3, "normal")
    R = r * nv
    Z = rng.standard_normal((R, 2))

    def probe(B):
        if B.full_state_dimension is None or B.reduced_state_dimension is \
                None or not hasdata(B):
            return [B.reduced_state_dimension]
        out = [B.full_state_dimension, B.reduced_state_dimension,
               B.compress(P), B.decompress(B.compress(P)), B.project(P)]
        if isinstance(B, opinf.basis.PODBasis):
            out += [B.svdvals, np.abs(B.leftvecs), B.max_vectors,
                    B.cumulative_energy]
        return out

    def hasdata(B):
        bs = B.bases if hasattr(B, "bases") else [B]
        return all(b.entries is not None for b in bs)
    S = Subject(f"{kind}({wk},{sv if 'POD' in kind else ''})"
                + ("" if trained else "/untrained"), make, probe)
    W = gen.states(rng, off(rng, N), int(rng.integers(1, 4)), "normal")
    w = rng.standard_normal(off(rng, N))
    Y = rng.standard_normal((off(rng, R), 2))
    y = rng.standard_normal(off(rng, R))
    if trained:
        S.bad("compress(rows)", lambda B: B.compress(W), W)
        S.bad("compress(vector)", lambda B: B.compress(w), w)
        S.bad("project(rows)", lambda B: B.project(W), W)
        S.bad("projection_error(rows)",
              lambda B: B.projection_error(W), W)
        S.bad("decompress(rows)", lambda B: B.decompress(Y), Y)
        S.bad("decompress(vector)", lambda B: B.decompress(y), y)
        S.bad("decompress(rows, locs)",
              lambda B: B.decompress(Y, locs=np.array([0])), Y)
        S.bad("decompress(locs out of range)",
              lambda B: B.decompress(Z, locs=np.array([0, n + 3])), Z)
        S.good = [("str", str), ("compress", lambda B: B.compress(P)),
                  ("decompress", lambda B: B.decompress(Z))]
    else:
        ctx.ev("untrained-rejected")
        S.bad("untrained compress", lambda B: B.compress(P), P)
        S.bad("untrained decompress", lambda B: B.decompress(Z), Z)
        S.bad("untrained project", lambda B: B.project(P), P)
    if nv > 1 and trained:
        X = gen.states(rng, N + R + 1, 2, "normal")
        S.bad("split(rows)", lambda B: B.split(X), X)
        S.bad("get_var(rows)", lambda B: B.get_var(0, X), X)
        S.bad("get_var(name)", lambda B: B.get_var("nobody", P), P)
        S.bad("bases = []", lambda B: setattr(B, "bases", []))
        ctx.ev("setting-kept")
    if nv > 1 and (trained or kind == "MultiMixed"):
        S.fitbad("fit(rows)", lambda B: B.fit(W), W)
        W2 = gen.states(rng, nv * off(rng, n), k, "normal")
        S.fitbad("fit(all rows)", lambda B: B.fit(W2), W2)
    if kind == "POD":
        S.bad("svdsolver = unknown",
              lambda B: setattr(B, "svdsolver", "quick"))
        S.bad("svdsolver_options = list",
              lambda B: setattr(B, "svdsolver_options", [1]))
        S.bad("set_dimension()", lambda B: B.set_dimension())
        if wk != "none":
            S.bad("fit(rows)", lambda B: B.fit(W), W)
            S.fitbad("fit(rows)", lambda B: B.fit(W), W)
        S.bad("fit(1-D)", lambda B: B.fit(w), w)
    if kind == "Linear":
        S.bad("new weights", lambda B: opinf.basis.LinearBasis(
            B.entries, weights=np.ones(off(rng, n))))
    S.refit = lambda B: B.fit(Q)
    run(ctx, rng, S)


# Least-squares solvers -------------------------------------------------------
@CHECK.family(quick=500, thorough=12000)
def solvers(ctx, rng, i):
    kind = lg.KINDS[i % len(lg.KINDS)]
    D, Z = lg.problem(rng, kind)
    Z2 = np.atleast_2d(Z)
    k, d = D.shape
    r = Z2.shape[0]
    s = lg.settings(rng, kind, d, r, k, 1.0)
    trained = rng.random() < .75

    def make():
        T = lg.build(s)
        if trained:
            T.fit(D, Z)
        return T
    X = rng.standard_normal((r, d))

    def probe(T):
        if T.data_matrix is None:
            out = [T.k, T.d, T.r]
        else:
            out = [T.k, T.d, T.r, T.solve(), T.data_matrix, T.lhs_matrix,
                   T.misfit(X) if hasattr(T, "misfit") else None,
                   T.residual(X)]
            if hasattr(T, "regresidual"):
                out.append(T.regresidual(X))
        if kind in ("l2", "l2dec"):
            out.append(np.array(T.regularizer))
        if kind == "tik" and T.regularizer is not None:
            out.append(np.array(dense(T.regularizer)))
        if kind == "tikdec" and T.regularizer is not None:
            out += [np.array(dense(G)) for G in T.regularizer]
        if kind == "tsvd":
            out.append(T.num_svdmodes)
        if kind in ("tik", "tikdec"):
            out.append(T.method)
        return out

    def dense(G):
        return G.toarray() if hasattr(G, "toarray") else G
    S = Subject(kind + ("" if trained else "/untrained"), make, probe)
    D3 = rng.standard_normal((2, k, d))
    Zk = rng.standard_normal((r, off(rng, k)))
    z = rng.standard_normal(off(rng, k))
    S.fitbad("fit(3-D)", lambda T: T.fit(D3, Z))
    S.fitbad("fit(1-D data)", lambda T: T.fit(np.ones(k), Z))
    S.fitbad("fit(lhs columns)", lambda T: T.fit(D, Zk), D, Zk)
    S.fitbad("fit(lhs vector)", lambda T: T.fit(D, z), z)
    S.fitbad("fit(lhs 3-D)",
             lambda T: T.fit(D, rng.standard_normal((1, r, k))))
    if r != k:
        S.fitbad("fit(lhs transposed)", lambda T: T.fit(D, Z2.T))
    if trained:
        X1 = rng.standard_normal((off(rng, r), d))
        X2 = rng.standard_normal((r, off(rng, d)))
        for nm in ("residual", "regresidual"):
            if nm == "residual" or kind in ("l2", "l2dec", "tik", "tikdec"):
                S.bad(f"{nm}(rows)", lambda T, nm=nm: getattr(T, nm)(X1), X1)
                S.bad(f"{nm}(columns)",
                      lambda T, nm=nm: getattr(T, nm)(X2), X2)
        S.good = [("solve", lambda T: T.solve()), ("str", str),
                  ("cond", lambda T: T.cond())]
    else:
        ctx.ev("untrained-rejected")
        S.bad("untrained solve", lambda T: T.solve())
        S.bad("untrained cond", lambda T: T.cond())
        S.bad("untrained residual", lambda T: T.residual(X), X)
        if kind in ("l2", "l2dec", "tik", "tikdec"):
            S.bad("untrained regresidual", lambda T: T.regresidual(X))
            S.bad("untrained posterior", lambda T: T.posterior())
            S.bad("untrained regcond", lambda T: T.regcond())
    ctx.ev("setting-kept")

    def bad(lab, v):
        S.bad(f"regularizer = {lab}",
              lambda T: setattr(T, "regularizer", v))
    if kind == "l2":
        bad("negative", -1.0)
        bad("array", np.ones(d + 1))
        bad("list", [1.0, 2.0])
    if kind == "l2dec":
        bad("negative", np.where(np.arange(r) == r - 1, -1., 1.))
        bad("2-D", np.ones((r, 2)))
        if trained:
            bad("wrong length", np.ones(off(rng, r)))
    if kind == "tik":
        if d > 1:
            bad("negative diagonal", np.where(np.arange(d) == 0, -1., 1.))
        if trained:
            bad("wrong diagonal", np.ones(off(rng, d)))
            bad("wrong matrix", np.eye(off(rng, d)))
            e = off(rng, d)
            bad("not square", np.ones((d, e)))
            bad("not square'", np.ones((e, d)))
            bad("3-D", np.ones((1, d, d)))
    if kind == "tikdec" and trained:
        bad("too few", [np.ones(d)] * off(rng, r))
        g = [np.ones(d) for _ in range(r)]
        g[int(rng.integers(r))] = np.ones(off(rng, d))
        bad("one wrong diagonal", g)
        h = [np.eye(d) for _ in range(r)]
        h[int(rng.integers(r))] = np.eye(off(rng, d))
        bad("one wrong matrix", h)
        q = [np.ones(d) for _ in range(r)]
        q[int(rng.integers(r))] = np.where(
            np.arange(d) == int(rng.integers(d)), -1., 1.)
        bad("one negative", q)
    if kind in ("tik", "tikdec"):
        S.bad("method = unknown", lambda T: setattr(T, "method", "qr"))
    if kind == "tsvd":
        S.bad("modes = float", lambda T: setattr(T, "num_svdmodes", 1.5))
        S.bad("modes = str", lambda T: setattr(T, "num_svdmodes", "2"))
        if trained:
            m = min(k, d)
            S.bad("modes too many",
                  lambda T: setattr(T, "num_svdmodes", m + 1))
            S.bad("modes too few",
                  lambda T: setattr(T, "num_svdmodes", -m - 1))
            S.bad("modes none left",
                  lambda T: setattr(T, "num_svdmodes", -m))
    if kind == "tls":
        kk = int(rng.integers(1, d + r))
        S.fitbad("fit(underdetermined)", lambda T: T.fit(
            rng.standard_normal((kk, d)), rng.standard_normal((r, kk))))
    S.refit = lambda T: T.fit(D, Z)
    # Regularizers that fit the solver do not have to fit other data.
    if kind in ("l2dec", "tik", "tikdec"):
        r2, d2 = off(rng, r), off(rng, d)
        if kind == "l2dec":
            A, C = rng.standard_normal((k, d)), rng.standard_normal((r2, k))
        elif kind == "tik":
            A, C = rng.standard_normal((k, d2)), rng.standard_normal((r, k))
        else:
            A = rng.standard_normal((k, d))
            C = rng.standard_normal((r2, k))
        S.fitbad("fit(regularizer mismatch)",
                 lambda T: T.fit(A, C).solve(), A, C)
    run(ctx, rng, S)


# Derivative estimators, errors, lifting --------------------------------------
@CHECK.family(quick=250, thorough=6000)
def estimators(ctx, rng, i):
    D = opinf.ddt
    k = int(rng.integers(9, 20))
    r = int(rng.integers(1, 5))
    m = int(rng.integers(1, 3))
    t = np.arange(k) * .1
    tn = np.sort(rng.random(k)) + np.arange(k) * .2
    kind = i % 3
    scheme = gen.pick(rng, ["fwd1", "bwd2", "ctr4", "ord6", "ctr2", "ord2"])

    def make():
        if kind == 0:
            return D.UniformFiniteDifferencer(t, scheme)
        if kind == 1:
            return D.NonuniformFiniteDifferencer(tn)
        return D.InterpDerivativeEstimator(tn, gen.pick(
            np.random.default_rng(i), ["cubic", "akima"]))
    Q = rng.standard_normal((r, k))
    U = rng.standard_normal((m, k))

    def probe(E):
        return [E.time_domain] + list(E.estimate(Q, U)) + list(
            E.estimate(Q)[:2]) + [E.mask(Q)]
    S = Subject(f"ddt{kind}{scheme if kind == 0 else ''}", make, probe)
    W = rng.standard_normal((r, off(rng, k)))
    V = rng.standard_normal((m, off(rng, k)))
    Q3 = rng.standard_normal((2, r, k))
    if kind != 0:    # the uniform scheme only uses the time step
        S.bad("states columns", lambda E: E.estimate(W), W)
    S.bad("states 3-D", lambda E: E.estimate(Q3), Q3)
    S.bad("states 1-D", lambda E: E.estimate(
        rng.standard_normal(off(rng, k))))
    S.bad("inputs columns", lambda E: E.estimate(Q, V), V)
    if kind == 1:
        S.bad("states and inputs columns",
              lambda E: E.estimate(W, rng.standard_normal(
                  (m, W.shape[1]))), W)
    S.good = [("estimate", lambda E: E.estimate(Q)), ("str", str)]
    run(ctx, rng, S)
    q = rng.standard_normal
    bads = dict(
        time_2d=lambda: D.UniformFiniteDifferencer(t.reshape(1, -1)),
        time_nonuniform=lambda: D.UniformFiniteDifferencer(tn),
        scheme=lambda: D.UniformFiniteDifferencer(t, "ctr3"),
        time_2dn=lambda: D.NonuniformFiniteDifferencer(tn.reshape(-1, 1)),
        interp_kind=lambda: D.InterpDerivativeEstimator(tn, "quartic"),
        interp_new=lambda: D.InterpDerivativeEstimator(
            tn, new_time_domain=tn.reshape(1, -1)),
        uniform_1d=lambda: D.ddt_uniform(q(k), .1, 2),
        uniform_dt=lambda: D.ddt_uniform(Q, t, 2),
        uniform_order=lambda: D.ddt_uniform(Q, .1, int(gen.pick(
            rng, [0, 1, 3, 5, 8]))),
        nonuniform_1d=lambda: D.ddt_nonuniform(q(k), tn),
        nonuniform_2dt=lambda: D.ddt_nonuniform(Q, tn.reshape(1, -1)),
        nonuniform_k=lambda: D.ddt_nonuniform(W, tn),
        ddt_none=lambda: D.ddt(Q),
        ddt_name=lambda: D.ddt(Q, h=.1),
        ddt_order=lambda: D.ddt(Q, order=2),
        ddt_type=lambda: D.ddt(Q, "time"),
        ddt_three=lambda: D.ddt(Q, .1, 2, 3),
        ddt_k=lambda: D.ddt(W, tn),
        fwd_inputs=lambda: D.fwd1(Q, .1, V),
    )
    p = opinf.post
    A = rng.standard_normal((r + 1, k))
    B = rng.standard_normal((off(rng, r + 1), k))
    C = rng.standard_normal((r + 1, off(rng, k)))
    bads.update(
        fro_rows=lambda: p.frobenius_error(A, B),
        fro_cols=lambda: p.frobenius_error(A, C),
        fro_1d=lambda: p.frobenius_error(A[0], A[0]),
        lp_rows=lambda: p.lp_error(A, B),
        lp_cols=lambda: p.lp_error(A, C),
        lp_vec=lambda: p.lp_error(A[:, 0], A),
        lp_3d=lambda: p.lp_error(A[None], A[None]),
        lp_p=lambda: p.lp_error(A, A, p=gen.pick(rng, [0, -1, -2.5])),
        lp_p2=lambda: p.lp_error(A, A, p=[1]),
        Lp_rows=lambda: p.Lp_error(A, B, tn),
        Lp_cols=lambda: p.Lp_error(A, C, tn),
        Lp_time=lambda: p.Lp_error(A, A, tn[:-1]),
        Lp_time1=lambda: p.Lp_error(A, A, tn[:1]),
        Lp_time2=lambda: p.Lp_error(A, A, tn.reshape(1, -1)),
        Lp_p=lambda: p.Lp_error(A, A, tn, p=0),
        Lp_notime=lambda: p.Lp_error(A, A, p=2),
        Lp_3d=lambda: p.Lp_error(A[None], A[None], tn),
        lift_orders=lambda: opinf.lift.PolynomialLifter([1, "2"]),
        unlift_rows=lambda: opinf.lift.PolynomialLifter([1, 2, 3]).unlift(
            rng.standard_normal((3 * r + 1, k))),
    )
    for lab, fn in bads.items():
        ctx.ev("rejected")
        try:
            with quiet():
                out = fn()
        except Exception:
            continue
        raise Violation("rejected", f"{lab} accepted: {out!r}"[:300],
                        f"fn:{lab}")


# Operators -------------------------------------------------------------------
def wrong_entries(rng, kd, r, m):
    """Arrays (label, entries) that are no entries of this operator."""
    n = og.ncols(kd, r, m)
    z = rng.standard_normal
    out = [("list", [[1.0, 2.0]]), ("string", "entries"), ("none", None),
           ("3-D", z((1, r, n + 1))), ("6-D", z((r, n, 1, 1, 1, 1)))]
    E = z((r, n)) if kd != "c" else z(r)
    for lab, v in (("nan", np.nan), ("inf", np.inf), ("-inf", -np.inf)):
        F = E.copy()
        F.flat[int(rng.integers(F.size))] = v
        out.append((lab, F))
    if kd == "c":
        out += [("2-D", z((r + 1, 2))), ("2-D'", z((2, 3)))]
    elif kd == "A":
        out += [("columns", z((r, r + 1))), ("rows", z((r + 1, r))),
                ("1-D", z(r + 1))]
    elif kd in "HGQ":
        p = og.KINDS[kd][1]
        for x in (n + 1, n - 1, r ** p + 1, 2 * n, r ** (p + 1), 1, r):
            if x > 0 and x not in (n, r ** p):
                out.append((f"columns={x}", z((r, x))))
        out += [("1-D", z(n + 1)), ("tensor", z((r,) * p + (r + 1,)))]
        if r > 1:  # as many numbers, but no (r, ..., r) tensor
            for x in (n, r ** p):
                s = [1] * (p - 1)
                s.insert(int(rng.integers(p)), x)
                out.append((f"tensor of {x}", z((r, *s))))
    elif kd == "N":
        if r > 1:
            out += [("columns", z((r, r * m + 1))),
                    ("columns'", z((r, r * m - 1)))]
        out.append(("1-D", z(r + 1)))
    return out


@CHECK.family(quick=400, thorough=10000)
def operators(ctx, rng, i):
    kd = "cAHGQBN"[i % 7]
    r = int(rng.integers(1, 3 if kd == "Q" else 5))
    m = int(rng.integers(1, 4))
    cls = og.KINDS[kd][0]
    E = og.entries(rng, kd, r, m)
    g, form = og.given(rng, kd, E)
    trained = rng.random() < .85
    q, Q = rng.standard_normal(r), rng.standard_normal((r, 3))
    u, U = rng.standard_normal(m), rng.standard_normal((m, 3))
    V = gen.orth(rng, r, int(rng.integers(1, r + 1)))

    def make():
        return cls(g.copy() if hasattr(g, "copy") else g) if trained \
            else cls()

    def probe(op):
        if op.entries is None:
            return [str(op), op.state_dimension]
        out = [str(op), og.dense(op), op.apply(Q, U),
               op.galerkin(V).apply(Q[:V.shape[1]], U),
               og.dense(op + op)]
        if r > 1 or kd != "c":
            out.append(np.ravel(op.apply(q, u)))
        if kd not in "cB":
            J = op.jacobian(q, u)
            out.append(J.toarray() if hasattr(J, "toarray") else J)
        return out
    S = Subject(f"{kd}({form}) r={r} m={m}"
                + ("" if trained else "/untrained"), make, probe)
    ctx.ev("setting-kept")
    for lab, W in wrong_entries(rng, kd, r, m):
        arrs = (W,) if isinstance(W, np.ndarray) else ()
        f = gen.pick(rng, ["attribute", "method", "constructor"])
        if f == "constructor" and lab == "none":
            f = "attribute"
        S.bad(f"{f} entries {lab}", {
            "attribute": lambda op, W=W: setattr(op, "entries", W),
            "method": lambda op, W=W: op.set_entries(W),
            "constructor": lambda op, W=W: cls(W)}[f], *arrs)
    a, b = off(rng, r), off(rng, m)
    if not trained:
        ctx.ev("untrained-rejected")
        S.bad("untrained apply", lambda op: op.apply(q, u))
        S.bad("untrained jacobian", lambda op: op.jacobian(q, u))
        S.bad("untrained galerkin", lambda op: op.galerkin(V))
    else:
        if kd in "AHGQN" and r > 1:
            X = rng.standard_normal((a, 3))
            S.bad("apply(rows)", lambda op: op.apply(X, U), X)
            S.bad("apply(vector)", lambda op: op.apply(X[:, 0], u))
        if kd == "N" and r > 1 and m != r:
            S.bad("apply(swapped)", lambda op: op.apply(u, q))
        if kd in "HG" and r > 1:
            S.bad("jacobian(vector)",
                  lambda op: op.jacobian(rng.standard_normal(a), u))
        if kd in "BN" and (m > 1 and (r > 1 or kd == "B")):
            Y = rng.standard_normal((b, 3))
            S.bad("apply(inputs)", lambda op: op.apply(Q, Y), Y)
            S.bad("apply(input)", lambda op: op.apply(q, Y[:, 0]))
        if kd == "N":
            y = rng.standard_normal(b)
            S.bad("jacobian(input)", lambda op: op.jacobian(q, y))
        if kd in "BN":
            S.bad("apply(no input)", lambda op: op.apply(q, None))
            S.bad("apply(no inputs)", lambda op: op.apply(Q, None))
        k = V.shape[1]
        W1 = rng.standard_normal((a, k))
        W2 = rng.standard_normal((r, off(rng, k)))
        S.bad("galerkin(rows)", lambda op: op.galerkin(W1), W1)
        S.bad("galerkin(test rows)", lambda op: op.galerkin(V, W1), W1)
        S.bad("galerkin(trial rows)", lambda op: op.galerkin(W1, V), W1)
        S.bad("galerkin(columns)", lambda op: op.galerkin(V, W2), W2)
        other = og.make(rng, gen.pick(
            rng, [x for x in "cAHBN" if x != kd]), r, m)[0]
        S.bad("add(type)", lambda op: op + other)
        S.bad("add(array)", lambda op: op + np.ones(op.shape))
        big = cls(og.entries(rng, kd, a, m) if kd != "c"
                  else og.entries(rng, kd, a, m)[:, 0])
        S.bad("add(rows)", lambda op: op + big)
        if kd == "B":
            wide = cls(rng.standard_normal((r, b)))
            S.bad("add(inputs)", lambda op: op + wide)
        S.bad("add(untrained)", lambda op: op + cls())
        S.bad("item", lambda op: op[r + 5])
    if kd in "HG":
        n, p = og.ncols(kd, 4, 1), og.KINDS[kd][1]
        x, y = rng.standard_normal((2, n + 1)), rng.standard_normal(
            (2, 4 ** p + 1))
        S.bad("expand(columns)", lambda op: op.expand_entries(x), x)
        S.bad("compress(columns)", lambda op: op.compress_entries(y), y)
    if kd == "N":
        Y5 = rng.standard_normal((m, 5))
        S.bad("datablock(columns)", lambda op: op.datablock(Q, Y5), Y5)
    if trained:
        S.good = [("apply", lambda op: op.apply(Q, U)), ("str", str),
                  ("same entries", lambda op: op.set_entries(op.entries))]
    run(ctx, rng, S)


@CHECK.family(quick=400, thorough=10000)
def parametric_operators(ctx, rng, i):
    kd = "cAHGBN"[i % 6]
    interp = bool(i // 6 % 2)
    r, m = int(rng.integers(1, 4)), int(rng.integers(1, 4))
    p = int(rng.integers(1, 4))
    V = gen.orth(rng, r, int(rng.integers(1, r + 1)))
    Q, U = rng.standard_normal((r, 3)), rng.standard_normal((m, 3))
    form = int(rng.integers(3))
    if interp:
        s = int(rng.integers(4, 8)) if p == 1 else p + 3
        mus = np.arange(s) + .5 * rng.random(s) if p == 1 else \
            np.vstack([np.zeros(p), np.eye(p),
                       rng.random((2, p)) + np.arange(1, 3)[:, None]])
        nt = s
        cls = og.INT[kd]
        # a point of the convex hull
        mu = float(mus[1] + .3) if p == 1 else mus.mean(axis=0)
    else:
        cls = og.AFF[kd]
        nt = p if form == 0 else int(rng.integers(1, 4))
        mu = float(rng.standard_normal()) if p == 1 and rng.random() < .5 \
            else rng.standard_normal(p)
        W0 = rng.standard_normal((nt, p))
        mus = None
    Es = [og.entries(rng, kd, r, m) for _ in range(nt)]
    Es = [E[:, 0] if kd == "c" else E for E in Es]
    trained = rng.random() < .8
    knowndim = rng.random() < .5

    def make():
        if interp:
            op = cls(mus.copy() if rng is not None else None)
        elif form == 0:
            op = cls(p)
        elif form == 1:
            op = cls(lambda x: W0 @ np.atleast_1d(x), nt)
        else:
            op = cls([lambda x, w=w: w @ np.atleast_1d(x) for w in W0])
        if trained:
            op.set_entries([E.copy() for E in Es])
        if not interp and form and knowndim:
            op.parameter_dimension = p
        return op

    def probe(op):
        if op.entries is None:
            return [str(op)]
        ev = op.evaluate(mu)
        return [str(ev), og.dense(ev), op.apply(mu, Q, U),
                [np.asarray(e) for e in op.entries], op.parameter_dimension,
                og.dense(op.galerkin(V).evaluate(mu)), op.state_dimension]
    S = Subject(f"{'interp' if interp else 'affine'}{form} {kd} r={r} m={m} "
                f"p={p} terms={nt}" + ("" if trained else "/untrained"),
                make, probe)
    n = og.ncols(kd, r, m)
    a = off(rng, nt)
    ctx.ev("setting-kept")

    def rnd():
        return rng.standard_normal(r if kd == "c" else (r, n))
    few = [rnd() for _ in range(a)]
    S.bad("number of entries", lambda op: op.set_entries(few), *few)
    if nt > 1 and a > 0:
        arr = np.array(few)
        S.bad("array of entries", lambda op: op.set_entries(arr), arr)
    if nt > 1:
        lab, W = gen.pick(rng, [
            x for x in wrong_entries(rng, kd, r, m)
            if isinstance(x[1], np.ndarray)])
        mixed = [rnd() for _ in range(nt)]
        mixed[int(rng.integers(nt))] = W
        S.bad(f"one term {lab}", lambda op: op.set_entries(mixed), W)
        r2 = r + 1
        mixed2 = [rnd() for _ in range(nt)]
        mixed2[int(rng.integers(nt))] = rng.standard_normal(
            r2 if kd == "c" else (r2, og.ncols(kd, r2, m)))
        S.bad("one term of other dimension",
              lambda op: op.set_entries(mixed2))
        if kd != "c" or True:
            blk = rng.standard_normal((r, nt * n + 1))
            S.bad("block columns",
                  lambda op: op.set_entries(blk, fromblock=True), blk)
    S.bad("block 3-D", lambda op: op.set_entries(
        rng.standard_normal((r, 1, nt * n)), fromblock=True))
    b = off(rng, p)
    bad_mu = rng.standard_normal(b)
    known = interp or form == 0 or knowndim
    if trained and known:
        S.bad("parameter size", lambda op: op.evaluate(bad_mu), bad_mu)
        S.bad("parameter size in apply",
              lambda op: op.apply(bad_mu, Q, U), bad_mu)
        S.bad("parameter size in jacobian",
              lambda op: op.jacobian(bad_mu, Q[:, 0], U[:, 0]), bad_mu)
        if p > 1:
            S.bad("scalar parameter", lambda op: op.evaluate(1.5))
    elif trained and form == 2:
        # unknown parameter dimension; the coefficients do not accept it
        S.bad("parameter size", lambda op: op.evaluate(bad_mu), bad_mu)
    if trained:
        M2 = rng.standard_normal((p, 2))
        if known:
            S.bad("matrix parameter", lambda op: op.evaluate(M2), M2)
            if p > 1:
                S.bad("row parameter", lambda op: op.evaluate(M2.T[:1]), M2)
    if known:
        S.bad("parameter dimension again", lambda op: setattr(
            op, "parameter_dimension", b))
    else:
        S.bad("parameter dimension", lambda op: setattr(
            op, "parameter_dimension", gen.pick(
                rng, [0, -1, 1.0, "1", None])))
    if not trained:
        ctx.ev("untrained-rejected")
        S.bad("untrained evaluate", lambda op: op.evaluate(mu))
        S.bad("untrained apply", lambda op: op.apply(mu, Q, U))
        S.bad("untrained galerkin", lambda op: op.galerkin(V))
    else:
        W1 = rng.standard_normal((off(rng, r), V.shape[1]))
        S.bad("galerkin(rows)", lambda op: op.galerkin(W1), W1)
        S.bad("galerkin(test rows)", lambda op: op.galerkin(V, W1), W1)
    if interp:
        if trained:
            S.bad("training parameters again", lambda op: setattr(
                op, "training_parameters", mus))
        else:
            S.bad("training parameters 3-D", lambda op: setattr(
                op, "training_parameters", np.ones((3, 2, 2))))
            S.bad("training parameters ragged", lambda op:
                  op.set_training_parameters([np.ones(2), np.ones(3)]))
        S.bad("no training parameters",
              lambda op: cls(entries=[rnd() for _ in range(nt)]))
        S.bad("made of other operators", lambda op: cls._from_operators(
            mus, [og.make(rng, gen.pick(rng, [x for x in "cAHBN" if x != kd]),
                          r, m)[0] for _ in mus]))
        S.bad("made of untrained operators",
              lambda op: cls._from_operators(
                  mus, [cls._OperatorClass() for _ in mus]))
        S.bad("made of few operators",
              lambda op: cls._from_operators(
                  mus, [cls._OperatorClass(E) for E in Es[:-1]]))
    else:
        S.bad("nterms", lambda op: cls(lambda x: x, gen.pick(
            rng, [0, -1, 1.5, "2"])))
        S.bad("nterms missing", lambda op: cls(lambda x: x))
        S.bad("coeffs", lambda op: cls(gen.pick(
            rng, [0, -2, 1.5, [lambda x: 1, 2.0], None])))
        # coefficient functions that do not give one number per term
        c = off(rng, nt)
        liar = cls(lambda x: np.ones(c), nt, entries=Es)
        S.bad("number of coefficients", lambda op: liar.evaluate(mu))
        k = 4
        pars = [mu] * 2
        S.bad("number of coefficients in datablock",
              lambda op: liar.datablock(pars, [Q, Q], [U, U]))
    S.good = [("str", str)]
    if trained:
        S.good.append(("evaluate", lambda op: op.evaluate(mu)))
        S.good.append(("set", lambda op: op.set_entries(
            [E.copy() for E in Es])))
    run(ctx, rng, S)


# Models ----------------------------------------------------------------------
def bad_structures(ctx, rng, S, r, m, hasu, kinds):
    """Assignments to model.operators that have to be rejected."""
    ctx.ev("setting-kept")

    def bad(lab, ops):
        S.bad(f"operators = {lab}",
              lambda model: setattr(model, "operators", ops()))
    a, b = off(rng, r), off(rng, m)

    def known(k, r_, m_):
        E = og.entries(rng, k, r_, m_)
        return og.KINDS[k][0](E[:, 0] if k == "c" else E)
    bad("[]", lambda: [])
    bad("unknown letter", lambda: ["A", "X"])
    bad("unknown letter first", lambda: "XA")
    bad("no operator", lambda: [O.LinearOperator(), 3.0])
    bad("class", lambda: [O.LinearOperator, "c"])
    bad("duplicates", lambda: ["A", O.LinearOperator()])
    bad("input twice", lambda: ["B", O.InputOperator(), "A"])
    bad("two state dimensions", lambda: [
        known("A", r, m), known("c" if hasu else "B", a, m)])
    bad("two input dimensions", lambda: [
        known("B", r, m), known("N", r, b)])
    bad("inputs, then unknown", lambda: ["B", "X"])
    bad("no inputs, then unknown", lambda: ["A", "X"])


@CHECK.family(quick=400, thorough=10000)
def models(ctx, rng, i):
    cls = [M.DiscreteModel, M.ContinuousModel, mg.Steady][i % 3]
    steady, disc = cls is mg.Steady, cls is M.DiscreteModel
    seed = int(rng.integers(2**31))
    kinds, r, m = mg.structure(rng, maxr=3, steady=steady, nmax=4)
    what = [gen.pick(rng, ["infer", "infer", "known"]) for _ in kinds]
    if "infer" not in what and rng.random() < .8:
        what[0] = "infer"
    given = "infer" not in what
    hasu = mg.uses(kinds)
    d = sum(og.ncols(k, r, m) for k in kinds)
    Q, U = mg.samples(rng, d, r, m)
    k = Q.shape[1]
    Z = rng.standard_normal((r, k))
    Uu = U if hasu else None
    trained = given or rng.random() < .7
    sol = gen.pick(rng, [None, 1e-2])
    Es = [og.entries(rng, kd, r, m, .1) for kd in kinds]
    Es = [E[:, 0] if kd == "c" else E for kd, E in zip(kinds, Es)]

    def fit(model, Q=Q, Z=Z, U=Uu):
        if steady:
            return model.fit(Q, Z)
        return model.fit(Q, Z, U)

    def make():
        ops = [og.KINDS[kd][0](E.copy()) if w == "known" else kd
               for kd, E, w in zip(kinds, Es, what)]
        model = cls(ops, solver=sol)
        if trained and not given:
            fit(model)
        return model
    q, u = .3 * rng.standard_normal(r), .3 * rng.standard_normal(m)
    t = np.linspace(0, .05, 4)
    U4 = .1 * rng.standard_normal((m, 4))

    def probe(model):
        out = [model.state_dimension, model.input_dimension,
               model._has_inputs, str(model.solver),
               "".join(type(o).__name__ for o in model.operators)]
        if any(o.entries is None for o in model.operators):
            return out + [str(model)]
        out += [mg.dense(o, kd) for o, kd in zip(model.operators, kinds)]
        V = np.eye(r)[:, :max(1, r - 1)]
        out += [og.dense(o) for o in model.galerkin(V).operators]
        if steady:
            return out + [model.rhs(q), model.jacobian(q) if "B" not in kinds
                          and "c" not in kinds else None]
        if disc:
            return out + [model.rhs(q, u), model.predict(
                q, 3, U4 if hasu else None)]
        f = (lambda x: u * np.cos(x)) if hasu else None
        return out + [model.rhs(.1, q, f), np.asarray(model.predict(
            q, t, f, method="RK23"))]
    S = Subject(f"{cls.__name__} {''.join(kinds)} {what} r={r} m={m}"
                + ("" if trained else "/untrained"), make, probe)
    a, b = off(rng, r), off(rng, m)
    bad_structures(ctx, rng, S, r, m, hasu, kinds)
    if not given:
        S.bad("solver = -1", lambda M_: setattr(M_, "solver", -1.5))
        S.bad("solver = class", lambda M_: setattr(
            M_, "solver", opinf.lstsq.L2Solver))
    if trained or "known" in what:
        S.bad("state_dimension", lambda M_: setattr(
            M_, "state_dimension", a))
    if not hasu:
        S.bad("input_dimension", lambda M_: setattr(
            M_, "input_dimension", m))
    elif trained or any(w == "known" and kd in "BN"
                        for kd, w in zip(kinds, what)):
        S.bad("input_dimension", lambda M_: setattr(
            M_, "input_dimension", b))
    q2, u2 = rng.standard_normal(a), rng.standard_normal(b)
    f0 = (lambda x: u) if hasu else None
    if not trained:
        ctx.ev("untrained-rejected")
        if disc:
            S.bad("untrained predict", lambda M_: M_.predict(
                q, 3, U4 if hasu else None))
        elif not steady:
            S.bad("untrained predict", lambda M_: M_.predict(q, t, f0))
        S.bad("untrained operator_matrix", lambda M_: M_.operator_matrix)
        S.bad("untrained refit", lambda M_: M_.refit())
    else:
        if steady:
            if r > 1:
                S.bad("rhs(state)", lambda M_: M_.rhs(q2), q2)
        elif disc:
            if r > 1:
                S.bad("rhs(state)", lambda M_: M_.rhs(q2, u), q2)
            S.bad("predict(state)", lambda M_: M_.predict(
                q2, 3, U4 if hasu else None), q2)
            S.bad("predict(matrix)", lambda M_: M_.predict(
                np.ones((r, 2)), 3, U4 if hasu else None))
            S.bad("predict(column)", lambda M_: M_.predict(
                q.reshape(-1, 1), 3, U4 if hasu else None))
            S.bad("niters", lambda M_: M_.predict(q, gen.pick(
                rng, [0, -1, 2.5, "3", None]), U4 if hasu else None))
            if hasu:
                n = int(rng.integers(3, 6))
                Uf = rng.standard_normal((m, n - 2))
                Ur = rng.standard_normal((b, n))
                S.bad("predict(no inputs)", lambda M_: M_.predict(q, n))
                S.bad("predict(few inputs)",
                      lambda M_: M_.predict(q, n, Uf), Uf)
                S.bad("predict(input rows)",
                      lambda M_: M_.predict(q, n, Ur), Ur)
                S.bad("predict(callable)",
                      lambda M_: M_.predict(q, n, lambda x: u))
                S.bad("predict(3-D inputs)", lambda M_: M_.predict(
                    q, n, rng.standard_normal((m, n, 1))))
                S.bad("rhs(no input)", lambda M_: M_.rhs(q))
        else:
            if r > 1:
                S.bad("rhs(state)", lambda M_: M_.rhs(.1, q2, f0), q2)
            S.bad("predict(state)", lambda M_: M_.predict(q2, t, f0), q2)
            S.bad("predict(column)", lambda M_: M_.predict(
                q.reshape(-1, 1), t, f0))
            S.bad("predict(times)", lambda M_: M_.predict(
                q, t.reshape(1, -1), f0))
            if hasu:
                Uc = rng.standard_normal((m, off(rng, 4, 2)))
                Ur = rng.standard_normal((b, 4))
                S.bad("predict(no inputs)", lambda M_: M_.predict(q, t))
                S.bad("predict(input columns)",
                      lambda M_: M_.predict(q, t, Uc), Uc)
                S.bad("predict(input rows)",
                      lambda M_: M_.predict(q, t, Ur), Ur)
                S.bad("predict(input function)",
                      lambda M_: M_.predict(q, t, lambda x: u2))
                S.bad("predict(input matrix)", lambda M_: M_.predict(
                    q, t, lambda x: u.reshape(-1, 1)))
                if m > 1:
                    S.bad("predict(scalar input)",
                          lambda M_: M_.predict(q, t, lambda x: 1.0))
                    S.bad("predict(list input)",
                          lambda M_: M_.predict(q, t, lambda x: [1.] * m))
                S.bad("rhs(no input)", lambda M_: M_.rhs(.1, q))
        W1 = rng.standard_normal((a, 1))
        S.bad("galerkin(rows)", lambda M_: M_.galerkin(W1), W1)
        S.good = [("str", str), ("copy", lambda M_: M_.copy())]
    if not given:
        kn = "known" in what
        mk = any(w == "known" and kd in "BN" for kd, w in zip(kinds, what))
        Qr, Qk = rng.standard_normal((a, k)), rng.standard_normal(
            (r, off(rng, k)))
        Za = rng.standard_normal((a, k))
        if kn:
            S.fitbad("fit(both rows)", lambda M_: fit(M_, Qr, Za), Qr, Za)
        S.fitbad("fit(state rows)", lambda M_: fit(M_, Qr), Qr)
        S.fitbad("fit(lhs rows)", lambda M_: fit(M_, Q, Za), Q, Za)
        S.fitbad("fit(state columns)", lambda M_: fit(M_, Qk), Qk)
        S.fitbad("fit(lhs columns)", lambda M_: fit(M_, Q, Qk), Qk)
        S.fitbad("fit(3-D states)", lambda M_: fit(
            M_, Q.reshape(r, k, 1), Z.reshape(r, k, 1)))
        if not disc:
            S.fitbad("fit(no lhs)", lambda M_: fit(M_, Q, None))
        if hasu:
            Ur, Uk = rng.standard_normal((b, k)), rng.standard_normal(
                (m, k - int(rng.integers(1, 3))))
            S.fitbad("fit(no inputs)", lambda M_: fit(M_, Q, Z, None))
            S.fitbad("fit(few inputs)", lambda M_: fit(M_, Q, Z, Uk), Uk)
            if not disc:
                Ul = rng.standard_normal((m, k + 1))
                S.fitbad("fit(many inputs)",
                         lambda M_: fit(M_, Q, Z, Ul), Ul)
            if mk:
                S.fitbad("fit(input rows)", lambda M_: fit(M_, Q, Z, Ur), Ur)
            S.fitbad("fit(input function)",
                     lambda M_: fit(M_, Q, Z, lambda x: u))
        if d > 1:
            S.fitbad("fit(bad solver)", lambda M_: failing(
                M_, lambda: fit(M_, Q, Z)))
    S.refit = lambda M_: fit(M_)
    run(ctx, rng, S)


def failing(model, call):
    """Fit with a solver that fails; the solver is put back afterwards."""
    old = model.solver
    model.solver = opinf.lstsq.TruncatedSVDSolver(-10 ** 6)
    try:
        return call()
    finally:
        model.solver = old


def pmodel(rng, i):
    """Builder of a parametric model and everything needed to use it."""
    disc, interp = bool(i % 2), bool(i // 2 % 2)
    kinds, r, m = mg.structure(rng, letters="cAHBN", maxr=3, nmax=3)
    p = int(rng.integers(1, 3))
    s = int(rng.integers(4, 6)) if p == 1 else 5
    mus = np.arange(s) + .5 * rng.random(s) if p == 1 else np.vstack(
        [np.zeros(p), np.eye(p), rng.random((2, p)) + [[1], [2]]])
    mu = float(mus[1] + .2) if p == 1 else mus.mean(axis=0)
    types = ["interp" if interp else gen.pick(
        rng, ["affine", "affine", "plain", "interp"]) for _ in kinds]
    if not interp and "affine" not in types:
        types[0] = "affine"
    known = [bool(rng.random() < .3) and not interp for _ in kinds]
    if all(known):
        known[int(rng.integers(len(known)))] = False
    nts = [int(rng.integers(1, 4)) for _ in kinds]
    Ws = [rng.standard_normal((n, p)) for n in nts]
    Es = []
    for kd, t, n in zip(kinds, types, nts):
        E = [og.entries(rng, kd, r, m, .1) for _ in range(
            1 if t == "plain" else n if t == "affine" else s)]
        Es.append([e[:, 0] if kd == "c" else e for e in E])
    hasu = mg.uses(kinds)
    cls = {(0, 0): M.ParametricContinuousModel,
           (1, 0): M.ParametricDiscreteModel,
           (0, 1): M.InterpContinuousModel,
           (1, 1): M.InterpDiscreteModel}[disc, interp]
    sol = 1e-2
    asstr = interp and rng.random() < .5

    def ops():
        out = []
        for kd, t, kn, W, E in zip(kinds, types, known, Ws, Es):
            E = [e.copy() for e in E] if kn else None
            if t == "plain":
                out.append(og.KINDS[kd][0](E[0] if kn else None))
            elif t == "affine":
                def fs(w):
                    return lambda x: float(w @ np.atleast_1d(x))
                out.append(og.AFF[kd]([fs(w) for w in W], entries=E))
            elif kn:
                out.append(og.INT[kd](mus.copy(), entries=E))
            else:
                out.append(kd if asstr else og.INT[kd]())
        return out

    def make():
        return cls(ops(), solver=sol)
    return dict(locals())


@CHECK.family(quick=300, thorough=8000)
def parametric_models(ctx, rng, i):
    X = pmodel(rng, i)
    disc, interp, kinds, r, m, p, s, mus, mu, known, hasu, cls = [
        X[x] for x in ("disc", "interp", "kinds", "r", "m", "p", "s", "mus",
                       "mu", "known", "hasu", "cls")]
    types = X["types"]
    nk = sum(og.ncols(k, r, m) for k in kinds) * 3 + 4
    Qs = [rng.standard_normal((r, nk + j % 2)) for j in range(s)]
    Zs = [rng.standard_normal(Q.shape) for Q in Qs]
    Us = [rng.standard_normal((m, Q.shape[1])) for Q in Qs]
    trained = rng.random() < .7

    def fit(model, P=mus, Q=Qs, Z=Zs, U=Us if hasu else None):
        return model.fit(P, Q, Z, U)

    def make():
        model = X["make"]()
        if trained:
            fit(model)
        return model
    q, u = .3 * rng.standard_normal(r), .3 * rng.standard_normal(m)
    t = np.linspace(0, .05, 4)
    U4 = .1 * rng.standard_normal((m, 4))
    f = (lambda x: u * np.cos(x)) if hasu else None

    def predict(model, mu_=mu, q_=q, U=None):
        if disc:
            return model.predict(mu_, q_, 3, (U4 if U is None else U)
                                 if hasu else None)
        return np.asarray(model.predict(mu_, q_, t, f, method="RK23"))

    def rhs(model, mu_=mu, q_=q):
        if disc:
            return model.rhs(mu_, q_, u if hasu else None)
        return model.rhs(.1, mu_, q_, f)

    def probe(model):
        out = [model.state_dimension, model.input_dimension,
               model._has_inputs,
               "".join(type(o).__name__ for o in model.operators)]
        if any(o.entries is None for o in model.operators):
            return out
        return out + [rhs(model), predict(model)] + [
            og.dense(o) for o in model.evaluate(mu).operators]
    S = Subject(f"{cls.__name__} {''.join(kinds)} {types} {known} r={r} "
                f"m={m} p={p}" + ("" if trained else "/untrained"),
                make, probe)
    a, b, c = off(rng, r), off(rng, m), off(rng, p)
    ctx.ev("setting-kept")

    def bad(lab, ops):
        S.bad(f"operators = {lab}",
              lambda model: setattr(model, "operators", ops()))
    bad("[]", lambda: [])
    bad("unknown letter", lambda: ["A", "X"])
    bad("no operator", lambda: [og.INT["A"](), 3.0])
    bad("duplicates", lambda: [og.INT["A"](), og.INT["A"]()])
    if interp:
        bad("not interpolatory", lambda: [og.INT["A"](), O.InputOperator()])
        bad("affine", lambda: [og.INT["c"](), og.AFF["A"](2)])
    else:
        bad("two parameter dimensions",
            lambda: [og.AFF["A"](2), og.AFF["B"](3)])
        bad("duplicates'", lambda: [og.INT["A"](), O.LinearOperator()])
        bad("two state dimensions", lambda: [
            og.AFF["A"](1, entries=[np.eye(r)]),
            O.ConstantOperator(np.ones(r + 1))])
        bad("two input dimensions", lambda: [
            og.AFF["A"](1, entries=[np.eye(r)]),
            O.InputOperator(np.ones((r, m))),
            og.AFF["N"](1, entries=[np.ones((r, r * (m + 1)))])])
        bad("inputs, then unknown", lambda: [og.AFF["B"](2), "X"])
    S.bad("solver = -1", lambda M_: setattr(M_, "solver", -1))
    S.bad("solver = class", lambda M_: setattr(
        M_, "solver", opinf.lstsq.PlainSolver))
    q2 = rng.standard_normal(a)
    mu2 = rng.standard_normal(c)
    if trained:
        S.bad("state_dimension", lambda M_: setattr(
            M_, "state_dimension", a))
        S.bad("predict(parameter)", lambda M_: predict(M_, mu2), mu2)
        S.bad("rhs(parameter)", lambda M_: rhs(M_, mu2), mu2)
        S.bad("evaluate(parameter)", lambda M_: M_.evaluate(mu2), mu2)
        S.bad("predict(state)", lambda M_: predict(M_, mu, q2), q2)
        if disc and hasu:
            S.bad("predict(few inputs)",
                  lambda M_: predict(M_, mu, q, U4[:, :1]))
            S.bad("predict(input rows)", lambda M_: predict(
                M_, mu, q, rng.standard_normal((b, 4))))
        if hasu:
            S.bad("predict(no inputs)", lambda M_: M_.predict(
                mu, q, 3 if disc else t))
        if r > 1:
            S.bad("rhs(state)", lambda M_: rhs(M_, mu, q2), q2)
        S.good = [("str", str), ("evaluate", lambda M_: M_.evaluate(mu)),
                  ("copy", lambda M_: M_.copy())]
    else:
        ctx.ev("untrained-rejected")
        S.bad("untrained predict", lambda M_: predict(M_))
        S.bad("untrained rhs", lambda M_: rhs(M_))
        S.bad("untrained refit", lambda M_: M_.refit())
    j = int(rng.integers(s))

    def one(xs, y):
        return xs[:j] + [y] + xs[j + 1:]
    kQ = Qs[j].shape[1]
    Qr, Qk = rng.standard_normal((a, kQ)), rng.standard_normal(
        (r, off(rng, kQ, 2)))
    S.fitbad("fit(few states)", lambda M_: fit(M_, Q=Qs[:-1]))
    S.fitbad("fit(few lhs)", lambda M_: fit(M_, Z=Zs[:-1]))
    S.fitbad("fit(many lhs)", lambda M_: fit(M_, Z=Zs + Zs[:1]))
    S.fitbad("fit(few parameters)", lambda M_: fit(M_, P=mus[:-1]))
    S.fitbad("fit(many parameters)",
             lambda M_: fit(M_, P=np.concatenate([mus, mus[:1] + 9])))
    S.fitbad("fit(one state rows)", lambda M_: fit(M_, Q=one(Qs, Qr)), Qr)
    S.fitbad("fit(one lhs rows)", lambda M_: fit(M_, Z=one(Zs, Qr)), Qr)
    S.fitbad("fit(one states columns)", lambda M_: fit(M_, Q=one(Qs, Qk)))
    S.fitbad("fit(one lhs columns)", lambda M_: fit(M_, Z=one(Zs, Qk)), Qk)
    S.fitbad("fit(parameters 3-D)",
             lambda M_: fit(M_, P=np.ones((s, p, 2))))
    P2 = rng.standard_normal((s, c)) if c > 1 else rng.standard_normal(s)
    if any(t != "plain" and t != "interp" or kn
           for t, kn in zip(types, known) if t != "plain"):
        # the coefficient functions or known operators do not take these
        S.fitbad("fit(parameter size)", lambda M_: fit(M_, P=P2), P2)
    if hasu:
        Ur, Uk = rng.standard_normal((b, kQ)), rng.standard_normal(
            (m, kQ - 1))
        S.fitbad("fit(no inputs)", lambda M_: fit(M_, U=None))
        S.fitbad("fit(few inputs)", lambda M_: fit(M_, U=Us[:-1]))
        S.fitbad("fit(many inputs)", lambda M_: fit(M_, U=Us + Us[:1]))
        S.fitbad("fit(one input rows)", lambda M_: fit(M_, U=one(Us, Ur)),
                 Ur)
        S.fitbad("fit(one input columns)",
                 lambda M_: fit(M_, U=one(Us, Uk)), Uk)
    if not disc:
        S.fitbad("fit(no lhs)", lambda M_: fit(M_, Z=None))
    S.fitbad("fit(bad solver)", lambda M_: failing(M_, lambda: fit(M_)))
    S.refit = fit
    run(ctx, rng, S)


# Reduced-order models ---------------------------------------------------------
def one_of(xs, j, y):
    return xs[:j] + [y] + xs[j + 1:]


def rom_stages(rng, n, r, lifted):
    """Builder of (lifter, transformer, basis) for states of size n."""
    tk = gen.pick(rng, [None, "standard", "minmax", "null"])
    bk = gen.pick(rng, ["pod", "pod", "linear", None])
    V = gen.orth(rng, n * (2 if lifted else 1), r)

    def make():
        lifter = opinf.lift.QuadraticLifter() if lifted else None
        T = {None: lambda: None,
             "standard": lambda: opinf.pre.ShiftScaleTransformer(
                 centering=True, scaling="standard"),
             "minmax": lambda: opinf.pre.ShiftScaleTransformer(
                 scaling="minmax"),
             "null": opinf.pre.NullTransformer}[tk]()
        B = {"pod": lambda: opinf.basis.PODBasis(num_vectors=r),
             "linear": lambda: opinf.basis.LinearBasis(V.copy()),
             None: lambda: None}[bk]()
        return lifter, T, B
    return make, tk, bk


@CHECK.family(quick=500, thorough=8000)
def roms(ctx, rng, i):
    disc, bayes, par = bool(i % 2), bool(i // 2 % 4 == 3), bool(
        i // 2 % 4 == 1)
    kinds = [str(x) for x in gen.pick(
        rng, ["A", "cA", "AB", "cAB", "AN", "cB"])]
    hasu = mg.uses(kinds)
    lifted = rng.random() < .25
    n, r, m = int(rng.integers(4, 7)), int(rng.integers(1, 3)), int(
        rng.integers(1, 3))
    stages, tk, bk = rom_stages(rng, n, r, lifted)
    if bk is None:
        r = 2 * n if lifted else n
    s = int(rng.integers(3, 5)) if par else int(rng.integers(1, 4))
    mus = np.sort(rng.random(s)) + np.arange(s)
    k0 = r * m + r + m + 6
    ks = [k0 + int(rng.integers(0, 4)) for _ in range(s)]
    if s > 1 and len(set(ks)) == 1:
        ks[0] += 2
    dt = .01
    estimated = not disc and rng.random() < .5
    est = [opinf.ddt.UniformFiniteDifferencer, opinf.ddt.
           InterpDerivativeEstimator][0]
    ptype = gen.pick(rng, ["affine", "interp"]) if par and not bayes \
        else "plain"
    given_lhs = not estimated and (not disc or rng.random() < .3)
    lab = (f"ROM {'D' if disc else 'C'} {''.join(kinds)} {ptype} "
           f"bayes={bayes} lift={lifted} {tk} {bk} n={n} r={r} m={m} s={s} "
           f"est={estimated} lhs={given_lhs}")
    if ptype == "interp":
        cls = (M.InterpDiscreteModel if disc else M.InterpContinuousModel)
    elif ptype == "affine":
        cls = (M.ParametricDiscreteModel if disc
               else M.ParametricContinuousModel)
    else:
        cls = M.DiscreteModel if disc else M.ContinuousModel

    def make():
        if ptype == "affine":
            ops = [og.AFF[kd]([lambda x: 1., lambda x: float(np.sum(x))])
                   for kd in kinds]
        else:
            ops = "".join(kinds) if ptype == "plain" else list(kinds)
        lf, T, B = stages()
        model = cls(ops, solver=opinf.lstsq.L2Solver(1e-1))
        R = (opinf.roms.ParametricROM if ptype != "plain"
             else opinf.roms.BayesianROM if bayes else opinf.roms.ROM)
        kw = dict(lifter=lf, transformer=T, basis=B)
        if estimated:
            kw["ddt_estimator"] = est(np.arange(max(ks)) * dt, "fwd1")
        return R(model, **kw)
    if estimated:       # this estimator wants equal time domains
        ks = [max(ks)] * s
    Qs = [rng.standard_normal((n, k)) for k in ks]
    Zs = [rng.standard_normal((n, k)) for k in ks]
    Us = [rng.standard_normal((m, k)) for k in ks]
    trained = rng.random() < .7
    Z0 = Zs if given_lhs else None
    U0 = Us if hasu else None

    def fit(R, P=mus, Q=Qs, Z=Z0, U=U0):
        if ptype == "plain":
            return R.fit(Q, Z, U)
        return R.fit(P, Q, Z, U)

    def build():
        R = make()
        if trained:
            fit(R)
        return R
    q = Qs[0][:, 0].copy()
    t = np.linspace(0, .02, 3)
    U4 = .1 * rng.standard_normal((m, 4))
    f = (lambda x: U4[:, 0] * np.cos(x)) if hasu else None
    mu = float(mus[1] - .3) if s > 1 else 1.

    def predict(R, q_=q, U=U4, f_=f):
        pre = () if ptype == "plain" else (mu,)
        np.random.seed(5)
        if disc:
            return R.predict(*pre, q_, 3, U if hasu else None)
        return np.asarray(R.predict(*pre, q_, t, f_, method="RK23"))

    def probe(R):
        model = R.model
        out = [model.state_dimension, model.input_dimension]
        if not trained and any(o.entries is None for o in model.operators):
            return out
        return out + [R.encode(q), predict(R)] + [
            np.asarray(o.entries) for o in model.operators]
    S = Subject(lab + ("" if trained else "/untrained"), build, probe)
    a = off(rng, n)
    q2 = rng.standard_normal(a)
    r_ = r
    stage = (tk not in (None, "null")) or bk is not None
    if trained or bk == "linear":
        if stage:
            N2 = off(rng, n)
            S.bad("encode(rows)", lambda R: R.encode(
                rng.standard_normal((N2, 3))))
            S.bad("project(rows)", lambda R: R.project(
                rng.standard_normal((N2, 3))))
    if trained:
        if bk is not None:
            S.bad("decode(rows)", lambda R: R.decode(
                rng.standard_normal((r_ + 1, 3))))
        if stage or r > 1:
            S.bad("predict(state)", lambda R: predict(R, q2), q2)
        if hasu:
            S.bad("predict(no inputs)", lambda R: predict(R, U=None, f_=None))
        if disc and hasu:
            S.bad("predict(few inputs)", lambda R: predict(R, U=U4[:, :1]))
            S.bad("predict(input rows)", lambda R: predict(
                R, U=np.ones((m + 1, 4))))
        S.good = [("str", str), ("encode", lambda R: R.encode(Qs[0]))]
    else:
        ctx.ev("untrained-rejected")
        S.bad("untrained predict", predict)
        if tk in ("standard", "minmax") or bk == "pod":
            S.bad("untrained encode", lambda R: R.encode(Qs[0]))
    # data that do not match
    j = int(rng.integers(s))
    kj = ks[j]
    Qr = rng.standard_normal((off(rng, n), kj))
    if s > 1:
        S.fitbad("fit(one states rows)",
                 lambda R: fit(R, Q=one_of(Qs, j, Qr)), Qr)
    if given_lhs:
        Zr = rng.standard_normal((off(rng, n), kj))
        Zk = rng.standard_normal((n, off(rng, kj, 2)))
        if stage or r > 1 or s > 1:
            S.fitbad("fit(one lhs rows)",
                     lambda R: fit(R, Z=one_of(Zs, j, Zr)), Zr)
        S.fitbad("fit(one lhs columns)",
                 lambda R: fit(R, Z=one_of(Zs, j, Zk)), Zk)
        S.fitbad("fit(many lhs)", lambda R: fit(R, Z=Zs + Zs[:1]))
        if s > 1:
            S.fitbad("fit(few lhs)", lambda R: fit(R, Z=Zs[:-1]))
        if len(set(ks)) > 1:
            S.fitbad("fit(lhs permuted)", lambda R: fit(
                R, Z=Zs[1:] + Zs[:1] if ks[1:] + ks[:1] != ks else Zs[::-1]))
    elif not disc and not estimated:
        pass
    if not disc and not estimated:
        S.fitbad("fit(no lhs)", lambda R: fit(R, Z=None))
    if hasu:
        Ur = rng.standard_normal((off(rng, m), kj))
        Uk = rng.standard_normal((m, kj - 2))
        S.fitbad("fit(no inputs)", lambda R: fit(R, U=None))
        S.fitbad("fit(many inputs)", lambda R: fit(R, U=Us + Us[:1]))
        S.fitbad("fit(one input columns)",
                 lambda R: fit(R, U=one_of(Us, j, Uk)), Uk)
        if s > 1:
            S.fitbad("fit(one input rows)",
                     lambda R: fit(R, U=one_of(Us, j, Ur)), Ur)
            S.fitbad("fit(few inputs)", lambda R: fit(R, U=Us[:-1]))
        if len(set(ks)) > 1 and not disc:
            S.fitbad("fit(inputs permuted)", lambda R: fit(
                R, U=Us[1:] + Us[:1] if ks[1:] + ks[:1] != ks else Us[::-1]))
    if ptype != "plain":
        S.fitbad("fit(few parameters)", lambda R: fit(R, P=mus[:-1]))
        S.fitbad("fit(many parameters)", lambda R: fit(
            R, P=np.append(mus, 99.)))
    if ptype == "plain":
        one = [Qs[0], None if Z0 is None else Zs[0]]
        if given_lhs:
            S.fitbad("fit(array, list)", lambda R: fit(
                R, Q=one[0], Z=Zs + Zs if s == 1 else Zs))
    # regularization selection
    ts = [np.arange(k) * dt for k in ks]
    fs = [(lambda w: lambda x: w * np.cos(x))(rng.standard_normal(m))
          for _ in ks]
    grid = [1e-2, 1e0]

    def select(R, C=grid, T=ts, P=mus, Q=Qs, Z=Z0, F=fs if hasu else None,
               U=None, **kw):
        # random draws may be all unstable: that is no concern here
        if bayes:
            kw["num_posterior_draws"] = 2
        if not disc:
            a_ = (C, T) + (() if ptype == "plain" else (P,))
            return R.fit_regselect_continuous(
                *a_, Q, Z, F, gridsearch_only=True, **kw)
        a_ = (C,) + (() if ptype == "plain" else (P,))
        if hasu and U is None:
            U = Us
        return R.fit_regselect_discrete(
            *a_, Q, U, gridsearch_only=True, **kw)
    if not disc:
        S.fitbad("select(many domains)", lambda R: select(
            R, T=ts + [np.arange(9) * dt]))
        S.fitbad("select(domain size)", lambda R: select(
            R, T=one_of(ts, j, np.arange(kj + 1) * dt)))
        if s > 1:
            S.fitbad("select(few domains)", lambda R: select(R, T=ts[:-1]))
        if len(set(ks)) > 1:
            S.fitbad("select(one domain)", lambda R: select(R, T=ts[0]))
        S.fitbad("select(test_time_length)", lambda R: select(
            R, test_time_length=-.5))
        S.fitbad("select(wrong kind)", lambda R: (
            R.fit_regselect_discrete(*((grid, Qs) if ptype == "plain"
                                       else (grid, mus, Qs)))))
        if hasu:
            S.fitbad("select(many functions)", lambda R: select(
                R, F=fs + fs[:1]))
            if s > 1:
                S.fitbad("select(few functions)", lambda R: select(
                    R, F=fs[:-1]))
            S.fitbad("select(no functions)", lambda R: select(R, F=None))
            S.fitbad("select(arrays)", lambda R: select(R, F=Us))
        bt = opinf.utils.DiscreteRegTest(q, 3, *((mu,) if ptype != "plain"
                                                 else ()))
    else:
        S.fitbad("select(num_test_iters)", lambda R: select(
            R, num_test_iters=-1))
        S.fitbad("select(wrong kind)", lambda R: (
            R.fit_regselect_continuous(*((grid, ts, Qs) if ptype == "plain"
                                         else (grid, ts, mus, Qs)))))
        if hasu:
            S.fitbad("select(inputs)", lambda R: select(R, num_test_iters=3))
            S.fitbad("select(many inputs)", lambda R: select(
                R, U=Us + Us[:1]))
            if s > 1:
                S.fitbad("select(few inputs)", lambda R: select(
                    R, U=Us[:-1]))
        bt = opinf.utils.ContinuousRegTest(q, t)
    S.fitbad("select(test case)", lambda R: select(R, test_cases=[bt]))
    S.fitbad("select(test case')", lambda R: select(R, test_cases=[3]))
    if ptype != "plain":
        S.fitbad("select(few parameters)", lambda R: select(R, P=mus[:-1]))
    def refit(R):
        # selecting a regularization begins by forgetting the regularizer
        R.model.solver.regularizer = 1e-1
        return fit(R)
    S.refit = refit
    S.fitbads = [S.fitbads[int(x)] for x in rng.permutation(
        len(S.fitbads))[:9]]
    S.nfit = (2, 8)
    run(ctx, rng, S)


@CHECK.family(quick=60, thorough=1500)
def wrong_parts(ctx, rng, i):
    """Objects that cannot be assembled from these parts."""
    R = opinf.roms
    r = int(rng.integers(1, 4))
    mods = dict(
        plain=M.ContinuousModel("cA"), disc=M.DiscreteModel("A"),
        par=M.ParametricContinuousModel([og.AFF["A"](2)]),
        pard=M.ParametricDiscreteModel([og.AFF["c"](2)]),
        interp=M.InterpContinuousModel("cA"),
        interpd=M.InterpDiscreteModel("A"),
        steady=mg.Steady("cA"))
    tsvd = M.ContinuousModel("A", solver=opinf.lstsq.TruncatedSVDSolver(-1))
    none = M.DiscreteModel("A", solver=opinf.lstsq.PlainSolver())
    tls = M.ContinuousModel("A", solver=opinf.lstsq.TotalLeastSquaresSolver())
    S = gen.spd(rng, r)
    mean = rng.standard_normal(r)
    P = R.OperatorPosterior
    calls = {
        "ROM(parametric)": lambda: R.ROM(mods["par"]),
        "ROM(parametric discrete)": lambda: R.ROM(mods["pard"]),
        "ROM(interp)": lambda: R.ROM(mods["interp"]),
        "ROM(str)": lambda: R.ROM("cA"),
        "ROM(None)": lambda: R.ROM(None),
        "ROM(class)": lambda: R.ROM(M.ContinuousModel),
        "ParametricROM(plain)": lambda: R.ParametricROM(mods["plain"]),
        "ParametricROM(discrete)": lambda: R.ParametricROM(mods["disc"]),
        "ParametricROM(number)": lambda: R.ParametricROM(3.),
        "BayesianROM(interp)": lambda: R.BayesianROM(mods["interp"]),
        "BayesianROM(parametric)": lambda: R.BayesianROM(mods["par"]),
        "BayesianROM(truncated)": lambda: R.BayesianROM(tsvd),
        "BayesianROM(plain solver)": lambda: R.BayesianROM(none),
        "BayesianROM(tls)": lambda: R.BayesianROM(tls),
        "BayesianParametricROM(interp)":
            lambda: R.BayesianParametricROM(mods["interpd"]),
        "BayesianParametricROM(plain)":
            lambda: R.BayesianParametricROM(mods["plain"]),
        "select(no regularizer)": lambda: R.ROM(none).fit_regselect_discrete(
            [1.], [rng.standard_normal((2, 9))]),
        "posterior(lengths)": lambda: P([mean, mean], [S]),
        "posterior(means 2-D)": lambda: P([mean.reshape(-1, 1)], [S]),
        "posterior(precision 1-D)": lambda: P([mean], [np.diag(S)]),
        "posterior(size)": lambda: P([mean], [gen.spd(rng, r + 1)]),
        "posterior(not square)": lambda: P([mean], [np.ones((r, r + 1))]),
        "posterior(lists)": lambda: P([list(mean)], [S]),
        "posterior(second)": lambda: P(
            [mean, np.ones(r + 1)], [S, S], alreadyinverted=True),
        "gridsearch(none)": lambda: opinf.utils.gridsearch(
            lambda c: np.inf, [1., 2.], gridsearch_only=bool(i % 2)),
        "gridsearch(nan)": lambda: opinf.utils.gridsearch(
            lambda c: np.nan, [3.]),
    }
    for lab in rng.permutation(list(calls))[:8]:
        ctx.ev("rejected")
        try:
            with quiet():
                out = calls[str(lab)]()
        except Exception:
            continue
        ctx.ok(False, "rejected", f"{lab} accepted: {repr(out)[:120]}")
    ctx.note(i=i)


@CHECK.family(quick=150, thorough=4000)
def reprojection(ctx, rng, i):
    n, r, m, k = int(rng.integers(2, 7)), 2, int(rng.integers(1, 4)), 6
    r = int(rng.integers(1, n + 1))
    V = gen.orth(rng, n, r)
    A = .3 * rng.standard_normal((n, n))
    B = rng.standard_normal((n, m))
    hasu = rng.random() < .5

    def f(q, u=None):
        return A @ q + (B @ np.atleast_1d(u) if u is not None else 0)
    Q = rng.standard_normal((n, k))
    U = rng.standard_normal((m, k)) if hasu else None
    a = off(rng, n)
    q2 = rng.standard_normal(a)
    Ut = opinf.utils
    calls = {
        "discrete(init)": lambda: Ut.reproject_discrete(f, V, q2, k, U),
        "discrete(init 2-D)": lambda: Ut.reproject_discrete(
            f, V, Q[:, :2], k, U),
        "continuous(rows)": lambda: Ut.reproject_continuous(
            f, V, rng.standard_normal((a, k)), U),
    }
    if hasu:
        calls.update({
            "discrete(few inputs)": lambda: Ut.reproject_discrete(
                f, V, Q[:, 0], k, U[:, :-2]),
            "continuous(few inputs)": lambda: Ut.reproject_continuous(
                f, V, Q, U[:, :-1]),
            "continuous(many inputs)": lambda: Ut.reproject_continuous(
                f, V, Q, np.hstack((U, U))),
        })
    for lab, call in calls.items():
        ctx.ev("rejected")
        try:
            with quiet():
                out = call()
        except Exception:
            continue
        ctx.ok(False, "rejected",
               f"{lab} n={n} r={r} m={m} accepted: {repr(out)[:120]}")
    ctx.note(n=n, r=r)


# Superfluous inputs -----------------------------------------------------------
@CHECK.family(quick=150, thorough=4000)
def superfluous(ctx, rng, i):
    """Inputs given to models without input operators change nothing."""
    disc, rom, par = bool(i % 2), bool(i // 2 % 2), bool(i // 4 % 2)
    kinds = gen.pick(rng, ["A", "cA", "AH"])
    r, m = int(rng.integers(1, 4)), int(rng.integers(1, 3))
    s = 3 if par else int(rng.integers(1, 4)) if rom else 1
    ks = [30 + int(rng.integers(0, 4)) for _ in range(s)]
    Qs = [rng.standard_normal((r, k)) for k in ks]
    Zs = [rng.standard_normal((r, k)) for k in ks]
    Us = [rng.standard_normal((m, k)) for k in ks]
    mus = np.arange(1., 1 + s)

    def run_(given):
        if par:
            cls = (M.ParametricDiscreteModel if disc
                   else M.ParametricContinuousModel)
            model = cls([og.AFF[x]([lambda y: 1., lambda y: float(np.sum(y))])
                         for x in kinds], solver=1e-3)
        else:
            model = (M.DiscreteModel if disc else M.ContinuousModel)(
                kinds, solver=1e-3)
        P = (mus,) if par else ()
        p = (1.5,) if par else ()
        with quiet():
            if rom:
                R = (opinf.roms.ParametricROM if par else opinf.roms.ROM)(
                    model)
                R.fit(*P, Qs, Zs, Us if given else None)
            else:
                R = model
                if par:
                    R.fit(*P, Qs, Zs, Us if given else None)
                else:
                    R.fit(Qs[0], Zs[0], Us[0] if given else None)
            q = .1 * Qs[0][:, 0]
            if disc:
                out = [R.predict(*p, q, 4, Us[0] if given else None)]
            else:
                out = [np.asarray(R.predict(
                    *p, q, np.linspace(0, .01, 3),
                    (lambda t: np.ones(m)) if given else None,
                    method="RK23"))]
            if not rom:
                a = (.0,) if not disc else ()
                out.append(model.rhs(*a, *p, q, None if not given else
                                     np.ones(m) if disc
                                     else (lambda t: np.ones(m))))
        return out + [np.asarray(o.entries) for o in model.operators]
    for x, y in zip(run_(True), run_(False)):
        ctx.close(x, y, "superfluous-ignored", rtol=1e-13,
                  msg=f"{kinds} disc={disc} rom={rom} par={par}")
    ctx.note(kinds=kinds, disc=disc, rom=rom, par=par)


@CHECK.family(quick=60, thorough=1200)
def undimensioned(ctx, rng, i):
    """Operators taking parameters of any size, after rejected data."""
    r, s = int(rng.integers(1, 4)), int(rng.integers(3, 6))
    k = int(rng.integers(8, 15))
    disc = bool(i % 2)
    known = bool(i // 2 % 4)
    cls = M.ParametricDiscreteModel if disc else M.ParametricContinuousModel

    def f(mu):
        return np.array([1., np.sum(mu)])
    C = [rng.standard_normal(r) for _ in range(2)]

    def make():
        return cls([O.AffineLinearOperator(f, nterms=2),
                    O.AffineConstantOperator(
                        f, nterms=2, entries=C if known else None)])
    Q = [rng.standard_normal((r, k)) for _ in range(s)]
    Z = [rng.standard_normal((r, k)) for _ in range(s)]
    p1, p2 = [(1, 2), (2, 1), (2, 3), (3, 2)][int(rng.integers(4))]

    def parameters(p):
        x = rng.standard_normal((s, p))
        return x[:, 0] if p == 1 and i % 3 else x
    wrong = {
        "lhs columns": (Q, [z[:, :-1] for z in Z]),
        "few lhs": (Q, Z[:-1]), "few states": (Q[:-1], Z),
        "one lhs rows": (Q, Z[:-1] + [np.ones((r + 1, k))]),
        "one states rows": (Q[:-1] + [np.ones((r + 1, k))], Z)}
    name = gen.pick(rng, list(wrong))
    P2, P1 = parameters(p2), parameters(p1)
    lab = f"{cls.__name__} r={r} s={s} p={p2}->{p1} {name} known={known}"
    ctx.note(disc=disc, r=r, s=s, p1=p1, p2=p2, name=name, known=known)
    model = make()
    with quiet():
        with ctx.raises((ValueError, IndexError, TypeError), "rejected", lab):
            model.fit(P2, *wrong[name])
        try:
            model.fit(P1, Q, Z)
        except Exception as e:
            ctx.ok(False, "dimension-forgotten", f"{lab}: {e}")
        fresh = make().fit(P1, Q, Z)
    ctx.ok(model.parameter_dimension == p1, "dimension-forgotten", lab)
    for a, b in zip(model.operators, fresh.operators):
        ctx.ok(a.parameter_dimension == p1, "dimension-forgotten", lab)
        ctx.close(np.array(a.entries), np.array(b.entries),
                  "dimension-forgotten", rtol=1e-12, msg=lab)
