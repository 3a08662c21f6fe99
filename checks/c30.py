"""C30: objects compare equal exactly when they are interchangeable."""
import os

import numpy as np
import opinf
import scipy.interpolate as si
import scipy.sparse as sparse

from rv import gen, pregen, basisgen, opgen as og, modelgen as mg
from rv.core import Check, scratch, quiet
from checks.c17 import points

M = opinf.models
O = opinf.operators
SST = opinf.pre.ShiftScaleTransformer
Posterior = opinf.roms.OperatorPosterior
CHECK = Check(
    "C30",
    "A case describes an object with a public equality (shift/scale and "
    "multi-variable transformers, linear, POD and multi-variable bases, all "
    "operators, models, posteriors), builds it twice, copies it, saves and "
    "loads it: all of these must compare equal, in both orders, and give the "
    "same results. Then one defining quantity is changed (one entry of one "
    "array, a flag, an option, a dimension, the order or number of the "
    "parts, trained or not): the changed object must compare unequal, in both "
    "orders. Comparisons with anything else are False and never fail.",
    require=["reflexive", "twin-equal", "copy-equal", "loaded-equal",
             "changed-unequal", "foreign-unequal", "not-equal-operator",
             "transformer", "transformer-multi", "linear-basis", "pod-basis",
             "basis-multi", "operator", "polynomial", "interp", "model",
             "interp-model", "posterior", "one-entry", "untrained",
             "reordered", "sparse"])


class Other:
    """Something unrelated."""
    entries = None
    shape = None
    state_dimension = None


FOREIGN = [None, 3, "A", (), {}, Other(), object]


def eq(ctx, a, b, want, rule, lab):
    for x, y in ((a, b), (b, a)):
        e = x == y
        ctx.ok(np.ndim(e) == 0 and bool(e) == want, rule,
               f"{lab}: == gave {e!r}, expected {want}")
        n = x != y
        ctx.ok(np.ndim(n) == 0 and bool(n) != want, "not-equal-operator",
               f"{lab}: != gave {n!r}, expected {not want}")


def judge(ctx, rng, lab, a, twin, others, changed, kind):
    """Equal: a, its twin and the others; unequal: a and each changed."""
    ctx.ev(kind)
    eq(ctx, a, a, True, "reflexive", lab)
    eq(ctx, a, twin, True, "twin-equal", lab)
    for how, o in others:
        eq(ctx, a, o, True, f"{how}-equal", f"{lab} {how}")
    for how, o in changed:
        if o is None:
            continue
        eq(ctx, a, o, False, "changed-unequal", f"{lab} changed: {how}")
        eq(ctx, o, twin, False, "changed-unequal", f"{lab} changed: {how}")
    for o in FOREIGN:
        eq(ctx, a, o, False, "foreign-unequal", f"{lab} with {o!r}")


def poke(rng, A):
    """A copy in which one entry differs."""
    A = np.array(A, float)
    if A.size == 0:
        return A
    j = int(gen.pick(rng, [0, A.size - 1, int(rng.integers(A.size))]))
    x = A.flat[j]
    A.flat[j] = gen.pick(rng, [x + 1, -x if x else 1., 2 * x + 1,
                               1.25 * x if x else 1.])
    return A


def units(rng, *arrays):
    """The same numbers in other units: small and large magnitudes."""
    s = gen.pick(rng, [1., 1., 1., 1e-6, 1e-10, 1e6])
    out = [np.asarray(A, float) * s for A in arrays]
    return out if len(out) > 1 else out[0]


def reload(rng, obj, load):
    with scratch() as d:
        f = os.path.join(d, "x.h5")
        obj.save(f)
        return load(f)


# Transformers ----------------------------------------------------------------
def sst(d):
    T = SST(centering=d["c"], scaling=d["s"], byrow=d["b"])
    if d["Q"] is not None:
        with quiet():
            T.fit(d["Q"].copy())
    for k in ("mean_", "scale_", "shift_"):
        if k in d:
            setattr(T, k, d[k])
    return T


def sst_desc(rng, trained=True, n=None):
    c, s, b = pregen.CONFIGS[int(rng.integers(len(pregen.CONFIGS)))]
    n = n or int(rng.integers(1, 5))
    Q = rng.standard_normal((n, 6)) if trained else None
    return dict(c=c, s=s, b=b, Q=Q)


def sst_changes(rng, d):
    """Descriptions of transformers that differ from d in one thing."""
    out = []
    if not (d["s"] is None and d["b"]):
        out.append(("centering", dict(d, c=not d["c"])))
    for s in ["standard", "minmax", "minmaxsym", "maxabs", "maxabssym"]:
        if s != d["s"] and d["s"] is not None and rng.random() < .4:
            out.append(("scaling", dict(d, s=s)))
    if d["s"] is not None:
        out.append(("scaling", dict(d, s=None, b=False)))
        if not d["s"].startswith("maxnorm"):
            out.append(("byrow", dict(d, b=not d["b"])))
    if not d["c"] and d["s"] is None:
        return out if d["Q"] is None else out + [
            ("dimension", dict(d, Q=np.vstack([d["Q"]] * 2)))]
    if d["Q"] is None:
        out.append(("trained", dict(d, Q=rng.standard_normal((3, 6)))))
        return out
    out.append(("untrained", dict(d, Q=None)))
    out.append(("dimension", dict(d, Q=np.vstack([d["Q"]] * 2))))
    T = sst(d)
    for k in ("mean_", "scale_", "shift_"):
        v = getattr(T, k)
        if v is not None:
            x = poke(rng, v)
            out.append((f"{k} one-entry", dict(d, **{
                k: x if np.ndim(v) else float(x)})))
    return out


@CHECK.family(quick=300, thorough=8000)
def transformers(ctx, rng, i):
    d = sst_desc(rng, trained=rng.random() < .8)
    lab = f"{d['c']} {d['s']} {d['b']} trained={d['Q'] is not None}"
    ctx.note(lab=lab, n=None if d["Q"] is None else len(d["Q"]))
    ctx.ev("untrained", d["Q"] is None)
    T = sst(d)
    changed = [(h, sst(x)) for h, x in sst_changes(rng, d)]
    ctx.ev("one-entry", sum("one-entry" in h for h, _ in changed))
    judge(ctx, rng, lab, T, sst(d), [("loaded", reload(rng, T, SST.load))],
          changed, "transformer")
    # a dimension that is known without training data
    if d["Q"] is not None and (d["c"] or d["s"]):
        U = sst(dict(d, Q=None))
        U.state_dimension = len(d["Q"])
        eq(ctx, U, T, False, "changed-unequal", lab + " untrained, n set")


def tmulti(ds, sizes):
    T = opinf.pre.TransformerMulti([sst(dict(d, Q=None)) for d in ds], sizes)
    if ds[0]["Q"] is not None:
        with quiet():
            T.fit(np.vstack([d["Q"] for d in ds]))
    for d, t in zip(ds, T.transformers):
        for k in ("mean_", "scale_", "shift_"):
            if k in d:
                setattr(t, k, d[k])
    return T


@CHECK.family(quick=150, thorough=4000)
def transformer_multi(ctx, rng, i):
    v = int(rng.integers(1, 5))
    trained = rng.random() < .8
    ds = [sst_desc(rng, trained) for _ in range(v)]
    sizes = [len(d["Q"]) for d in ds] if trained else None
    lab = f"multi {[(d['c'], d['s'], d['b']) for d in ds]} {sizes}"
    ctx.note(lab=lab)
    ctx.ev("untrained", not trained)
    T = tmulti(ds, sizes)
    changed = []
    j = int(rng.integers(v))
    for how, x in sst_changes(rng, ds[j]):
        if trained and (x["Q"] is None or how == "dimension"):
            continue
        if not trained and x["Q"] is not None:
            continue
        changed.append((f"{how} of member {j}",
                        tmulti(ds[:j] + [x] + ds[j + 1:], sizes)))
    e = sst_desc(rng, trained)
    changed.append(("another member", tmulti(
        ds + [e], None if sizes is None else sizes + [len(e["Q"])])))
    if v > 1:
        changed.append(("one member less", tmulti(
            ds[:-1], None if sizes is None else sizes[:-1])))
        if trained:
            p = np.roll(np.arange(v), 1)
            key = [(d["c"], d["s"], d["b"]) for d in ds]
            if any(key[a] != key[b] for a, b in enumerate(p)) or any(
                    d["c"] for d in ds):
                ctx.ev("reordered")
                changed.append(("reordered", tmulti(
                    [ds[a] for a in p], [sizes[a] for a in p])))
    if trained:
        changed.append(("untrained", tmulti([dict(d, Q=None) for d in ds],
                                            sizes))
                       if any(d["c"] or d["s"] for d in ds) else ("", None))
    load = lambda f: opinf.pre.TransformerMulti.load(f, [SST] * v)  # noqa
    judge(ctx, rng, lab, T, tmulti(ds, sizes),
          [("loaded", reload(rng, T, load))], changed, "transformer-multi")


# Bases -----------------------------------------------------------------------
@CHECK.family(quick=250, thorough=7000)
def linear_bases(ctx, rng, i):
    n = int(rng.integers(2, 7))
    r = int(rng.integers(1, n + 1))
    w, W = basisgen.weights(rng, n, ["none", "diag", "full"][i % 3])
    V = basisgen.worth(rng, n, r, W)
    if rng.random() < .2:   # not orthonormal
        V = rng.standard_normal((n, r))
    if w is not None and rng.random() < .3:   # the size of a small cell
        s = 10. ** rng.uniform(-12, -4)
        w, V = w * s, V / np.sqrt(s)
    lab = f"Linear n={n} r={r} weights={'none' if w is None else w.ndim}"
    ctx.note(lab=lab)
    B = opinf.basis.LinearBasis

    def make(V=V, w=w):
        return B(V.copy(), weights=None if w is None else w.copy(),
                 check_orthogonality=False)
    changed = [("one-entry", make(poke(rng, V)))]
    ctx.ev("one-entry")
    if r > 1:
        changed.append(("fewer vectors", make(V[:, :-1])))
        if not np.array_equal(V, V[:, ::-1]):
            ctx.ev("reordered")
            changed.append(("reordered", make(V[:, ::-1])))
    other = np.vstack([V, V[:1]])
    changed.append(("more rows", make(other, None)))
    changed.append(("sign", make(-V)))
    if w is None:
        changed.append(("weights", make(V, rng.uniform(2, 3, n))))
    else:
        changed.append(("no weights", make(V, None)))
        if w.ndim == 1 and w[0] != w[-1]:
            changed.append(("weights reordered", make(V, w[::-1])))
        if w.ndim == 2 and not np.allclose(w, w[::-1, ::-1]):
            changed.append(("weights reordered", make(V, w[::-1, ::-1])))
        x = w.copy()
        j = int(rng.integers(n))
        x[(j,) * w.ndim] *= 1.5
        changed.append(("one weight", make(V, x)))
        if w.ndim == 1:
            A = np.diag(w)
            A[0, -1] = A[-1, 0] = A[0, -1] + .3 * np.sqrt(w[0] * w[-1])
            changed.append(("matrix weights", make(V, A)))
    with quiet():
        a = make()
        judge(ctx, rng, lab, a, make(), [
            ("loaded", reload(rng, a, B.load))], changed, "linear-basis")
        if w is not None and w.ndim == 1:
            # the same inner product, written differently: no failure
            b = make(V, np.diag(w))
            ctx.ok(bool(a == b) == bool(b == a), "twin-equal", lab)


def pods(d):
    w = d["w"]
    B = opinf.basis.PODBasis(num_vectors=d["r"], weights=None if w is None
                             else w.copy())
    if d["Q"] is not None:
        B.fit(d["Q"].copy())
    if "dim" in d:
        B.reduced_state_dimension = d["dim"]
    return B


@CHECK.family(quick=150, thorough=4000)
def pod_bases(ctx, rng, i):
    n, k = int(rng.integers(3, 7)), int(rng.integers(4, 9))
    Q, _ = basisgen.snapshots(rng, n, k)
    w, _ = basisgen.weights(rng, n, ["none", "diag", "full"][i % 3])
    r = int(rng.integers(1, min(n, k)))
    trained = i % 4 != 3
    d = dict(Q=Q if trained else None, r=r, w=w)
    lab = (f"POD n={n} k={k} r={r} trained={trained} "
           f"weights={'none' if w is None else w.ndim}")
    ctx.note(lab=lab)
    ctx.ev("untrained", not trained)
    with quiet():
        a = pods(d)
        if trained:
            Q2, _ = basisgen.snapshots(rng, n, k)
            changed = [("untrained", pods(dict(d, Q=None))),
                       ("other data", pods(dict(d, Q=Q2))),
                       ("dimension", pods(dict(d, dim=r + 1))),
                       ("more rows", pods(dict(
                           d, Q=np.vstack([Q, Q[:1]]), w=None)))]
            if w is None:
                changed.append(("weights", pods(dict(
                    d, w=rng.uniform(1, 5, n)))))
            back = pods(dict(d, dim=r + 1))
            back.reduced_state_dimension = r
            eq(ctx, a, back, True, "twin-equal", lab + " dimension restored")
        else:
            changed = [("trained", pods(dict(d, Q=Q)))]
        judge(ctx, rng, lab, a, pods(d), [
            ("loaded", reload(rng, a, opinf.basis.PODBasis.load))],
            changed, "pod-basis")


@CHECK.family(quick=120, thorough=3000)
def basis_multi(ctx, rng, i):
    v = int(rng.integers(1, 4))
    ns = [int(rng.integers(2, 5)) for _ in range(v)]
    Vs = [gen.orth(rng, n, int(rng.integers(1, n + 1))) for n in ns]
    lab = f"BasisMulti {[V.shape for V in Vs]}"
    ctx.note(lab=lab)

    def make(Vs=Vs):
        return opinf.basis.BasisMulti([opinf.basis.LinearBasis(
            V.copy(), check_orthogonality=False) for V in Vs])
    j = int(rng.integers(v))
    ctx.ev("one-entry")
    changed = [("one entry of a member", make(
        Vs[:j] + [poke(rng, Vs[j])] + Vs[j + 1:])),
        ("another member", make(Vs + [Vs[0]]))]
    if v > 1:
        changed.append(("one member less", make(Vs[:-1])))
        ctx.ev("reordered")
        changed.append(("reordered", make(Vs[1:] + Vs[:1])))
    with quiet():
        a = make()
        load = lambda f: opinf.basis.BasisMulti.load(  # noqa: E731
            f, [opinf.basis.LinearBasis] * v)
        judge(ctx, rng, lab, a, make(), [("loaded", reload(rng, a, load))],
              changed, "basis-multi")


# Operators -------------------------------------------------------------------
def nonp(kd, E):
    return og.KINDS[kd][0](None if E is None else (
        E[:, 0] if kd == "c" else E).copy())


@CHECK.family(quick=300, thorough=8000)
def operators(ctx, rng, i):
    kds = list(og.KINDS)
    kd = kds[i % len(kds)]
    r, m = int(rng.integers(1, 4)), int(rng.integers(1, 3))
    E = units(rng, og.entries(rng, kd, r, m))
    empty = rng.random() < .12
    lab = f"{kd} r={r} m={m} empty={empty}"
    ctx.note(lab=lab)
    ctx.ev("untrained", empty)
    cls = og.KINDS[kd][0]
    a, b = nonp(kd, None if empty else E), nonp(kd, None if empty else E)
    changed = []
    if empty:
        changed.append(("entries", nonp(kd, E)))
    else:
        ctx.ev("one-entry")
        changed += [("one-entry", nonp(kd, poke(rng, E))),
                    ("empty", nonp(kd, None))]
        r2 = r + 1
        changed.append(("dimension", nonp(kd, og.entries(
            rng, kd, r2, m).astype(float))))
        if kd == "B":   # repeated columns or rows
            changed.append(("columns", nonp(kd, np.hstack([E] * 2))))
            changed.append(("columns", nonp(kd, E[:, :1])
                            if E.shape[1] > 1 else None))
        if r == 1 and kd in "cB":
            changed.append(("rows", nonp(kd, np.vstack([E] * 3))))
        if r == 1 and kd == "N" and m == 1:
            changed.append(("columns", nonp(kd, np.hstack([E] * 2))))
    others = [k for k in kds if k != kd]
    k2 = gen.pick(rng, others)
    if empty:
        changed.append((f"class {k2}", nonp(k2, None)))
    else:
        for k2 in others:   # the very same array in another class
            if og.ncols(k2, r, m) == E.shape[1] and (k2 == "c") == (
                    kd == "c"):
                changed.append((f"class {k2}", nonp(k2, E)))
    same = [("copy", a.copy()), ("loaded", reload(rng, a, cls.load))]
    if kd == "A" and not empty and r > 1:
        ctx.ev("sparse")
        S = cls(sparse.csr_array(E))
        same.append(("twin", S))
        changed.append(("sparse one-entry", cls(sparse.csr_array(
            poke(rng, E)))))
        eq(ctx, S, S.copy(), True, "copy-equal", lab + " sparse")
    judge(ctx, rng, lab, a, b, same, changed, "operator")
    if not empty:
        # replaced entries
        X = poke(rng, E)
        b.set_entries(X[:, 0] if kd == "c" else X)
        eq(ctx, a, b, False, "changed-unequal", lab + " set_entries")
        b.set_entries((E[:, 0] if kd == "c" else E).copy())
        eq(ctx, a, b, True, "twin-equal", lab + " set_entries")


@CHECK.family(quick=80, thorough=2000)
def polynomials(ctx, rng, i):
    P = O.PolynomialOperator
    r, p = int(rng.integers(1, 4)), int(rng.integers(1, 4))
    d = P(p).operator_dimension(r=r)
    E = rng.standard_normal((r, d))
    lab = f"polynomial r={r} p={p}"
    ctx.note(lab=lab)
    a = P(p, E.copy())
    changed = [("one-entry", P(p, poke(rng, E))), ("empty", P(p))]
    if r == 1:
        changed.append(("order", P(p + 1, E.copy())))
    ctx.ev("one-entry")
    judge(ctx, rng, lab, a, P(p, E.copy()),
          [("copy", a.copy()), ("loaded", reload(rng, a, P.load))],
          changed, "polynomial")
    eq(ctx, P(p), P(p), True, "twin-equal", lab + " empty")
    eq(ctx, P(p), P(p + 1), False, "changed-unequal", lab + " empty")
    for q in range(1, 4):
        k2 = {1: "A", 2: "H", 3: "G"}[q]
        if q == p:
            eq(ctx, a, og.KINDS[k2][0](E.copy()), False, "foreign-unequal",
               lab + f" with {k2}")


@CHECK.family(quick=200, thorough=5000)
def interpolatory(ctx, rng, i):
    kd = list(og.INT)[i % len(og.INT)]
    r, m = int(rng.integers(1, 4)), int(rng.integers(1, 3))
    p = int(gen.pick(rng, [1, 1, 2]))
    mus = np.asarray(points(rng, p, True))
    s = len(mus)
    if p == 1 and s < 3:
        return
    IC = gen.pick(rng, [None, si.CubicSpline, si.PchipInterpolator]) \
        if p == 1 else gen.pick(rng, [None, si.NearestNDInterpolator])
    u = gen.pick(rng, [1., 1., 1e-6, 1e-10, 1e6])
    Es = [og.entries(rng, kd, r, m) * u for _ in range(s)]
    pu = gen.pick(rng, [1., 1., 1e-7, 1e-10])
    mus = mus * pu
    state = gen.pick(rng, ["full", "full", "full", "params", "empty"])
    cls = og.INT[kd]
    lab = f"{kd} p={p} s={s} r={r} {IC} {state}"
    ctx.note(kd=kd, p=p, s=s, r=r, state=state,
             ic=None if IC is None else IC.__name__)
    ctx.ev("untrained", state != "full")

    def make(mus=mus, Es=Es, IC=IC, cls=cls, state=state):
        op = cls(InterpolatorClass=IC)
        if state != "empty":
            op.set_training_parameters(mus.copy())
        if state == "full":
            op.set_entries([(E[:, 0] if kd == "c" else E).copy()
                            for E in Es])
        return op
    changed = []
    if state != "empty":
        nu = mus.copy()
        nu[-1] += .25 * pu
        changed.append(("parameter", make(mus=nu)))
        changed.append(("no parameters", make(state="empty")))
        changed.append(("fewer parameters", make(mus[:-1], Es[:-1])
                        if p == 1 and s > 3 else None))
        k2 = gen.pick(rng, [k for k in og.INT if k != kd])
        if state == "params":
            changed.append(("class", make(cls=og.INT[k2])))
            changed.append(("entries", make(state="full")))
    if state == "full":
        j = int(rng.integers(s))
        ctx.ev("one-entry")
        changed.append(("one entry at one parameter", make(
            Es=Es[:j] + [poke(rng, Es[j])] + Es[j + 1:])))
        changed.append(("no entries", make(state="params")))
        if p == 1:
            changed.append(("interpolator", make(
                IC=si.Akima1DInterpolator if IC is not None
                else si.PchipInterpolator)))
    a = make()
    others = [("copy", a.copy())]
    if state == "full" or IC is None:
        load = cls.load if IC is None else (lambda f: cls.load(f, IC))
        others.append(("loaded", reload(rng, a, load)))
    judge(ctx, rng, lab, a, make(), others, changed, "interp")


# Models ----------------------------------------------------------------------
MODELS = [M.DiscreteModel, M.ContinuousModel,
          opinf.models.mono._nonparametric.SteadyModel]


@CHECK.family(quick=200, thorough=5000)
def models(ctx, rng, i):
    cls = MODELS[i % 3]
    kinds, r, m = mg.structure(rng, letters="cAHGBN" if i % 3 < 2 else
                               "cAHG", maxr=3, nmax=4)
    kinds = list(kinds)
    Es = [units(rng, og.entries(rng, k, r, m)) for k in kinds]
    trained = rng.random() < .85
    lab = f"{cls.__name__} {''.join(kinds)} r={r} m={m} trained={trained}"
    ctx.note(lab=lab)
    ctx.ev("untrained", not trained)

    def make(kinds=kinds, Es=Es, cls=cls, trained=trained):
        return cls([nonp(k, E if trained else None)
                    for k, E in zip(kinds, Es)])
    changed = []
    j = int(rng.integers(len(kinds)))
    if trained:
        ctx.ev("one-entry")
        changed.append(("one entry of one operator", make(
            Es=Es[:j] + [poke(rng, Es[j])] + Es[j + 1:])))
        changed.append(("untrained", make(trained=False)))
    if len(kinds) > 1:
        changed.append(("one operator less", make(
            kinds[:j] + kinds[j + 1:], Es[:j] + Es[j + 1:])))
    new = [k for k in "cAHG" if k not in kinds]
    if new:
        k2 = gen.pick(rng, new)
        E2 = og.entries(rng, k2, r, m).astype(float)
        changed.append(("another operator", make(kinds + [k2], Es + [E2])))
        if k2 != "c" or True:
            changed.append(("operator of another class", make(
                kinds[:j] + [k2] + kinds[j + 1:], Es[:j] + [E2]
                + Es[j + 1:])))
    c2 = MODELS[(i + 1) % 3]
    if not (c2 is MODELS[2] and mg.uses(kinds)):
        changed.append(("time integration", make(cls=c2)))
    a = make()
    others = []
    if trained:
        perm = rng.permutation(len(kinds))
        ctx.ev("reordered")
        others.append(("twin", make([kinds[x] for x in perm],
                                    [Es[x] for x in perm])))
    others.append(("copy", a.copy()))
    others.append(("loaded", reload(rng, a, cls.load)))
    # several operators of one class
    if trained and "A" in kinds:
        x = Es[kinds.index("A")]
        y = poke(rng, x)
        eq(ctx, make(kinds + ["A"], Es + [y]),
           make(kinds + ["A"], Es + [x]), False, "changed-unequal",
           lab + " repeated operator")
        eq(ctx, make(kinds + ["A"], Es + [y]),
           make(["A"] + kinds, [y] + Es), True, "twin-equal",
           lab + " repeated operator")
    judge(ctx, rng, lab, a, make(), others, changed, "model")


@CHECK.family(quick=60, thorough=1500)
def interp_models(ctx, rng, i):
    cls = [M.InterpDiscreteModel, M.InterpContinuousModel][i % 2]
    kinds, r, m = mg.structure(rng, letters="cAHB", maxr=3, nmax=3)
    kinds = list(kinds)
    mus = np.asarray(points(rng, 1, True, s=4))
    u = gen.pick(rng, [1., 1., 1e-10])
    Es = [[og.entries(rng, k, r, m) * u for _ in mus]
          for k in kinds]
    lab = f"{cls.__name__} {''.join(kinds)} r={r}"
    ctx.note(lab=lab)

    def make(Es=Es, mus=mus, cls=cls, kinds=kinds):
        return cls([og.INT[k](mus.copy(), entries=[
            (e[:, 0] if k == "c" else e).copy() for e in E])
            for k, E in zip(kinds, Es)])
    j, l = int(rng.integers(len(kinds))), int(rng.integers(4))
    X = [list(E) for E in Es]
    X[j][l] = poke(rng, X[j][l])
    nu = mus.copy()
    nu[-1] += 1
    ctx.ev("one-entry")
    changed = [("one entry", make(X)), ("parameter", make(mus=nu)),
               ("class", make(cls=[M.InterpContinuousModel,
                                   M.InterpDiscreteModel][i % 2]))]
    if len(kinds) > 1:
        changed.append(("one less", make(Es[1:], kinds=kinds[1:])))
    a = make()
    judge(ctx, rng, lab, a, make(), [
        ("copy", a.copy()), ("loaded", reload(rng, a, cls.load))],
        changed, "interp-model")


# Posteriors ------------------------------------------------------------------
@CHECK.family(quick=80, thorough=2000)
def posteriors(ctx, rng, i):
    r, d = int(rng.integers(1, 4)), int(rng.integers(1, 4))
    ms = [rng.standard_normal(d) for _ in range(r)]
    Ps = [gen.spd(rng, d) for _ in range(r)]
    lab = f"posterior r={r} d={d}"
    ctx.note(lab=lab)

    def make(ms=ms, Ps=Ps):
        return Posterior([x.copy() for x in ms], [P.copy() for P in Ps])
    j = int(rng.integers(r))
    ctx.ev("one-entry")
    changed = [
        ("one mean", make(ms[:j] + [poke(rng, ms[j])] + ms[j + 1:])),
        ("one precision", make(Ps=Ps[:j] + [2 * Ps[j]] + Ps[j + 1:])),
        ("more rows", make(ms + ms[:1], Ps + Ps[:1])),
        ("longer rows", make([np.append(x, 0) for x in ms],
                             [np.pad(P, (0, 1)) + np.diag(
                                 [0.] * d + [1.]) for P in Ps]))]
    if d > 1:   # the same variances, other correlations
        C = gen.spd(rng, d)
        X = C.copy()
        X[0, -1] *= .5
        X[-1, 0] = X[0, -1]
        if np.linalg.eigvalsh(X)[0] > 0 and C[0, -1] != 0:
            a, b = [Posterior(ms, [Y] * r, alreadyinverted=True)
                    for Y in (C, X)]
            eq(ctx, a, b, False, "changed-unequal", lab + " correlation")
    if d == 1:   # the same number twice
        changed.append(("repeated", Posterior(
            [np.repeat(x, 2) for x in ms],
            [np.diag(np.repeat(P, 2)) for P in Ps])))
    if r > 1 and d > 0:
        ctx.ev("reordered")
        changed.append(("reordered", make(ms[1:] + ms[:1], Ps[1:] + Ps[:1])))
    a = make()
    judge(ctx, rng, lab, a, make(), [
        ("loaded", reload(rng, a, Posterior.load))], changed, "posterior")
