"""C24: saving and loading reproduces an equivalent object."""
import inspect
import os
import re
import warnings

import h5py
import numpy as np
import opinf
import scipy.interpolate as si
import scipy.sparse as sparse

from rv import gen, pregen, basisgen, opgen as og, lstsqgen as lg
from rv import modelgen as mg
from rv.core import Check, Violation, scratch, quiet
from checks.c17 import points, dimsof, give

M = opinf.models
O = opinf.operators
CHECK = Check(
    "C24",
    "A case brings a saveable object (any class and configuration) into a "
    "random state (untrained, trained, retrained, dimension changed, ...), "
    "saves it to a path or into a group of an open file, removes the "
    "original file after loading, and compares every public property and "
    "the results of every operation of the loaded object with those of the "
    "object in memory. Second generations (save, load, save, load) and "
    "training after loading are compared as well.",
    require=["state", "behaviour", "unchanged-by-save", "second-generation",
             "retrain", "by-handle", "by-path", "many-in-one-file",
             "untrained", "trained", "transformer", "basis", "multi",
             "pipeline", "pod-truncated-load", "operator", "sparse-operator",
             "empty-operator", "affine", "interp", "custom-interpolator",
             "model", "known-operators", "solver", "posterior", "names",
             "file-independent", "sparse-array", "model-retrain",
             "param-model"])

SKIP = {
    # not stored in the file (documented or by design)
    "solver", "svdsolver", "svdsolver_options", "interpolator",
    "randomvariables",
}
LOOSE = {"covs", "means", "regularizer", "operator_matrix", "error",
         "augcond", "cumulative_energy", "residual_energy"}


def props(obj):
    out = []
    for k in dir(type(obj)):
        if k.startswith("_") or k in SKIP:
            continue
        if isinstance(getattr(type(obj), k, None), property):
            out.append(k)
    return out


def getprop(obj, k):
    try:
        return True, getattr(obj, k)
    except Exception as e:  # noqa: BLE001
        return False, type(e)


def isours(x):
    return type(x).__module__.split(".")[0] in ("opinf", "checks") \
        and not inspect.isclass(x)


def num(x):
    return np.asarray(x.toarray() if sparse.issparse(x) else x)


def equal(ctx, rule, a, b, path):
    """Compare two property values (b: the original's)."""
    if isours(b):
        return state(ctx, rule, a, b, path)
    if b is None or a is None:
        return ctx.ok(a is None and b is None, rule, f"{path}: {a!r} {b!r}")
    if isinstance(b, dict):
        ctx.ok(isinstance(a, dict) and sorted(a) == sorted(b), rule,
               f"{path}: {a} {b}")
        for k in b:
            equal(ctx, rule, a[k], b[k], f"{path}[{k}]")
        return
    if isinstance(b, (str, bool, np.bool_)):
        return ctx.ok(a == b, rule, f"{path}: {a!r} != {b!r}")
    if sparse.issparse(b):
        ctx.ok(sparse.issparse(a) and a.shape == b.shape, rule,
               f"{path}: {type(a)} for {type(b)}")
        return ctx.equal(num(a), num(b), rule, path)
    if isinstance(b, (list, tuple)) and not isinstance(a, np.ndarray):
        ctx.ok(isinstance(a, (list, tuple)) and len(a) == len(b), rule,
               f"{path}: {a!r} != {b!r}")
        for j, (x, y) in enumerate(zip(a, b)):
            equal(ctx, rule, x, y, f"{path}[{j}]")
        return
    if callable(b):
        return
    x, y = np.asarray(a), np.asarray(b)
    ctx.ok(x.shape == y.shape, rule, f"{path}: {x.shape} != {y.shape}")
    ctx.ok(x.dtype.kind == y.dtype.kind or "u" in x.dtype.kind, rule,
           f"{path}: dtype {x.dtype} != {y.dtype}")
    ctx.equal(x, y, rule, path)


def state(ctx, rule, a, b, path=""):
    """All public properties of a equal those of b."""
    path = path or type(b).__name__
    ctx.ok(type(a) is type(b), rule, f"{path}: {type(a)} for {type(b)}")
    for k in props(b):
        g, v = getprop(a, k)
        h, w = getprop(b, k)
        ctx.ok(g == h, rule, f"{path}.{k}: {v!r} for {w!r}")
        if g:
            equal(ctx, rule, v, w, f"{path}.{k}")
        else:
            ctx.ok(v is w, rule, f"{path}.{k} raises {v} for {w}")
    for f in (len, ):
        if hasattr(type(b), "__len__"):
            ctx.ok(f(a) == f(b), rule, path)


def same(ctx, rule, got, want, lab, rtol=1e-13):
    """Compare probe results: list of (label, value or exception type)."""
    ctx.ok(len(got) == len(want), rule, lab)
    for (l1, v), (l2, w) in zip(got, want):
        if isinstance(w, type) or isinstance(v, type):
            ctx.ok(v is w, rule, f"{lab} {l1}: {v!r} for {w!r}")
        elif w is None or v is None:
            ctx.ok(v is w, rule, f"{lab} {l1}: {v!r} for {w!r}")
        elif isinstance(w, (list, tuple)):
            ctx.ok(len(v) == len(w), rule, f"{lab} {l1}")
            for x, y in zip(v, w):
                if y is None:
                    ctx.ok(x is None, rule, f"{lab} {l1}")
                    continue
                ctx.close(num(x), num(y), rule, rtol=rtol, msg=f"{lab} {l1}")
        elif isinstance(w, str):
            ctx.ok(v == w, rule, f"{lab} {l1}: {v!r} for {w!r}")
        else:
            ctx.close(num(v), num(w), rule, rtol=rtol, msg=f"{lab} {l1}")


def attempt(out, label, fn):
    try:
        out.append((label, fn()))
    except Exception as e:  # noqa: BLE001
        out.append((label, type(e)))


def persist(ctx, rng, obj, load, how=None):
    """Save, load, and remove the file."""
    how = how or gen.pick(rng, ["path", "path", "handle", "shared",
                                "overwrite"])
    with scratch() as d:
        f = os.path.join(d, "object.h5")
        if how == "path":
            obj.save(f, overwrite=False)
            ctx.ev("by-path")
        elif how == "overwrite":
            with h5py.File(f, "w") as hf:
                hf["junk"] = np.ones(4)
                hf["entries"] = np.ones(9)
            obj.save(f, overwrite=True)
        if how in ("path", "overwrite"):
            out = load(f)
        elif how == "handle":
            with h5py.File(f, "w") as hf:
                obj.save(hf)
                hf.flush()
                ctx.ok(bool(hf), "by-handle", "handle closed by save()")
            with h5py.File(f, "r") as hf:
                out = load(hf)
                ctx.ok(bool(hf), "by-handle", "handle closed by load()")
        else:
            with h5py.File(f, "w") as hf:
                opinf.basis.LinearBasis(np.eye(3)).save(
                    hf.create_group("other"))
                obj.save(hf.create_group("a/b"))
                obj.save(hf.create_group("z"))
            with h5py.File(f, "r") as hf:
                out = load(hf[gen.pick(rng, ["a/b", "z"])])
                o = opinf.basis.LinearBasis.load(hf["other"])
                ctx.equal(o.entries, np.eye(3), "many-in-one-file")
        if os.path.exists(f):
            os.remove(f)
    ctx.ev("file-independent")
    return out


def cycle(ctx, rng, obj, load, probe, lab, rtol=1e-13):
    """Everything common to all classes; returns the loaded object."""
    s = int(rng.integers(2**31))

    def run(x):
        np.random.seed(s % 1000)
        return probe(x, np.random.default_rng(s))
    before = run(obj)
    new = persist(ctx, rng, obj, load)
    state(ctx, "state", new, obj, "")
    same(ctx, "unchanged-by-save", run(obj), before, lab)
    same(ctx, "behaviour", run(new), before, lab, rtol)
    state(ctx, "state", new, obj, "")
    if rng.random() < .5:
        new2 = persist(ctx, rng, new, load)
        state(ctx, "second-generation", new2, obj, "")
        same(ctx, "second-generation", run(new2), before, lab, rtol)
        return new2
    return new


# Transformers ----------------------------------------------------------------
NAMES = [None, "pressure", "velocity in x", "ünï", "0", "False"]


def rename(rng, T):
    """Give (some of the) transformers names."""
    subs = getattr(T, "transformers", None)
    for t in ([T] if subs is None else list(subs)):
        nm = gen.pick(rng, NAMES)
        if nm is not None and hasattr(type(t), "name"):
            t.name = nm


def build_transformer(rng, i):
    n = int(gen.pick(rng, [1, 1, 2, 3, 5]))
    kind = ["ss", "ss", "ss", "leaf", "pipe", "multi", "multi"][i % 7]
    if kind == "ss":
        cfg = pregen.CONFIGS[(i // 7 * 3 + i % 7) % len(pregen.CONFIGS)]
        T, _, lab = pregen.shiftscale(rng, n, cfg,
                                      name=gen.pick(rng, NAMES))
        if rng.random() < .3:
            T = opinf.pre.ShiftScaleTransformer(
                centering=cfg[0], scaling=cfg[1], byrow=cfg[2],
                name=T.name, verbose=True)
    elif kind == "leaf":
        T, _, lab = gen.pick(rng, [pregen.shift, pregen.scale, pregen.null])(
            rng, n, name=gen.pick(rng, NAMES))
    elif kind == "pipe":
        T, _, lab = pregen.pipeline(rng, n, name=gen.pick(rng, NAMES))
    else:
        nv = int(rng.integers(1, 5))
        if rng.random() < .1:
            nv, n = int(rng.integers(11, 14)), 1
        sizes = [n] * nv if rng.random() < .5 else [
            int(x) for x in rng.integers(1, 5, nv)]
        T, _, lab, _ = pregen.multi(rng, sizes, allow_pipe=False)
        rename(rng, T)
        n = sum(sizes)
    return T, lab, n, kind


def probe_transformer(n):
    def probe(T, rng):
        out = []
        Q = rng.standard_normal((n, 4))
        V = rng.standard_normal((n, 3))
        attempt(out, "transform", lambda: T.transform(Q))
        attempt(out, "transform1", lambda: T.transform(Q[:, 0]))
        attempt(out, "inverse", lambda: T.inverse_transform(V))
        attempt(out, "inverse1", lambda: T.inverse_transform(V[:, 1]))
        L, _ = gen.locs(rng, n)
        W = V[L]
        attempt(out, "locs", lambda: T.inverse_transform(W, locs=L))
        attempt(out, "ddts", lambda: T.transform_ddts(V.copy(),
                                                      inplace=False))
        bad = rng.standard_normal((n + 1, 2))
        attempt(out, "bad", lambda: T.transform(bad))
        if hasattr(T, "get_var"):
            for j in range(T.num_variables):
                attempt(out, f"var{j}", lambda: T.get_var(j, Q))
        return out
    return probe


def load_transformer(T, rng):
    cls = type(T)
    if cls is opinf.pre.TransformerMulti:
        cs = [type(t) for t in T.transformers]
        if len(set(cs)) == 1 and rng.random() < .5:
            return lambda f: cls.load(f, cs[0])
        return lambda f: cls.load(f, cs if rng.integers(2) else tuple(cs))
    if cls is opinf.pre.TransformerPipeline:
        return lambda f: cls.load(f, [type(t) for t in T.transformers])
    return cls.load


@CHECK.family(quick=500, thorough=12000)
def transformers(ctx, rng, i):
    T, lab, n, kind = build_transformer(rng, i)
    sizes = getattr(T, "variable_sizes", None)
    hist = gen.pick(rng, ["untrained", "trained", "trained", "retrained",
                          "failed"])
    k = int(gen.pick(rng, [2, 4, 9]))
    with quiet():
        if hist != "untrained":
            T.fit(gen.states(rng, n, k, "normal"))
        if hist == "retrained":
            T.fit(gen.states(rng, n, k + 2, "offset"))
        if hist == "failed":
            try:
                T.transform(np.ones((n + 2, 3)))
            except Exception:  # noqa: BLE001
                pass
        ctx.ev("untrained" if hist == "untrained" else "trained")
        ctx.ev("transformer")
        ctx.ev(dict(multi="multi", pipe="pipeline").get(kind, "names"))
        ctx.note(lab=lab, hist=hist, n=n, k=k)
        lab += f" {hist} n={n} sizes={sizes}"
        new = cycle(ctx, rng, T, load_transformer(T, rng),
                    probe_transformer(n), lab)
        Q = gen.states(rng, n, k + 1, "normal")
        a = new.fit_transform(Q.copy())
        b = T.fit_transform(Q.copy())
        ctx.close(a, b, "retrain", rtol=0, msg=lab)
        state(ctx, "retrain", new, T)
        if rng.random() < .5:
            cycle(ctx, rng, T, load_transformer(T, rng),
                  probe_transformer(n), lab + " again")


# Bases -----------------------------------------------------------------------
CRIT = ["num_vectors", "cumulative_energy", "residual_energy",
        "svdval_threshold", "projection_error"]


def build_basis(rng, kind, n, k, r=None):
    """A basis and whether it needs (re)training data."""
    name = gen.pick(rng, NAMES)
    if kind == "linear":
        B = basisgen.linear(rng, n, r, name=name)[0]
        return B, "linear"
    wkind = gen.pick(rng, ["none", "none", "diag", "full"])
    w, _ = basisgen.weights(rng, n, wkind)
    c = gen.pick(rng, CRIT)
    v = dict(num_vectors=int(rng.integers(1, min(n, k) + 1)),
             cumulative_energy=float(rng.uniform(.3, .999)),
             residual_energy=float(10. ** rng.uniform(-4, -.5)),
             svdval_threshold=float(10. ** rng.uniform(-3, -.3)),
             projection_error=float(10. ** rng.uniform(-3, -.3)))[c]
    mv = int(rng.integers(1, min(n, k) + 2)) if rng.random() < .4 else None
    B = opinf.basis.PODBasis(**{c: v}, max_vectors=mv, name=name, weights=w)
    return B, f"POD({c}={v},{wkind},max={mv})"


def probe_basis(n):
    def probe(B, rng):
        out = []
        Q = rng.standard_normal((n, 3))
        attempt(out, "compress", lambda: B.compress(Q))
        attempt(out, "compress1", lambda: B.compress(Q[:, 0]))
        r = B.reduced_state_dimension or 2
        V = rng.standard_normal((r, 2))
        attempt(out, "decompress", lambda: B.decompress(V))
        L, _ = gen.locs(rng, n)
        attempt(out, "locs", lambda: B.decompress(V[:, 0], locs=L))
        attempt(out, "project", lambda: B.project(Q))
        attempt(out, "error", lambda: B.projection_error(Q))
        attempt(out, "bad", lambda: B.compress(np.ones((n + 1, 2))))
        if type(B).__name__ == "BasisMulti":
            for j in range(B.num_variables):
                attempt(out, f"var{j}", lambda: B.get_var(j, Q))
        return out
    return probe


@CHECK.family(quick=400, thorough=10000)
def bases(ctx, rng, i):
    n = int(gen.pick(rng, [1, 2, 3, 6, 9]))
    k = int(gen.pick(rng, [1, 2, 5, 12]))
    kind = ["linear", "pod", "pod", "multi"][i % 4]
    hist = gen.pick(rng, ["untrained", "trained", "trained", "retrained",
                          "dimension", "svd"])
    Q, _ = basisgen.snapshots(rng, n, k)
    ctx.ev("basis")
    if kind == "multi":
        nv = int(rng.integers(1, 4))
        if rng.random() < .1:
            nv = int(rng.integers(11, 14))
        sizes = [int(x) for x in rng.integers(1, 6, nv)]
        if rng.random() < .5:
            sizes = [sizes[0]] * nv
        parts, labs = [], []
        for s in sizes:
            b, l = build_basis(rng, gen.pick(rng, ["linear", "pod"]), s, k)
            parts.append(b)
            labs.append(l)
        vs = None
        if any(b.full_state_dimension is None for b in parts):
            vs = sizes
        B = opinf.basis.BasisMulti(parts, full_variable_sizes=vs)
        lab = "Multi[" + ",".join(labs) + "]"
        n = sum(sizes)
        Q, _ = basisgen.snapshots(rng, n, k)
        if hist != "untrained":
            B.fit(Q)
        ctx.ev("multi")
        cs = [type(b) for b in parts]
        if len(set(cs)) == 1 and rng.random() < .5:
            def load(f):
                return opinf.basis.BasisMulti.load(f, cs[0])
        else:
            def load(f):
                return opinf.basis.BasisMulti.load(f, cs)
    else:
        B, lab = build_basis(rng, kind, n, k)
        load = type(B).load
        if kind == "pod":
            if hist == "svd":
                U, s, Vt = np.linalg.svd(Q, full_matrices=False)
                kw = dict(num_vectors=int(rng.integers(1, len(s) + 1)))
                if rng.random() < .3:
                    kw = dict(cumulative_energy=.9)
                B = opinf.basis.PODBasis.from_svd(
                    U, s, None if rng.random() < .4 else Vt.T, **kw,
                    name=gen.pick(rng, NAMES))
                lab = f"from_svd {kw} {B.rightvecs is None}"
            elif hist != "untrained":
                B.fit(Q)
            if hist == "retrained":
                B.fit(basisgen.snapshots(rng, n, k)[0])
            if hist == "dimension":
                m = B.max_vectors
                if rng.random() < .5:
                    B.reduced_state_dimension = int(rng.integers(1, m + 1))
                else:
                    B.set_dimension(cumulative_energy=float(
                        rng.uniform(.2, .999)))
        elif hist in ("trained", "retrained"):
            B.fit(Q)
    ctx.ev("untrained" if hist == "untrained" else "trained")
    ctx.note(lab=lab, hist=hist, n=n, k=k)
    lab += f" {hist} n={n} k={k}"
    new = cycle(ctx, rng, B, load, probe_basis(n), lab)
    if kind == "pod" and B.leftvecs is not None:
        # partial load
        m = int(rng.integers(1, B.max_vectors + 2))
        part = persist(ctx, rng, B, lambda f: type(B).load(f, max_vectors=m))
        q = min(m, B.max_vectors)
        ctx.equal(part.leftvecs, B.leftvecs[:, :q], "pod-truncated-load",
                  lab)
        ctx.equal(part.svdvals, B.svdvals, "pod-truncated-load", lab)
        r = min(q, B.reduced_state_dimension)
        ctx.equal(part.entries, B.entries[:, :r], "pod-truncated-load", lab)
        ctx.ok(part.max_vectors == q and part.reduced_state_dimension == r
               and part.name == B.name, "pod-truncated-load", lab)
        ctx.ok((part.rightvecs is None) == (B.rightvecs is None),
               "pod-truncated-load", lab)
        if part.rightvecs is not None:
            ctx.equal(part.rightvecs, B.rightvecs[:, :q],
                      "pod-truncated-load", lab)
    Q2, _ = basisgen.snapshots(rng, n, k + 1)
    new.fit(Q2.copy())
    B.fit(Q2.copy())
    state(ctx, "retrain", new, B)
    same(ctx, "retrain", probe_basis(n)(new, np.random.default_rng(1)),
         probe_basis(n)(B, np.random.default_rng(1)), lab)


# Operators -------------------------------------------------------------------
def probe_operator(kd, r, m):
    def probe(op, rng):
        out = []
        q, u = rng.standard_normal(r), rng.standard_normal(m)
        Q, U = rng.standard_normal((r, 3)), rng.standard_normal((m, 3))
        attempt(out, "apply", lambda: op.apply(q, u))
        attempt(out, "applyN", lambda: op.apply(Q, U))
        attempt(out, "jacobian", lambda: op.jacobian(q, u))
        V = np.linalg.qr(rng.standard_normal((r, max(1, r - 1))))[0]
        attempt(out, "galerkin", lambda: op.galerkin(V).entries)
        attempt(out, "copy", lambda: op.copy().entries)
        return out
    return probe


class MyLinearInterp:
    """A user-defined interpolator of one-dimensional parameters."""

    def __init__(self, points, values):
        self.x = np.asarray(points, float)
        self.y = np.asarray(values, float)
        i = np.argsort(self.x)
        self.x, self.y = self.x[i], self.y[i]

    def __call__(self, p):
        p = float(np.ravel(p)[0])
        j = int(np.clip(np.searchsorted(self.x, p), 1, len(self.x) - 1))
        w = (p - self.x[j - 1]) / (self.x[j] - self.x[j - 1])
        return (1 - w) * self.y[j - 1] + w * self.y[j]


@CHECK.family(quick=400, thorough=10000)
def operators(ctx, rng, i):
    kd = list("cAHGQBN")[i % 7]
    r, m = dimsof(rng, kd)
    r = min(r, 3) if kd == "Q" else r
    cls = og.KINDS[kd][0]
    hist = gen.pick(rng, ["set", "set", "reset", "empty", "cleared"])
    poly = kd in "cAHGQ" and rng.random() < .25
    if poly:
        p = og.KINDS[kd][1] + (rng.random() < .3)
        op = O.PolynomialOperator(p)
        if hist != "empty":
            n = op.operator_dimension(r) if hasattr(
                op, "operator_dimension") else og.ncols(kd, r, m)
            E = rng.standard_normal((r, n))
            op.set_entries(E[:, 0] if p == 0 and rng.random() < .5 else E)
        lab = f"Polynomial({p})"
    elif hist == "empty":
        op = cls()
        lab = cls.__name__
    else:
        op, _, form = og.make(rng, kd, r, m)
        lab = f"{cls.__name__} {form}"
        if "sparse" in form or "coo" in form:
            ctx.ev("sparse-operator")
    if hist == "reset" and not poly:
        op.set_entries(og.given(rng, kd, og.entries(rng, kd, r, m))[0])
    if hist == "cleared":
        del op.entries
    ctx.ev("operator")
    if op.entries is None:
        ctx.ev("empty-operator")
    ctx.note(lab=lab, hist=hist, r=r, m=m)
    lab += f" {hist} r={r}"
    new = cycle(ctx, rng, op, type(op).load, probe_operator(kd, r, m), lab)
    if op.entries is not None:
        ctx.ok(new == op, "state", f"{lab}: loaded operator is not equal")


@CHECK.family(quick=60, thorough=1500)
def sparse_arrays(ctx, rng, i):
    """The sparse array helpers."""
    n, k = rng.integers(1, 9, 2)
    A = sparse.random(n, k, density=float(rng.uniform(0, .6)),
                      random_state=int(rng.integers(1000)))
    if rng.random() < .3:
        A = (10 * A).astype(int)
    fmt = ["csr", "csc", "coo", "dok", "lil", "dia", "bsr"][i % 7]
    A = getattr(sparse, f"{fmt}_array")(A)
    ctx.note(fmt=fmt, n=int(n), k=int(k))
    with scratch() as d:
        f = os.path.join(d, "a.h5")
        with h5py.File(f, "w") as hf:
            opinf.utils.save_sparray(hf.create_group("x"), A)
        with h5py.File(f, "r") as hf:
            B = opinf.utils.load_sparray(hf["x"])
    ctx.ok(type(B) is type(A), "sparse-array", f"{type(B)} for {type(A)}")
    ctx.ok(B.dtype == A.dtype and B.shape == A.shape, "sparse-array",
           f"{fmt}: {B.dtype} {B.shape}")
    ctx.equal(B.toarray(), A.toarray(), "sparse-array", fmt)


def probe_param(kd, r, m, mus):
    def probe(op, rng):
        out = []
        q, u = rng.standard_normal(r), rng.standard_normal(m)
        Q, U = rng.standard_normal((r, 3)), rng.standard_normal((m, 3))
        for mu in mus:
            attempt(out, "evaluate", lambda: op.evaluate(mu).entries)
            attempt(out, "apply", lambda: op.apply(mu, q, u))
            attempt(out, "applyN", lambda: op.apply(mu, Q, U))
            attempt(out, "jacobian", lambda: op.jacobian(mu, q, u))
        V = np.linalg.qr(rng.standard_normal((r, max(1, r - 1))))[0]
        attempt(out, "galerkin", lambda: [num(e) for e in
                                          op.galerkin(V).entries])
        attempt(out, "wrong parameter", lambda: op.evaluate(
            np.ones(7)).entries)
        return out
    return probe


@CHECK.family(quick=300, thorough=7000)
def affine(ctx, rng, i):
    kd = list(og.AFF)[i % 6]
    r, m = dimsof(rng, kd)
    A = int(rng.integers(1, 12 if rng.random() < .2 else 4))
    cls = og.AFF[kd]
    form = gen.pick(rng, ["list", "callable", "int"])
    fs = [(lambda mu, j=j: float(np.sum(mu)) ** j / (1 + j))
          for j in range(A)]
    coeffs, kw, p = fs, {}, int(rng.integers(1, 4))
    if form == "callable":
        coeffs, kw = (lambda mu: np.array([f(mu) for f in fs])), dict(
            nterms=A)
    elif form == "int":
        coeffs, p = A, A
    Es = [og.entries(rng, kd, r, m) for _ in range(A)]
    ctx.ev("affine")
    hist = gen.pick(rng, ["set", "set", "empty", "dimension"])
    g = give(rng, kd, Es)
    if kd == "A" and rng.random() < .3:
        g = [sparse.csr_array(E) for E in Es]
        ctx.ev("sparse-operator")
    if hist == "empty":
        op = cls(coeffs, **kw)
    else:
        op = cls(coeffs, entries=g, **kw)
    if hist == "dimension" or (hist == "set" and rng.random() < .5):
        if op.parameter_dimension is None:
            op.parameter_dimension = p
    elif hist == "set" and rng.random() < .5:
        op.evaluate(rng.uniform(0, 1, p) if p > 1 else .3)
    ctx.note(kd=kd, form=form, hist=hist, r=r, m=m, A=A)
    lab = f"affine {kd} {form} {hist} r={r} m={m} A={A}"
    mus = [rng.uniform(0, 1, p) if p > 1 or rng.random() < .5 else
           float(rng.uniform(0, 1)) for _ in range(2)]
    if form != "int" and p == 1:
        mus = [float(np.ravel(x)[0]) for x in mus]

    def load(f):
        if form == "callable":
            return cls.load(f, coeffs)
        return cls.load(f, coeffs)
    new = cycle(ctx, rng, op, load, probe_param(kd, r, m, mus), lab)
    if op.entries is not None:
        for a, b in zip(new.entries, op.entries):
            ctx.ok(sparse.issparse(a) == sparse.issparse(b), "state", lab)
    E2 = give(rng, kd, [og.entries(rng, kd, r, m) for _ in range(A)])
    try:
        op.set_entries([np.array(e) for e in E2])
    except Exception as e:  # noqa: BLE001
        with ctx.raises(type(e), "retrain", lab):
            new.set_entries([np.array(e) for e in E2])
        return
    new.set_entries([np.array(e) for e in E2])
    same(ctx, "retrain", probe_param(kd, r, m, mus)(
        new, np.random.default_rng(3)), probe_param(kd, r, m, mus)(
        op, np.random.default_rng(3)), lab)


INTERPS = [None, None, si.CubicSpline, si.PchipInterpolator,
           si.Akima1DInterpolator, MyLinearInterp, si.BarycentricInterpolator]


@CHECK.family(quick=300, thorough=7000)
def interp(ctx, rng, i):
    kd = list(og.INT)[i % 6]
    r, m = dimsof(rng, kd)
    cls = og.INT[kd]
    dim2 = rng.random() < .3
    s = int(rng.integers(4, 8))
    IC = gen.pick(rng, INTERPS)
    if dim2:
        mus = rng.uniform(0, 1, (s + 3, 2))
        IC = gen.pick(rng, [None, si.NearestNDInterpolator,
                            si.LinearNDInterpolator])
    else:
        mus = rng.permutation(np.linspace(0, 2, s) + rng.uniform(0, .1, s))
        if IC is not None and IC is not MyLinearInterp:
            mus = np.sort(mus)
    Es = [og.entries(rng, kd, r, m) for _ in mus]
    hist = gen.pick(rng, ["set", "set", "params-only", "empty", "class"])
    kw = dict(InterpolatorClass=IC)
    custom = IC is MyLinearInterp
    if hist == "empty":
        op = cls(**kw)
    elif hist == "params-only":
        op = cls(mus, **kw)
    else:
        op = cls(mus, give(rng, kd, Es), **kw)
        if hist == "class" and not dim2:
            IC = si.PchipInterpolator
            order = np.argsort(mus)
            op = cls(mus[order], [Es[j] for j in order])
            op.set_interpolator(IC)
            custom = False
    ctx.ev("interp")
    ctx.note(kd=kd, IC=str(IC), hist=hist, r=r, m=m, s=len(mus), two=dim2)
    lab = f"interp {kd} {IC} {hist} r={r} m={m}"
    test = [mus[0], mus[-1]] + [
        rng.dirichlet(np.ones(len(mus))) @ mus for _ in range(2)]
    if not dim2:
        test = [float(x) for x in test]

    def load(f):
        if custom:
            return cls.load(f, MyLinearInterp)
        return cls.load(f)
    if custom:
        ctx.ev("custom-interpolator")
        with warnings.catch_warnings(record=True) as rec, scratch() as d:
            warnings.simplefilter("always")
            f = os.path.join(d, "x.h5")
            op.save(f)
            ctx.ok(any(issubclass(w.category, opinf.errors.OpInfWarning)
                       for w in rec), "custom-interpolator",
                   "no warning about a class that cannot be stored")
            with ctx.raises((ValueError, opinf.errors.LoadfileFormatError),
                            "custom-interpolator",
                            "class needed at load"):
                cls.load(f)
    cycle(ctx, rng, op, load, probe_param(kd, r, m, test), lab)


# Models ----------------------------------------------------------------------
def model_data(rng, kinds, r, m):
    d = sum(og.ncols(k, r, m) for k in kinds)
    Q, U = mg.samples(rng, d, r, m)
    Z = rng.standard_normal((r, Q.shape[1]))
    return d, Q, U, Z


def build_model(rng, cls, hist):
    """Model with some known operators; entries small for stability."""
    steady = cls is mg.Steady
    kinds, r, m = mg.structure(rng, maxr=3, letters="cAHGBN", steady=steady,
                               nmax=4)
    ops, infer = [], []
    for k in kinds:
        x = rng.random()
        if x < .3:
            ops.append(og.make(rng, k, r, m, .1)[0])
        else:
            infer.append(k)
            ops.append(k if x < .6 else og.KINDS[k][0]())
    hasu = mg.uses(kinds)
    if hist == "given":
        ops = [og.make(rng, k, r, m, .1)[0] for k in kinds]
        infer = []
    sol = gen.pick(rng, [None, None, 1e-2, opinf.lstsq.L2Solver(.1),
                         opinf.lstsq.TruncatedSVDSolver(-1)
                         if len(infer) > 1 else None,
                         opinf.lstsq.PlainSolver()])
    model = cls(ops, solver=sol)
    return model, kinds, infer, r, m, hasu


def fit_model(rng, model, cls, Q, Z, U, hasu):
    if cls is mg.Steady or not hasu:
        return model.fit(Q, Z)
    return model.fit(Q, Z, U)


def probe_model(cls, r, m, hasu):
    def probe(model, rng):
        out = []
        q, u = .3 * rng.standard_normal(r), .3 * rng.standard_normal(m)
        v = q + 1e-3
        attempt(out, "str", lambda: str(model).split("\n  solver:")[0])
        # The matrix of all operators, in order
        attempt(out, "ops", lambda: [
            None if o.entries is None else og.dense(o)
            for o in model.operators])
        if cls is M.ContinuousModel:
            f = (lambda t: u * np.cos(t)) if hasu else None
            attempt(out, "rhs", lambda: model.rhs(.2, q, f))
            attempt(out, "jacobian", lambda: model.jacobian(.2, q, f))
            t = np.linspace(0, .05, 4)
            attempt(out, "predict", lambda: np.asarray(model.predict(
                q, t, f, method="RK23")))
        elif cls is M.DiscreteModel:
            U = .1 * rng.standard_normal((m, 4))
            attempt(out, "rhs", lambda: model.rhs(q, u if hasu else None))
            attempt(out, "jacobian", lambda: model.jacobian(
                q, u if hasu else None))
            attempt(out, "predict", lambda: model.predict(
                q, 4, U if hasu else None))
            attempt(out, "no inputs", lambda: model.predict(q, 4))
        else:
            attempt(out, "rhs", lambda: model.rhs(q))
            attempt(out, "jacobian", lambda: model.jacobian(q))
        attempt(out, "wrong dimension", lambda: model.rhs(np.ones(r + 4)))
        V = np.linalg.qr(rng.standard_normal((r, max(1, r - 1))))[0]
        attempt(out, "galerkin", lambda: [
            None if o.entries is None else og.dense(o)
            for o in model.galerkin(V).operators])
        return out
    return probe


@CHECK.family(quick=300, thorough=7000)
def models(ctx, rng, i):
    cls = [M.DiscreteModel, M.ContinuousModel, mg.Steady][i % 3]
    hist = gen.pick(rng, ["untrained", "trained", "trained", "refit",
                          "retrained", "given", "copied"])
    model, kinds, infer, r, m, hasu = build_model(rng, cls, hist)
    ctx.ev("model")
    d, Q, U, Z = model_data(rng, infer or ["A"], r, m)
    if hist not in ("untrained", "given"):
        fit_model(rng, model, cls, Q, Z, U, hasu)
    if hist == "refit":
        if infer:
            model.refit()
    if hist == "retrained":
        fit_model(rng, model, cls, Q, Z[:, ::-1].copy(), U, hasu)
    if hist == "copied":
        model = model.copy()
    ctx.ev("untrained" if hist == "untrained" else "trained")
    if len(infer) < len(kinds):
        ctx.ev("known-operators")
    ctx.note(cls=cls.__name__, kinds="".join(kinds), infer="".join(infer),
             hist=hist, r=r, m=m)
    lab = f"{cls.__name__} {kinds} infer={infer} {hist} r={r} m={m}"
    new = cycle(ctx, rng, model, cls.load, probe_model(cls, r, m, hasu), lab)
    # Learning again, with the same (default) solver, gives the same model
    if infer:
        ctx.ev("model-retrain")
        _, Q, U, Z = model_data(rng, infer, r, m)
        new.solver = opinf.lstsq.L2Solver(.3)
        model.solver = opinf.lstsq.L2Solver(.3)
        a = fit_model(rng, new, cls, Q, Z, U, hasu)
        b = fit_model(rng, model, cls, Q, Z, U, hasu)
        for x, y in zip(a.operators, b.operators):
            ctx.close(og.dense(x), og.dense(y), "retrain", rtol=1e-12,
                      msg=lab)


def probe_pmodel(disc, r, m, hasu, mus):
    def probe(model, rng):
        out = []
        q, u = .3 * rng.standard_normal(r), .3 * rng.standard_normal(m)
        for mu in mus:
            attempt(out, "evaluate", lambda: [
                og.dense(o) for o in model.evaluate(mu).operators])
            if disc:
                U = .1 * rng.standard_normal((m, 3))
                attempt(out, "rhs", lambda: model.rhs(
                    mu, q, u if hasu else None))
                attempt(out, "predict", lambda: model.predict(
                    mu, q, 3, U if hasu else None))
            else:
                f = (lambda t: u * np.cos(t)) if hasu else None
                attempt(out, "rhs", lambda: model.rhs(mu, .1, q, f))
                t = np.linspace(0, .05, 3)
                attempt(out, "predict", lambda: np.asarray(model.predict(
                    mu, q, t, f, method="RK23")))
        return out
    return probe


@CHECK.family(quick=150, thorough=3500)
def interp_models(ctx, rng, i):
    disc = bool(i % 2)
    cls = M.InterpDiscreteModel if disc else M.InterpContinuousModel
    kinds, r, m = mg.structure(rng, maxr=3, letters="cAHBN", nmax=3)
    hasu = mg.uses(kinds)
    s = int(rng.integers(4, 7))
    mus = np.sort(rng.uniform(0, 2, s)) + np.arange(s) * .2
    IC = gen.pick(rng, [None, None, si.CubicSpline, si.PchipInterpolator,
                        MyLinearInterp])
    custom = IC is MyLinearInterp
    hist = gen.pick(rng, ["untrained", "trained", "trained", "retrained",
                          "class"])
    ops, known = [], 0
    for k in kinds:
        if rng.random() < .25 and known < len(kinds) - 1:
            known += 1
            ops.append(og.INT[k](mus, [og.entries(rng, k, r, m, .1)
                                       for _ in mus]))
        else:
            ops.append(og.INT[k]() if rng.random() < .5 else k)
    model = cls(ops, solver=gen.pick(rng, [None, 1e-1]),
                InterpolatorClass=IC)

    def data():
        Qs, Zs, Us = [], [], []
        for _ in mus:
            d, Q, U, Z = model_data(rng, kinds, r, m)
            Qs.append(Q)
            Zs.append(Z)
            Us.append(U)
        return Qs, Zs, Us if hasu else None
    D = data()
    if hist != "untrained":
        model.fit(mus, *D)
    if hist == "retrained":
        D = data()
        model.fit(mus, *D)
    if hist == "class" and not custom:
        model.set_interpolator(si.Akima1DInterpolator)
    ctx.ev("param-model")
    ctx.note(cls=cls.__name__, kinds="".join(kinds), IC=str(IC), hist=hist,
             r=r, m=m, s=s, known=known)
    lab = f"{cls.__name__} {kinds} {IC} {hist} r={r} known={known}"
    test = [float(mus[0]), float(mus[-1]),
            float(rng.uniform(mus[0], mus[-1]))]

    def load(f):
        return cls.load(f, MyLinearInterp) if custom else cls.load(f)
    if custom:
        ctx.ev("custom-interpolator")
    new = cycle(ctx, rng, model, load,
                probe_pmodel(disc, r, m, hasu, test), lab)
    if hist != "untrained" or not custom:
        D2 = data()
        for x in (new, model):
            x.solver = opinf.lstsq.L2Solver(.2)
        try:
            model.fit(mus, *D2)
        except Exception as e:  # noqa: BLE001
            with ctx.raises(type(e), "retrain", lab):
                new.fit(mus, *D2)
            return
        new.fit(mus, *D2)
        for mu in test:
            for x, y in zip(model.evaluate(mu).operators,
                            new.evaluate(mu).operators):
                ctx.close(og.dense(y), og.dense(x), "retrain", rtol=1e-11,
                          msg=lab)


# Solvers and posteriors ------------------------------------------------------
def probe_solver(r, d, trained):
    def probe(solver, rng):
        out = []
        G = rng.standard_normal((r, d))
        attempt(out, "solve", solver.solve)
        attempt(out, "residual", lambda: solver.residual(G))
        for k in ("cond", "regcond", "tcond"):
            if hasattr(solver, k):
                attempt(out, k, getattr(solver, k))
        if hasattr(solver, "regresidual"):
            attempt(out, "regresidual", lambda: solver.regresidual(G))
        if hasattr(solver, "posterior"):
            attempt(out, "means", lambda: solver.posterior()[0])
            # precisions are M / variance; the variance is the square of a
            # residual and only as accurate as the data it is computed from
            attempt(out, "precisions", lambda: [
                P / np.linalg.norm(P) for P in solver.posterior()[1]])
            attempt(out, "variances", lambda: [
                np.linalg.norm(M_) / np.linalg.norm(P) + np.linalg.norm(z) ** 2
                + np.linalg.norm(M_) * np.linalg.norm(m) ** 2
                for M_, P, m, z in zip(
                    [solver.data_matrix.T @ solver.data_matrix] * r,
                    solver.posterior()[1], solver.posterior()[0],
                    np.atleast_2d(solver.lhs_matrix))])
        attempt(out, "copy", lambda: solver.copy().solve())
        attempt(out, "str", lambda: re.sub(
            r"np\.\w+\((.*?)\)", r"\1", str(solver)))
        return out
    return probe


@CHECK.family(quick=500, thorough=12000)
def solvers(ctx, rng, i):
    kind = lg.KINDS[i % 7]
    D, Z = lg.problem(rng, kind)
    k, d = D.shape
    r = np.atleast_2d(Z).shape[0]
    smax = np.linalg.norm(np.asarray(D, float), 2)
    s = lg.settings(rng, kind, d, r, k, smax)
    if rng.random() < .1 and "regularizer" in s and kind in ("tik", "l2"):
        s.pop("regularizer")
    if kind in ("plain", "tik", "tikdec"):
        s["cond"] = gen.pick(rng, [None, None, 0, 0., 1e-12, 1e-3, .3])
    hist = gen.pick(rng, ["untrained", "trained", "trained", "retrained",
                          "changed", "solved", "reset"])
    if "regularizer" not in s and kind in ("tik", "l2"):
        hist = "untrained"
        cls = lg.CLS[kind]
        solver = cls(None, lapack_driver=s["lapack_driver"])
    else:
        solver = lg.build(s)
    ctx.ev("solver")
    if hist != "untrained":
        solver.fit(D, Z)
    if hist == "retrained":
        D, Z = lg.problem(rng, kind, d, r)
        if "num_svdmodes" in s and s["num_svdmodes"] is not None and abs(
                s["num_svdmodes"]) >= min(D.shape):
            return
        solver.fit(D, Z)
    if hist == "changed":
        if "regularizer" in s:
            s2 = lg.settings(rng, kind, d, r, D.shape[0], smax)
            solver.regularizer = s2["regularizer"]
        elif kind == "tsvd":
            solver.num_svdmodes = int(rng.integers(1, min(D.shape) + 1))
    if hist == "solved":
        solver.solve()
    if hist == "reset" and kind != "tsvd":
        solver.reset()
    ctx.ev("trained" if solver.data_matrix is not None else "untrained")
    form = s.get("form")
    ctx.note(kind=kind, hist=hist, k=k, d=d, r=r, form=form)
    lab = f"{kind} {hist} k={k} d={d} r={r} {form}"
    new = cycle(ctx, rng, solver, type(solver).load,
                probe_solver(r, d, hist), lab, rtol=1e-12)
    if "regularizer" in s and solver.data_matrix is not None \
            and rng.random() < .5:
        s2 = lg.settings(rng, kind, d, r, solver.data_matrix.shape[0], smax)
        new.regularizer = s2["regularizer"]
        solver.regularizer = s2["regularizer"]
        same(ctx, "retrain", probe_solver(r, d, hist)(
            new, np.random.default_rng(1)), probe_solver(r, d, hist)(
            solver, np.random.default_rng(1)), lab, rtol=1e-12)
    if "regularizer" in s or kind in ("plain", "tls"):
        D, Z = lg.problem(rng, kind, d, r)
        new.fit(D, Z)
        solver.fit(D, Z)
        state(ctx, "retrain", new, solver)
        same(ctx, "retrain", probe_solver(r, d, hist)(
            new, np.random.default_rng(1)), probe_solver(r, d, hist)(
            solver, np.random.default_rng(1)), lab, rtol=1e-12)


@CHECK.family(quick=120, thorough=3000)
def posteriors(ctx, rng, i):
    r = int(rng.integers(1, 5))
    even = rng.random() < .6
    d0 = int(rng.integers(1, 6))
    ds = [d0 if even else int(rng.integers(1, 6)) for _ in range(r)]
    means = [rng.standard_normal(d) for d in ds]
    mats = [gen.spd(rng, d, 10.0 ** rng.uniform(0, 3)) *
            10.0 ** rng.uniform(-3, 3) for d in ds]
    inv = bool(rng.integers(2))
    P = opinf.roms.OperatorPosterior(means, mats, alreadyinverted=inv)
    ctx.note(r=r, ds=str(ds), inverted=inv)
    lab = f"posterior {ds} inverted={inv}"
    ctx.ev("posterior")
    new = persist(ctx, rng, P, opinf.roms.OperatorPosterior.load)
    for a, b, c in ((new, P, "state"),):
        ctx.ok(a.nrows == b.nrows, c, lab)
        for x, y in zip(a.means, b.means):
            ctx.equal(x, y, c, lab)
        for x, y in zip(a.covs, b.covs):
            ctx.close(x, y, c, rtol=1e-14, msg=lab)
    ctx.ok(new == P, "state", f"{lab}: loaded posterior is not equal")
    for a, b in zip(new.randomvariables, P.randomvariables):
        x = b.rvs(random_state=int(rng.integers(1000)), size=3)
        x = np.reshape(x, (3, -1))
        ctx.close(a.logpdf(x), b.logpdf(x), "behaviour", rtol=1e-8,
                  atol=1e-8, msg=lab)
    a, b = new.rvs(), P.rvs()
    ctx.ok(type(a) is type(b) and [np.shape(x) for x in a]
           == [np.shape(x) for x in b], "behaviour", lab)
    if inv:
        np.random.seed(7)
        a = new.rvs()
        np.random.seed(7)
        b = P.rvs()
        for x, y in zip(a, b):
            ctx.close(x, y, "behaviour", rtol=1e-12, msg=lab)
