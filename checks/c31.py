"""C31: verify() accepts consistent components and rejects broken ones."""
import contextlib
import os

import matplotlib
import matplotlib.pyplot as plt
import numpy as np
import opinf

from rv import gen, pregen, basisgen, opgen as og, lstsqgen as lg
from rv.core import Check, Violation, scratch, quiet
from checks.c17 import points

matplotlib.use("Agg")
O = opinf.operators
VE = opinf.errors.VerificationError
CHECK = Check(
    "C31",
    "A case builds a component (transformer, basis, lifting map, derivative "
    "estimator, least-squares solver, operator, parametric operator; shipped "
    "or user-defined on the templates) and runs its verify() in a directory "
    "that already holds files, with one injected fault or none. Monitors: "
    "without a fault verify() returns; with a fault (wrong shape, type, "
    "values, in-place convention, dimension, copy or saved file) it raises "
    "VerificationError; in both cases the component gives the same results "
    "as before and the files in the directory are those from before. The "
    "errors reported by estimators are the true errors.",
    require=["accepted", "rejected", "untrained", "unchanged",
             "files-untouched", "restored", "reported-errors", "tolerance",
             "transformer", "basis", "lifter", "estimator", "solver",
             "operator", "parametric", "shipped", "member", "not-implemented"])

FILES = ["_operatorverification.h5", "_solververification.h5", "solver.h5",
         "operator.h5", "temp.h5"]


@contextlib.contextmanager
def folder(ctx, rng, lab):
    """Run in a directory with files; they must be as before afterwards."""
    here = os.getcwd()
    with scratch() as d:
        for f in FILES:
            with open(os.path.join(d, f), "wb") as g:
                g.write(bytes(rng.integers(0, 256, 40).astype(np.uint8)))
        before = snapshot(d)
        os.chdir(d)
        try:
            yield
        finally:
            os.chdir(here)
        after = snapshot(d)
        ctx.ok(before == after, "files-untouched",
               lambda: f"{lab}: files in the working directory changed: "
               f"{sorted(k for k in set(before) | set(after) if before.get(k) != after.get(k))}")


def snapshot(d):
    out = {}
    for f in os.listdir(d):
        with open(os.path.join(d, f), "rb") as g:
            out[f] = g.read()
    return out


def flat(x):
    if isinstance(x, (list, tuple)):
        return [z for y in x for z in flat(y)]
    return [x]


def judge(ctx, rng, lab, obj, fault, probe, call=None, exc=VE):
    """verify() returns iff there is no fault; nothing else changes."""
    call = call or (lambda o: o.verify())
    with quiet():
        before = flat(probe(obj)) if probe else []
    with folder(ctx, rng, lab), quiet():
        if fault is None:
            try:
                call(obj)
            except Exception as e:
                raise Violation("accepted", f"{lab}: verify() raised "
                                f"{type(e).__name__}: {e}") from e
            ctx.ev("accepted")
        else:
            with ctx.raises(exc, "rejected", f"{lab} with fault {fault}"):
                call(obj)
    with quiet():
        after = flat(probe(obj)) if probe else []
    for a, b in zip(before, after):
        if isinstance(a, (str, type(None), bool)):
            ctx.ok(a == b, "unchanged", f"{lab} ({fault}): {a} != {b}")
        else:
            ctx.equal(b, a, "unchanged", msg=f"{lab} ({fault})")


def faulty(part, fault):
    """Call verify() while the part misbehaves."""
    def call(obj):
        part.fault = fault
        try:
            return obj.verify()
        finally:
            part.fault = None
    return call


# Transformers ----------------------------------------------------------------
class Affine(opinf.pre.TransformerTemplate):
    """q -> a * q + b, row by row, with an injected fault."""
    fault = None
    size = .3

    def __init__(self, a, b, fault=None, size=.3, impl=True, name=None):
        super().__init__(name=name)
        self.a, self.b, self.fault = a[:, None], b[:, None], fault
        self.size, self.impl = size, impl

    def fit_transform(self, states, inplace=False):
        self.state_dimension = states.shape[0]
        return self.transform(states, inplace)

    def _do(self, X, Y, inplace, what):
        if inplace:
            if self.fault == f"{what}-new":
                return Y
            X[...] = Y
            return X
        if self.fault == f"{what}-alias":
            X[...] = Y
            return X
        return Y

    def transform(self, states, inplace=False):
        Y = self.a * states + self.b
        if self.fault == "transform-shape" and not inplace:
            return np.vstack([Y, Y[:1]])
        if self.fault == "transform-columns" and not inplace:
            return Y[:, 1:]
        return self._do(states, Y, inplace, "transform")

    def inverse_transform(self, states_transformed, inplace=False, locs=None):
        X = states_transformed
        if locs is not None:
            Y = (X - self.b[locs]) / self.a[locs]
            if self.fault == "locs-value":
                Y = Y + self.size
            if self.fault == "locs-shape":
                return np.vstack([Y, Y[:1]])
            if self.fault == "locs-reversed":
                return Y[::-1].copy()
            if self.fault == "locs-order":
                return Y[::-1] + self.size * np.arange(len(Y))[:, None]
            return Y
        Y = (X - self.b) / self.a
        if self.fault == "inverse-value":
            Y = Y + self.size
        if self.fault == "inverse-entry":
            Y[-1, -1] += self.size
        if self.fault == "inverse-shape" and not inplace:
            return Y[:, 1:]
        return self._do(X, Y, inplace, "inverse")

    def transform_ddts(self, ddts, inplace=False):
        if not self.impl:
            return NotImplemented
        Y = self.a * ddts
        if self.fault == "ddts-value":
            Y = Y * (1 + self.size)
        if self.fault == "ddts-transform":   # forgets what a derivative is
            Y = Y + 1000 * (1 + np.abs(self.b))
        return self._do(ddts, Y, inplace, "ddts")


TFAULTS = ["transform-shape", "transform-columns", "transform-alias",
           "transform-new", "inverse-value", "inverse-entry", "inverse-shape",
           "inverse-alias", "inverse-new", "locs-value", "locs-shape",
           "locs-order", "locs-reversed", "ddts-value", "ddts-transform", "ddts-alias",
           "ddts-new"]
DEEP = ["inverse-value", "inverse-entry", "ddts-value", "ddts-transform"]


def affine(rng, n, fault=None, **kw):
    a = rng.uniform(.4, 3, n) * rng.choice([-1., 1.], n)
    return Affine(a, rng.uniform(-2, 2, n), fault, **kw)


def tprobe(X):
    Y = X.copy()

    def probe(T):
        if T.state_dimension is None:
            return [None]
        Z = T.transform(Y.copy())
        return [T.state_dimension, Z, T.inverse_transform(Z.copy())]
    return probe


@CHECK.family(quick=300, thorough=8000)
def transformers(ctx, rng, i):
    fault = ([None] * 3 + TFAULTS)[i % (len(TFAULTS) + 3)]
    n = int(rng.integers(3, 9))
    if fault in ("locs-order", "locs-reversed"):
        n = int(rng.integers(6, 12))
    size = float(10. ** rng.uniform(-2, 1))
    impl = rng.random() < .8 or str(fault).startswith("ddts")
    T = part = affine(rng, n, size=size, impl=impl)
    how = gen.pick(rng, ["alone", "alone", "multi", "pipeline"])
    if how == "pipeline" and fault is not None and fault not in DEEP:
        how = "alone"
    lab = f"affine n={n} {how} size={size:.1e}"
    ctx.note(fault=fault, n=n, how=how, impl=impl)
    ctx.ev("transformer")
    if not impl:
        ctx.ev("not-implemented")
    N = n
    if how == "multi":
        ctx.ev("member")
        v = int(rng.integers(1, 4))
        j = int(rng.integers(v + 1))
        same = rng.random() < .5
        sizes = [n if same else int(rng.integers(3, 7)) for _ in range(v)]
        ts = [affine(rng, k) for k in sizes]
        ts.insert(j, T)
        sizes.insert(j, n)
        N = sum(sizes)
        T = opinf.pre.TransformerMulti(ts, sizes)
    elif how == "pipeline":
        ctx.ev("member")
        ts = [affine(rng, n) for _ in range(int(rng.integers(1, 3)))]
        ts.insert(int(rng.integers(len(ts) + 1)) if impl else len(ts), T)
        T = opinf.pre.TransformerPipeline(ts)
    if how == "alone" and rng.random() < .3:
        with ctx.raises(AttributeError, "untrained", lab), quiet():
            T.verify()
    X = rng.standard_normal((N, 7))
    with quiet():
        T.fit(X.copy())
    judge(ctx, rng, lab, T, fault, tprobe(X), faulty(part, fault))


@CHECK.family(quick=60, thorough=1500)
def tolerances(ctx, rng, i):
    """The error of transform_ddts() is compared with tol."""
    n = int(rng.integers(3, 7))
    tol = float(10. ** rng.uniform(-4, -1))
    good = i % 2
    size = tol * (rng.uniform(.1, .5) if good else rng.uniform(2, 10))
    T = affine(rng, n, "ddts-value", size=size)
    if rng.random() < .4:
        T = opinf.pre.TransformerMulti([T] if rng.random() < .3 else [
            T, affine(rng, n, "ddts-value", size=size)], None)
    X = rng.standard_normal((2 * n if isinstance(
        T, opinf.pre.TransformerMulti) and len(T) == 2 else n, 5))
    with quiet():
        T.fit(X.copy())
    lab = f"ddts error {size:.2e}, tol {tol:.2e}"
    ctx.note(good=good, n=n, cls=type(T).__name__)
    ctx.ev("tolerance")
    judge(ctx, rng, lab, T, None if good else "ddts-value", tprobe(X),
          lambda T: T.verify(tol=tol) if rng.random() < .5 else T.verify(tol))


@CHECK.family(quick=150, thorough=4000)
def shipped_transformers(ctx, rng, i):
    T, ref, lab, n, lv = pregen.any_transformer(rng, i)
    ctx.note(lab=lab, n=n)
    if lab.startswith("Pipe[") and "Multi" in lab:
        return     # the stages disagree about the meaning of locs
    ctx.ev("transformer")
    ctx.ev("shipped")
    Q, kind = pregen.train_states(rng, n)
    if kind in ("big", "small"):
        Q = rng.standard_normal(Q.shape) + 1
    with quiet():
        T.fit(Q.copy())
    judge(ctx, rng, lab, T, None, tprobe(Q))


# Bases -----------------------------------------------------------------------
class UserBasis(opinf.basis.BasisTemplate):
    """Affine coordinates q -> V^T q with an injected fault."""

    def __init__(self, V, fault=None, size=.3, name=None):
        super().__init__(name=name)
        self.V, self.fault, self.size = V, fault, size
        self._fitted = False

    def fit(self, states=None):
        self.full_state_dimension, self.reduced_state_dimension = \
            self.V.shape
        return self

    def compress(self, states):
        Y = self.V.T @ states
        if self.fault == "compress-columns" and Y.ndim == 2:
            return Y[:, 1:]
        if self.fault == "compress-vector" and Y.ndim == 1:
            return Y[:, None]
        return Y

    def decompress(self, states_compressed, locs=None):
        X = self.V @ states_compressed
        if self.fault == "not-projection":
            X = (1 + self.size) * X
        if self.fault == "offset":
            X = X + self.size * (self.V[:, :1] if X.ndim == 2 else
                                 self.V[:, 0])
        if locs is not None:
            X = X[locs]
            if self.fault == "locs-shape":
                X = X[1:]
            if self.fault == "locs-value":
                X = X + self.size
            return X
        if self.fault == "decompress-shape" and X.ndim == 2:
            return X[:-1]
        if self.fault == "decompress-columns" and X.ndim == 2:
            return np.hstack([X, X[:, :1]])
        if self.fault == "decompress-vector" and np.ndim(
                states_compressed) == 1:
            return X[:, None]
        return X


BFAULTS = ["compress-columns", "compress-vector", "not-projection", "offset",
           "locs-shape", "locs-value", "decompress-shape",
           "decompress-columns", "decompress-vector"]


def bprobe(X):
    def probe(B):
        if B.full_state_dimension is None:
            return [None]
        return [B.full_state_dimension, B.reduced_state_dimension,
                B.compress(X)]
    return probe


@CHECK.family(quick=150, thorough=4000)
def bases(ctx, rng, i):
    fault = ([None] * 2 + BFAULTS)[i % (len(BFAULTS) + 2)]
    n = int(rng.integers(3, 9))
    r = int(rng.integers(1, n + 1))
    size = float(10. ** rng.uniform(-2, 1))
    B = part = UserBasis(gen.orth(rng, n, r), size=size)
    lab = f"user basis n={n} r={r} size={size:.1e}"
    N = n
    if rng.random() < .3:
        ctx.ev("member")
        lab += " in BasisMulti"
        v = int(rng.integers(1, 4))
        same = rng.random() < .5
        ns = [n if same else int(rng.integers(3, 6)) for _ in range(v)]
        bs = [UserBasis(gen.orth(rng, k, int(rng.integers(1, k + 1))))
              for k in ns]
        j = int(rng.integers(v + 1))
        bs.insert(j, B)
        ns.insert(j, n)
        N = sum(ns)
        B = opinf.basis.BasisMulti(bs, full_variable_sizes=ns)
    ctx.note(fault=fault, n=n, r=r, N=N)
    ctx.ev("basis")
    if N == n and rng.random() < .2:
        with ctx.raises(AttributeError, "untrained", lab), quiet():
            B.verify()
    X = rng.standard_normal((N, 4))
    with quiet():
        B.fit(X)
    judge(ctx, rng, lab, B, fault, bprobe(X), faulty(part, fault))


@CHECK.family(quick=120, thorough=3000)
def shipped_bases(ctx, rng, i):
    n = int(rng.integers(1, 9))
    k = int(rng.integers(2, 9))
    X = rng.standard_normal((n, k))
    which = i % 3
    with quiet():
        if which == 0:
            B, V, W, lab = basisgen.linear(rng, n)
        elif which == 1:
            B, r, W, lab = basisgen.pod(rng, n, k, solver=gen.pick(
                rng, ["dense", "eigh"]))
            if rng.random() < .3:
                with ctx.raises(AttributeError, "untrained", lab):
                    B.verify()
            B.fit(X)
        else:
            ns = [int(rng.integers(1, 6)) for _ in range(
                int(rng.integers(1, 4)))]
            if rng.random() < .5:
                ns = ns[:1] * len(ns)
            bs = [basisgen.linear(rng, a)[0] if rng.random() < .5 else
                  opinf.basis.PODBasis(num_vectors=1) for a in ns]
            B = opinf.basis.BasisMulti(bs, full_variable_sizes=ns)
            X = rng.standard_normal((sum(ns), k))
            B.fit(X)
            lab = f"BasisMulti {ns}"
    ctx.note(lab=lab, n=n)
    ctx.ev("basis")
    ctx.ev("shipped")
    judge(ctx, rng, lab, B, None, bprobe(X))


# Lifting maps ----------------------------------------------------------------
class UserLifter(opinf.lift.LifterTemplate):
    """q -> (q, q^2, 3) with an injected fault."""

    def __init__(self, fault=None, size=.3, impl=True):
        self.fault, self.size, self.impl = fault, size, impl

    def lift(self, states):
        Y = np.concatenate([states, states**2, 3 + 0 * states[:1]])
        if self.fault == "lift-columns":
            return Y[:, 1:]
        return Y

    def unlift(self, lifted_states):
        X = lifted_states[:len(lifted_states) // 2]
        if self.fault == "unlift-shape":
            return lifted_states[:len(lifted_states) // 2 + 1]
        if self.fault == "unlift-columns":
            return X[:, :-1]
        if self.fault == "unlift-value":
            return X * (1 + self.size)
        if self.fault == "unlift-entry":
            X = X.copy()
            X[0, -1] += self.size
        return X

    def lift_ddts(self, states, ddts):
        if not self.impl:
            return NotImplemented
        Y = np.concatenate([ddts, 2 * states * ddts, 0 * states[:1]])
        if self.fault == "ddts-value":
            return Y * (1 + self.size)
        if self.fault == "ddts-shape":
            return Y[:-1]
        if self.fault == "ddts-chain":
            return np.concatenate([ddts, ddts**2 + 1, 0 * states[:1]])
        return Y


LFAULTS = ["lift-columns", "unlift-shape", "unlift-columns", "unlift-value",
           "unlift-entry", "ddts-value", "ddts-shape", "ddts-chain",
           "no-time"]


@CHECK.family(quick=120, thorough=3000)
def lifters(ctx, rng, i):
    fault = ([None] * 3 + LFAULTS)[i % (len(LFAULTS) + 3)]
    n = int(rng.integers(1, 5))
    k = int(rng.integers(20, 60))
    size = float(10. ** rng.uniform(-2, 1))
    t = np.linspace(0, .5, k)
    C = rng.uniform(.2, 1, (n, 1))
    Q = 1.5 + rng.uniform(0, 1, (n, 1)) * t + .1 * C * t**2
    if fault == "no-time":
        L, lab = gen.pick(rng, [
            (UserLifter(), "user lifter"),
            (opinf.lift.QuadraticLifter(), "quadratic")])
        ctx.note(fault=fault, n=n)
        judge(ctx, rng, lab, L, fault, lambda L: [L.lift(Q)],
              lambda L: L.verify(Q), exc=ValueError)
        return
    impl = rng.random() < .8 or str(fault).startswith("ddts")
    if fault is None:
        k = 150
        t = np.linspace(0, .5, k)
        Q = 1.5 + rng.uniform(0, 1, (n, 1)) * t + .1 * C * t**2
    L = UserLifter(fault, size, impl)
    lab = f"user lifter n={n} k={k} size={size:.1e}"
    tol = None
    if fault == "ddts-value" and rng.random() < .6:
        tol = float(10. ** rng.uniform(-2, -1))
        good = rng.random() < .5
        L.size = tol * (rng.uniform(.1, .5) if good else rng.uniform(2, 9))
        ctx.ev("tolerance")
        if good:
            fault = None
        lab += f" tol={tol} error={L.size}"
    elif fault is None and rng.random() < .6:
        ctx.ev("shipped")
        L, lab = gen.pick(rng, [
            (opinf.lift.QuadraticLifter(), "quadratic"),
            (opinf.lift.PolynomialLifter((-1, 1, 2)), "(-1, 1, 2)"),
            (opinf.lift.PolynomialLifter((2, 3)), "(2, 3)"),
            (opinf.lift.PolynomialLifter((.5, 1)), "(.5, 1)")])
        impl = True
    ctx.note(fault=fault, n=n, lab=lab.split(" n=")[0], impl=impl)
    ctx.ev("lifter")
    ctx.ev("not-implemented", not impl)

    def call(L):
        if not impl and rng.random() < .7:
            return L.verify(Q)
        return L.verify(Q, t) if tol is None else L.verify(Q, t, tol=tol)
    X = Q.copy()
    judge(ctx, rng, lab, L, fault, lambda L: [L.lift(Q)], call)
    ctx.equal(Q, X, "unchanged", lab + " states")


# Derivative estimators -------------------------------------------------------
class Estimator(opinf.ddt.DerivativeEstimatorTemplate):
    """Forward differences with an injected fault."""

    def __init__(self, t, fault=None, skip=0):
        super().__init__(t)
        self.fault, self.skip = fault, skip
        self.calls = 0

    def estimate(self, states, inputs=None):
        self.calls += 1
        s, t = self.skip, self.time_domain
        if t.size != states.shape[1]:
            raise RuntimeError("time domain and states do not match")
        if self.fault == "raises" and self.calls > 5:
            raise ZeroDivisionError("no estimate")
        d = np.diff(states, axis=1) / np.diff(t)
        Q, d = states[:, s:-1], d[:, s:]
        f = self.fault
        if f == "rows":
            Q = Q[1:]
        if f == "ddt-rows":
            d = np.vstack([d, d[:1]])
        if f == "columns":
            Q = states
        if f == "scale" :
            d = 2 * d
        if inputs is None:
            if f == "none-triple":
                return Q, d, None
            if f == "list":
                return [Q, d]
            return Q, d
        U = inputs[:, s:-1]
        if f == "pair":
            return Q, d
        if f == "inputs-none":
            return Q, d, None
        if f == "inputs-rows":
            U = U[:-1]
        if f == "inputs-columns":
            U = inputs
        return Q, d, U

    def mask(self, arr):
        return arr[..., self.skip:-1]


EFAULTS = ["rows", "ddt-rows", "columns", "none-triple", "pair",
           "inputs-none", "inputs-rows", "inputs-columns", "raises"]
FUNCS = [(lambda t: t, np.ones_like),
         (lambda t: t**4 - t**3 / 3, lambda t: 4 * t**3 - t**2),
         (np.sin, np.cos), (np.exp, np.exp),
         (lambda t: 1 / (1 + t), lambda t: -1 / (1 + t)**2),
         (lambda t: t - t**3 + np.cos(t) - np.exp(t / 2),
          lambda t: 1 - 3 * t**2 - np.sin(t) - np.exp(t / 2) / 2)]


class Spy:
    """Records what the estimator was asked and what it answered."""

    def __init__(self, est):
        self.log = []
        orig = est.estimate

        def estimate(states, inputs=None):
            out = orig(states, inputs)
            if inputs is None:
                self.log.append((est.time_domain.copy(), states.copy(),
                                 out[0].copy(), np.array(out[1])))
            return out
        est.estimate = estimate


@CHECK.family(quick=90, thorough=1500)
def estimators(ctx, rng, i):
    fault = ([None] * 4 + EFAULTS)[i % (len(EFAULTS) + 4)]
    k = int(rng.integers(12, 30))
    t = np.sort(rng.uniform(0, 3, k))
    cols = None
    ctx.ev("estimator")
    if fault is None and rng.random() < .75:
        ctx.ev("shipped")
        which = gen.pick(rng, ["uniform", "nonuniform", "interp"])
        t = np.linspace(rng.uniform(0, 1), 2, k)
        if which == "uniform":
            scheme = gen.pick(rng, [f"{a}{b}" for a in ("fwd", "bwd")
                                    for b in range(1, 7)] + [
                f"{a}{b}" for a in ("ctr", "ord") for b in (2, 4, 6)])
            E = opinf.ddt.UniformFiniteDifferencer(t, scheme)
            lab = f"uniform {scheme}"
            p = int(scheme[3:])
            cols = {"fwd": slice(0, -p), "bwd": slice(p, None),
                    "ctr": slice(p // 2, -(p // 2)),
                    "ord": slice(None)}[scheme[:3]]
        elif which == "nonuniform":
            E = opinf.ddt.NonuniformFiniteDifferencer(t)
            lab, cols = which, slice(None)
        else:
            new = None if rng.random() < .4 else np.sort(
                rng.uniform(t[0], t[-1], int(rng.integers(5, 20))))
            E = opinf.ddt.InterpDerivativeEstimator(
                t, gen.pick(rng, ["cubic", "akima"]), new_time_domain=new)
            lab, cols = f"interp {None if new is None else len(new)}", \
                slice(None)
    else:
        skip = int(rng.integers(0, 4))
        E = Estimator(t, fault, skip)
        if fault is None and rng.random() < .3:
            E.fault = "scale"   # inaccurate, but consistent
        cols = slice(skip, -1)
        lab = f"user estimator skip={skip} {E.fault}"
    ctx.note(lab=lab, fault=fault, k=k)
    Q = rng.standard_normal((3, k))
    tt = E.time_domain

    def probe(E):
        if fault is not None:
            return [E.time_domain]
        out = [E.time_domain, E.mask(Q), *E.estimate(Q)]
        new = getattr(E, "new_time_domain", None)
        return out + [new]
    if fault not in (None, "raises"):
        judge(ctx, rng, lab, E, fault, probe,
              lambda E: E.verify_shapes(r=int(rng.integers(1, 6)) + 1, m=int(
                  rng.integers(2, 5))))
        if rng.random() < .4:
            judge(ctx, rng, lab, E, fault, probe)
        return
    if fault == "raises":
        judge(ctx, rng, lab, E, fault, None, exc=ZeroDivisionError)
        ctx.ok(E.time_domain is tt, "restored", lab)
        if rng.random() < .5:    # an interpolator that fails at some step
            new = np.linspace(t[0], t[-1], 7)
            E = opinf.ddt.InterpDerivativeEstimator(
                t, Bad, new_time_domain=new)
            judge(ctx, rng, "interp " + lab, E, fault, None,
                  exc=ZeroDivisionError)
            ctx.ok(E.time_domain is t and E.new_time_domain is new,
                   "restored", "interp " + lab)
        return
    judge(ctx, rng, lab, E, None, probe, lambda E: E.verify_shapes(
        *(() if rng.random() < .5 else (int(rng.integers(1, 6)), int(
            rng.integers(1, 4))))))
    out = []
    plot = rng.random() < .1
    spy = Spy(E)
    judge(ctx, rng, lab, E, None, None, lambda E: out.append(
        E.verify(plot=plot, return_errors=True)))
    del E.estimate
    plt.close("all")
    ctx.ok(E.time_domain is tt, "restored", lab)
    if hasattr(E, "new_time_domain") and "interp" in lab:
        ctx.ok(E.new_time_domain is new, "restored", lab)
    with quiet():
        ctx.ok(E.verify() is None, "accepted", lab)
    errs = dict(out[0])
    dts = errs.pop("dts")
    log = spy.log[1:]     # the first is the shape check
    ctx.ok(len(log) == len(dts) and len(errs) == 6 and all(
        len(v) == len(dts) for v in errs.values()), "reported-errors",
        f"{lab}: {len(log)} problems, {len(dts)} steps")
    rep = [np.array(v) for v in errs.values()]
    left = set(range(6))
    for row in range(6):
        # which of the test problems is this?
        tj, Qj = log[0][0], log[0][1][row]
        fid = [a for a in left if np.allclose(FUNCS[a][0](tj), Qj,
                                              rtol=1e-12)]
        ctx.ok(len(fid) == 1, "reported-errors", f"{lab} row {row}")
        left -= set(fid)
        for s, (tj, Qs, Q_, d_) in enumerate(log):
            ctx.close(np.diff(tj).mean(), dts[s], "reported-errors",
                      rtol=1e-3, msg=f"{lab} step {s}")
            true = FUNCS[fid[0]][1](tj)[cols]
            want = np.linalg.norm(d_[row] - true) / np.linalg.norm(true)
            ctx.close(rep[row][s], want, "reported-errors", rtol=1e-6,
                      atol=1e-13, msg=f"{lab} problem {fid[0]} step "
                      f"{dts[s]:.0e}")


class Bad:
    """An interpolant that fails on the short time steps."""

    def __init__(self, t, y, **kw):
        self.t, self.y = t, y
        if t[1] - t[0] < 1e-6:
            raise ZeroDivisionError("no interpolant")

    def __call__(self, t, nu=0):
        return np.zeros(self.y.shape[:-1] + np.shape(t))

    def derivative(self, nu=1):
        return self


# Solvers ---------------------------------------------------------------------
class UserSolver(opinf.lstsq.SolverTemplate):
    """Normal equations with an injected fault."""
    fault = None
    loadfault = None
    where = {}

    def fit(self, data_matrix, lhs_matrix):
        opinf.lstsq.SolverTemplate.fit(self, data_matrix, lhs_matrix)
        return self

    def solve(self):
        D, Z = self.data_matrix, self.lhs_matrix
        O_ = np.linalg.lstsq(D, Z.T, rcond=None)[0].T
        f = self.fault
        if f == "shape":
            return O_.T if O_.shape[0] != O_.shape[1] else O_[1:]
        if f == "rows":
            return np.vstack([O_, O_[:1]])
        if f == "shifted":
            return O_ + self.size
        return O_

    def copy(self):
        f = self.fault
        new = UserSolver() if f != "copy-class" else opinf.lstsq.PlainSolver()
        D, Z = self.data_matrix.copy(), self.lhs_matrix.copy()
        if f == "copy-k":
            D, Z = np.vstack([D, 0 * D[:1]]), np.hstack([Z, 0 * Z[:, :1]])
        if f == "copy-r":
            Z = np.vstack([Z, Z[:1]])
        if f == "copy-d":
            D = np.hstack([D, D[:, :1]])
        new.fit(D, Z)
        new.size = self.size
        if f == "copy-value":
            new.fault = "shifted"
        if f is not None and f.startswith(("load", "save", "shape", "rows")):
            new.fault = f
        new.impl = self.impl
        return new

    def save(self, savefile, overwrite=False):
        if not self.impl:
            raise NotImplementedError
        with opinf.utils.hdf5_savehandle(savefile, overwrite) as hf:
            hf["D"], hf["Z"] = self.data_matrix, self.lhs_matrix
            hf["size"] = self.size
            hf["fault"] = str(self.fault)

    @classmethod
    def load(cls, loadfile):
        with opinf.utils.hdf5_loadhandle(loadfile) as hf:
            D, Z, size = hf["D"][:], hf["Z"][:], float(hf["size"][()])
            f = hf["fault"][()].decode()
        if f == "load-k":
            D, Z = np.vstack([D, 0 * D[:1]]), np.hstack([Z, 0 * Z[:, :1]])
        if f == "load-r":
            Z = np.vstack([Z, Z[:1]])
        new = cls()
        new.fit(D, Z)
        new.size, new.impl = size, True
        if f == "load-value":
            new.fault = "shifted"
        return new


SFAULTS = ["shape", "rows", "copy-class", "copy-k", "copy-r", "copy-d",
           "copy-value", "load-k", "load-r", "load-value"]


@CHECK.family(quick=150, thorough=4000)
def solvers(ctx, rng, i):
    fault = ([None] * 2 + SFAULTS)[i % (len(SFAULTS) + 2)]
    d, r = int(rng.integers(1, 6)), int(rng.integers(1, 4))
    k = d + int(rng.integers(1, 9))
    D, Z = rng.standard_normal((k, d)), rng.standard_normal((r, k))
    S = UserSolver()
    S.fault, S.size = fault, float(10. ** rng.uniform(-2, 1))
    S.impl = rng.random() < .7 or str(fault).startswith("load")
    lab = f"user solver k={k} d={d} r={r}"
    ctx.note(fault=fault, d=d, r=r, impl=S.impl)
    ctx.ev("solver")
    ctx.ev("not-implemented", not S.impl)
    if rng.random() < .3:
        ctx.ev("untrained")
        with quiet():
            S.verify()
    if fault == "shape" and d == r == 1:
        return
    S.fit(D, Z)
    judge(ctx, rng, lab, S, fault, lambda S: [S.solve(), S.data_matrix])


@CHECK.family(quick=120, thorough=3000)
def shipped_solvers(ctx, rng, i):
    kind = lg.KINDS[i % len(lg.KINDS)]
    D, Z = lg.problem(rng, kind)
    Z = np.atleast_2d(Z)
    if kind in ("plain", "tls") and D.shape[0] <= D.shape[1]:
        return
    s = lg.settings(rng, kind, D.shape[1], len(Z), D.shape[0],
                    np.linalg.svd(D, compute_uv=False)[0])
    S = lg.build(s)
    lab = f"{kind} {D.shape} r={len(Z)}"
    ctx.note(kind=kind, shape=D.shape, r=len(Z))
    ctx.ev("solver")
    ctx.ev("shipped")
    ctx.ev("untrained")
    with quiet():
        S.verify()
        S.fit(D, Z)
        if not np.isfinite(S.solve()).all():
            return
    judge(ctx, rng, lab, S, None, lambda S: [S.solve(), S.r, S.d, S.k])


# Operators -------------------------------------------------------------------
class UserOp(O.OperatorTemplate):
    """q -> A sin(B q) (+ C u), with an injected fault."""
    hasin = False

    def __init__(self, A, B, C=None, fault=None, size=.3, impl=True):
        self.A, self.B, self.C = A, B, C
        self.fault, self.size, self.impl = fault, size, impl

    @property
    def state_dimension(self):
        r = self.A.shape[0]
        if self.fault == "dim-float":
            return float(r)
        if self.fault == "dim-zero":
            return 0
        if self.fault == "dim-negative":
            return -r
        if self.fault == "dim-none":
            return None
        if self.fault == "dim-more":
            return r + 1
        return r

    def apply(self, state, input_=None):
        f = self.fault
        out = self.A @ np.sin(self.B @ state)
        if self.C is not None:
            out = out + self.C @ input_
        if f == "shifted":
            return out + self.size
        if f == "apply-vector" and out.ndim == 1:
            return out[:, None]
        if f == "apply-rows" and out.ndim == 1:
            return np.concatenate([out, out[:1]])
        if f == "apply-batch" and out.ndim == 2:
            return out[:, 0]
        if f == "apply-columns" and out.ndim == 2:
            return out[:, 1:]
        if f == "apply-list":
            return list(out)
        return out

    def jacobian(self, state, input_=None):
        if not self.impl:
            raise NotImplementedError
        J = self.A @ (np.cos(self.B @ state)[:, None] * self.B)
        f = self.fault
        if f == "jacobian-shape":
            return J[:, 0]
        if f == "jacobian-value":
            return (1 + self.size) * J
        if f == "jacobian-entry":
            J[-1, 0] += self.size * np.linalg.norm(J)
        if f == "jacobian-transposed":
            return J.T
        if f == "jacobian-list":
            return J.tolist()
        return J

    def galerkin(self, Vr, Wr=None):
        if not self.impl:
            raise NotImplementedError
        f = self.fault
        given = Wr is not None
        W = Vr if Wr is None else Wr
        if f == "galerkin-ignores-test" and given:
            W = Vr
        if f == "galerkin-type":
            return "operator"
        L = np.linalg.solve(W.T @ Vr, W.T)
        if f == "galerkin-not-oblique" and given:
            L = W.T
        A = L @ self.A
        C = None if self.C is None else L @ self.C
        if f == "galerkin-rows":
            return type(self)(np.vstack([A, A]), np.hstack(
                [self.B @ Vr] * 2), None if C is None else np.vstack([C, C]))
        if f == "galerkin-inputs":
            C = np.hstack([C, C])
        g = None
        if f == "galerkin-value" and given:
            g = "shifted"
        if f == "galerkin-value-default" and not given:
            g = "shifted"
        return type(self)(A, self.B @ Vr, C, g, self.size)

    def copy(self):
        f = self.fault
        if f == "copy-self":
            return self
        A, B, C = self.A, self.B, self.C
        cls = type(self)
        if f == "copy-class":
            return type("Other", (cls,), {})(A, B, C)
        if f == "copy-dim":
            A, B = np.vstack([A, A]), np.hstack([B, B])
            C = None if C is None else np.vstack([C, C])
            return cls(A, B, C)
        if f == "copy-inputs":
            return cls(A, B, np.hstack([C, C]))
        return cls(A, B, C, "shifted" if f == "copy-value" else f,
                   self.size, self.impl)

    def save(self, savefile, overwrite=False):
        if not self.impl:
            raise NotImplementedError
        with opinf.utils.hdf5_savehandle(savefile, overwrite) as hf:
            hf["A"], hf["B"] = self.A, self.B
            if self.C is not None:
                hf["C"] = self.C
            hf["fault"], hf["size"] = str(self.fault), self.size

    @classmethod
    def load(cls, loadfile):
        with opinf.utils.hdf5_loadhandle(loadfile) as hf:
            A, B = hf["A"][:], hf["B"][:]
            C = hf["C"][:] if "C" in hf else None
            f, size = hf["fault"][()].decode(), float(hf["size"][()])
        if f == "load-class":
            cls = type("Other", (cls,), {})
        if f == "load-dim":
            A, B = np.vstack([A, A]), np.hstack([B, B])
            C = None if C is None else np.vstack([C, C])
        if f == "load-inputs":
            C = np.hstack([C, C])
        return cls(A, B, C, "shifted" if f == "load-value" else None, size)


class UserInputOp(UserOp, O.InputMixin):
    @property
    def input_dimension(self):
        m = self.C.shape[1]
        if self.fault == "inputs-float":
            return float(m)
        if self.fault == "inputs-zero":
            return 0
        if self.fault == "inputs-more":
            return m + 1
        return m


OFAULTS = ["dim-float", "dim-zero", "dim-negative", "dim-none",
           "apply-vector", "apply-rows", "apply-batch", "apply-columns",
           "apply-list", "jacobian-shape", "jacobian-value",
           "jacobian-entry", "jacobian-transposed", "jacobian-list",
           "galerkin-type", "galerkin-rows", "galerkin-ignores-test",
           "galerkin-not-oblique", "galerkin-value",
           "galerkin-value-default", "copy-self", "copy-class", "copy-dim",
           "copy-value", "load-class", "load-dim", "load-value"]
IFAULTS = ["inputs-float", "inputs-zero", "galerkin-inputs", "copy-inputs",
           "load-inputs"]


@CHECK.family(quick=300, thorough=8000)
def operators(ctx, rng, i):
    faults = [None] * 4 + OFAULTS + IFAULTS
    fault = faults[i % len(faults)]
    r = int(rng.integers(3, 7))
    if str(fault).startswith("galerkin"):
        r = int(rng.integers(4, 8))
    p = int(rng.integers(2, 4))
    if fault == "jacobian-transposed":
        p = 3
    m = int(rng.integers(1, 4))
    ins = fault in IFAULTS or rng.random() < .4
    A, B = rng.standard_normal((r, p)), rng.standard_normal((p, r))
    C = rng.standard_normal((r, m)) if ins else None
    size = float(10. ** rng.uniform(-2, 1))
    impl = fault is not None and not fault.startswith("apply") \
        or rng.random() < .6
    op = (UserInputOp if ins else UserOp)(A, B, C, fault, size, impl)
    lab = f"user operator r={r} m={m if ins else 0} size={size:.1e}"
    ctx.note(fault=fault, r=r, ins=ins, impl=impl)
    ctx.ev("operator")
    ctx.ev("not-implemented", not impl)
    q, u = rng.standard_normal(r), rng.standard_normal(m)
    kw = {}
    if rng.random() < .4:
        kw = dict(k=int(rng.integers(2, 12)), ntests=int(rng.integers(1, 5)))
    judge(ctx, rng, lab, op, fault, lambda op: [op.apply(q, u)]
          if not str(fault).startswith("apply") else [],
          lambda op: op.verify(**kw))
    # the accuracy demanded of the derivative
    if fault is None and impl:
        tol = float(10. ** rng.uniform(-4, -2))
        good = rng.random() < .5
        op.fault = "jacobian-value"
        op.size = tol * (rng.uniform(.1, .5) if good else rng.uniform(9, 30))
        ctx.ev("tolerance")
        judge(ctx, rng, f"{lab} error {op.size:.1e} tol {tol:.1e}", op,
              None if good else "jacobian-value", None,
              lambda op: op.verify(fdifftol=tol))


@CHECK.family(quick=150, thorough=4000)
def shipped_operators(ctx, rng, i):
    kds = list(og.KINDS)
    kd = kds[i % len(kds)]
    r, m = int(rng.integers(1, 5 if kd in "GQ" else 7)), int(
        rng.integers(1, 4))
    if kd == "B" and m == 1:
        r = max(r, 2)
    E = rng.standard_normal((r, og.ncols(kd, r, m)))
    E[rng.random(E.shape) < .1] = 0
    empty = rng.random() < .1
    op = og.KINDS[kd][0](None if empty else (E[:, 0] if kd == "c" else E))
    lab = f"{kd} r={r} m={m} empty={empty}"
    ctx.note(lab=lab)
    ctx.ev("operator")
    ctx.ev("shipped")
    if kd in "AHGQN" and not empty and np.linalg.norm(E) < .3:
        return
    q, u = rng.standard_normal(r), rng.standard_normal(m)
    judge(ctx, rng, lab, op, None, lambda op: [] if empty else [
        op.entries, op.apply(q, u)])


class UserOpInf(O.OpInfOperator):
    """A q^2 (entrywise squares): one block row per state."""

    def apply(self, state, input_=None):
        return self.entries @ np.asarray(state)**2

    @staticmethod
    def operator_dimension(r, m=None):
        return r

    @staticmethod
    def datablock(states, inputs=None):
        return np.asarray(states)**2


def opinf_fault(fault):
    d = {}
    if fault == "dimension-not-static":
        d["operator_dimension"] = lambda self, r, m=None: r
    if fault == "dimension-float":
        d["operator_dimension"] = staticmethod(lambda r, m=None: float(r))
    if fault == "dimension-zero":
        d["operator_dimension"] = staticmethod(lambda r, m=None: 0)
    if fault == "dimension-wrong":
        d["operator_dimension"] = staticmethod(lambda r, m=None: r + 1)
    if fault == "datablock-not-static":
        d["datablock"] = lambda self, s, i=None: s**2
    if fault == "datablock-list":
        d["datablock"] = staticmethod(lambda s, i=None: (s**2).tolist())
    if fault == "datablock-flat":
        d["datablock"] = staticmethod(lambda s, i=None: s[0]**2)
    if fault == "datablock-transposed":
        d["datablock"] = staticmethod(lambda s, i=None: (s**2).T)
    if fault == "datablock-columns":
        d["datablock"] = staticmethod(lambda s, i=None: s[:, 1:]**2)
    if fault == "apply":
        d["apply"] = lambda self, s, i=None: self.entries @ s[:, None]**2
    if fault == "jacobian":
        d["jacobian"] = lambda self, s, i=None: 3 * self.entries * s
    elif fault != "no-jacobian":
        d["jacobian"] = lambda self, s, i=None: 2 * self.entries * s
    return type("UserOpInfFault", (UserOpInf,), d)


PFAULTS = ["dimension-not-static", "dimension-float", "dimension-zero",
           "dimension-wrong", "datablock-not-static", "datablock-list",
           "datablock-flat", "datablock-transposed", "datablock-columns",
           "apply", "jacobian"]


@CHECK.family(quick=80, thorough=2000)
def opinf_operators(ctx, rng, i):
    fault = ([None] * 2 + PFAULTS)[i % (len(PFAULTS) + 2)]
    r = int(rng.integers(2, 6))
    E = rng.standard_normal((r, r))
    empty = fault not in ("apply", "jacobian") and rng.random() < .3
    cls = opinf_fault(fault)
    op = cls(None if empty else E)
    lab = f"user OpInf operator r={r} empty={empty}"
    ctx.note(fault=fault, r=r, empty=empty)
    ctx.ev("operator")
    kw = {} if rng.random() < .5 else dict(
        k=int(rng.integers(3, 15)), r=int(rng.integers(2, 9)),
        m=int(rng.integers(1, 4)))
    if fault == "datablock-transposed":
        kw = dict(k=10, r=6)
    if fault == "jacobian":
        op.jacobian(np.ones(r))
    judge(ctx, rng, lab, op, fault, lambda op: [op.entries],
          lambda op: op.verify(**kw))


# Parametric operators --------------------------------------------------------
class UserPar(O.ParametricOperatorTemplate):
    """mu -> mu_0 * (A q)  (or B u)."""
    _OperatorClass = O.LinearOperator

    def __init__(self, A, p, fault=None):
        self.A, self.p, self.fault = A, p, fault

    @property
    def state_dimension(self):
        f, r = self.fault, self.A.shape[0]
        return {"dim-float": float(r), "dim-zero": 0,
                "dim-more": r + 1}.get(f, r)

    @property
    def parameter_dimension(self):
        return self.p

    def evaluate(self, parameter):
        A = parameter[0] * self.A
        f = self.fault
        if f == "evaluate-matrix":
            return A
        if f == "evaluate-class":
            return O.QuadraticOperator(np.ones((len(A), O.QuadraticOperator.
                                                operator_dimension(len(A)))))
        if f == "evaluate-dim":
            A = np.eye(len(A) + 1)
        if f == "evaluate-inputs":
            A = np.hstack([A, A])
        return self._OperatorClass(A)


class UserParIn(UserPar, O.InputMixin):
    _OperatorClass = O.InputOperator

    @property
    def input_dimension(self):
        m = self.A.shape[1]
        return {"inputs-float": float(m), "inputs-zero": 0,
                "inputs-more": m + 1}.get(self.fault, m)

    def evaluate(self, parameter):
        if self.fault == "evaluate-dim":
            return O.InputOperator(np.vstack([self.A, self.A]))
        return UserPar.evaluate(self, parameter)


class UserParHidden(UserPar):
    """Claims no inputs, but evaluates to an input operator."""
    _OperatorClass = O.InputOperator


class UserParLost(UserParIn):
    """Claims inputs, but evaluates to an operator without."""
    _OperatorClass = O.LinearOperator

    def evaluate(self, parameter):
        return O.LinearOperator(np.eye(self.A.shape[0]))


class UserParNot(UserPar):
    _OperatorClass = str


QFAULTS = ["dim-float", "dim-zero", "dim-more", "evaluate-matrix",
           "evaluate-class", "evaluate-dim"]
RFAULTS = ["inputs-float", "inputs-zero", "inputs-more", "evaluate-inputs",
           "evaluate-dim", "evaluate-matrix"]


@CHECK.family(quick=150, thorough=4000)
def parametric(ctx, rng, i):
    r, p = int(rng.integers(2, 5)), int(rng.integers(1, 4))
    m = int(rng.integers(1, 4))
    ctx.ev("parametric")
    w = i % 6
    fault = None
    if w in (0, 1):
        fault = gen.pick(rng, [None] + QFAULTS)
        op = UserPar(rng.standard_normal((r, r)), p, fault)
    elif w == 2:
        fault = gen.pick(rng, [None] + RFAULTS)
        op = UserParIn(rng.standard_normal((r, m)), p, fault)
    elif w == 3:
        fault = gen.pick(rng, ["hidden-inputs", "lost-inputs",
                               "not-an-operator"])
        cls = {"hidden-inputs": UserParHidden, "lost-inputs": UserParLost,
               "not-an-operator": UserParNot}[fault]
        op = cls(rng.standard_normal((r, r)), p)
    elif w == 4:
        ctx.ev("shipped")
        kd = gen.pick(rng, list(og.AFF))
        n = int(rng.integers(1, 4))
        Es = [og.entries(rng, kd, r, m).astype(float) for _ in range(n)]
        op = og.AFF[kd]([lambda mu, j=j: mu[0] + j for j in range(n)],
                        entries=[E[:, 0] if kd == "c" else E for E in Es])
        op.parameter_dimension = p
    else:
        ctx.ev("shipped")
        kd = gen.pick(rng, list(og.INT))
        p = int(gen.pick(rng, [1, 1, 2]))
        mus = np.asarray(points(rng, p, True))
        if p == 1 and len(mus) < 3:
            return
        Es = [og.entries(rng, kd, r, m).astype(float) for _ in mus]
        op = og.INT[kd](mus, [E[:, 0] if kd == "c" else E for E in Es])
    lab = f"{type(op).__name__} r={r} p={p} m={m}"
    ctx.note(lab=lab, fault=fault)
    mu = rng.standard_normal(p)
    if w == 5:   # inside the training set
        mu = np.atleast_1d(mus[int(rng.integers(len(mus)))]) + 0.
    if w == 5 or rng.random() < .5:
        judge(ctx, rng, lab, op, fault, None, lambda op: op.verify(mu))
    else:
        judge(ctx, rng, lab, op, fault, None, lambda op: op.verify())
    if fault is None:
        for bad in (np.ones(p + 1), np.ones((p, 1)), 1.5):
            judge(ctx, rng, f"{lab} parameter {bad}", op, "parameter", None,
                  lambda op: op.verify(bad), exc=ValueError)
