"""C22: the regularization search returns the best stable candidate."""
import contextlib
import copy
import io
import warnings

import numpy as np
import opinf
import scipy.optimize as so

from rv import gen
from rv.core import Check

M = opinf.models
L = opinf.lstsq
O = opinf.operators
CHECK = Check(
    "C22",
    "Family 'gridsearch' runs opinf.utils.gridsearch() on recorded synthetic "
    "objectives (with infinite and undefined values, ties, any order) and "
    "checks what was evaluated and returned. The other families run the "
    "regularization searches of the ROM classes on noisy trajectories. For "
    "every candidate the check fits a fresh model with that regularizer to "
    "data encoded with the fitted stages, predicts the training "
    "trajectories, the testing regime and the test cases, applies the "
    "documented stability criterion and computes the training error. The "
    "regularizer left in the model must be the best of the certainly stable "
    "ones up to accuracy, must not be a certainly unstable one, and the "
    "operators must be the ones fitted with it. The objective values used "
    "by the search are recorded by a hook and compared too.",
    require=["grid-winner", "grid-evaluated", "grid-all-fail",
             "optimized-not-worse", "optimum-found", "candidates-untouched",
             "search-winner", "search-operators", "search-objective",
             "search-not-unstable", "search-all-unstable", "search-again",
             "search-optimized", "unstable-present", "testing-decides",
             "margin-decides", "testcase-decides", "factory", "vector-"
             "candidates", "decoupled", "tikhonov", "several-trajectories",
             "search-inputs", "search-parametric", "search-interp",
             "discrete", "continuous", "skip-stages", "stages",
             "search-other-dimension", "interior-optimum"])


# -- the search routine itself ----------------------------------------------
@CHECK.family(quick=1200, thorough=30000)
def gridsearch(ctx, rng, i):
    scalar = rng.random() < .6
    nc = int(gen.pick(rng, [1, 2, 3, 4, 7, 12]))
    p = int(rng.integers(2, 4))
    if scalar:
        C = 10.0 ** rng.uniform(-4, 4, nc)
        order = gen.pick(rng, ["sorted", "reversed", "any"])
        if order != "any":
            C = np.sort(C)[::1 if order == "sorted" else -1]
        form = gen.pick(rng, ["array", "list", "tuple", "ones"])
        given = {"array": C.copy(), "list": [float(c) for c in C],
                 "tuple": tuple(float(c) for c in C),
                 "ones": [np.array([c]) for c in C]}[form]
        if nc == 1 and form == "list" and rng.random() < .5:
            given = float(C[0])
    else:
        C = 10.0 ** rng.uniform(-3, 3, (nc, p))
        form = gen.pick(rng, ["array", "list", "lists"])
        given = {"array": C.copy(), "list": [c.copy() for c in C],
                 "lists": [list(map(float, c)) for c in C]}[form]
    only = rng.random() < .5
    kind = gen.pick(rng, ["bowl", "bowl", "bowl", "holes", "nan", "allinf",
                          "rough", "flat", "window"])
    x0 = rng.uniform(-3, 3, 1 if scalar else p)
    ph = rng.uniform(0, 6)
    noneg = rng.random() < .2
    rec = []

    def f(c):
        x = np.log10(np.atleast_1d(np.asarray(c, float)))
        v = float(np.sum((x - x0) ** 2)) + (1. if not noneg else -3.)
        if kind == "holes" and np.sin(7 * x.sum() + ph) > 0:
            v = np.inf
        if kind == "nan" and np.sin(7 * x.sum() + ph) > 0:
            v = np.nan
        if kind == "allinf":
            v = np.inf
        if kind == "rough":
            v = v + .5 * np.sin(40 * x.sum())
        if kind == "flat":
            v = 2.
        if kind == "window" and not (x > x0 - 1).all():
            v = np.inf
        rec.append((np.array(c, float).ravel(), v))
        return v
    lab = f"{kind} scalar={scalar} nc={nc} only={only} form={form}"
    vals = [f(c) for c in C]
    fin = [v for v in vals if np.isfinite(v)]
    rec.clear()
    verbose = rng.random() < .3
    out = io.StringIO()
    ctx.note(kind=kind, scalar=scalar, nc=nc, only=only, form=form)
    snap = np.array(given, float).copy()
    with warnings.catch_warnings(), contextlib.redirect_stdout(out):
        warnings.simplefilter("ignore")
        if not fin:
            with ctx.raises(RuntimeError, "grid-all-fail", lab):
                opinf.utils.gridsearch(f, given, gridsearch_only=only,
                                       verbose=verbose)
            return
        try:
            w = opinf.utils.gridsearch(f, given, gridsearch_only=only,
                                       verbose=verbose)
        except Exception as e:
            ctx.ok(False, "grid-winner", f"{lab} {type(e).__name__}: {e}")
    ctx.equal(np.array(given, float), snap, "candidates-untouched", lab)
    seen = [c for c, _ in rec]
    for c in C:
        ctx.ok(any(s.shape == np.ravel(c).shape
                   and np.allclose(s, np.ravel(c), rtol=1e-14, atol=0)
                   for s in seen), "grid-evaluated",
               f"{lab} {c} not evaluated")
    if only:
        ctx.ok(len(rec) == nc, "grid-evaluated",
               f"{lab} {len(rec)} evaluations")
    rec.clear()
    got = f(w)
    best = min(fin)
    if only:
        hit = [j for j, c in enumerate(C) if np.shape(np.ravel(w)) ==
               np.shape(np.ravel(c)) and np.array_equal(
                   np.ravel(w), np.ravel(c))]
        ctx.ok(bool(hit), "grid-winner", f"{lab} {w} is no candidate")
        ctx.ok(any(vals[j] == best for j in hit), "grid-winner",
               f"{lab} value {got} best {best}")
        ctx.ok(np.ndim(w) == (0 if scalar else 1), "grid-winner", lab)
        return
    ctx.ok(np.isfinite(got) and got <= best + 1e-12 * (1 + abs(best)),
           "optimized-not-worse", f"{lab} value {got} grid {best}")
    ctx.ok(np.ndim(w) == (0 if scalar else 1), "grid-winner", lab)
    if kind == "bowl":
        if scalar:
            s = np.sort(C)
            j = int(np.argmin([f(c) for c in s]))
            lo = s[j - 1] if j else s[0] / 100
            hi = s[j + 1] if j < nc - 1 else s[-1] * 100
            x = np.log10([lo, hi])
            if x[0] + .01 < x0[0] < x[1] - .01:
                ctx.ev("interior-optimum")
                ctx.ok(got - (1. if not noneg else -3.) < 1e-6,
                       "optimum-found", f"{lab} {w} vs {10 ** x0}")
        else:
            own = so.minimize(lambda x: f(10 ** x),
                              np.log10(C[int(np.argmin(vals))]),
                              method="Nelder-Mead")
            if own.success:
                ctx.ok(got <= own.fun + 1e-5, "optimum-found",
                       f"{lab} {w} vs {10 ** x0}")


# -- searches of reduced-order models ------------------------------------------
class Search:
    """Noisy data, a ROM and the reference evaluation of a regularizer."""

    def __init__(self, ctx, rng, disc, ptype):
        self.ctx, self.rng, self.disc, self.ptype = ctx, rng, disc, ptype
        r = self.r = int(rng.integers(1, 4))
        self.m = int(rng.integers(1, 3))
        self.kinds = [str(x) for x in gen.pick(
            rng, ["A", "cA", "AH", "cAH", "AB", "cAB", "AHB", "cAN"]
            if ptype == "plain" else ["A", "cA", "AH", "AB", "cAHB"])]
        self.hasu = any(k in "BN" for k in self.kinds)
        self.ns = int(gen.pick(rng, [1, 2, 3])) if ptype == "plain" else 3
        self.n = r if rng.random() < .3 else r + int(rng.integers(1, 6))
        self.stages = self.n > r or rng.random() < .3
        # truth
        A = rng.standard_normal((r, r))
        A = A - A.T if rng.random() < .6 else A
        self.A = A / (np.abs(np.linalg.eigvals(A)).max() + .3)
        self.H = .15 * rng.standard_normal((r, r))
        self.B = .3 * rng.standard_normal((r, self.m))
        self.c = .1 * rng.standard_normal(r)
        self.V = np.linalg.qr(rng.standard_normal((self.n, r)))[0] \
            if self.n > r else np.eye(r)
        self.off = 2 * rng.standard_normal(self.n)
        self.noise = float(10.0 ** rng.uniform(-3, -.7))
        self.mus = (np.sort(rng.uniform(.2, .8, self.ns))
                    + np.arange(self.ns)) if ptype != "plain" else None
        self.w = rng.uniform(.5, 2, self.m)
        self.opts = {}
        if not disc:
            self.opts = dict(rtol=1e-5, atol=1e-8) if rng.random() < .6 \
                else dict(rtol=1e-4, max_step=.05)
        # solver and candidates
        d = self.d = self.ncol()
        self.sk = gen.pick(rng, ["l2", "l2", "l2dec", "tik", "tikdec"])
        if ptype == "interp":
            self.sk = gen.pick(rng, ["l2", "l2", "tik"])
        self.parts = 1 + int(rng.integers(0, d)) if d > 1 else 1
        nc = int(gen.pick(rng, [1, 3, 5, 7]))
        lo = -5 if rng.random() < .6 else -2
        self.vec = False
        self.factory = None
        if self.sk == "l2":
            self.cands = [float(x) for x in 10.0 ** rng.uniform(lo, 2, nc)]
            if rng.random() < .4:
                self.factory = lambda c: 3. * c
        elif self.sk == "l2dec":
            if rng.random() < .5:
                self.cands = [float(x) for x in 10.0 ** rng.uniform(
                    lo, 2, nc)]
                v = 1. + np.arange(r)
                self.factory = lambda c: c * v
            else:
                self.vec = True
                self.cands = [10.0 ** rng.uniform(lo, 2, r)
                              for _ in range(nc)]
                if r == 1:
                    self.cands = [np.array([float(c[0])])
                                  for c in self.cands]
                    self.factory = np.atleast_1d
        elif self.sk == "tik":
            k = self.parts
            if rng.random() < .5 and d > 1:
                self.vec = True
                self.cands = [10.0 ** rng.uniform(lo, 2, 2)
                              for _ in range(nc)]
                self.factory = lambda c: np.concatenate(
                    [np.full(k, c[0]), np.full(d - k, c[1])])
            else:
                self.cands = [float(x) for x in 10.0 ** rng.uniform(
                    lo, 2, nc)]
                self.factory = (lambda c: np.full(d, c)) \
                    if rng.random() < .5 else (lambda c: c * np.eye(d))
        else:
            self.cands = [float(x) for x in 10.0 ** rng.uniform(lo, 2, nc)]
            self.factory = lambda c: [c * (1 + j) * np.ones(d)
                                      for j in range(r)]
        if self.factory is not None:
            ctx.ev("factory")
        if self.vec:
            ctx.ev("vector-candidates")
        if self.sk in ("l2dec", "tikdec"):
            ctx.ev("decoupled")
        if self.sk in ("tik", "tikdec"):
            ctx.ev("tikhonov")
        if self.ns > 1:
            ctx.ev("several-trajectories")
        if self.hasu:
            ctx.ev("search-inputs")
        if ptype != "plain":
            ctx.ev("search-parametric")
        if ptype == "interp":
            ctx.ev("search-interp")
        ctx.ev("discrete" if disc else "continuous")
        self.margin = float(gen.pick(rng, [.9, 1.05, 1.05, 1.3, 2, 5, 5]))
        self.only = rng.random() < (.7 if disc else .8)
        self.tests = []

    def lab(self):
        return (f"{'disc' if self.disc else 'cont'} {self.ptype} "
                f"ops={''.join(self.kinds)} r={self.r} n={self.n} "
                f"m={self.m} ns={self.ns} {self.sk} nc={len(self.cands)} "
                f"margin={self.margin} only={self.only}")

    def ncol(self):
        r, m = self.r, self.m
        f = 2 if self.ptype == "affine" else 1
        w = {"c": 1, "A": r, "H": r * (r + 1) // 2, "B": m, "N": r * m}
        return sum(w[k] * (f if k == "A" else 1) for k in self.kinds)

    def solver(self, reg):
        return {"l2": L.L2Solver, "l2dec": L.L2DecoupledSolver,
                "tik": L.TikhonovSolver,
                "tikdec": L.TikhonovDecoupledSolver}[self.sk](reg)

    def model(self, reg):
        if self.ptype == "affine":
            P = {"c": O.ConstantOperator, "H": O.QuadraticOperator,
                 "B": O.InputOperator, "N": O.StateInputOperator}
            ops = [O.AffineLinearOperator([lambda mu: 1.,
                                           lambda mu: float(mu)])
                   if k == "A" else P[k]() for k in self.kinds]
            cls = M.ParametricDiscreteModel if self.disc else \
                M.ParametricContinuousModel
            return cls(ops, solver=self.solver(reg))
        cls = {("plain", True): M.DiscreteModel,
               ("plain", False): M.ContinuousModel,
               ("interp", True): M.InterpDiscreteModel,
               ("interp", False): M.InterpContinuousModel}[
                   self.ptype, self.disc]
        return cls("".join(self.kinds), solver=self.solver(reg))

    def build(self, reg):
        """A reduced-order model with the regularizer given initially."""
        kw = {}
        rng = self.rng
        if self.stages:
            kw["basis"] = opinf.basis.PODBasis(num_vectors=self.r)
            kw["transformer"] = opinf.pre.ShiftScaleTransformer(
                centering=bool(self.cent), scaling=self.scal)
        if not self.disc and self.est:
            kw["ddt_estimator"] = opinf.ddt.UniformFiniteDifferencer(
                self.ts[0], "ord4")
        cls = opinf.roms.ROM if self.ptype == "plain" else \
            opinf.roms.ParametricROM
        return cls(self.model(reg), **kw)

    # data --------------------------------------------------------------
    def u(self, j):
        w = self.w + .3 * j
        if self.m == 1 and self.uscalar:
            return lambda s: float(np.cos(w[0] * s))
        return lambda s: np.cos(w * s + np.arange(self.m))

    def uval(self, j, s):
        return np.atleast_1d(self.u(j)(s))

    def simulate(self, j, q0, nt, dt):
        mu = 1. if self.mus is None else .5 + .2 * self.mus[j]
        h = dt / 10

        def f(q, s):
            out = mu * self.A @ q
            if "H" in self.kinds:
                out = out + (self.H @ q) * q[0]
            if self.hasu:
                out = out + self.B @ self.uval(j, s)
            if "c" in self.kinds:
                out = out + self.c
            return out
        Q = [q0]
        q, s = q0, 0.
        for _ in range(nt - 1):
            for _ in range(10):
                k1 = f(q, s)
                k2 = f(q + h / 2 * k1, s + h / 2)
                q = np.clip(q + h * k2, -50, 50)
                s += h
            Q.append(q)
        return np.array(Q).T

    def data(self):
        rng = self.rng
        self.cent, self.scal = rng.random() < .6, gen.pick(
            rng, [None, "standard", "minmax"])
        self.est = rng.random() < .6
        self.uscalar = rng.random() < .5
        dt = self.dt = float(gen.pick(rng, [.05, .1, .2]))
        same = self.est and not self.disc or rng.random() < .5
        ks = [int(rng.integers(12, 25))] * self.ns
        if not same:
            ks = [int(rng.integers(12, 25)) for _ in ks]
        self.ts = [dt * np.arange(k) for k in ks]
        self.states, self.clean = [], []
        for j, k in enumerate(ks):
            Q = self.simulate(j, rng.standard_normal(self.r), k, dt)
            self.clean.append(Q)
            X = self.off[:, None] + self.V @ Q
            self.states.append(X + self.noise * np.abs(Q).max()
                               * rng.standard_normal(X.shape))
        self.Us = self.ddts = None
        self.ntest = int(gen.pick(rng, [0, 1, 5, 20, 60])) if self.disc else 0
        self.T = float(dt * gen.pick(rng, [0, 6, 20, 40])) * (1 + 1e-9) \
            if not self.disc else 0.
        if self.hasu and self.disc:
            self.Us = [np.column_stack([self.uval(j, s) for s in
                                        dt * np.arange(k + self.ntest)])
                       for j, k in enumerate(ks)]
        if not self.disc and not self.est:
            self.ddts = [np.gradient(Q, dt, axis=1) for Q in self.states]
        # additional test cases
        self.tests = []
        for _ in range(int(gen.pick(rng, [0, 0, 1, 2]))):
            q0 = self.off + self.V @ rng.standard_normal(self.r) * 1.5
            mu = float(rng.uniform(self.mus[0], self.mus[-1])) \
                if self.mus is not None else None
            bound = gen.pick(rng, [None] * 6 + [3.] * 3 + [10.] * 3 + [0.])
            n = int(gen.pick(rng, [10, 40, 80]))
            self.tests.append((q0, mu, bound, n, int(rng.integers(5))))

    def testcases(self):
        out = []
        for q0, mu, bound, n, j in self.tests:
            kw = {} if bound is None else dict(bound=bound)
            if mu is not None:
                kw["parameters"] = mu
            if self.disc:
                if self.hasu:
                    kw["inputs"] = self.testU(j, n)
                out.append(opinf.utils.DiscreteRegTest(q0, n, **kw))
            else:
                if self.hasu:
                    kw["input_function"] = self.u(j)
                out.append(opinf.utils.ContinuousRegTest(
                    q0, self.dt * np.arange(n), **kw))
        return out

    def testU(self, j, n):
        return np.column_stack([self.uval(j, s)
                                for s in self.dt * np.arange(n)])

    # the search --------------------------------------------------------
    def run(self, rom, ft=True, fb=True):
        kw = dict(stability_margin=self.margin,
                  gridsearch_only=self.only)
        if self.margin == 5 and self.rng.random() < .5:
            del kw["stability_margin"]  # the documented default
        if not self.only and self.rng.random() < .5:
            del kw["gridsearch_only"]
        if self.factory is not None:
            kw["regularizer_factory"] = self.factory
        tc = self.testcases()
        if tc:
            kw["test_cases"] = tc[0] if len(tc) == 1 and \
                self.rng.random() < .4 else tc
        if not (ft and fb):
            kw.update(fit_transformer=ft, fit_basis=fb)
        st = [gen.layout(self.rng, Q) for Q in self.states]
        self.passed = (st, [Q.copy() for Q in st])
        single = self.ns == 1 and self.ptype == "plain" and \
            self.rng.random() < .6
        args = [self.cands]
        par = {} if self.mus is None else dict(parameters=self.mus)
        kw["verbose"] = self.rng.random() < .1
        rec = []
        orig = opinf.utils.gridsearch

        def hook(func, candidates, *a, **k):
            def wrapped(x):
                v = func(x)
                rec.append((x, v))
                return v
            return orig(wrapped, candidates, *a, **k)
        opinf.utils.gridsearch = hook
        try:
            with warnings.catch_warnings(), np.errstate(all="ignore"), \
                    contextlib.redirect_stdout(io.StringIO()):
                warnings.simplefilter("ignore")
                if self.disc:
                    if self.hasu:
                        kw["inputs"] = self.Us[0] if single else self.Us
                    ret = rom.fit_regselect_discrete(
                        *args, states=st[0] if single else st, **par,
                        num_test_iters=self.ntest, **kw)
                else:
                    if self.hasu:
                        us = [self.u(j) for j in range(self.ns)]
                        if self.ns == 1 and self.rng.random() < .5:
                            us = us[0]
                        kw["input_functions"] = us[0] if single and \
                            isinstance(us, list) else us
                    if self.ddts is not None:
                        kw["ddts"] = self.ddts[0] if single else self.ddts
                    same = len({len(t) for t in self.ts}) == 1
                    ts = self.ts[0] if same and self.rng.random() < .5 \
                        else self.ts
                    ret = rom.fit_regselect_continuous(
                        *args, train_time_domains=ts,
                        states=st[0] if single else st, **par,
                        test_time_length=self.T, **kw, **self.opts)
            self.ctx.ok(ret is rom, "search-winner", "returns self")
        finally:
            opinf.utils.gridsearch = orig
        self.rec = rec

    # reference ---------------------------------------------------------
    def encoded(self, rom):
        X = [rom.encode(Q) for Q in self.states]
        if self.disc:
            return X, [x[:, :-1] for x in X], [x[:, 1:] for x in X], (
                None if self.Us is None else
                [U[:, :x.shape[1] - 1] for x, U in zip(X, self.Us)])
        U = None if not self.hasu else [
            np.column_stack([self.uval(j, s) for s in t])
            for j, t in enumerate(self.ts)]
        if self.ddts is not None:
            Z = [rom.encode(Q, D)[1] for Q, D in zip(self.states, self.ddts)]
            return X, X, Z, U
        Y, Z, W = [], [], []
        for j, x in enumerate(X):
            out = rom.ddt_estimator.estimate(
                x, *([] if U is None else [U[j]]))
            Y.append(out[0])
            Z.append(out[1])
            W.append(out[2] if U is not None else None)
        return X, Y, Z, (W if U is not None else None)

    def fitted(self, enc, reg):
        model = self.model(reg)
        X, Y, Z, U = enc
        if self.ptype == "plain":
            model.fit(np.hstack(Y), np.hstack(Z),
                      None if U is None else np.hstack(U))
        else:
            model.fit(self.mus, Y, Z, U)
        return model

    def reference(self, rom, enc, c):
        """(training error, status, model) for the candidate c; status is
        'stable', 'unstable' or 'unclear'."""
        reg = c if self.factory is None else self.factory(c)
        with warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            model = self.fitted(enc, reg)
            return self.assess(rom, enc, model) + (model,)

    def assess(self, rom, enc, model):
        X = enc[0] if not self.disc else enc[1]
        status, why, err = "stable", set(), 0.

        def worse(s, w):
            nonlocal status
            why.add(w)
            if s == "unstable" or status == "unstable":
                status = "unstable"
            else:
                status = s

        def judge(dev, limit, w):
            """dev: deviations over the (fine enough) horizon."""
            if not np.isfinite(dev).all() or (dev > limit * 1.01).any():
                worse("unstable", w)
            elif (dev > limit * .99).any():
                worse("unclear", w)
        for j, x in enumerate(X):
            xm = x.mean(axis=1, keepdims=True)
            train = np.abs(x - xm).max()
            limit = self.margin * train
            par = [] if self.mus is None else [self.mus[j]]
            k = x.shape[1]
            if self.disc:
                S = model.predict(*par, x[:, 0], k + self.ntest,
                                  *([self.Us[j]] if self.hasu else []))
                dev = np.abs(S - xm)
                judge(dev[:, :k], limit, "train")
                judge(dev[:, k:], limit, "test")
                e = np.sqrt(np.sum((S[:, :k] - x) ** 2)
                            / np.sum(x ** 2))
            else:
                t = self.ts[j]
                T = self.T
                extra = t[-1] + np.linspace(0, T + self.dt, 4 * int(
                    T / self.dt + 2) + 1)[1:] if T else t[:0]
                tt = np.concatenate([t, extra])
                S = model.predict(*par, x[:, 0], tt, *(
                    [self.u(j)] if self.hasu else []), **self.opts)
                if S.shape[1] < len(tt):
                    # stops in the middle: at which time?
                    last = tt[S.shape[1] - 1] if S.shape[1] else 0.
                    worse("unstable" if last < t[-1] + T - 2 * self.dt
                          else "unclear", "incomplete")
                if S.shape[1] < k:
                    return np.inf, "unstable", why
                dev = np.abs(S - xm)
                judge(dev[:, :k], limit, "train")
                if T and status != "unstable":
                    d = dev[:, k:].max(axis=0)
                    inside = extra[:len(d)] <= t[-1] + T - self.dt
                    di = d[inside]
                    # two grid lengths beyond the limit in a row
                    run = np.convolve(di > 1.01 * limit, np.ones(9),
                                      "valid") if len(di) >= 9 else []
                    if np.any(np.asarray(run) >= 9):
                        worse("unstable", "test")
                    elif (d > .99 * limit).any() or \
                            not np.isfinite(d).all():
                        worse("unclear", "test")
                D = np.sum((S[:, :k] - x) ** 2, axis=0)
                N = np.sum(x ** 2, axis=0)
                e = np.sqrt(np.sum((D[1:] + D[:-1]) / 2 * np.diff(t))
                            / np.sum((N[1:] + N[:-1]) / 2 * np.diff(t)))
            if np.isnan(e):
                worse("unstable", "nan")
            err += e
        for q0, mu, bound, n, j in self.tests:
            x0 = rom.encode(q0)
            par = [] if mu is None else [mu]
            if self.disc:
                S = model.predict(*par, x0, n, *(
                    [self.testU(j, n)] if self.hasu else []))
            else:
                S = model.predict(*par, x0, self.dt * np.arange(n), *(
                    [self.u(j)] if self.hasu else []), **self.opts)
                if S.shape[1] != n:
                    worse("unstable", "testcase")
                    continue
            if bound is not None:
                judge(np.abs(S - x0[:, None]), bound, "testcase")
            elif not np.isfinite(S).all():
                worse("unstable", "testcase")
        return err / len(X), status, why

    def regularizer(self, rom):
        m = rom.model
        if self.ptype == "interp":
            regs = [s.regularizer for s in m.solvers]
            for g in regs[1:]:
                self.ctx.ok(np.array_equal(np.asarray(g),
                                           np.asarray(regs[0])),
                            "search-winner", "solvers differ")
            return regs[0]
        return m.solver.regularizer


def norm_reg(reg, sk):
    """The regularizer as one comparable vector."""
    if sk == "tikdec":
        return np.concatenate([norm_reg(g, "tik") for g in reg])
    reg = np.asarray(reg, float)
    if sk == "tik" and reg.ndim == 1:
        reg = np.diag(reg)
    return reg.ravel()


def entries(model):
    out = []
    for op in model.operators:
        e = op.entries
        out.append(np.concatenate([np.ravel(x) for x in e])
                   if isinstance(e, (list, tuple)) else np.ravel(e))
    return np.concatenate(out)


def judge_search(ctx, S, rom, lab):
    enc = S.encoded(rom)
    refs = [S.reference(rom, enc, c) for c in S.cands]
    acc = 1e-6 if S.disc else 2e-2
    floor = 1e-7 if S.disc else 10 * S.opts["rtol"]
    stable = [e for e, s, *_ in refs if s == "stable" and np.isfinite(e)]
    if any(s == "unstable" for _, s, *_ in refs):
        ctx.ev("unstable-present")
    # which mechanism decides?
    if stable:
        b = min(stable)
        for e, s, why, _ in refs:
            if s == "unstable" and e < .99 * b:
                if why == {"test"}:
                    ctx.ev("testing-decides")
                if why == {"testcase"}:
                    ctx.ev("testcase-decides")
                if "train" in why:
                    ctx.ev("margin-decides")
    # recorded objective values
    for x, v in S.rec[:len(S.cands)]:
        hit = [j for j, c in enumerate(S.cands) if np.array_equal(
            np.ravel(c), np.ravel(x))]
        if not hit:
            continue
        e, s, why, _ = refs[hit[0]]
        if s == "unclear":
            continue
        ctx.ok(not (s == "unstable" and np.isfinite(v)), "search-objective",
               f"{lab} cand {x} {why} got {v}")
        if s == "stable":
            ctx.close(v, e, "search-objective", rtol=acc, atol=floor,
                      msg=f"{lab} cand {x}")
    reg = S.regularizer(rom)
    got = norm_reg(reg, S.sk)
    if S.only:
        hit = []
        for j, c in enumerate(S.cands):
            w = norm_reg(c if S.factory is None else S.factory(c), S.sk)
            if w.shape == got.shape and np.allclose(w, got, rtol=1e-12,
                                                    atol=0):
                hit.append(j)
        ctx.ok(bool(hit), "search-winner",
               f"{lab} regularizer {got} is no candidate")
        e, s, why, model = refs[hit[0]]
    else:
        ctx.ev("search-optimized")
        with warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            model = S.fitted(enc, reg)
            e, s, why = S.assess(rom, enc, model)
    ctx.ok(s != "unstable", "search-not-unstable",
           f"{lab} reg {got} {why} errors {[x[:2] for x in refs]}")
    if stable:
        ctx.ok(e <= min(stable) * (1 + acc) + floor, "search-winner",
               f"{lab} error {e} of {got}, best {min(stable)}; "
               f"{[x[:3] for x in refs]}")
    a, b = entries(rom.model), entries(model)
    ctx.close(a, b, "search-operators", rtol=1e-5, scale=np.abs(b).max(),
              msg=f"{lab} reg={got}")


def searching(ctx, rng, disc, ptype):
    S = Search(ctx, rng, disc, ptype)
    first = S.cands[0] if S.factory is None else S.factory(S.cands[0])
    if rng.random() < .4:
        first = None
    rom = None
    for rnd in range(2 if rng.random() < .3 else 1):
        S.data()
        if rom is None:
            rom = S.build(first)
        else:
            ctx.ev("search-again")
            if not disc and S.est != (rom.ddt_estimator is not None):
                S.est = rom.ddt_estimator is not None
                S.ddts = None if S.est else [np.gradient(
                    Q, S.dt, axis=1) for Q in S.states]
            if rom.ddt_estimator is not None:
                rom = rom_with_times(S, rom)
        ft = fb = True
        stages = None
        if S.stages:
            # stages calibrated beforehand, with other snapshots
            skip = rng.random() < .3
            if skip:
                ft, fb = [(False, False), (False, True), (True, False)][
                    int(rng.integers(3))]
                X = np.hstack(S.states + [S.off[:, None] + S.V @ (
                    .5 * rng.standard_normal((S.r, 6)))])
                rom.encode(X, fit_transformer=True, fit_basis=True)
                ctx.ev("skip-stages")
            stages = calibrated(S, rom, ft, fb)
        lab = S.lab() + f" rnd={rnd} ntest={S.ntest} T={S.T:.3g} " \
            f"tests={[t[2:] for t in S.tests]}"
        ctx.note(disc=disc, ptype=ptype, ops="".join(S.kinds), sk=S.sk,
                 nc=len(S.cands), ns=S.ns, margin=S.margin, only=S.only,
                 ntest=S.ntest, T=round(S.T, 3), tests=len(S.tests))
        try:
            S.run(rom, ft, fb)
        except RuntimeError as ex:
            if "failed" not in str(ex):
                raise
            enc = S.encoded(rom)
            refs = [S.reference(rom, enc, c) for c in S.cands]
            ctx.ok(not any(s == "stable" and np.isfinite(e)
                           for e, s, *_ in refs), "search-all-unstable",
                   f"{lab} {[x[:3] for x in refs]}")
            return
        except ValueError as ex:
            # a candidate whose prediction raises stops the search loudly
            if "infs or NaNs" in str(ex) or "finite" in str(ex):
                ctx.ev("loud-stop")
                return
            raise
        for a, b in zip(*S.passed):
            ctx.equal(a, b, "candidates-untouched", lab)
        if stages is not None:
            same_stages(ctx, rom, *stages, f"{lab} ft={ft} fb={fb}")
        judge_search(ctx, S, rom, lab)


def calibrated(S, rom, ft, fb):
    """What the stages have to be after a search with these flags."""
    X = np.hstack(S.states)
    tf, basis = copy.deepcopy(rom.transformer), copy.deepcopy(rom.basis)
    if ft:
        tf.fit(X)
    if fb:
        basis.fit(tf.transform(X))
    return X, tf, basis


def same_stages(ctx, rom, X, tf, basis, lab):
    Y = tf.transform(X)
    ctx.close(rom.transformer.transform(X), Y, "stages", rtol=1e-10, msg=lab)
    sv = np.append(basis.svdvals[:basis.reduced_state_dimension + 1], 0)
    if (sv[:-1] - sv[1:]).min() < 1e-5 * sv[0]:
        return
    a, b = rom.basis.compress(Y), basis.compress(Y)
    a = a * np.sign(np.sum(a * b, axis=1, keepdims=True))
    ctx.close(a, b, "stages", rtol=1e-8, scale=np.abs(b).max(), msg=lab)


def rom_with_times(S, rom):
    """The same parts with an estimator for the new time domain."""
    return type(rom)(
        rom.model, transformer=rom.transformer, basis=rom.basis,
        ddt_estimator=opinf.ddt.UniformFiniteDifferencer(S.ts[0], "ord4"))


@CHECK.family(quick=330, thorough=9000)
def discrete(ctx, rng, i):
    searching(ctx, rng, True, ["plain", "plain", "affine", "interp"][i % 4])


@CHECK.family(quick=70, thorough=2200)
def continuous(ctx, rng, i):
    searching(ctx, rng, False, ["plain", "plain", "affine", "interp"][i % 4])


@CHECK.family(quick=40, thorough=800)
def leftover(ctx, rng, i):
    """One model, searched in reduced spaces of different dimensions."""
    sk = ["tik", "l2dec", "tikdec", "l2"][i % 4]
    disc = bool(i // 4 % 2)
    n = 7
    A = np.diag(rng.uniform(.3, .9, n)) if disc else -np.diag(
        rng.uniform(.3, 2, n))
    W = gen.orth(rng, n, n)
    A = W @ A @ W.T
    dt = .1
    X = [rng.standard_normal(n)]
    for _ in range(40):
        X.append((A @ X[-1] if disc else X[-1] + dt * A @ X[-1])
                 + .01 * rng.standard_normal(n))
    X = np.array(X).T
    t = dt * np.arange(X.shape[1])
    cands = np.sort(10.0 ** rng.uniform(-3, 0, 3))

    def solver():
        return {"tik": lambda: L.TikhonovSolver(),
                "l2dec": lambda: L.L2DecoupledSolver(),
                "tikdec": lambda: L.TikhonovDecoupledSolver(),
                "l2": lambda: L.L2Solver()}[sk]()

    def factory(r):
        d = r + 1
        return {"tik": lambda c: c * np.ones(d),
                "l2dec": lambda c: c * np.ones(r),
                "tikdec": lambda c: [c * np.ones(d)] * r,
                "l2": lambda c: c}[sk]

    def search(model, r):
        rom = opinf.roms.ROM(
            model, basis=opinf.basis.PODBasis(num_vectors=r),
            **({} if disc else dict(
                ddt_estimator=opinf.ddt.UniformFiniteDifferencer(t))))
        kw = dict(states=X, regularizer_factory=factory(r),
                  gridsearch_only=True)
        with warnings.catch_warnings(), np.errstate(all="ignore"), \
                contextlib.redirect_stdout(io.StringIO()):
            warnings.simplefilter("ignore")
            if disc:
                rom.fit_regselect_discrete(cands, **kw)
            else:
                rom.fit_regselect_continuous(cands, t, **kw)
        return entries(rom.model), norm_reg(model.solver.regularizer, sk)
    cls = M.DiscreteModel if disc else M.ContinuousModel
    rs = [int(x) for x in rng.permutation([1, 2, 3, 4])[:3]]
    ctx.note(sk=sk, disc=disc, rs=str(rs))
    model = cls("cA", solver=solver())
    for r in rs:
        lab = f"{sk} disc={disc} {rs} r={r}"
        try:
            want = search(cls("cA", solver=solver()), r)
        except RuntimeError as ex:
            if "failed" not in str(ex):
                raise
            return
        try:
            got = search(model, r)
        except Exception as ex:
            ctx.ok(False, "search-other-dimension",
                   f"{lab} {type(ex).__name__}: {ex}")
        for a, b in zip(got, want):
            ctx.close(a, b, "search-other-dimension", rtol=1e-9, msg=lab)
