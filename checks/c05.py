"""C05: caller data are never modified unless inplace is requested."""
import importlib

import numpy as np
import opinf

from rv import core, gen, pregen, basisgen, purity
from rv.core import Check, Violation, quiet

CHECK = Check(
    "C05",
    "Every public function, method, property and constructor of the package "
    "is wrapped by a monitor that, around each outermost call, compares "
    "bytes, shape, strides and flags of every array (and identities of the "
    "items of every list and dict) handed to this or to earlier calls of the "
    "case with copies taken before the call. Results of transformations "
    "without inplace may not share memory with the argument; with "
    "inplace=True they must be the argument. The workloads are samples of "
    "the cases of all other checks of this suite (their oracles are not "
    "consulted here) plus cases with hostile memory layouts (views into "
    "larger arrays, Fortran order, integers, negative strides, read-only).",
    require=["public-call", "array-compared", "list-compared",
             "no-shared-memory", "inplace-same-array", "layout",
             "default-is-no-inplace"])
OTHERS = [c for c in range(1, 34)
          if c not in (5, 27, 31, 32)]
STATE = {}
MODES = ["plain", "readonly", "padded", "fortran", "negative"]


def setup(ctx):
    if "n" not in STATE:
        STATE["n"] = purity.install()
    ctx.events["wrapped-callables"] = STATE["n"]


CHECK.setup = setup


def judge(ctx, mon, extra=""):
    for k, v in mon.counts.items():
        ctx.ev(k, v)
    mon.counts.clear()
    if mon.violations:
        rule, msg = mon.violations[0]
        raise Violation(rule, f"{msg} {extra}", f"{rule}:{msg.split('(')[0]}")


def borrow(modname, check, fam, fn, quick, thorough):
    scale = .02 if modname in ("c22", "c23") else .05
    nq = int(np.clip(quick * scale, 4, 30))

    @CHECK.family(quick=nq, thorough=max(nq * 20, int(thorough * .1)),
                  name=f"{modname}-{fam}")
    def run(ctx, rng, i):
        mon = purity.MON
        mon.begin(MODES[i % len(MODES)])
        sub = core.Ctx(check.prop, ctx.tier, ctx.seed)
        sub.case = (fam, i)
        try:
            with quiet():
                fn(sub, rng, i)
        except Exception:  # noqa: BLE001  judged by the other check
            ctx.ev("borrowed-case-stopped")
        judge(ctx, mon, f"(case {i} of {modname}-{fam}, {mon.mode})")
        ctx.note(case=i, mode=mon.mode, events=len(sub.events))


for c in OTHERS:
    name = f"c{c:02d}"
    try:
        m = importlib.import_module(f"checks.{name}")
    except ModuleNotFoundError:
        continue
    for f in m.CHECK.families:
        borrow(name, m.CHECK, *f)


# Writing into views -----------------------------------------------------------
@CHECK.family(quick=250, thorough=8000)
def inplace_views(ctx, rng, i):
    """inplace=True writes into the given view and nowhere else."""
    mon = purity.MON
    mon.begin()
    T, _, lab, n, _ = pregen.any_transformer(rng, i)
    k = int(gen.pick(rng, [2, 3, 8]))
    Q = gen.states(rng, n, k, "offset")
    with quiet():
        T.fit(Q)
    step = int(gen.pick(rng, [1, 2, -1]))
    for name in ("transform", "inverse_transform", "transform_ddts",
                 "fit_transform"):
        X = gen.states(rng, n, k, "normal")
        if name != "fit_transform" and rng.random() < .3:
            X = X[:, 0]
        call = getattr(T, name)
        with quiet():
            want = call(X, inplace=False)
            big = np.full([2 * s + 3 for s in X.shape], 77.)
            cut = tuple(slice(1, 1 + 2 * s, 2) if step == 2 else
                        slice(2, 2 + s) if step == 1 else slice(s, 0, -1)
                        for s in X.shape)
            view = big[cut]
            view[...] = X
            rest = np.ones(big.shape, bool)
            rest[cut] = False
            got = call(view, inplace=True)
        if want is NotImplemented or got is NotImplemented:
            continue
        msg = f"{lab}.{name} step={step}"
        ctx.ok(got is view, "inplace-same-array", msg)
        ctx.ok(bool(np.all(big[rest] == 77)), "wrote-outside-view", msg)
        ctx.close(view, want, "inplace-value", rtol=1e-12, msg=msg)
    judge(ctx, mon, lab)
    ctx.note(lab=lab, n=n, k=k, step=step)


@CHECK.family(quick=120, thorough=2500)
def defaults(ctx, rng, i):
    """Not mentioning inplace is not requesting it."""
    mon = purity.MON
    mon.begin(MODES[i % len(MODES)])
    T, _, lab, n, _ = pregen.any_transformer(rng, i)
    k = int(gen.pick(rng, [2, 3, 8]))
    Q = gen.states(rng, n, k, "offset")
    with quiet():
        T.fit(Q)
        for name in ("transform", "inverse_transform", "transform_ddts",
                     "fit_transform"):
            X = gen.states(rng, n, k, "normal")
            before = X.copy()
            got = getattr(T, name)(X)
            if got is NotImplemented or isinstance(
                    T, opinf.pre.NullTransformer) or (
                    isinstance(T, opinf.pre.ShiftTransformer)
                    and name == "transform_ddts"):
                continue  # documented to return the argument
            ctx.ok(got is not X, "default-is-no-inplace", f"{lab}.{name}")
            ctx.equal(X, before, "default-is-no-inplace", f"{lab}.{name}")
    judge(ctx, mon, lab)
    ctx.note(lab=lab, n=n, k=k)


@CHECK.family(quick=15, thorough=300)
def diagnostics(ctx, rng, i):
    """Plots and verify() methods."""
    import matplotlib.pyplot as plt
    mon = purity.MON
    mon.begin(MODES[i % len(MODES)])
    n, k = int(rng.integers(3, 9)), int(rng.integers(3, 9))
    Q, _ = basisgen.snapshots(rng, n, k)
    B = opinf.basis.PODBasis(num_vectors=2)
    calls = [lambda: B.fit(Q), B.verify, lambda: B.plot1D(np.arange(n)),
             B.plot_svdval_decay, B.plot_residual_energy,
             B.plot_cumulative_energy, B.plot_projection_error,
             lambda: B.plot_energy()]
    T = opinf.pre.ShiftScaleTransformer(centering=True, scaling="minmax")
    calls += [lambda: T.fit_transform(Q), T.verify]
    for L in (opinf.lift.QuadraticLifter(),
              opinf.lift.PolynomialLifter((2, 1))):
        calls += [(lambda L: lambda: L.verify(
            1 + Q ** 2, t=np.linspace(0, 1, k)))(L)]
    t = np.linspace(0, 1, k + 6)
    D = opinf.ddt.UniformFiniteDifferencer(t)
    calls += [lambda: D.verify(), lambda: D.verify(plot=True),
              lambda: opinf.ddt.InterpDerivativeEstimator(t).verify()]
    s = opinf.lstsq.L2Solver(1e-3)
    Dm, Z = rng.standard_normal((12, 3)), rng.standard_normal((2, 12))
    calls += [lambda: s.fit(Dm, Z), s.verify]
    op = opinf.operators.QuadraticOperator(rng.standard_normal((3, 6)))
    calls += [op.verify]
    for call in calls:
        with quiet():
            try:
                call()
            except Exception:  # noqa: BLE001  not judged here
                ctx.ev("diagnostic-stopped")
    plt.close("all")
    judge(ctx, mon, mon.mode)
    ctx.note(n=n, k=k, mode=mon.mode)
