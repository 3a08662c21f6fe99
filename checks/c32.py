"""C32: plots show the data they are documented to show."""
import contextlib
import re

import matplotlib
import matplotlib.pyplot as plt
import numpy as np
import opinf

from rv import gen, basisgen, opgen as og
from rv.core import Check, quiet

matplotlib.use("Agg")
P = opinf.basis
CHECK = Check(
    "C32",
    "A case calls one of the plotting functions (singular value decay, "
    "cumulative and residual energy, projection error, energy overview, "
    "basis vectors, verification plots), on new or given axes, with "
    "thresholds, limits and style options, and reads the drawn artists "
    "back: the curves are the documented quantities, each threshold is "
    "marked by its level and by the rank that belongs to it, options reach "
    "the artists, given axes are used and returned, other axes stay "
    "untouched, and plotting changes neither the object nor the data.",
    require=["curve", "threshold-level", "threshold-rank", "rank-label",
             "returned-axes", "given-axes", "new-figure", "options", "limit",
             "unchanged", "rank-returned", "vectors", "overview",
             "verify-plot", "other-axes", "no-plot"])


def level_lines(ax):
    """(horizontal levels, vertical positions) of the lines across ax."""
    hs, vs = [], []
    for ln in ax.lines:
        x, y = np.asarray(ln.get_xdata()), np.asarray(ln.get_ydata())
        if len(x) != 2:
            continue
        if ln.get_transform() == ax.get_yaxis_transform(which="grid"):
            hs.append(float(y[0]))
        elif ln.get_transform() == ax.get_xaxis_transform(which="grid"):
            vs.append(float(x[0]))
    return hs, vs


def curves(ax):
    out = []
    for ln in ax.lines:
        if ln.get_transform() == ax.transData:
            out.append(ln)
    return out


@contextlib.contextmanager
def figures():
    plt.close("all")
    try:
        yield
    finally:
        plt.close("all")


def quantity(kind, s):
    """(x, y) of the curve and rank(threshold)."""
    s = np.sort(np.asarray(s, float))[::-1]
    e = s**2
    tot = e.sum()
    if kind == "svdval":
        y = s / s[0]
        return np.arange(1, len(s) + 1), y, lambda t: int((y > t).sum()), y
    head = np.array([0.] + [e[:j].sum() for j in range(1, len(e) + 1)]) / tot
    tail = np.array([e[j:].sum() for j in range(len(e) + 1)]) / tot
    x = np.arange(len(s) + 1)
    if kind == "cumulative":
        return x, head, lambda t: int(np.argmax(head >= t)), head
    if kind == "projection":
        tail = np.sqrt(tail)
    return x, tail, lambda t: int((tail > t).sum()), tail


FUNCS = dict(svdval=P.svdval_decay, cumulative=P.cumulative_energy,
             residual=P.residual_energy)


def draw_thresholds(rng, kind, y):
    """Levels that are clearly between two values of the curve."""
    v = np.unique(y[(y > 1e-9) & (y <= 1)])
    gaps = [(a, b) for a, b in zip(v, v[1:]) if b - a > 1e-3 * b
            and b - a > 1e-10]
    if not gaps:
        return []
    n = int(rng.integers(1, min(3, len(gaps)) + 1))
    out = []
    for _ in range(n):
        a, b = gaps[int(rng.integers(len(gaps)))]
        out.append(float(a + (b - a) * rng.uniform(.3, .7)))
    return out


def inspect(ctx, lab, ax, kind, s, ts, opts, right):
    x, y, rank, _ = quantity(kind, s)
    lines = curves(ax)
    ctx.ok(len(lines) == 1, "curve", f"{lab}: {len(lines)} curves")
    got = lines[0]
    ctx.equal(np.asarray(got.get_xdata()), x, "curve", msg=lab + " x")
    gy = np.asarray(got.get_ydata(), float)
    tol = 1e-11
    if kind == "projection":   # a square root of a difference
        ctx.close(np.nan_to_num(gy**2), y**2, "curve", atol=tol, msg=lab)
    else:
        ctx.close(gy, y, "curve", atol=tol, msg=lab + " y")
    scale = "linear" if kind == "cumulative" else "log"
    ctx.ok(ax.get_yscale() == scale, "curve", f"{lab}: {ax.get_yscale()}")
    hs, vs = level_lines(ax)
    ctx.close(sorted(hs), sorted(ts), "threshold-level", rtol=1e-12, msg=lab)
    ranks = [rank(t) for t in ts]
    ctx.equal(sorted(vs), sorted(map(float, ranks)), "threshold-rank",
              msg=f"{lab} thresholds {ts}")
    said = sorted(int(m.group(1)) for t in ax.texts
                  for m in [re.search(r"r\s*=\s*(\d+)", t.get_text())] if m)
    ctx.equal(said, sorted(ranks), "rank-label", msg=lab)
    for k, v in opts.items():
        g = getattr(got, f"get_{k}")()
        ctx.ok(g == v, "options", f"{lab}: {k}={g!r}, asked for {v!r}")
    if right:
        ctx.close(ax.get_xlim()[1], min(right, x[-1] + (
            1 if kind != "svdval" else 0)), "limit", msg=lab)
    return ranks


def options(rng):
    out = {}
    if rng.random() < .5:
        out["color"] = gen.pick(rng, ["C4", "red"])
    if rng.random() < .3:
        out["linewidth"] = 3.5
    if rng.random() < .3:
        out["marker"] = gen.pick(rng, ["x", "+"])
    if rng.random() < .3:
        out["label"] = "mine"
    return out


def give(rng, ts):
    """One threshold may be given as a number."""
    if not ts:
        return None
    if len(ts) == 1 and rng.random() < .7:
        return ts[0]
    return gen.pick(rng, [list, tuple])(ts)


def axes(rng, ctx):
    """(axes to pass, another figure that must stay empty)."""
    if rng.random() < .5:
        ctx.ev("new-figure")
        return None, None
    ctx.ev("given-axes")
    fig, (a, b) = plt.subplots(1, 2)
    plt.figure()      # the current axes are somewhere else
    plt.gca()
    return a, [b, plt.gca()]


def others(ctx, lab, rest):
    if rest:
        ctx.ok(all(not a.lines and not a.texts and not a.collections
                   for a in rest), "other-axes", lab)


@CHECK.family(quick=200, thorough=3000)
def functions(ctx, rng, i):
    kind = list(FUNCS)[i % 3]
    k = int(rng.integers(2, 30))
    s = basisgen.spectrum(rng, k) * float(10. ** rng.uniform(-3, 3))
    order = rng.permutation(k) if rng.random() < .3 else np.arange(k)
    s = np.asarray(s, float)[order]
    if rng.random() < .15:
        s = np.unique(rng.integers(1, 100, k + 2))[::-1].copy()
        k = len(s)
    if k < 2 or not s.max() > 0:
        return
    ts = draw_thresholds(rng, kind, quantity(kind, s)[3])
    right = None if rng.random() < .6 else int(rng.integers(1, k + 4))
    opts = options(rng)
    lab = f"{kind} k={k} thresholds={len(ts)} right={right} {sorted(opts)}"
    ctx.note(kind=kind, k=k, ts=len(ts), right=right, opts=sorted(opts))
    keep = s.copy()
    with figures(), quiet():
        ax, rest = axes(rng, ctx)
        proj = kind == "residual" and rng.random() < .4
        kw = dict(sqrt=True) if proj else {}
        if proj:
            kind = "projection"
            ts = draw_thresholds(rng, kind, quantity(kind, s)[3])
        fn = FUNCS["residual" if proj else kind]
        given = give(rng, ts)
        out = fn(s, given, True, right, ax, **kw, **opts) if rng.random() \
            < .5 else fn(singular_values=s, threshold=given, plot=True,
                         right=right, ax=ax, **kw, **opts)
        ranks = inspect(ctx, lab, ax or plt.gca(), kind, s, ts, opts, right)
        others(ctx, lab, rest)
        if given is None:
            ctx.ok(out is None, "rank-returned", lab)
        elif np.isscalar(given):
            ctx.ok(out == ranks[0], "rank-returned", f"{lab}: {out}")
        else:
            ctx.ok(list(out) == ranks, "rank-returned", f"{lab}: {out}")
    ctx.equal(s, keep, "unchanged", lab)
    with figures(), quiet():
        out2 = fn(s, given, plot=False, **kw)
        ctx.ok(not plt.get_fignums(), "no-plot", lab)
        ctx.ok(np.array_equal(out2, out), "rank-returned", lab)


def snap(B):
    return [B.entries.copy(), B.svdvals.copy(), B.reduced_state_dimension,
            B.full_state_dimension]


@CHECK.family(quick=120, thorough=1500)
def methods(ctx, rng, i):
    n, k = int(rng.integers(3, 14)), int(rng.integers(3, 14))
    Q, _ = basisgen.snapshots(rng, n, k)
    w, _ = basisgen.weights(rng, n, gen.pick(rng, ["none", "none", "diag"]))
    r = int(rng.integers(1, min(n, k)))
    with quiet():
        B = P.PODBasis(num_vectors=r, weights=w).fit(Q)
    before = snap(B)
    s = before[1]
    kind = ["svdval", "cumulative", "residual", "projection"][i % 4]
    fn = {"svdval": B.plot_svdval_decay, "cumulative":
          B.plot_cumulative_energy, "residual": B.plot_residual_energy,
          "projection": B.plot_projection_error}[kind]
    ts = draw_thresholds(rng, kind, quantity(kind, s)[3])
    if rng.random() < .3:
        ts = []
    right = None if rng.random() < .6 else int(rng.integers(1, len(s) + 3))
    opts = options(rng)
    lab = f"plot {kind} n={n} k={k} r={r} thresholds={len(ts)} right={right}"
    ctx.note(kind=kind, n=n, k=k, r=r, ts=len(ts), right=right)
    with figures(), quiet():
        ax, rest = axes(rng, ctx)
        out = fn(give(rng, ts), right, ax, **opts) if rng.random() < .5 \
            else fn(threshold=give(rng, ts), right=right, ax=ax, **opts)
        ctx.ok(isinstance(out, plt.Axes) and (ax is None or out is ax),
               "returned-axes", lab)
        inspect(ctx, lab, out, kind, s, ts, opts, right)
        others(ctx, lab, rest)
        if ax is None:
            nf = len(plt.get_fignums())
            out2 = fn(right=right)
            ctx.ok(out2 is not out and len(plt.get_fignums()) == nf + 1,
                   "new-figure", lab)
            inspect(ctx, lab + " again", out2, kind, s, [], {}, right)
            inspect(ctx, lab + " first", out, kind, s, ts, opts, right)
    with figures(), quiet():
        # overview of a basis whose dimension was changed
        if rng.random() < .5:
            B.reduced_state_dimension = r = int(rng.integers(1, r + 1))
        B.plot_energy(right=right)
        found = {}
        for a in plt.gcf().axes:
            for ln in curves(a):
                y = np.asarray(ln.get_ydata(), float)
                for q in ("svdval", "cumulative", "residual"):
                    x, z = quantity(q, s)[:2]
                    if len(y) == len(z) and np.allclose(
                            y, z, atol=1e-10, rtol=1e-9):
                        found[q] = found.get(q, 0) + 1
            vs = level_lines(a)[1]
            ctx.ok(all(v == r for v in vs), "overview", f"{lab}: {vs} {r}")
        ctx.ok(len(found) == 3, "overview", f"{lab}: {found}")
        said = [int(m.group(1)) for a in plt.gcf().axes for t in a.texts
                for m in [re.search(r"r\s*=\s*(\d+)", t.get_text())] if m]
        ctx.ok(said and all(x == r for x in said), "overview",
               f"{lab}: labels {said}, r={r}")
    B.reduced_state_dimension = before[2]
    for a, b in zip(before, snap(B)):
        ctx.equal(b, a, "unchanged", lab)


@CHECK.family(quick=80, thorough=1500)
def vectors(ctx, rng, i):
    n = int(rng.integers(2, 10))
    r = int(rng.integers(1, n + 1))
    with quiet():
        if rng.random() < .5:
            V = gen.orth(rng, n, r)
            B = P.LinearBasis(V, check_orthogonality=False)
        else:
            B = P.PODBasis(num_vectors=r).fit(rng.standard_normal((n, n + 1)))
            if rng.random() < .5:
                B.reduced_state_dimension = r = int(rng.integers(1, r + 1))
            V = B.entries.copy()
    x = None if rng.random() < .4 else np.sort(rng.uniform(-3, 5, n))
    nv = None if rng.random() < .4 else int(rng.integers(1, r + 3))
    opts = options(rng)
    lab = f"plot1D n={n} r={r} num_vectors={nv} x={x is not None}"
    ctx.note(n=n, r=r, nv=nv, x=x is None, cls=type(B).__name__)
    with figures(), quiet():
        ax, rest = axes(rng, ctx)
        out = B.plot1D(x, nv, ax, **opts) if rng.random() < .5 else \
            B.plot1D(x=x, num_vectors=nv, ax=ax, **opts)
        ctx.ok(isinstance(out, plt.Axes) and (ax is None or out is ax),
               "returned-axes", lab)
        lines = curves(out)
        m = r if nv is None else min(nv, r)
        ctx.ok(len(lines) == m, "vectors", f"{lab}: {len(lines)} curves")
        xx = np.linspace(0, 1, n) if x is None else x
        for j, ln in enumerate(lines):
            ctx.close(np.asarray(ln.get_xdata()), xx, "vectors", msg=lab)
            ctx.equal(np.asarray(ln.get_ydata()), V[:, j], "vectors",
                      msg=f"{lab} vector {j}")
            for k, v in opts.items():
                g = getattr(ln, f"get_{k}")()
                ctx.ok(g == v, "options", f"{lab}: {k}={g!r}, not {v!r}")
        ctx.close(out.get_xlim(), (xx[0], xx[-1]), "limit", msg=lab)
        others(ctx, lab, rest)
    ctx.equal(B.entries, V, "unchanged", lab)


@CHECK.family(quick=30, thorough=200)
def verification(ctx, rng, i):
    if i % 2:
        t = np.linspace(0, 1, 20)
        scheme = gen.pick(rng, ["fwd1", "bwd2", "ctr4", "ord6", "ord2"])
        E = gen.pick(rng, [opinf.ddt.UniformFiniteDifferencer(t, scheme),
                           opinf.ddt.NonuniformFiniteDifferencer(t),
                           opinf.ddt.InterpDerivativeEstimator(t)])
        lab = type(E).__name__
        ctx.note(lab=lab, scheme=scheme)
        with figures(), quiet():
            errs = dict(E.verify(plot=True, return_errors=True))
            dts = errs.pop("dts")
            lines = {ln.get_label(): ln for ln in curves(plt.gca())}
            ctx.ok(set(lines) == set(errs), "verify-plot", lab)
            for k, v in errs.items():
                ctx.equal(np.asarray(lines[k].get_xdata()), dts,
                          "verify-plot", lab)
                ctx.equal(np.asarray(lines[k].get_ydata()), np.asarray(v),
                          "verify-plot", f"{lab} {k}")
        with figures(), quiet():
            E.verify()
            ctx.ok(not plt.get_fignums(), "no-plot", lab)
        return
    kd = gen.pick(rng, list("AHGN"))
    r, m = int(rng.integers(2, 5)), 2
    op = og.KINDS[kd][0](rng.standard_normal((r, og.ncols(kd, r, m))))
    lab = f"operator {kd}"
    ctx.note(lab=lab, r=r)
    with figures(), quiet():
        op.verify(plot=True)
        lines = curves(plt.gca())
        ctx.ok(len(lines) == 1, "verify-plot", lab)
        h, e = [np.asarray(z) for z in lines[0].get_data()]
        ctx.ok(np.all(h > 0) and len(h) == len(e) and np.all(e >= 0)
               and e.min() < 1e-5 and e[np.argmax(h)] < 1e3, "verify-plot",
               lab)
        if kd in "AN":    # linear: the error is round-off divided by h
            ctx.ok(np.all(e * h < 1e-12), "verify-plot", f"{lab}: {e * h}")
    with figures(), quiet():
        op.verify()
        ctx.ok(not plt.get_fignums(), "no-plot", lab)
