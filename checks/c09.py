"""C09: POD dimension selection."""
import numpy as np
import opinf

from rv import basisgen, gen
from rv.core import Check

CHECK = Check(
    "C09",
    "A case draws a spectrum (generic, tied, with zeros, or dyadic so that "
    "threshold ties are exact in floating point) and thresholds, selects the "
    "dimension through every interface, and compares with a brute-force "
    "evaluation of the documented inequality; histories change the dimension "
    "repeatedly and compare with a basis fitted at that dimension.",
    require=["criterion", "criterion-tie", "standalone", "num_vectors",
             "standalone-tie", "history-entries", "history-energy", "exceeds-max",
             "prefit-set"])
LD = np.longdouble
CRIT = ["svdval_threshold", "cumulative_energy", "residual_energy",
        "projection_error"]
DYADIC = [  # squared singular values, sum a power of two
    [1, .25, .25, .25, .25],
    [1, 1 / 4, 1 / 4, 1 / 4, 1 / 16, 1 / 16, 1 / 16, 1 / 16],
    [1, 1, 1, 1],
    [1, 1, 1, 1 / 4, 1 / 4, 1 / 4, 1 / 4],
    [1, 1 / 4, 1 / 4, 1 / 4, 1 / 16, 1 / 16, 1 / 16, 1 / 64, 1 / 64, 1 / 64,
     1 / 64],
    [1, 1, 0, 0],
    [1],
    [1, 1 / 4, 1 / 4, 1 / 4, 1 / 4, 0, 0, 0],
]


def brute(s, crit, val):
    """Smallest sufficient r (documented inequalities), longdouble."""
    s = np.asarray(s, LD)
    k = len(s)
    if crit == "svdval_threshold":
        return int(np.count_nonzero(s / s[0] >= val))
    tot = (s**2).sum()
    for r in range(1, k + 1):
        res = (s[r:]**2).sum() / tot
        cum = (s[:r]**2).sum() / tot
        if crit == "cumulative_energy" and cum >= val:
            return r
        if crit == "residual_energy" and res <= val:
            return r
        if crit == "projection_error" and np.sqrt(res) <= val:
            return r
    return k


def generic_threshold(rng, s, crit):
    """A threshold at a safe distance from every attainable value."""
    s = np.asarray(s, float)
    tot = (s**2).sum()
    res = np.array([(s[r:]**2).sum() / tot for r in range(len(s) + 1)])
    for _ in range(100):
        if crit == "svdval_threshold":
            vals = s / s[0]
            v = float(np.exp(rng.uniform(np.log(1e-4), 0)))
        elif crit == "cumulative_energy":
            vals = 1 - res
            v = (float(rng.uniform(0.05, 1)) if rng.integers(2)
                 else 1 - float(10.0 ** rng.uniform(-6, -1)))
        elif crit == "residual_energy":
            vals = res
            v = float(10.0 ** rng.uniform(-7, -0.01))
        else:
            vals = np.sqrt(res)
            v = float(10.0 ** rng.uniform(-4, -0.01))
        if np.all(np.abs(vals - v) > 1e-9 + 1e-9 * v) and v < 1:
            return v
    return None


def select_all(ctx, rng, U, s, crit, val, want, rule, lab):
    """Through constructor + from_svd, set_dimension, and fit."""
    kw = {crit: val}
    B = opinf.basis.PODBasis.from_svd(U, s, None, **kw)
    ctx.ok(B.reduced_state_dimension == want, rule,
           f"from_svd {lab}: r={B.reduced_state_dimension} expected {want}")
    ctx.equal(B.entries, U[:, :want], rule, msg=lab)
    B = opinf.basis.PODBasis.from_svd(U, s)
    B.set_dimension(num_vectors=int(rng.integers(1, len(s) + 1)))
    B.set_dimension(**kw)
    ctx.ok(B.reduced_state_dimension == want, rule,
           f"set_dimension {lab}: r={B.reduced_state_dimension} "
           f"expected {want}")
    ctx.equal(B.entries, U[:, :want], rule, msg=lab)


@CHECK.family(quick=500, thorough=12000)
def ties(ctx, rng, i):
    """Exact ties: the inequality is not strict."""
    sq = np.array(DYADIC[i % len(DYADIC)])
    s = np.sqrt(sq) * 2.0 ** int(rng.integers(-6, 7))
    k = len(s)
    n = k + int(rng.integers(0, 4))
    U = gen.orth(rng, n, k)
    crit = CRIT[(i // len(DYADIC)) % 4]
    tot = sq.sum()
    r = int(rng.integers(1, k + 1))
    if crit == "svdval_threshold":
        val = float(np.sqrt(sq[r - 1]))
        if val == 0:
            val = 0.5
    elif crit == "cumulative_energy":
        val = float(sq[:r].sum() / tot)
    elif crit == "residual_energy":
        val = float(sq[r:].sum() / tot)
    else:
        e = sq[r:].sum() / tot
        if np.sqrt(e) ** 2 != e:
            e = 0.25
        val = float(np.sqrt(e))
    want = brute(s, crit, val)
    lab = f"{crit}={val} squares={sq.tolist()}"
    ctx.note(crit=crit, val=val, k=k)
    select_all(ctx, rng, U, s, crit, val, want, "criterion-tie", lab)


@CHECK.family(quick=1500, thorough=30000)
def generic(ctx, rng, i):
    crit = CRIT[i % 4]
    k = int(rng.integers(1, 13))
    s = basisgen.spectrum(rng, k)
    if k > 2 and rng.integers(3) == 0:
        s[k // 2:] = 0
    if k > 2 and rng.integers(3) == 0:
        s[1] = s[0]
    s = s * 10.0 ** rng.uniform(-3, 3)
    val = generic_threshold(rng, s, crit)
    if val is None:
        return
    want = brute(s, crit, val)
    n = k + int(rng.integers(0, 4))
    lab = f"{crit}={val} svdvals={s.tolist()}"
    ctx.note(crit=crit, k=k, want=want)
    U = gen.orth(rng, n, k)
    select_all(ctx, rng, U, s, crit, val, want, "criterion", lab)
    # by fitting data with these singular values
    Q = (U * s) @ gen.orth(rng, k + 2, k).T
    B = opinf.basis.PODBasis(**{crit: val})
    if rng.integers(2):
        B = opinf.basis.PODBasis(num_vectors=1)
        B.set_dimension(**{crit: val})
    B.fit(Q)
    ctx.ok(B.reduced_state_dimension == want, "criterion",
           f"fit {lab}: r={B.reduced_state_dimension} expected {want}")
    V, sv = opinf.basis.pod_basis(Q, **{crit: val})
    ctx.ok(V.shape == (n, want), "criterion",
           f"pod_basis {lab}: r={V.shape[1]} expected {want}")


@CHECK.family(quick=600, thorough=12000)
def standalone(ctx, rng, i):
    """svdval_decay (strict), cumulative_energy, residual_energy."""
    k = int(rng.integers(1, 13))
    s = basisgen.spectrum(rng, k) * 10.0 ** rng.uniform(-3, 3)
    if rng.integers(2):
        s = rng.permutation(s)
    o = np.sort(s)[::-1]
    fn = i % 4
    crit = CRIT[fn]
    m = int(rng.integers(1, 4))
    vals = [generic_threshold(rng, o, crit) for _ in range(m)]
    if None in vals:
        return
    f = [opinf.basis.svdval_decay, opinf.basis.cumulative_energy,
         opinf.basis.residual_energy, opinf.basis.residual_energy][fn]
    kw = dict(sqrt=True) if fn == 3 else {}
    want = []
    tot = (o.astype(LD)**2).sum()
    for v in vals:
        if fn == 0:
            want.append(int(np.sum(o / o[0] > v)))
        else:
            want.append(brute(o, crit, v))
    A = gen.layout(rng, s)
    ctx.note(fn=crit, k=k, m=m)
    got = f(A, threshold=vals, plot=False, **kw)
    ctx.ok(list(got) == want, "standalone",
           f"{crit} {vals}: {got} expected {want}")
    got = f(A, threshold=vals[0], plot=False, **kw)
    ctx.ok(got == want[0], "standalone",
           f"{crit} {vals[0]}: {got} expected {want[0]}")


@CHECK.family(quick=300, thorough=4000)
def standalone_ties(ctx, rng, i):
    """Thresholds that are attained exactly."""
    sq = np.array(DYADIC[i % len(DYADIC)])
    s = np.sqrt(sq) * 2.0 ** int(rng.integers(-6, 7))
    fn = (i // len(DYADIC)) % 3
    cum, tot = np.cumsum(sq), sq.sum()
    vals = [s / s[0], cum / tot, 1 - cum / tot][fn]
    vals = [float(v) for v in vals[vals > 0]]
    if not vals:
        return
    vals = [vals[j] for j in rng.integers(0, len(vals), int(
        rng.integers(1, 4)))]
    want = [int(np.sum(s / s[0] > v)) if fn == 0 else
            brute(s, CRIT[fn], v) for v in vals]
    f = [opinf.basis.svdval_decay, opinf.basis.cumulative_energy,
         opinf.basis.residual_energy][fn]
    ctx.note(fn=fn, sq=i % len(DYADIC), vals=str(vals))
    got = f(rng.permutation(s), threshold=vals, plot=False)
    ctx.ok(list(got) == want, "standalone-tie",
           f"{CRIT[fn]} {vals} of {sq.tolist()}: {got} expected {want}")
    got = f(s, threshold=vals[0], plot=False)
    ctx.ok(got == want[0], "standalone-tie", f"{got} expected {want[0]}")


@CHECK.family(quick=400, thorough=8000)
def histories(ctx, rng, i):
    """Dimension changes equal fitting at that dimension."""
    n, k = int(rng.integers(2, 10)), int(rng.integers(2, 10))
    m = min(n, k)
    wk = ["none", "diag", "full"][i % 3]
    solver = ["dense", "method-of-snapshots"][(i // 3) % 2]
    w, W = basisgen.weights(rng, n, wk)
    s = basisgen.spectrum(rng, m, "linear")
    Q = (basisgen.worth(rng, n, m, W) * s) @ gen.orth(rng, k, m).T
    mv = None if rng.integers(2) else int(rng.integers(1, m + 1))
    avail = m if mv is None else mv
    r0 = int(rng.integers(1, avail + 1))
    B = opinf.basis.PODBasis(num_vectors=r0, max_vectors=mv, weights=w,
                             svdsolver=solver)
    pre = int(rng.integers(3))
    if pre == 1:
        r0 = int(rng.integers(1, avail + 1))
        B.reduced_state_dimension = r0
        ctx.ok(B.reduced_state_dimension == r0, "prefit-set")
    elif pre == 2:
        r0 = int(rng.integers(1, avail + 1))
        B.set_dimension(num_vectors=r0)
        ctx.ev("prefit-set")
    B.fit(Q)
    r = r0
    steps = []
    X = rng.standard_normal((n, 3))
    for _ in range(int(rng.integers(1, 6))):
        ctx.ok(B.reduced_state_dimension == r, "num_vectors",
               f"r={B.reduced_state_dimension} expected {r} after {steps}")
        F = opinf.basis.PODBasis(num_vectors=r, weights=w, max_vectors=mv,
                                 svdsolver=solver).fit(Q)
        ctx.ok(F.reduced_state_dimension == r, "num_vectors", "fresh")
        ctx.equal(B.entries, F.entries, "history-entries",
                  msg=f"after {steps}")
        ctx.equal(B.compress(X), F.compress(X), "history-entries",
                  msg=f"after {steps}")
        e = np.sum(s[:r]**2) / np.sum(s**2)
        ctx.close(np.array(B.cumulative_energy), np.array(e),
                  "history-energy", atol=1e-9, msg=f"after {steps}")
        ctx.close(np.array(B.residual_energy), np.array(1 - e),
                  "history-energy", atol=1e-9, msg=f"after {steps}")
        ctx.ok(tuple(B.shape) == (n, r) and B.max_vectors == avail,
               "num_vectors", f"shape {B.shape} max {B.max_vectors}")
        op = int(rng.integers(5))
        r = int(rng.integers(1, avail + 1))
        if op == 0:
            B.reduced_state_dimension = r
        elif op == 1:
            B.set_dimension(num_vectors=r)
        elif op == 2:
            val = generic_threshold(rng, s, "residual_energy")
            r = min(brute(s, "residual_energy", val), avail)
            B.set_dimension(residual_energy=val)
        elif op == 3:
            B.reduced_state_dimension = avail + int(rng.integers(1, 4))
            ctx.ok(B.reduced_state_dimension == avail, "exceeds-max",
                   f"r={B.reduced_state_dimension} of {avail} stored")
            r = avail
        else:
            val = generic_threshold(rng, s, "cumulative_energy")
            r = min(brute(s, "cumulative_energy", val), avail)
            B.set_dimension(cumulative_energy=val)
        steps.append((op, r))
    ctx.note(w=wk, solver=solver, steps=tuple(steps), pre=pre)


@CHECK.family(quick=100, thorough=2000)
def refit(ctx, rng, i):
    """The criterion is re-evaluated on the new data at every fit."""
    crit = CRIT[i % 4]
    n = int(rng.integers(3, 9))
    s0 = basisgen.spectrum(rng, n, "geometric")
    val = generic_threshold(rng, s0, crit)
    B = opinf.basis.PODBasis(**{crit: val})
    for _ in range(3):
        s = basisgen.spectrum(rng, n) * 10.0 ** rng.uniform(-2, 2)
        vals = None
        tot = np.sum(s**2)
        res = np.array([np.sum(s[r:]**2) / tot for r in range(n + 1)])
        vals = {"svdval_threshold": s / s[0], "cumulative_energy": 1 - res,
                "residual_energy": res, "projection_error": np.sqrt(res)}[
                    crit]
        if np.any(np.abs(vals - val) < 1e-8):
            continue
        U = gen.orth(rng, n, n)
        B.fit((U * s) @ gen.orth(rng, n + 3, n).T)
        want = brute(s, crit, val)
        ctx.ok(B.reduced_state_dimension == want, "criterion",
               f"refit {crit}={val}: {B.reduced_state_dimension} expected "
               f"{want}")
        ctx.note(crit=crit, want=want)
