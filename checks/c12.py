"""C12: histories of solver use versus freshly built solvers."""
import numpy as np
import opinf

from rv import gen, lstsqgen as lg
from rv.core import Check

CHECK = Check(
    "C12",
    "A case drives one or more solver objects of a class through a random "
    "history (fit to other data of the same or other sizes, change of "
    "regularizer / method / number of modes / options, solve, diagnostics, "
    "rejected settings, reset, copy) and after every step compares every "
    "live object with a newly built solver with the current settings fitted "
    "once to the current data.",
    require=["solve=fresh", "diagnostics=fresh", "copy-settings",
             "untrained-after-reset", "unset-regularizer", "act-fit",
             "act-setting", "act-copy", "act-reset", "act-options",
             "act-rejected", "act-fit-same-arrays", "act-unset",
             "custom-solver"])


class Obj:
    def __init__(self, solver, s, data):
        self.solver, self.s, self.data = solver, s, data


def dims(o):
    D, Z = o.data
    return D.shape[1], np.atleast_2d(Z).shape[0], D.shape[0]


def diagnostics(solver, kind, O):
    out = [solver.cond(), solver.residual(O)]
    if kind == "tsvd":
        out += [solver.tcond(), solver.num_svdmodes, solver.max_modes]
    elif kind == "tls":
        out += [solver.augcond, solver.error]
    elif kind != "plain":
        out += [solver.regcond(), solver.regresidual(O)]
        rr = np.sum(np.asarray(solver.lhs_matrix, float) ** 2)
        if np.min(solver.regresidual(O)) > max(1e-12, 1e-8 * rr):
            mean, prec = solver.posterior()
            out += [np.asarray(mean)] + [np.asarray(p) for p in prec]
    return out


def check(ctx, o, lab, deep):
    s, kind = o.s, o.s["kind"]
    if kind in ("l2", "l2dec", "tik", "tikdec") and s["regularizer"] is None:
        with ctx.raises(AttributeError, "unset-regularizer", lab):
            o.solver.solve()
        return
    if o.data is None:
        with ctx.raises(AttributeError, "untrained-after-reset", lab):
            o.solver.solve()
        ctx.ok((o.solver.k, o.solver.d, o.solver.r) == (None,) * 3
               and o.solver.data_matrix is None
               and o.solver.lhs_matrix is None, "untrained-after-reset", lab)
        return
    D, Z = o.data
    Z2 = np.atleast_2d(Z)
    fresh = lg.build(s).fit(np.array(D), np.array(Z))
    want = fresh.solve()
    got = o.solver.solve()
    ctx.close(got, want, "solve=fresh", rtol=1e-8,
              atol=1e-10 * np.linalg.norm(Z2) / max(np.linalg.norm(
                  np.asarray(D, float), 2), 1e-300), msg=lab)
    ctx.equal(o.solver.data_matrix, D, "data-in-force", lab)
    ctx.equal(o.solver.lhs_matrix, Z2, "data-in-force", lab)
    if deep:
        for a, b in zip(diagnostics(o.solver, kind, want),
                        diagnostics(fresh, kind, want)):
            ctx.close(np.asarray(a, float), np.asarray(b, float),
                      "diagnostics=fresh", rtol=1e-7,
                      atol=1e-12 * np.sum(np.asarray(Z2, float) ** 2),
                      msg=lab)
        ctx.ok(str(o.solver).split("solver")[0].count("\n") ==
               str(fresh).split("solver")[0].count("\n"), "str", lab)


class Running(opinf.lstsq.SolverTemplate):
    """A user-defined solver that keeps state of its own."""

    def __init__(self, weights):
        super().__init__()
        self.weights = weights
        self.gram = None

    def fit(self, data_matrix, lhs_matrix):
        super().fit(data_matrix, lhs_matrix)
        self.gram = self.data_matrix.T @ self.data_matrix
        self.gram += np.diag(self.weights)
        self.rhs = self.data_matrix.T @ self.lhs_matrix.T
        return self

    def solve(self):
        return np.linalg.solve(self.gram, self.rhs).T


@CHECK.family(quick=40, thorough=1000)
def custom(ctx, rng, i):
    """Copies of user-defined solvers share nothing."""
    d, r = int(rng.integers(1, 6)), int(rng.integers(1, 4))
    w = 1 + rng.random(d)
    s = Running(w.copy())
    trained = rng.random() < .8
    D, Z = rng.standard_normal((d + 3, d)), rng.standard_normal((r, d + 3))
    D2, Z2 = rng.standard_normal((d + 5, d)), rng.standard_normal((r, d + 5))
    ctx.note(d=d, r=r, trained=trained)
    lab = f"custom d={d} r={r} trained={trained}"
    if trained:
        s.fit(D.copy(), Z.copy())
    c = s.copy()
    ctx.ok(type(c) is Running and c is not s, "copy-settings", lab)
    if rng.random() < .5:
        s, c = c, s
    c.weights *= 5
    c.fit(D2, Z2)
    if trained:
        want = Running(w).fit(D, Z).solve()
        ctx.close(s.solve(), want, "solve=fresh", rtol=1e-12, msg=lab)
        ctx.equal(s.data_matrix, D, "data-in-force", lab)
        ctx.equal(s.lhs_matrix, Z, "data-in-force", lab)
        s.reset()
        ctx.ok(s.data_matrix is None and s.lhs_matrix is None,
               "data-in-force", f"{lab} reset")
    else:
        ctx.ok(s.data_matrix is None and s.gram is None, "data-in-force",
               lab)
    ctx.equal(s.weights, w, "copy-settings", lab)
    ctx.close(c.solve(), Running(5 * w).fit(D2, Z2).solve(), "solve=fresh",
              rtol=1e-12, msg=lab)
    ctx.ev("custom-solver")


def newdata(rng, kind, d, r):
    for _ in range(50):
        D, Z = lg.problem(rng, kind, d, r)
        c = (np.linalg.cond(np.hstack((D, Z.T))) if kind == "tls"
             else np.linalg.cond(D))
        if c < 1e5:
            if (kind == "tls"
                    and lg.system_cond(dict(kind="tls"), D, Z) > 1e6):
                continue
            if r == 1 and rng.random() < 0.3:
                Z = np.array(Z[0])
            return D, Z
    return D, Z


def fresh_settings(rng, kind, data):
    D, Z = data
    return lg.settings(rng, kind, D.shape[1], np.atleast_2d(Z).shape[0],
                       D.shape[0], float(np.linalg.norm(D, 2)))


@CHECK.family(quick=420, thorough=14000)
def history(ctx, rng, i):
    kind = lg.KINDS[i % len(lg.KINDS)]
    reg = kind in ("l2", "l2dec", "tik", "tikdec")
    d, r = int(rng.integers(1, 6)), int(rng.integers(1, 4))
    data = newdata(rng, kind, d, r)
    s = fresh_settings(rng, kind, data)
    objs = [Obj(lg.build(s), s, None)]
    if rng.random() < 0.2 and reg:
        s = dict(s, regularizer=None)
        objs = [Obj(lg.build(s), s, None)]
    hist = []
    for step in range(int(rng.integers(4, 11))):
        o = gen.pick(rng, objs)
        act = gen.pick(rng, ["fit", "fit", "refit-other", "setting",
                             "setting", "solve", "copy", "reset", "options",
                             "rejected"])
        if o.data is None and act in ("setting", "options", "rejected"):
            act = "fit"
        hist.append(act)
        lab = f"{kind} " + "->".join(hist)
        if act == "fit" and o.data is not None and rng.random() < .25 and (
                o.data[0].dtype.kind == "f" == o.data[1].dtype.kind):
            # other numbers in the very arrays fitted before
            ctx.ev("act-fit-same-arrays")
            hist[-1] += "(same arrays)"
            D, Z = o.data
            old = [np.array(D), np.array(Z)]
            f = 10.0 ** rng.uniform(-1, 1)
            if D.flags.writeable and Z.flags.writeable:
                D *= f
                D[:] = D[::-1].copy()
                Z[:] = rng.standard_normal(Z.shape) * np.abs(Z).max()
                for x in objs:  # others keep what they were fitted to
                    if x is not o and x.data is not None \
                            and x.data[0] is D:
                        x.solver.fit(D, Z)
                o.solver.fit(D, Z)
        elif act in ("fit", "refit-other"):
            ctx.ev("act-fit")
            needs = (reg and o.s["regularizer"] is not None
                     and kind != "l2")
            if act == "refit-other" or o.data is None:
                if needs and not (o.data is None and step == 0):
                    # other sizes: the old regularizer has to go first
                    o.s = dict(o.s, regularizer=None)
                    o.solver.regularizer = None
                    d2, r2 = int(rng.integers(1, 6)), int(rng.integers(1, 4))
                elif step == 0 and o.data is None:
                    d2, r2 = d, r
                else:
                    d2, r2 = int(rng.integers(1, 6)), int(rng.integers(1, 4))
            else:
                d2, r2, _ = dims(o)
            new = newdata(rng, kind, d2, r2)
            for _ in range(60):  # lambda=0 / modes must stay meaningful
                under = new[0].shape[0] < d2
                bad = under and reg
                if kind == "tsvd" and o.s["num_svdmodes"] is not None:
                    m = min(new[0].shape)
                    bad = lg.nmodes(o.s, *new[0].shape) <= 0 or \
                        o.s["num_svdmodes"] > m
                if not bad:
                    break
                new = newdata(rng, kind, d2, r2)
            if bad:
                hist[-1] += "(skipped)"
                continue
            o.data = new
            o.solver.fit(*new)
        elif act == "setting":
            ctx.ev("act-setting")
            s2 = fresh_settings(rng, kind, o.data)
            if reg:
                if rng.random() < .25:  # take it away first
                    ctx.ev("act-unset")
                    o.solver.regularizer = None
                    with ctx.raises(AttributeError, "unset-regularizer", lab):
                        o.solver.solve()
                    if rng.random() < .5:
                        o.solver.fit(*o.data)
                o.solver.regularizer = s2["regularizer"]
                upd = dict(regularizer=s2["regularizer"], dense=s2["dense"])
                if "method" in s2:
                    if rng.random() < 0.6:
                        o.solver.method = s2["method"]
                        upd["method"] = s2["method"]
                o.s = dict(o.s, **upd)
            elif kind == "tsvd":
                o.solver.num_svdmodes = s2["num_svdmodes"]
                o.s = dict(o.s, num_svdmodes=s2["num_svdmodes"])
        elif act == "options":
            if kind in ("plain", "tik", "tikdec"):
                ctx.ev("act-options")
                drv = gen.pick(rng, ["gelsd", "gelsy", None])
                o.solver.options["lapack_driver"] = drv
                o.s = dict(o.s, lapack_driver=drv)
        elif act == "solve":
            if o.data is not None and not (reg and
                                           o.s["regularizer"] is None):
                O = o.solver.solve()
                diagnostics(o.solver, kind, O)
                if kind != "tls":  # (TLS hands out its stored solution)
                    O *= np.nan
        elif act == "copy":
            ctx.ev("act-copy")
            c = o.solver.copy()
            ctx.ok(type(c) is type(o.solver) and c is not o.solver,
                   "copy-settings", lab)
            if reg:
                a, b = c.regularizer, o.solver.regularizer
                ctx.ok((a is None) == (b is None) and (a is None or all(
                    np.array_equal(x, y) for x, y in zip(
                        np.atleast_1d(a), np.atleast_1d(b)))),
                       "copy-settings", lab)
            if "method" in o.s:
                ctx.ok(c.method == o.solver.method, "copy-settings", lab)
            ctx.ok(dict(c.options) == dict(o.solver.options),
                   "copy-settings", lab)
            if len(objs) < 3:
                objs.append(Obj(c, dict(o.s), o.data))
            else:
                o.solver = c
        elif act == "reset":
            ctx.ev("act-reset")
            o.solver.reset()
            o.data = None
            if reg:
                o.s = dict(o.s, regularizer=None)
        elif act == "rejected":
            if kind in ("l2dec", "tik", "tikdec"):
                ctx.ev("act-rejected")
                dd, rr, _ = dims(o)
                bad = dict(l2dec=np.ones(rr + 1), tik=np.eye(dd + 1),
                           tikdec=[np.eye(dd)] * (rr + 1))[kind]
                with ctx.raises(Exception, "rejected", lab):
                    o.solver.regularizer = bad
            elif kind == "tsvd":
                ctx.ev("act-rejected")
                with ctx.raises(ValueError, "rejected", lab):
                    o.solver.num_svdmodes = min(o.data[0].shape) + 1
            if "method" in o.s:
                with ctx.raises(ValueError, "rejected", lab):
                    o.solver.method = "svd"
        deep = rng.random() < 0.4
        for x in objs:
            check(ctx, x, lab, deep)
    ctx.note(kind=kind, hist=hist)
