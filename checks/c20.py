"""C20: refitting or copying a model forgets or shares nothing."""
import copy as copylib
import warnings

import numpy as np
import scipy.interpolate as si
import opinf

from rv import basisgen, gen, modelgen as mg, opgen as og, pregen
from rv.core import Check, quiet
from checks.c18 import PSpec, pmus

M = opinf.models
O = opinf.operators
L = opinf.lstsq
CHECK = Check(
    "C20",
    "A case drives a history of fit (with other data and, where the "
    "structure allows it, other dimensions), prediction, solver replacement, "
    "regularizer change + refit, copy and in-place damage on one model "
    "object and its copies; after each step every live object is compared "
    "with a new model built from the same specification and fitted once to "
    "that object's last data with its current solver settings.  Two further "
    "families drive transformers (all classes and nestings) and bases (POD "
    "with every criterion, solver and weighting, multi-variable) through "
    "several trainings with data of changing size and compare them with a "
    "twin trained once; quantities handed out earlier must stay as they "
    "were. Family 'operators' copies operators of every kind and state, "
    "changes one of original and copies (in place, by new entries, by "
    "deletion) and looks at the others.",
    require=["as-new", "refit", "new-dimensions", "copy-equal",
             "copy-solver", "copy-independent", "original-independent",
             "nonparametric", "parametric", "interp", "known", "predict",
             "copy-untrained", "copy-then-fit", "copy-class", "copy-refit",
             "transformer-as-new", "basis-as-new", "handed-out",
             "failed-between", "operator-copy", "operator-independent",
             "basis-copy"])


class Sol:
    """A solver setting that can be built afresh."""

    def __init__(self, rng, d, r):
        self.kind = gen.pick(rng, ["none", "scalar", "l2", "l2dec", "tik",
                                   "tikdec", "tsvd"])
        self.d, self.r = d, r
        self.draw(rng)

    def draw(self, rng):
        lam = 10.0 ** rng.uniform(-2, 0)
        self.reg = dict(
            none=None, scalar=lam, l2=lam,
            l2dec=lam * rng.uniform(.5, 2, self.r),
            tik=lam * rng.uniform(.5, 2, self.d),
            tikdec=[lam * rng.uniform(.5, 2, self.d) for _ in range(self.r)],
            tsvd=int(rng.integers(1, min(self.d, 6) + 1)))[self.kind]

    def arg(self):
        r = self.reg
        k = self.kind
        if k in ("none", "scalar"):
            return r
        return dict(l2=L.L2Solver, l2dec=L.L2DecoupledSolver,
                    tik=L.TikhonovSolver, tikdec=L.TikhonovDecoupledSolver,
                    tsvd=L.TruncatedSVDSolver)[k](
            [np.array(x) for x in r] if k == "tikdec" else
            (np.array(r) if np.ndim(r) else r))

    def put(self, solver):
        """Change the settings of a live solver object."""
        if self.kind == "tsvd":
            solver.num_svdmodes = self.reg
        elif self.kind != "none":
            solver.regularizer = (
                [np.array(x) for x in self.reg] if self.kind == "tikdec"
                else (np.array(self.reg) if np.ndim(self.reg) else self.reg))

    def clone(self):
        import copy
        return copy.deepcopy(self)


class Non:
    label = "nonparametric"

    def __init__(self, rng):
        self.cls = gen.pick(rng, [M.DiscreteModel, M.ContinuousModel,
                                  mg.Steady])
        self.kinds, self.r, self.m = mg.structure(
            rng, letters="cAHGBN", steady=self.cls is mg.Steady, maxr=3)
        self.known = {}
        if len(self.kinds) > 1 and rng.random() < .4:
            k = gen.pick(rng, self.kinds)
            self.known[k] = og.entries(rng, k, self.r, self.m)
        self.hasu = mg.uses(self.kinds)
        self.lab = f"{self.cls.__name__} {self.kinds} known={[*self.known]}"

    def dims(self, rng, new):
        if new and not self.known:
            self.r = int(rng.integers(1, 4))
        if new and not any(k in "BN" for k in self.known):
            self.m = int(rng.integers(1, 4))

    def d(self):
        return sum(og.ncols(k, self.r, self.m) for k in self.kinds
                   if k not in self.known)

    def build(self, sol):
        ops = []
        for k in self.kinds:
            if k in self.known:
                E = self.known[k].copy()
                ops.append(og.KINDS[k][0](E[:, 0] if k == "c" else E))
            else:
                ops.append(og.KINDS[k][0]())
        return self.cls(ops, solver=sol)

    def data(self, rng):
        Q, U = mg.samples(rng, self.d(), self.r, self.m)
        Z = rng.standard_normal(Q.shape)
        return (Q, Z, U) if self.hasu else (Q, Z)

    def entries(self, model):
        return [None if o.entries is None else og.dense(o).copy()
                for o in model.operators]

    def solvers(self, model):
        return [model.solver]

    def probe(self, model, seed):
        g = np.random.default_rng(seed)
        r, m = model.state_dimension, model.input_dimension
        q, u = g.standard_normal(r), g.standard_normal(m or 1)
        if self.cls is M.ContinuousModel:
            f = (lambda t: u) if self.hasu else None
            return [model.rhs(.2, q, f), model.predict(
                .1 * q, np.linspace(0, .01, 3), f)]
        if self.cls is mg.Steady:
            return [model.rhs(q), model.jacobian(q)]
        U = np.column_stack([u, u, u])
        return [model.rhs(q, u if self.hasu else None),
                model.predict(.1 * q, 3, U if self.hasu else None)]


class Par:
    label = "parametric"

    def __init__(self, rng):
        self.rng0 = int(rng.integers(2**31))
        self.p = int(rng.integers(1, 3))
        self.mus = pmus(rng, self.p, 5)
        self.s = len(self.mus)
        self.sp = self.spec()
        self.disc = bool(rng.integers(2))
        self.cls = (M.ParametricDiscreteModel if self.disc
                    else M.ParametricContinuousModel)
        self.r, self.m = self.sp.r, self.sp.m
        self.hasu = self.sp.hasu
        self.known = any(self.sp.known)
        self.lab = (f"{self.cls.__name__} "
                    f"{list(zip(self.sp.kinds, self.sp.types, self.sp.known))}"
                    f" p={self.p}")

    def spec(self):
        self.mus0 = self.mus
        return PSpec(np.random.default_rng(self.rng0), len(self.mus), self.p,
                     self.mus)

    def dims(self, rng, new):
        if new and not self.known:
            self.r = int(rng.integers(1, 4))
            self.m = int(rng.integers(1, 4))
            if not any(t == "interp" for t in self.sp.types) \
                    or rng.random() < .5:
                self.mus = pmus(rng, self.p, int(rng.integers(4, 7)))
                self.s = len(self.mus)

    def d(self):
        n = 0
        for k, t, kn, T in zip(self.sp.kinds, self.sp.types, self.sp.known,
                               self.sp.terms):
            if not kn:
                c = self.s if t == "interp" else len(T)
                n += c * og.ncols(k, self.r, self.m)
        return n

    def build(self, sol):
        ops = self.spec_ops()
        return self.cls(ops, solver=sol)

    def spec_ops(self):
        # same random stream -> same structure and known entries
        g = np.random.default_rng(self.rng0)
        return PSpec(g, len(self.mus0), self.p, self.mus0).ops

    def data(self, rng):
        k = 4 + int(np.ceil(2 * self.d() / self.s))
        Qs = [rng.standard_normal((self.r, k + int(rng.integers(3))))
              for _ in range(self.s)]
        Zs = [rng.standard_normal(Q.shape) for Q in Qs]
        out = (list(self.mus), Qs, Zs)
        if self.hasu:
            out += ([rng.standard_normal((self.m, Q.shape[1])) for Q in Qs],)
        return out

    def entries(self, model):
        return [None if o.entries is None else np.array(
            [og.dense(o)] if not hasattr(o, "evaluate") else list(o.entries),
            float) for o in model.operators]

    def solvers(self, model):
        return [model.solver]

    def probe(self, model, seed):
        g = np.random.default_rng(seed)
        r, m = model.state_dimension, model.input_dimension
        q, u = g.standard_normal(r), g.standard_normal(m or 1)
        mu = self.mus[0]
        if self.disc:
            U = np.column_stack([u, u])
            return [model.rhs(mu, q, u if self.hasu else None),
                    model.predict(mu, .1 * q, 2, U if self.hasu else None)]
        f = (lambda t: u) if self.hasu else None
        return [model.rhs(.1, mu, q, f), model.jacobian(.1, mu, q, f)]


class Int(Par):
    label = "interp"

    def __init__(self, rng):
        self.p = gen.pick(rng, [1, 1, 2])
        self.mus = pmus(rng, self.p, 4)
        self.s = len(self.mus)
        self.kinds, self.r, self.m = mg.structure(rng, letters="cAHBN",
                                                  maxr=3, nmax=3)
        self.hasu = mg.uses(self.kinds)
        self.kn = {}
        if len(self.kinds) > 1 and rng.random() < .3:
            k = gen.pick(rng, self.kinds)
            self.kn[k] = [og.entries(rng, k, self.r, self.m)
                          for _ in range(self.s)]
        self.known = bool(self.kn)
        self.disc = bool(rng.integers(2))
        self.cls = (M.InterpDiscreteModel if self.disc
                    else M.InterpContinuousModel)
        self.lab = (f"{self.cls.__name__} {self.kinds} known={[*self.kn]} "
                    f"p={self.p}")

    def d(self):
        return sum(og.ncols(k, self.r, self.m) for k in self.kinds
                   if k not in self.kn)

    def build(self, sol):
        ops = []
        for k in self.kinds:
            if k in self.kn:
                ops.append(og.INT[k](self.mus, entries=[
                    (E[:, 0] if k == "c" else E).copy()
                    for E in self.kn[k]]))
            else:
                ops.append(k)
        return self.cls(ops, solver=sol)

    def dims(self, rng, new):
        if new and not self.known:
            self.r = int(rng.integers(1, 4))
            self.m = int(rng.integers(1, 4))
            self.mus = pmus(rng, self.p, int(rng.integers(3, 6)) + self.p)
            self.s = len(self.mus)

    def solvers(self, model):
        return model.solvers


SPECS = [Non, Non, Par, Int]


class Live:
    """One live model and what it must be equivalent to."""

    def __init__(self, spec, model, sol, data=None, spec_state=None):
        self.spec, self.model, self.sol, self.data = spec, model, sol, data
        self.want = None


def deep(data):
    return tuple([np.array(x) if np.ndim(x) else float(x) for x in a]
                 if isinstance(a, list) else np.array(a) for a in data)


def fresh(spec, sol, data):
    m = spec.build(sol.arg())
    m.fit(*deep(data))
    return spec.entries(m), m


def same(ctx, spec, got, want, rule, lab, tol=1e-10):
    ctx.ok(len(got) == len(want), rule, lab)
    for a, b in zip(got, want):
        if a is None or b is None:
            ctx.ok(a is None and b is None, rule, f"{lab} untrained operator")
            continue
        ctx.close(a, b, rule, rtol=tol, atol=1e-13, msg=lab,
                  scale=max(np.abs(x).max() for x in want if x is not None))


@CHECK.family(quick=1200, thorough=30000)
def history(ctx, rng, i):
    spec = SPECS[i % len(SPECS)](rng)
    ctx.ev(spec.label)
    if spec.known:
        ctx.ev("known")
    sol = Sol(rng, spec.d(), spec.r)
    model = spec.build(sol.arg())
    lab = spec.lab
    steps = []
    live = []
    data = None
    cur = dict(model=model, sol=sol, data=None, want=None, mus=None)
    live.append(cur)
    n = int(rng.integers(3, 8))
    for step in range(n):
        cur = gen.pick(rng, live)
        model, sol = cur["model"], cur["sol"]
        act = gen.pick(rng, ["fit", "fit", "fit", "refit", "solver", "copy",
                             "copy", "predict", "damage"])
        if cur["data"] is None and act in ("refit", "predict", "damage"):
            act = "fit"
        if step == 0 and rng.random() < .7:
            act = "fit"
        if act in ("refit", "damage") and not cur["solved"]:
            act = "fit"
        steps.append(act)
        where = f"{lab} {sol.kind} {'>'.join(steps)}"
        if act == "fit":
            new = cur["data"] is not None and rng.random() < .5
            old = (spec.r, spec.m)
            spec.dims(rng, new)
            if spec.d() != sol.d or spec.r != sol.r or (
                    sol.kind != "none" and rng.random() < .2):
                sol = Sol(rng, spec.d(), spec.r)
                if sol.kind == "scalar" and rng.random() < .5:
                    model.solver = L.L2Solver(sol.reg)
                else:
                    model.solver = sol.arg()
                cur["sol"] = sol
            if (spec.r, spec.m) != old:
                ctx.ev("new-dimensions")
            data = spec.data(rng)
            ctx.ok(model.fit(*deep(data)) is model, "as-new", where)
            cur["data"] = data
            cur["mus"] = getattr(spec, "mus", None)
            cur["want"], fm = fresh(spec, sol, data)
            cur["solved"] = True
            same(ctx, spec, spec.entries(model), cur["want"], "as-new",
                 where)
            ctx.ok(model.state_dimension == spec.r, "as-new", where)
            ctx.ok(model.input_dimension == (spec.m if spec.hasu else 0),
                   "as-new", where)
            x = int(rng.integers(2**31))
            for a, b in zip(spec.probe(model, x), spec.probe(fm, x)):
                ctx.close(a, b, "as-new", rtol=1e-8, atol=1e-11, msg=where)
            if cur.get("copied"):
                ctx.ev("copy-then-fit")
        elif act == "refit":
            if sol.kind == "none":
                model.refit()
            else:
                sol = sol.clone()
                sol.draw(rng)
                cur["sol"] = sol
                for s in spec.solvers(model):
                    sol.put(s)
                if spec.label == "interp":
                    sol.put(model.solver)
                model.refit()
            spec2mus = getattr(spec, "mus", None)
            if cur["mus"] is not None:
                spec.mus, spec.s = cur["mus"], len(cur["mus"])
            cur["want"], _ = fresh(spec, sol, cur["data"])
            if cur["mus"] is not None:
                spec.mus, spec.s = spec2mus, len(spec2mus)
            same(ctx, spec, spec.entries(model), cur["want"], "refit", where)
            if cur.get("copied"):
                ctx.ev("copy-refit")
        elif act == "solver":
            # replacing the solver changes nothing until the next fit
            sol = Sol(rng, sol.d, sol.r)
            model.solver = sol.arg()
            cur["sol"] = sol
            cur["solved"] = False
        elif act == "copy":
            c = model.copy()
            ctx.ok(type(c) is type(model), "copy-class", where)
            ctx.ok(c is not model and all(
                a is not b for a, b in zip(c.operators, model.operators)),
                "copy-class", where)
            same(ctx, spec, spec.entries(c), spec.entries(model),
                 "copy-equal", where, 0)
            if spec.label != "parametric":  # affine: identity comparison
                ctx.ok(c == model and model == c, "copy-equal", where)
            ctx.ok(type(c.solver) is type(model.solver)
                   and c.solver is not model.solver, "copy-solver",
                   f"{where} {type(c.solver)} vs {type(model.solver)}")
            for a in ("regularizer", "num_svdmodes", "method"):
                if hasattr(model.solver, a) and not (
                        a == "num_svdmodes" and cur["data"] is None):
                    va, vb = getattr(model.solver, a), getattr(c.solver, a)
                    ctx.ok(str(va) == str(vb), "copy-solver",
                           f"{where} {a}: {vb} != {va}")
            if cur["data"] is None:
                ctx.ev("copy-untrained")
            else:
                ctx.ok(c.state_dimension == model.state_dimension
                       and c.input_dimension == model.input_dimension,
                       "copy-equal", where)
            # a copied interp model cannot refit() before fit(): loud error
            solved = cur.get("solved", False) and spec.label != "interp"
            live.append(dict(model=c, sol=sol.clone(), data=cur["data"],
                             want=cur["want"], mus=cur["mus"], copied=True,
                             solved=solved))
            if len(live) > 3:
                live.pop(0)
        elif act == "predict":
            x = int(rng.integers(2**31))
            keepmus = getattr(spec, "mus", None)
            if cur["mus"] is not None:
                spec.mus = cur["mus"]
            A = spec.probe(model, x)
            B = spec.probe(model, x)
            spec.mus = keepmus
            for a, b in zip(A, B):
                ctx.equal(a, b, "predict", where)
        elif act == "damage":
            # overwrite learned entries in place, then solve again
            for op in model.operators:
                es = op.entries
                for e in (es if isinstance(es, (list, tuple)) else [es]):
                    if isinstance(e, np.ndarray) and e.dtype.kind == "f" \
                            and not spec.known and e.flags.writeable:
                        e[...] = 99.0
            for j, o in enumerate(live):
                if o is not cur and o["want"] is not None:
                    same(ctx, spec, spec.entries(o["model"]), o["want"],
                         "copy-independent", f"{where} (overwritten, {j})")
                    ctx.ev("overwrite-copy")
            model.refit()
            same(ctx, spec, spec.entries(model), cur["want"], "refit",
                 where + " after damage")
        for j, o in enumerate(live):
            if o["want"] is not None:
                rule = ("as-new" if o is cur else
                        ("copy-independent" if o.get("copied")
                         else "original-independent"))
                same(ctx, spec, spec.entries(o["model"]), o["want"], rule,
                     f"{where} (object {j})")
            else:
                es = spec.entries(o["model"])
                ctx.ok(any(e is None for e in es), "copy-independent",
                       f"{where} untrained object {j} became trained")
    ctx.note(spec=lab, steps=">".join(steps))


# Transformers and bases ------------------------------------------------------
LEARNED = ("mean_", "scale_", "shift_", "entries", "leftvecs", "svdvals",
           "rightvecs", "reduced_state_dimension", "full_state_dimension",
           "state_dimension", "cumulative_energy", "residual_energy",
           "max_vectors", "shape", "variable_sizes", "full_variable_sizes",
           "reduced_variable_sizes", "reference", "scaler", "weights")


def learned(obj, where=""):
    """{path: value} of everything an object learned, parts included."""
    out = {}
    for a in LEARNED:
        if isinstance(getattr(type(obj), a, None), property):
            v = getattr(obj, a)
            out[f"{where}.{a}"] = v.toarray() if hasattr(v, "toarray") else v
    for a in ("transformers", "bases"):
        for j, part in enumerate(getattr(obj, a, ())):
            out.update(learned(part, f"{where}{j}"))
    return out


def same_learned(ctx, a, b, rule, lab):
    a, b = learned(a), learned(b)
    ctx.ok(a.keys() == b.keys(), rule, lab)
    for k in a:
        x, y = a[k], b[k]
        ok = (x is None and y is None) or (
            x is not None and y is not None and np.shape(x) == np.shape(y)
            and np.array_equal(np.asarray(x), np.asarray(y)))
        ctx.ok(ok, rule, lambda: f"{lab}: {k} = {x} instead of {y}")


def hand_out(obj):
    return [(k, v, np.array(v)) for k, v in learned(obj).items()
            if isinstance(v, np.ndarray)]


def still(ctx, handed, lab):
    for k, v, was in handed:
        ctx.ok(np.array_equal(v, was), "handed-out",
               f"{lab}: {k} handed out earlier changed")


def resizable(T):
    """The number of rows may change from one training to the next."""
    return (type(T) is opinf.pre.ShiftScaleTransformer or
            type(T) is opinf.pre.NullTransformer)


def train(rng, obj, Q):
    """Train through one of the public ways; returns what came out."""
    if isinstance(obj, opinf.basis.BasisTemplate) or hasattr(obj, "bases"):
        if rng.random() < .4:
            return obj.fit_compress(Q) if hasattr(obj, "fit_compress") \
                else obj.fit(Q).compress(Q)
        obj.fit(Q)
        return obj.compress(Q)
    w = int(rng.integers(3))
    if w == 0:
        obj.fit(Q.copy())
        return obj.transform(Q.copy())
    if w == 1:
        return obj.fit_transform(Q.copy())
    return obj.fit_transform(Q.copy(), inplace=True)


def between(ctx, rng, obj, n):
    """What may happen between two trainings; none of it is training."""
    w = int(rng.integers(4))
    if w == 0:
        try:
            obj.fit(np.ones((n + 2, 3)) if not resizable(obj) else
                    np.ones(3))
        except Exception:  # noqa: BLE001
            ctx.ev("failed-between")
            return True
        return False
    if w == 1:
        obj.__str__()
    return True


@CHECK.family(quick=700, thorough=16000)
def transformers(ctx, rng, i):
    seed = int(rng.integers(2**40))

    def make():
        return pregen.any_transformer(np.random.default_rng(seed), i)

    T, _, lab, n, _ = make()
    trail = []
    with quiet():
        for rnd in range(int(rng.integers(2, 4))):
            if resizable(T) and not (getattr(T, "byrow", False)) and \
                    rng.random() < .4:
                n = int(rng.integers(1, 9))
            Q, kind = pregen.train_states(rng, n)
            trail.append(f"{Q.shape}{kind}")
            out = train(rng, T, Q)
            new = make()[0]
            new.fit(Q.copy())
            where = f"{lab} {' > '.join(trail)}"
            same_learned(ctx, T, new, "transformer-as-new", where)
            X = gen.states(rng, n, 3, kind)
            ctx.equal(T.transform(X), new.transform(X), "transformer-as-new",
                      where)
            ctx.equal(T.inverse_transform(X), new.inverse_transform(X),
                      "transformer-as-new", where)
            ctx.close(out, new.transform(Q.copy()), "transformer-as-new",
                      rtol=1e-9, msg=where,
                      scale=max(1e-300, np.abs(out).max()))
            if type(T) is opinf.pre.ShiftScaleTransformer:
                ctx.ok(bool(T == new), "transformer-as-new", where + " ==")
            if rnd:
                still(ctx, handed, where)
            twin = copylib.deepcopy(T)
            handed = hand_out(T) + [("output", out, out.copy())]
            if rng.random() < .3:
                if between(ctx, rng, T, n) and type(T).__name__ not in (
                        "TransformerPipeline", "TransformerMulti"):
                    same_learned(ctx, T, twin, "transformer-as-new",
                                 where + " after a rejected training")
    ctx.note(lab=lab, trail=str(trail))


CRITERIA = ["num_vectors", "cumulative_energy", "residual_energy",
            "svdval_threshold", "projection_error"]


def any_basis(rng, n, sizes):
    def pod(n):
        crit = gen.pick(rng, CRITERIA)
        val = (int(rng.integers(1, n + 3)) if crit == "num_vectors"
               else float(rng.uniform(.3, .999)) if crit != "residual_energy"
               else float(10 ** rng.uniform(-4, -.3)))
        kw = {crit: val}
        if rng.random() < .4:
            kw["max_vectors"] = int(rng.integers(1, n + 3))
        solver = gen.pick(rng, basisgen.SOLVERS)
        if solver == "randomized":
            kw["random_state"] = int(rng.integers(1000))
        w, W = basisgen.weights(rng, n, gen.pick(
            rng, ["none", "none", "diag", "full"]))
        return opinf.basis.PODBasis(weights=w, svdsolver=solver, **kw), (
            f"POD({kw},{solver},{np.ndim(w)})")

    if len(sizes) == 1:
        return pod(n)
    parts = [pod(s) if rng.random() < .7 else
             basisgen.linear(rng, s)[::3] for s in sizes]
    vs = None if len(set(sizes)) == 1 and rng.random() < .5 else sizes
    return (opinf.basis.BasisMulti([b for b, _ in parts], vs),
            "Multi" + str([x for _, x in parts]))


@CHECK.family(quick=700, thorough=16000)
def bases(ctx, rng, i):
    seed = int(rng.integers(2**40))
    nv = 1 if i % 3 else int(rng.integers(2, 4))
    sizes = [int(x) for x in rng.integers(1, 7, nv)]
    if rng.random() < .5:
        sizes = [sizes[0]] * nv
    n = sum(sizes)

    def make():
        return any_basis(np.random.default_rng(seed), n, sizes)

    B, lab = make()
    trail, copies = [], []
    free = nv == 1 and B.weights is None
    with quiet(), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for rnd in range(int(rng.integers(2, 4))):
            nn = n
            if free and rng.random() < .3:
                nn = int(rng.integers(1, 10))
            k = int(gen.pick(rng, [1, 2, 3, 6, 12]))
            # enough snapshots that no eigenvalue is pure noise
            Q, _ = basisgen.snapshots(rng, nn, k)
            if nv > 1:
                Q = np.vstack([basisgen.snapshots(rng, s, k)[0]
                               for s in sizes])
            trail.append(str(Q.shape))
            where = f"{lab} {' > '.join(trail)}"
            new = make()[0]
            want = outcome(lambda: train(rng, new, Q))
            got = outcome(lambda: train(rng, B, Q))
            ctx.ok((want is None) == (got is None), "basis-as-new",
                   f"{where}: only one of new and used can be trained")
            if got is None:
                # loudly rejected for both: nothing to compare
                ctx.ev("failed-between")
                break
            same_learned(ctx, B, new, "basis-as-new", where)
            ctx.equal(got, want, "basis-as-new", where)
            X = rng.standard_normal((nn, 3))
            ctx.equal(B.compress(X), new.compress(X), "basis-as-new", where)
            ctx.equal(B.project(X), new.project(X), "basis-as-new", where)
            if rnd:
                still(ctx, handed, where)
            for c, was, X0, Y0, at in copies:
                now = learned(c)
                ctx.ok(now.keys() == was.keys() and all(
                    np.array_equal(now[k], was[k]) for k in was),
                    "basis-copy", f"{where}: copy made {at} changed")
                ctx.equal(c.compress(X0), Y0, "basis-copy", where)
            c = B.copy() if hasattr(B, "copy") else copylib.deepcopy(B)
            ctx.ok(type(c) is type(B), "copy-class", where)
            same_learned(ctx, c, B, "basis-copy", where)
            Y = c.compress(X)
            ctx.close(Y, B.compress(X), "basis-copy", rtol=1e-12,
                      msg=where, scale=np.abs(Y).max(initial=0))
            if rng.random() < .3:
                # the copy is damaged, not the original
                for v in learned(c).values():
                    if isinstance(v, np.ndarray) and v.flags.writeable:
                        v[...] = 7
                same_learned(ctx, B, new, "basis-copy", where + " damaged")
                ctx.equal(B.compress(X), new.compress(X), "basis-copy",
                          where + " damaged")
            else:
                copies.append((c, {k: copylib.deepcopy(v) for k, v in
                                   learned(c).items()}, X, Y, rnd))
            handed = hand_out(B) + [("output", got, got.copy())]
            if rng.random() < .3:
                if not between(ctx, rng, B, nn):
                    break
    ctx.note(lab=lab, trail=str(trail))


def outcome(f):
    try:
        return f()
    except Exception:  # noqa: BLE001
        return None


def some_operator(rng, r, m):
    """(operator, parametric?, calls(op) -> list of arrays, label)."""
    what = gen.pick(rng, ["plain", "plain", "poly", "affine", "interp"])
    q, u = rng.standard_normal(r), rng.standard_normal(m)
    K = rng.standard_normal((r, 3)), rng.standard_normal((m, 3))

    def look(op):
        out = [op.apply(q, u), op.apply(*K), op.shape, op.state_dimension]
        if hasattr(op, "jacobian"):
            out.append(op.jacobian(q, u))
        return out
    if what == "plain":
        op, E, form = og.make(rng, gen.pick(rng, "cAHGQBN"), r, m)
        return op, look, f"{type(op).__name__} {form}"
    if what == "poly":
        p = int(rng.integers(0, 6))
        op = O.PolynomialOperator(p)
        op.set_entries(rng.standard_normal((r, op.operator_dimension(r=r))))
        return op, (lambda op: [op.apply(q), op.shape, op.polynomial_order,
                                op.state_dimension]), f"polynomial {p}"
    kd = gen.pick(rng, list(og.AFF))
    s = int(rng.integers(3, 6))
    Es = [og.entries(rng, kd, r, m).astype(float) for _ in range(s)]
    if kd == "c":
        Es = [E[:, 0] for E in Es]
    if what == "affine":
        op = og.AFF[kd](lambda mu: [np.cos(j * mu) for j in range(s)],
                        nterms=s, entries=Es)
        if rng.random() < .5:
            op.parameter_dimension = 1
        mus = [0.3, -1.2]
    else:
        mus = np.sort(rng.uniform(-1, 1, s)) + np.arange(s)
        op = og.INT[kd](mus, entries=Es)
        mus = [mus[1], .5 * mus[0] + .5 * mus[1]]
    return op, (lambda op: [op.apply(mu, q, u) for mu in mus]
                + [og.dense(op.evaluate(mu)) for mu in mus]
                + [op.shape, op.state_dimension, op.parameter_dimension]
                + [np.array(E) for E in op.entries]), \
        f"{type(op).__name__} {s} matrices"


def damage(rng, op, lab):
    """Change one operator for good."""
    act = gen.pick(rng, ["inplace", "inplace", "set", "clear"])
    E = op.entries
    if act == "inplace":
        for X in (E if not isinstance(E, np.ndarray) else [E]):
            if hasattr(X, "data") and not isinstance(X, np.ndarray):
                X = X.data       # sparse
            if X.size and not X.flags.writeable:
                return damage(rng, op, lab)
            if X.size:
                X[...] = rng.integers(20, 90)
    elif act == "set":
        if isinstance(E, list) or "Interp" in lab:
            op.set_entries([3 * np.array(X) + 1 for X in E])
        else:
            E = og.dense(op)
            if "Polynomial" in type(op).__name__:
                E = np.reshape(E, (E.shape[0], -1))
            op.set_entries(3 * E + 1)
    else:
        op._clear()
    return act


@CHECK.family(quick=500, thorough=12000)
def operators(ctx, rng, i):
    """Copies of operators share nothing with the original."""
    r, m = int(rng.integers(1, 5)), int(rng.integers(1, 4))
    with quiet():
        op, look, lab = some_operator(rng, r, m)
        want = [x.toarray() if hasattr(x, "toarray") else
                copylib.deepcopy(x) for x in look(op)]
        live = [op]
        for _ in range(int(rng.integers(1, 4))):
            new = gen.pick(rng, live).copy()
            ctx.ok(type(new) is type(op), "copy-class", lab)
            live.append(new)
        ctx.note(op=lab, copies=len(live) - 1)

        def same(x, where):
            got = look(x)
            for a, b in zip(got, want):
                a = a.toarray() if hasattr(a, "toarray") else a
                ctx.close(a, b, where, rtol=1e-11, atol=1e-13 * np.max(
                    np.abs(b), initial=0) if np.ndim(b) else 0, msg=lab)
            ctx.ok(len(got) == len(want), where, lab)
        for x in live:
            same(x, "operator-copy")
        while len(live) > 1:
            x = live.pop(int(rng.integers(len(live))))
            act = damage(rng, x, lab)
            ctx.ev("damage-" + act)
            for y in live:
                same(y, "operator-independent")


@CHECK.family(quick=150, thorough=4000)
def uncalibrated(ctx, rng, i):
    """Copies made before the entries are known behave like the original."""
    r, m = int(rng.integers(1, 4)), int(rng.integers(1, 3))
    what = ["interp", "affine", "plain"][i % 3]
    kd = gen.pick(rng, list(og.AFF))
    s = int(rng.integers(3, 6))
    Es = [og.entries(rng, kd, r, m).astype(float) for _ in range(s)]
    if kd == "c":
        Es = [E[:, 0] for E in Es]
    mus = np.sort(rng.uniform(-1, 1, s)) + np.arange(s)
    probe = [mus[0], .3 * mus[0] + .7 * mus[1], .5 * (mus[-1] + mus[-2])]
    early = bool(rng.random() < .5)
    lab = f"{what} {kd} s={s} parameters set before copying={early}"
    if what == "interp":
        IC = gen.pick(rng, [None, si.CubicSpline, si.PchipInterpolator,
                            si.Akima1DInterpolator])
        lab += f" {IC}"
        a = og.INT[kd](InterpolatorClass=IC)
        if early:
            a.set_training_parameters(mus.copy())
    elif what == "affine":
        a = og.AFF[kd](lambda mu: [np.cos(j * mu) for j in range(s)],
                       nterms=s)
        if early:
            a.parameter_dimension = 1
    else:
        a = og.KINDS[kd][0]()
        probe = [None]
    b = a.copy()
    if rng.random() < .3:
        b = b.copy()
    if rng.random() < .3:    # in the company of a model
        cls = dict(interp=opinf.models.InterpContinuousModel,
                   affine=opinf.models.ParametricContinuousModel,
                   plain=opinf.models.ContinuousModel)[what]
        b = cls([a]).copy().operators[0]
        lab += " by its model"
    ctx.note(lab=lab)
    out = []
    for op in (a, b):
        ctx.ok(op.entries is None, "operator-copy", lab + " has entries")
        if what == "interp" and not early:
            op.set_training_parameters(mus.copy())
        op.set_entries([E.copy() for E in Es] if what != "plain"
                       else Es[0].copy())
        out.append([og.dense(op.evaluate(mu) if mu is not None else op)
                    for mu in probe])
    for x, y in zip(*out):
        ctx.close(y, x, "operator-copy", rtol=1e-12, atol=1e-13 * (
            1 + np.abs(x).max()), msg=lab)
    ctx.ok(type(a) is type(b), "copy-class", lab)


class Stiff(O.OperatorTemplate):
    """A user-defined operator with its own, nested data."""

    def __init__(self, A, more):
        self.A, self.more = A, more

    @property
    def state_dimension(self):
        return len(self.A)

    def apply(self, state, input_=None):
        return self.A @ state + self.more["shift"][0]


class StiffParam(O.ParametricOperatorTemplate):
    """A user-defined parametric operator."""

    def __init__(self, A, more):
        self.A, self.more = A, more

    @property
    def state_dimension(self):
        return len(self.A)

    @property
    def parameter_dimension(self):
        return 1

    def evaluate(self, parameter):
        mu = float(np.ravel(parameter)[0])
        return Stiff(mu * self.A, self.more)


@CHECK.family(quick=100, thorough=2000)
def user_operators(ctx, rng, i):
    """Copies of user-defined operators, alone or in models."""
    r = int(rng.integers(1, 5))
    A = rng.standard_normal((r, r))
    sh = [float(rng.standard_normal())]
    par = bool(i % 2)
    inmodel = bool(i // 2 % 2)
    disc = bool(i // 4 % 2)
    q = rng.standard_normal(r)
    op = (StiffParam if par else Stiff)(A.copy(), dict(shift=list(sh)))
    args = [1.5] if par else []
    want = (1.5 if par else 1.) * A @ q + sh[0]
    lab = f"{type(op).__name__} r={r} model={inmodel} {disc}"
    ctx.note(par=par, inmodel=inmodel, disc=disc, r=r)
    if inmodel:
        cls = {(0, 0): M.ContinuousModel, (0, 1): M.DiscreteModel,
               (1, 0): M.ParametricContinuousModel,
               (1, 1): M.ParametricDiscreteModel}[par, disc]
        extra = O.AffineLinearOperator([np.cos], entries=[np.eye(r)]) \
            if par else O.LinearOperator(np.eye(r))
        x = cls([op, extra])
        want = want + (np.cos(1.5) if par else 1.) * q

        def look(y):
            return y.rhs(*args, q) if disc else y.rhs(
                *([0., 1.5, q] if par else [0., q]))

        def inner(y):
            return y.operators[0]
    else:
        x = op

        def look(y):
            return y.apply(*args, q)

        def inner(y):
            return y
    with quiet():
        y = x.copy()
        ctx.ok(type(y) is type(x) and y is not x, "copy-class", lab)
        ctx.close(look(y), want, "operator-copy", rtol=1e-12, msg=lab)
        ctx.close(look(x), want, "operator-copy", rtol=1e-12, msg=lab)
        a, b = (x, y) if i // 8 % 2 else (y, x)
        inner(a).A[...] = 77.
        inner(a).more["shift"][0] = 99.
        ctx.close(look(b), want, "operator-independent", rtol=1e-12,
                  msg=lab)
        ctx.ok(not np.allclose(look(a), want), "operator-independent",
               f"{lab} damage had no effect")
