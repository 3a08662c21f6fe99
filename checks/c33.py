"""C33: classification, conversion, access, aliases and descriptions."""
import functools
import os
import re
import tempfile
import warnings

import numpy as np
import opinf
import scipy.interpolate as si
import scipy.linalg as la

from rv import gen, modelgen as mg, opgen as og
from rv.core import Check, quiet

O = opinf.operators
M = opinf.models
L = opinf.lstsq
T = opinf.pre
P = opinf.basis
U = O._utils
V = M._utils
CHECK = Check(
    "C33",
    "A case builds operators, models and other objects (shipped, "
    "user-defined, deprecated, foreign; untrained, trained, cleared), asks "
    "the classification and conversion functions, the operator attributes "
    "of models and str()/repr() about them, and compares every answer with "
    "what the case knows about the object; deprecated names must warn and "
    "behave exactly like their replacements.",
    require=["classify-operator", "classify-state", "classify-model",
             "classify-foreign", "to-affine", "to-interpolated",
             "no-conversion", "deprecated-warns", "deprecated-operator",
             "deprecated-model", "deprecated-loads", "access", "access-none",
             "abbreviation", "order", "dims", "set-operators", "set-rejected",
             "set-dimension", "str", "repr", "str-dims", "str-nested",
             "str-structure", "str-pure", "str-numbers"])

ALIASES = dict(
    c="InterpolatedConstantOperator", A="InterpolatedLinearOperator",
    H="InterpolatedQuadraticOperator", G="InterpolatedCubicOperator",
    B="InterpolatedInputOperator", N="InterpolatedStateInputOperator")


# User-defined classes --------------------------------------------------------
class Fixed(O.OperatorTemplate):
    """f(q) = q**2 for a fixed dimension."""

    def __init__(self, r):
        self.r = r

    @property
    def state_dimension(self):
        return self.r

    def apply(self, state, input_=None):
        return np.asarray(state)**2


class FixedInput(Fixed, O.InputMixin):
    def __init__(self, r, m):
        self.r, self.m = r, m

    @property
    def input_dimension(self):
        return self.m

    def apply(self, state, input_=None):
        return np.asarray(state) * np.sum(input_, axis=0)


class FixedParam(O.ParametricOperatorTemplate):
    _OperatorClass = Fixed

    def __init__(self, r):
        self.r = r
        self.p = None

    @property
    def state_dimension(self):
        return self.r

    @property
    def parameter_dimension(self):
        return self.p

    @parameter_dimension.setter
    def parameter_dimension(self, p):
        self.p = p

    def evaluate(self, parameter):
        return Fixed(self.r)


class MyLinear(O.LinearOperator):
    pass


class MyInterp(O.InterpLinearOperator):
    pass


class MyAffine(O.AffineInputOperator):
    pass


class MyContinuous(M.ContinuousModel):
    pass


class MyInterpModel(M.InterpDiscreteModel):
    pass


class LooksLikeModel:
    """Not a model, although it has everything a model has."""
    state_dimension = 2
    input_dimension = 0
    operators = ()
    entries = None

    def fit(self, *args):
        return self

    predict = rhs = apply = evaluate = fit


FOREIGN = [None, 3, "A", np.eye(2), [], (O.LinearOperator(),),
           O.LinearOperator, M.ContinuousModel, LooksLikeModel(), dict(a=1),
           L.PlainSolver(), np.sin]


def make(rng, kind, family, state, r, m, s=3):
    """(operator, facts)."""
    fact = dict(inputs=og.KINDS[kind][2], parametric=family != "plain",
                affine=family == "affine", interp=family == "interp",
                opinf=True, trained=state == "set", r=r, m=m)
    E = [og.entries(rng, kind, r, m) for _ in range(s)]
    E = [e[:, 0] if kind == "c" else e for e in E]
    if family == "plain":
        op = og.KINDS[kind][0]()
        new = E[0]
    elif family == "affine":
        op = og.AFF[kind](lambda mu: [1, mu, mu**2][:s], nterms=s)
        new = E
    else:
        op = og.INT[kind]()
        op.set_training_parameters(np.linspace(0, 1, s))
        new = E
    if state != "empty":
        op.set_entries(new)
    if state == "cleared":
        op._clear()
    return op, fact


def facts_of(ctx, op, f, lab):
    for name, want in [
            ("has_inputs", f["inputs"]), ("is_parametric", f["parametric"]),
            ("is_nonparametric", not f["parametric"]),
            ("is_opinf", f["opinf"]), ("is_affine", f["affine"]),
            ("is_interpolated", f["interp"])]:
        got = getattr(U, name)(op)
        ctx.ok(isinstance(got, (bool, np.bool_)) and bool(got) == want,
               "classify-operator", f"{lab}: {name}() = {got}")
    got = U.is_uncalibrated(op)
    ctx.ok(bool(got) == (f["opinf"] and not f["trained"]), "classify-state",
           f"{lab}: is_uncalibrated() = {got}")


@CHECK.family(quick=800, thorough=18000)
def operators(ctx, rng, i):
    family = ["plain", "affine", "interp"][i % 3]
    kind = "cAHGBN"[(i // 3) % 6]
    state = gen.pick(rng, ["empty", "set", "cleared"])
    r, m = int(rng.integers(1, 4)), int(rng.integers(1, 4))
    op, f = make(rng, kind, family, state, r, m)
    lab = f"{type(op).__name__} {state} r={r} m={m}"
    ctx.note(fam=family, kind=kind, state=state)
    facts_of(ctx, op, f, lab)
    if state == "set":
        ctx.ok(op.state_dimension == r, "dims", lab)
        if f["inputs"]:
            ctx.ok(op.input_dimension == m, "dims", lab)
        facts_of(ctx, op.copy(), f, lab + " copy")
        if family != "plain":
            ev = op.evaluate(0.5)
            facts_of(ctx, ev, dict(f, parametric=False, affine=False,
                                   interp=False), lab + " evaluated")
    else:
        ctx.ok(op.state_dimension is None, "dims", lab)
        if f["inputs"]:
            ctx.ok(op.input_dimension is None, "dims", lab)
    # the other user-defined and polynomial classes
    for op2, kw in [
            (Fixed(r), dict(opinf=False)),
            (FixedInput(r, m), dict(opinf=False, inputs=True)),
            (FixedParam(r), dict(opinf=False, parametric=True)),
            (MyLinear(), dict(trained=False)),
            (MyLinear(np.eye(r)), dict()),
            (MyInterp(), dict(parametric=True, interp=True, trained=False)),
            (MyAffine(2), dict(parametric=True, affine=True, inputs=True,
                               trained=False)),
            (O.PolynomialOperator(int(rng.integers(0, 4))),
             dict(trained=False)),
            (O.QuarticOperator(), dict(trained=False))]:
        g = dict(inputs=False, parametric=False, affine=False, interp=False,
                 opinf=True, trained=True)
        g.update(kw)
        facts_of(ctx, op2, g, type(op2).__name__)
    x = FOREIGN[i % len(FOREIGN)]
    for name in ("has_inputs", "is_parametric", "is_nonparametric",
                 "is_opinf", "is_affine", "is_interpolated",
                 "is_uncalibrated"):
        ctx.ok(not getattr(U, name)(x), "classify-foreign",
               f"{name}({type(x).__name__})")
    # conversion between the classes
    cls = og.KINDS[kind][0]
    A, N = U.nonparametric_to_affine(cls), U.nonparametric_to_interpolated(
        cls)
    ctx.ok(A is og.AFF[kind], "to-affine", f"{cls.__name__} -> {A.__name__}")
    ctx.ok(N is og.INT[kind], "to-interpolated",
           f"{cls.__name__} -> {N.__name__}")
    bad = gen.pick(rng, [MyLinear, A, N, O.QuarticOperator, Fixed,
                         O.PolynomialOperator, O.OpInfOperator])
    for fn in (U.nonparametric_to_affine, U.nonparametric_to_interpolated):
        with ctx.raises(TypeError, "no-conversion", bad.__name__):
            fn(bad)


@CHECK.family(quick=300, thorough=6000)
def models(ctx, rng, i):
    r = int(rng.integers(1, 4))
    aff = og.AFF["A"](2, entries=[np.eye(r)] * 2)
    table = [
        (M.ContinuousModel("cA"), "cn"), (M.DiscreteModel("AB"), "dn"),
        (M.ContinuousModel([Fixed(r)]), "cn"), (MyContinuous("H"), "cn"),
        (mg.Steady("cA"), "n"),
        (M.ParametricContinuousModel([aff]), "cp"),
        (M.ParametricDiscreteModel([aff, "A"][:1]), "dp"),
        (M.ParametricContinuousModel([FixedParam(r)]), "cp"),
        (M.InterpContinuousModel("cA"), "cpi"),
        (M.InterpDiscreteModel("AB"), "dpi"), (MyInterpModel("H"), "dpi")]
    for mod, f in table:
        for name, c in [("is_continuous", "c"), ("is_discrete", "d"),
                        ("is_nonparametric", "n"), ("is_parametric", "p"),
                        ("is_interpolatory", "i")]:
            got = getattr(V, name)(mod)
            ctx.ok(bool(got) == (c in f), "classify-model",
                   f"{name}({type(mod).__name__}) = {got}")
    p = M.ParametricContinuousModel([aff]).evaluate([1., 2.])
    ctx.ok(V.is_continuous(p) and V.is_nonparametric(p)
           and not V.is_parametric(p) and not V.is_discrete(p),
           "classify-model", "evaluated parametric model")
    ctx.note(i=i % 40)
    x = (FOREIGN + [og.AFF["A"](2), opinf.roms.ROM(M.ContinuousModel("A"))])[
        i % (len(FOREIGN) + 2)]
    for name in ("is_continuous", "is_discrete", "is_nonparametric",
                 "is_parametric", "is_interpolatory"):
        ctx.ok(not getattr(V, name)(x), "classify-foreign",
               f"{name}({type(x).__name__})")


def warned(ctx, name, fn):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        out = fn()
    hits = [x for x in w if issubclass(x.category, DeprecationWarning)
            and name in str(x.message)]
    ctx.ok(len(hits) > 0, "deprecated-warns", f"{name}: no warning")
    new = name.replace("Interpolated", "Interp")
    ctx.ok(any(re.search(rf"\b{new}\b", str(x.message)) for x in hits),
           "deprecated-warns",
           f"{name}: {[str(x.message) for x in hits]}")
    return out


@CHECK.family(quick=400, thorough=9000)
def aliases(ctx, rng, i):
    """Deprecated operator names."""
    kind = "cAHGBN"[i % 6]
    name = ALIASES[kind]
    Old, New = getattr(O, name), og.INT[kind]
    r, m, s = [int(rng.integers(1, 4)) for _ in range(2)] + [
        int(rng.integers(4, 7))]
    E = [og.entries(rng, kind, r, m) for _ in range(s)]
    E = [e[:, 0] if kind == "c" else e for e in E]
    mus = np.sort(rng.choice(50, s, replace=False)) / 10
    I = gen.pick(rng, [None, si.CubicSpline, si.PchipInterpolator,
                       si.Akima1DInterpolator])
    block = kind != "c" and rng.integers(3) == 0
    form = gen.pick(rng, ["keywords", "positional", "late", "partly"])
    ent = np.hstack(E) if block else E
    if kind == "c":
        block = False
    lab = f"{name} {form} r={r} m={m} s={s} block={block} {I}"
    ctx.note(name=name, form=form, block=block, I=str(I))

    def build(C):
        if form == "keywords":
            return C(training_parameters=mus, entries=ent,
                     InterpolatorClass=I, fromblock=block)
        if form == "positional":
            return C(mus, ent, I, block)
        if form == "partly":
            op = C(mus, InterpolatorClass=I)
            op.set_entries(ent, fromblock=block)
            return op
        op = C()
        op.set_training_parameters(mus)
        op.set_entries(ent, fromblock=block)
        if I is not None:
            op.set_interpolator(I)
        return op
    old, new = warned(ctx, name, lambda: build(Old)), build(New)
    with quiet():
        same(ctx, rng, old, new, kind, r, m, mus, lab)
        same(ctx, rng, old.copy(), new, kind, r, m, mus, lab + " copy")
        ctx.ok(isinstance(old, New) and U.is_interpolated(old)
               and U.is_opinf(old) and not U.is_uncalibrated(old)
               and U.has_inputs(old) == og.KINDS[kind][2],
               "deprecated-operator", lab)
        if rng.integers(3) == 0:
            with tempfile.TemporaryDirectory() as d:
                f = os.path.join(d, "op.h5")
                old.save(f)
                back = Old.load(f, I)
                ctx.ok(isinstance(back, New), "deprecated-loads", lab)
                same(ctx, rng, back, new, kind, r, m, mus, lab + " loaded",
                     "deprecated-loads")
                # in a model
                mod = M.InterpContinuousModel(
                    [old, og.INT["A" if kind != "A" else "c"](
                        mus, [np.ones((r, r) if kind != "A" else r)] * s,
                        InterpolatorClass=I)], InterpolatorClass=I)
                f = os.path.join(d, "model.h5")
                mod.save(f)
                back = M.InterpContinuousModel.load(f, I)
                q = rng.standard_normal(r)
                u = rng.standard_normal(m) if og.KINDS[kind][2] else None
                mu = float(rng.uniform(mus[0], mus[-1]))
                ctx.equal(back.rhs(0, mu, q, None if u is None else
                                   (lambda t: u)),
                          mod.rhs(0, mu, q, None if u is None else
                                  (lambda t: u)), "deprecated-loads", lab)


def same(ctx, rng, old, new, kind, r, m, mus, lab, rule="deprecated-operator"):
    ctx.equal(old.training_parameters, new.training_parameters, rule, lab)
    ctx.equal(old.entries, new.entries, rule, lab)
    for a in ("shape", "state_dimension", "parameter_dimension"):
        ctx.ok(getattr(old, a) == getattr(new, a), rule, f"{lab} {a}")
    ctx.ok(type(old.interpolator) is type(new.interpolator), rule, lab)
    mu = float(rng.uniform(mus[0], mus[-1]))
    a, b = old.evaluate(mu), new.evaluate(mu)
    ctx.ok(type(a) is type(b), rule, lab)
    ctx.equal(a.entries, b.entries, rule, lab)
    q, u = rng.standard_normal(r), rng.standard_normal(m)
    ctx.equal(old.apply(mu, q, u), new.apply(mu, q, u), rule, lab)


@CHECK.family(quick=240, thorough=4500)
def alias_models(ctx, rng, i):
    """Deprecated model names."""
    name = ["InterpolatedContinuousModel", "InterpolatedDiscreteModel"][i % 2]
    Old = getattr(M, name)
    New = getattr(M, name.replace("Interpolated", "Interp"))
    kinds, r, m = mg.structure(rng, maxr=3, letters="cAHB", nmax=3)
    d = sum(og.ncols(k, r, m) for k in kinds)
    s = int(rng.integers(4, 7))
    mus = np.sort(rng.choice(50, s, replace=False)) / 10
    sol, _, slab = mg.solver(rng, r, d)
    I = gen.pick(rng, [None, si.PchipInterpolator, si.Akima1DInterpolator])
    data = [mg.samples(rng, d, r, m) for _ in range(s)]
    Q, W = [a for a, _ in data], [b for _, b in data]
    Z = [rng.standard_normal(q.shape) for q in Q]
    uses = mg.uses(kinds)
    lab = f"{name} {''.join(kinds)} r={r} m={m} s={s} {slab} {I}"
    ctx.note(name=name, kinds="".join(kinds), solver=slab, I=str(I))
    form = rng.integers(3)

    def build(C):
        so = sol.copy() if hasattr(sol, "copy") else sol
        if form == 0:
            mod = C(list(kinds), so, I)
        elif form == 1:
            mod = C(operators=list(kinds), solver=so, InterpolatorClass=I)
        else:
            mod = C("".join(kinds), InterpolatorClass=I, solver=so)
        return mod.fit(mus, Q, Z, W if uses else None)
    with quiet():
        old, new = warned(ctx, name, lambda: build(Old)), build(New)
    ctx.ok(isinstance(old, New), "deprecated-model", lab)
    for a, b in zip(old.operators, new.operators):
        ctx.ok(type(a) is type(b), "deprecated-model", lab)
        ctx.equal(a.entries, b.entries, "deprecated-model", lab)
        ctx.ok(type(a.interpolator) is type(b.interpolator),
               "deprecated-model", lab)
    ctx.ok(type(old.solver) is type(new.solver), "deprecated-model", lab)
    mu = float(rng.uniform(mus[0], mus[-1]))
    ctx.ok(type(old.evaluate(mu)) is type(new.evaluate(mu)),
           "deprecated-model", lab)
    q, u = rng.standard_normal(r), rng.standard_normal(m)
    args = [mu, q] + [u] * uses
    if i % 2 == 0:
        args = [0.0, mu, q] + [lambda t: u] * uses
    ctx.equal(old.rhs(*args), new.rhs(*args), "deprecated-model", lab)
    ctx.ok(V.is_interpolatory(old) and V.is_parametric(old)
           and V.is_continuous(old) == (i % 2 == 0)
           and V.is_discrete(old) == (i % 2 == 1), "deprecated-model", lab)


# Access to the operators of a model ------------------------------------------
@CHECK.family(quick=1000, thorough=24000)
def access(ctx, rng, i):
    flavor = ["plain", "affine", "interp"][i % 3]
    cls = dict(plain=[M.ContinuousModel, M.DiscreteModel],
               affine=[M.ParametricContinuousModel,
                       M.ParametricDiscreteModel],
               interp=[M.InterpContinuousModel, M.InterpDiscreteModel])[
        flavor][int(rng.integers(2))]
    r, m = int(rng.integers(1, 4)), int(rng.integers(1, 4))

    def oplist():
        n = int(rng.integers(1, 6))
        out, facts, free = [], [], set()
        for _ in range(n):
            kind = gen.pick(rng, "cAHGBN")
            fam = flavor
            if flavor == "affine":
                fam = gen.pick(rng, ["plain", "affine", "affine"])
            state = "set" if (kind in free or rng.integers(2)) else "empty"
            op, f = make(rng, kind, fam, state, r, m)
            if flavor == "plain" and state == "empty" and rng.integers(2):
                op = kind
            elif flavor == "interp" and state == "empty":
                op = kind
            if state == "empty":
                free.add(kind)
            out.append(op)
            facts.append((kind, fam, state))
        return out, facts
    ops, facts = oplist()
    lab = f"{cls.__name__} " + ",".join(
        f"{k}{'' if s == 'set' else '?'}" for k, f, s in facts)
    ctx.note(cls=cls.__name__, ops=lab)
    with quiet():
        mod = cls(ops)

    def look(mod, ops, facts, lab):
        got = mod.operators
        ctx.ok(len(got) == len(ops) and list(mod) == list(got)
               and all(a is b for a, b in zip(mod, got)), "order", lab)
        for g, o, (k, fam, st) in zip(got, ops, facts):
            if isinstance(o, str):
                want = dict(plain=og.KINDS[k][0], interp=og.INT.get(k))[
                    "interp" if flavor == "interp" else "plain"]
                ctx.ok(type(g) is want and g.entries is None,
                       "abbreviation", f"{lab}: {o} -> {type(g)}")
            else:
                ctx.ok(g is o, "order", lab)
        for k in "cAHGBN":
            first = [g for g, f in zip(got, facts) if f[0] == k]
            x = getattr(mod, k + "_")
            ctx.ok(x is (first[0] if first else None),
                   "access" if first else "access-none",
                   f"{lab}: {k}_ is {x!r:.80}")
        known = any(st == "set" for _, _, st in facts)
        ctx.ok(mod.state_dimension == (r if known else None), "dims",
               f"{lab}: r = {mod.state_dimension}")
        inp = [st for k, _, st in facts if og.KINDS[k][2]]
        want = 0 if not inp else (m if "set" in inp else None)
        ctx.ok(mod.input_dimension == want, "dims",
               f"{lab}: m = {mod.input_dimension}, not {want}")
    look(mod, ops, facts, lab)
    for _ in range(int(rng.integers(1, 4))):
        act = gen.pick(rng, ["replace", "duplicate", "letter", "mismatch",
                             "dimension", "empty", "foreign", "input-dim"])
        if act == "replace":
            ops, facts = oplist()
            with quiet():
                mod.operators = ops
            lab += " -> " + ",".join(f"{k}{'' if s == 'set' else '?'}"
                                     for k, f, s in facts)
            ctx.ev("set-operators")
        elif act == "dimension":
            known = any(st == "set" for _, _, st in facts)
            if known:
                with ctx.raises(AttributeError, "set-dimension", lab):
                    mod.state_dimension = r + gen.pick(rng, [1, -1])
                mod.state_dimension = r
            else:
                mod.state_dimension = r
                ctx.ok(mod.state_dimension == r, "set-dimension", lab)
                with quiet():
                    mod.operators = ops
        elif act == "input-dim":
            inp = [st for k, _, st in facts if og.KINDS[k][2]]
            if not inp or "set" in inp:
                with ctx.raises(AttributeError, "set-dimension", lab):
                    mod.input_dimension = (m if inp else 0) + gen.pick(
                        rng, [1, -1])
            if "set" in inp:
                mod.input_dimension = m
        else:
            bad, exc = dict(
                duplicate=(2 * [gen.pick(rng, "cAHGBN")], ValueError),
                letter=(["A", gen.pick(rng, ["X", "a", "AA", "", "E"])],
                        TypeError),
                mismatch=([make(rng, "A", flavor, "set", 2, m)[0],
                           make(rng, "H", flavor, "set", 3, m)[0]],
                          opinf.errors.DimensionalityError),
                empty=([], ValueError),
                foreign=([gen.pick(rng, [3, None, np.eye(2), O.LinearOperator,
                                         L.PlainSolver()])], TypeError))[act]
            if act == "duplicate" and flavor == "affine":
                bad = [og.AFF[k](2) if k in "cA" else O.InputOperator()
                       for k in 2 * [gen.pick(rng, "cAB")]]
            if act == "duplicate" and flavor == "plain" and rng.integers(2):
                p = int(rng.integers(0, 7))
                same = [O.PolynomialOperator(p)]
                if p < 4:
                    same.append("cAHG"[p])
                if p == 4:
                    same.append(O.QuarticOperator())
                bad = [O.PolynomialOperator(p), gen.pick(rng, same)]
            if act == "letter" and flavor == "affine":
                bad = [gen.pick(rng, ["A", "c", "X"])]
            with quiet(), ctx.raises(exc, "set-rejected", f"{lab} {act}"):
                mod.operators = bad
        look(mod, ops, facts, f"{lab} after {act}")


@CHECK.family(quick=150, thorough=3000)
def degrees(ctx, rng, i):
    """Operators of distinct degrees may stand together in a model."""
    cls = [M.ContinuousModel, M.DiscreteModel][i % 2]
    named = [O.ConstantOperator, O.LinearOperator, O.QuadraticOperator,
             O.CubicOperator, O.QuarticOperator]
    ps = [int(p) for p in rng.choice(8, int(rng.integers(1, 6)),
                                     replace=False)]
    ops = [named[p]() if p < 5 and rng.random() < .4
           else O.PolynomialOperator(p) for p in ps]
    lab = f"{cls.__name__} degrees {ps}"
    ctx.note(cls=cls.__name__, ps=str(ps))
    with quiet():
        mod = cls(ops)
        ctx.ok(len(mod.operators) == len(ops) and all(
            a is b for a, b in zip(mod.operators, ops)), "order", lab)
        ctx.ev("distinct-degrees")
        p = int(gen.pick(rng, ps))
        more = [O.PolynomialOperator(p)] + ([named[p]()] if p < 5 else [])
        with ctx.raises(ValueError, "set-rejected", f"{lab} and {p}"):
            cls(ops + [gen.pick(rng, more)])


@CHECK.family(quick=200, thorough=3600)
def custom(ctx, rng, i):
    """Models with user-defined operators."""
    r, m = int(rng.integers(1, 4)), int(rng.integers(1, 4))
    op = [Fixed(r), FixedInput(r, m)][i % 2]
    cls = [M.ContinuousModel, M.DiscreteModel][(i // 2) % 2]
    lab = f"{cls.__name__} with {type(op).__name__} r={r} m={m}"
    ctx.note(cls=cls.__name__, op=type(op).__name__, r=r, m=m)
    ops = [op] + (["A"] if rng.integers(2) else [])
    if rng.integers(2):
        ops = ops[::-1]
    with quiet():
        mod = cls(ops)
    ctx.ok(mod.state_dimension == r, "dims", lab)
    ctx.ok(mod.input_dimension == (m if i % 2 else 0), "dims", lab)
    mod.state_dimension = r
    ctx.ok(mod.state_dimension == r, "set-dimension", lab)
    with ctx.raises(AttributeError, "set-dimension", lab):
        mod.state_dimension = r + 1
    ctx.ok(mod.state_dimension == r, "set-dimension", lab)
    if i % 2:
        mod.input_dimension = m
        with ctx.raises(AttributeError, "set-dimension", lab):
            mod.input_dimension = m + 1
    for k in "cHGBN":
        ctx.ok(getattr(mod, k + "_") is None, "access-none", lab)
    ctx.ok((mod.A_ is None) == ("A" not in ops), "access", lab)
    text = str(mod)
    ctx.ok(type(op).__name__ in text, "str-nested", text)


# Descriptions ----------------------------------------------------------------
def describe(ctx, x, lab, dims=()):
    """str()/repr() of x; dims: [(label, true value)]."""
    with quiet():
        text, text2, rep = str(x), str(x), repr(x)
    name = type(x).__name__
    ctx.ok(isinstance(text, str) and text == text2, "str", f"{lab}: {text}")
    ctx.ok(name in rep and text in rep and hex(id(x))[2:] in rep, "repr",
           f"{lab}: {rep}")
    for key, val in dims:
        hit = re.search(rf"^ *{re.escape(key)}: *(.*)$", text, re.M)
        if hit is None:
            ctx.ok(val is None, "str-dims", f"{lab}: no {key} in\n{text}")
        else:
            ctx.ok(hit.group(1).strip() == str(val), "str-dims",
                   f"{lab}: {key} is {val}:\n{text}")
    return text


def inner(text):
    """The lines of a nested description without their indentation."""
    return [ln.strip(" |") for ln in text.split("\n")]


def contains(ctx, text, parts, lab):
    """The descriptions of the parts appear in this order."""
    lines, at = inner(text), 0
    for part in parts:
        sub = inner(part)
        first = sub[0]
        for j in range(at, len(lines) - len(sub) + 1):
            if lines[j].endswith(first) and lines[j + 1:j + len(sub)] \
                    == sub[1:]:
                at = j + len(sub)
                break
        else:
            ctx.ok(False, "str-nested", f"{lab}:\n{part}\nis not in\n{text}")
        ctx.ev("str-nested")


def svdengine(X, **kw):
    return la.svd(X, full_matrices=False)


class Engine:
    def __call__(self, X, **kw):
        return svdengine(X)


@CHECK.family(quick=500, thorough=12000)
def describe_operators(ctx, rng, i):
    family = ["plain", "affine", "interp"][i % 3]
    kind = gen.pick(rng, "cAHGBN")
    state = gen.pick(rng, ["empty", "set", "cleared"])
    r, m, s = [int(rng.integers(1, 4)) for _ in range(3)]
    if family == "interp":
        s += 1
    op, f = make(rng, kind, family, state, r, m, s)
    t = state == "set"
    lab = f"{type(op).__name__} {state} r={r} m={m} s={s}"
    ctx.note(op=type(op).__name__, state=state, r=r, m=m)
    dims = [("state_dimension", r if t else None)]
    if f["inputs"]:
        dims.append(("input_dimension", m if t else None))
    if family == "plain":
        dims.append(("entries.shape", op.entries.shape if t else None))
    else:
        dims.append(("parameter_dimension", op.parameter_dimension))
    if family == "affine":
        dims.append(("expansion terms", s))
    if family == "interp":
        dims.append(("training parameters", s))
        if rng.integers(2):
            op.set_interpolator(si.PchipInterpolator)
            dims.append(("type(interpolator)", "PchipInterpolator"))
    before = None if op.entries is None else np.array(op.entries)
    text = describe(ctx, op, lab, dims)
    ctx.ok(text.startswith(type(op).__name__), "str", text)
    if family != "plain":
        ctx.ok(og.KINDS[kind][0].__name__ in text, "str-nested", text)
    if not f["inputs"]:
        ctx.ok("input_dimension" not in text, "str-dims", text)
    ctx.ok((before is None) == (op.entries is None), "str-pure", lab)
    if before is not None:
        ctx.equal(op.entries, before, "str-pure", lab)
    for x in (Fixed(r), FixedInput(r, m), FixedParam(r), MyLinear(),
              MyInterp()):
        describe(ctx, x, type(x).__name__,
                 [("state_dimension", x.state_dimension)])


TERMS = dict(c=r"c", A=r"A{q}", H=r"H[{q} ⊗ {q}]", G=r"G[{q} ⊗ {q} ⊗ {q}]",
             B=r"B{u}", N=r"N[{u} ⊗ {q}]")


@CHECK.family(quick=500, thorough=12000)
def describe_models(ctx, rng, i):
    cls = [M.ContinuousModel, M.DiscreteModel, mg.Steady][i % 3]
    kinds, r, m = mg.structure(rng, maxr=3, steady=i % 3 == 2)
    d = sum(og.ncols(k, r, m) for k in kinds)
    uses = mg.uses(kinds)
    sol, _, slab = mg.solver(rng, r, d)
    state = gen.pick(rng, ["new", "fit", "intrusive", "partly"])
    if state in ("intrusive", "partly"):
        ops = [og.make(rng, k, r, m)[0] for k in kinds]
        if state == "partly":
            ops[0] = kinds[0]
        with quiet():
            mod = cls(ops, solver=None)
    else:
        mod = cls(kinds, solver=sol)
    Q, W = mg.samples(rng, d, r, m)
    if state == "fit":
        Z = rng.standard_normal(Q.shape)
        a = (Q, Z) + ((W,) if uses else ())
        with quiet():
            mod.fit(*a)
    lab = f"{cls.__name__} {''.join(kinds)} {state} {slab}"
    ctx.note(cls=cls.__name__, kinds="".join(kinds), state=state, sol=slab)
    dims = [("state_dimension", mod.state_dimension),
            ("input_dimension", mod.input_dimension)]
    if state in ("fit", "intrusive"):
        dims = [("state_dimension", r), ("input_dimension", m * uses)]
    text = describe(ctx, mod, lab, dims)
    q, u = [("q(t)", "u(t)"), ("q_{j}", "u_{j}"), ("q", None)][i % 3]
    lhs = ["dq / dt", "q_{j+1}", "z"][i % 3]
    want = lhs + " = " + " + ".join(
        TERMS[k].replace("{q}", q).replace("{u}", str(u)) for k in kinds)
    hit = re.search(r"structure: (.*)", text)
    ctx.ok(hit is not None and hit.group(1) == want, "str-structure",
           f"{lab}: {want} expected in\n{text}")
    contains(ctx, text, [str(op) for op in mod.operators]
             + [str(mod.solver)], lab)
    # a reduced-order model describes its parts
    n = r + int(rng.integers(0, 3))
    parts = dict()
    if rng.integers(2):
        parts["transformer"] = gen.pick(
            rng, [T.ScaleTransformer(2.0),
                  T.ShiftScaleTransformer(True, "maxabs", name="temp")])
    if rng.integers(2):
        parts["basis"] = P.LinearBasis(np.eye(n)[:, :r])
    if rng.integers(2):
        parts["lifter"] = gen.pick(rng, [opinf.lift.QuadraticLifter(),
                                         opinf.lift.PolynomialLifter(
                                             [1, 2])])
    if rng.integers(2) and i % 3 == 0:
        parts["ddt_estimator"] = opinf.ddt.UniformFiniteDifferencer(
            np.linspace(0, 1, 9))
    if i % 3 != 2:
        with quiet():
            rom = opinf.roms.ROM(mod, **parts)
        text = describe(ctx, rom, "ROM " + lab)
        contains(ctx, text, [str(parts[k]) for k in (
            "lifter", "transformer", "basis", "ddt_estimator")
            if k in parts] + [str(mod)], "ROM " + lab)
        for k in ("lifter", "transformer", "basis", "ddt_estimator"):
            ctx.ok((re.search(rf"^ *{k}: ", text, re.M) is not None)
                   == (k in parts), "str-nested", f"{k} in\n{text}")


def pct(text, key):
    hit = re.search(rf"{key}: *([-+.\deE]+|nan|inf)(%?)", text)
    return None if hit is None else float(hit.group(1)) / (
        100 if hit.group(2) else 1)


@CHECK.family(quick=600, thorough=12000)
def describe_others(ctx, rng, i):
    n, k = int(rng.integers(3, 9)), int(rng.integers(3, 9))
    Q = rng.standard_normal((n, k))
    what = ["solver", "pod", "transformer", "multi", "estimator", "bases"][
        i % 6]
    ctx.note(what=what, n=n, k=k)
    if what == "solver":
        d, r = int(rng.integers(1, 5)), int(rng.integers(1, 4))
        D, Z = rng.standard_normal((8, d)), rng.standard_normal((r, 8))
        regs = [L.PlainSolver(), L.L2Solver(2.5),
                L.L2DecoupledSolver(rng.random(r)),
                L.TikhonovSolver(rng.random(d)),
                L.TikhonovSolver(np.eye(d), method="normal"),
                L.TikhonovDecoupledSolver([np.eye(d)] * r),
                L.TruncatedSVDSolver(int(rng.integers(1, d + 1))),
                L.TotalLeastSquaresSolver()]
        S = regs[int(rng.integers(len(regs)))]
        lab = type(S).__name__
        text = describe(ctx, S, lab)
        ctx.ok("not trained" in text, "str", text)
        S.fit(D, Z)
        A = S.solve()
        text = describe(ctx, S, lab, [("data_matrix", (8, d)),
                                      ("lhs_matrix", (r, 8)),
                                      ("solve().shape", (r, d))])
        ctx.ok("not trained" not in text, "str", text)
        ctx.equal(S.solve(), A, "str-pure", lab)
        c = np.linalg.cond(D)
        ctx.close(np.array(pct(text, "condition number")), np.array(c),
                  "str-numbers", rtol=1e-4, msg=text)
        if isinstance(S, L.TruncatedSVDSolver):
            ctx.close(np.array(pct(text, "Truncation condition number")),
                      np.array(S.tcond()), "str-numbers", rtol=1e-4, msg=text)
            ctx.ok(f"using {S.num_svdmodes} of {d} " in text, "str-numbers",
                   text)
        S.reset()
        ctx.ok("not trained" in describe(ctx, S, lab), "str", lab)
    elif what == "pod":
        kind = gen.pick(rng, ["dense", "randomized", "method-of-snapshots",
                              "function", "lambda", "partial", "object"])
        sol = dict(function=svdengine, partial=functools.partial(svdengine),
                   object=Engine(),
                   )
        sol["lambda"] = lambda X, **kw: svdengine(X)
        r = int(rng.integers(1, min(n, k) + 1))
        name = gen.pick(rng, [None, "density"])
        B = P.PODBasis(num_vectors=r, svdsolver=sol.get(kind, kind),
                       name=name)
        lab = f"PODBasis {kind} {n}x{k} r={r}"
        text = describe(ctx, B, lab, [("full_state_dimension", None),
                                      ("reduced_state_dimension", None)])
        B.fit(Q)
        if rng.integers(2):
            B.reduced_state_dimension = r = int(rng.integers(1, r + 1))
        E = np.array(B.entries)
        text = describe(ctx, B, lab, [("full_state_dimension", n),
                                      ("reduced_state_dimension", r)])
        ctx.equal(B.entries, E, "str-pure", lab)
        if name:
            ctx.ok(f"'{name}'" in text, "str", text)
        s = np.linalg.svd(Q, compute_uv=False)
        e = np.sum(s[:r]**2) / np.sum(s**2)
        ctx.close(np.array(pct(text, "cumulative energy")), np.array(e),
                  "str-numbers", atol=2e-8, msg=text)
        ctx.close(np.array(pct(text, "residual energy")), np.array(1 - e),
                  "str-numbers", atol=1e-4 * (1 - e) + 1e-12, msg=text)
        ctx.ok(f"{B.max_vectors} basis vectors available" in text,
               "str-numbers", text)
    elif what == "transformer":
        name = gen.pick(rng, [None, "speed"])
        c = [T.ShiftTransformer(rng.random(n), name=name),
             T.ScaleTransformer(float(rng.uniform(1, 5)), name=name),
             T.ScaleTransformer(rng.random(n) + .5, name=name),
             T.NullTransformer(name=name),
             T.ShiftScaleTransformer(bool(rng.integers(2)), gen.pick(
                 rng, [None, "standard", "maxabs", "minmax"]), name=name)]
        X = c[int(rng.integers(len(c)))]
        lab = f"{type(X).__name__} n={n} {name}"
        describe(ctx, X, lab, [("state_dimension", X.state_dimension)])
        with quiet():
            Y = X.fit_transform(Q.copy())
        text = describe(ctx, X, lab, [("state_dimension", n)])
        if name:
            ctx.ok(f"'{name}'" in text, "str", text)
        if isinstance(X, T.ShiftScaleTransformer):
            describe(ctx, X, lab, [("centering", X.centering)])
        if isinstance(X, T.ScaleTransformer) and np.isscalar(X.scaler):
            ctx.close(np.array(pct(text, "scaler")), np.array(X.scaler),
                      "str-numbers", rtol=1e-4, msg=text)
        ctx.equal(X.transform(Q.copy()), Y, "str-pure", lab)
    elif what == "multi":
        parts = [T.ScaleTransformer(2.0), T.ShiftScaleTransformer(
            True, "minmax"), T.NullTransformer()]
        parts = [parts[j] for j in rng.choice(3, int(rng.integers(1, 4)),
                                              replace=False)]
        if rng.integers(2):
            X = T.TransformerPipeline(parts, name="all")
            with quiet():
                before = describe(ctx, X, "pipeline", [
                    ("num_transformers", len(parts))])
                X.fit(Q)
            text = describe(ctx, X, "pipeline", [
                ("state_dimension", n), ("num_transformers", len(parts))])
        else:
            X = T.TransformerMulti(parts)
            before = describe(ctx, X, "multi", [
                ("num_variables", len(parts))])
            with quiet():
                X.fit(rng.standard_normal((len(parts) * n, k)))
            text = describe(ctx, X, "multi", [
                ("state_dimension", len(parts) * n),
                ("num_variables", len(parts))])
        ctx.ok(isinstance(before, str), "str")
        contains(ctx, text, [str(t) for t in X.transformers], "composite")
    elif what == "estimator":
        t = np.sort(rng.uniform(0, 3, k + 4))
        tu = np.linspace(0, float(rng.uniform(1, 3)), k + 9)
        sch = gen.pick(rng, ["fwd1", "bwd3", "ctr4", "ord6"])
        for X, tt, extra in [
                (opinf.ddt.UniformFiniteDifferencer(tu, sch), tu, sch),
                (opinf.ddt.NonuniformFiniteDifferencer(t), t, ""),
                (opinf.ddt.InterpDerivativeEstimator(t, "akima"), t,
                 "Akima1DInterpolator"),
                (opinf.ddt.InterpDerivativeEstimator(
                    t, "cubic", bc_type="natural"), t, "bc_type='natural'")]:
            text = describe(ctx, X, type(X).__name__)
            ctx.ok(extra in text, "str", text)
            ctx.ok(f"{tt.size} entries in [{tt[0]}, {tt[-1]}]" in text,
                   "str-numbers", text)
        text = describe(ctx, opinf.ddt.UniformFiniteDifferencer(tu), "u")
        ctx.close(np.array(pct(text, "dt")), np.array(tu[1] - tu[0]),
                  "str-numbers", rtol=1e-4, msg=text)
    else:
        parts = [P.LinearBasis(gen.orth(rng, n, 2)),
                 P.PODBasis(num_vectors=2)][:int(rng.integers(1, 3))]
        X = P.BasisMulti(parts)
        contains(ctx, describe(ctx, X, "BasisMulti"),
                 [str(b) for b in X.bases], "BasisMulti")
        with quiet():
            X.fit(rng.standard_normal((len(parts) * n, k)))
        text = describe(ctx, X, "BasisMulti")
        contains(ctx, text, [str(b) for b in X.bases], "BasisMulti")
        ctx.ok(f"{len(parts)}-variable" in text, "str-dims", text)
        for lf, names in [(opinf.lift.QuadraticLifter(), "QuadraticLifter"),
                          (opinf.lift.PolynomialLifter([1, 2, -1]),
                           "(q, q^2, q^-1)")]:
            ctx.ok(names in describe(ctx, lf, "lifter"), "str", names)
