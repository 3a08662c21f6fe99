"""C21: a reduced-order model is the composition of its stages."""
import warnings

import numpy as np
import opinf

from rv import gen, pregen, basisgen
from rv.core import Check

M = opinf.models
CHECK = Check(
    "C21",
    "A case draws a reduced-order model (lifter or none, transformer of any "
    "kind or none, basis of any kind or none, derivative estimator or given "
    "left-hand sides, discrete/continuous, nonparametric/affine/interpolated "
    "model) twice from the same random numbers. One copy is used through the "
    "ROM interface, the stages of the other are driven one after the other "
    "by the check. Encodings, decodings, projections, fitted stages, fitted "
    "operators, regression data and predictions are compared.",
    require=["encode", "encode-vector", "encode-lhs", "encode-ddt-meaning",
             "encode-inplace", "encode-fit-transformer", "encode-fit-basis",
             "encode-fit-lhs",
             "decode", "decode-vector", "decode-locs", "decode-locs-lifted",
             "project", "decode-encode-identity", "inputs-untouched",
             "fit-basis", "fit-transformer", "fit-model", "fit-data",
             "fit-one-trajectory", "fit-many-trajectories", "fit-given-lhs",
             "fit-estimated", "fit-discrete-shift", "fit-next-states",
             "fit-skip-transformer", "fit-skip-basis", "fit-with-inputs",
             "fit-again", "uneven-trajectories", "predict-discrete",
             "predict-continuous", "predict-parametric", "fit-affine",
             "fit-interp", "no-stage", "all-stages", "custom-lifter",
             "custom-lifter-same",
             "custom-stage", "longer-inputs"])


class ExpLifter(opinf.lift.LifterTemplate):
    """q -> (exp(q/9), q)"""
    @staticmethod
    def lift(states):
        return np.concatenate((np.exp(states / 9), states))

    @staticmethod
    def lift_ddts(states, ddts):
        return np.concatenate((np.exp(states / 9) / 9 * ddts, ddts))

    @staticmethod
    def unlift(lifted_states):
        return lifted_states[len(lifted_states) // 2:]


class SameLifter(opinf.lift.LifterTemplate):
    """The identity: the very arrays it was given are returned."""
    @staticmethod
    def lift(states):
        return states

    @staticmethod
    def lift_ddts(states, ddts):
        return ddts

    @staticmethod
    def unlift(lifted_states):
        return lifted_states


class Affine(opinf.pre.TransformerTemplate):
    """A user-defined transformer: q -> (q - a) * b with learned a, b."""

    def __init__(self):
        super().__init__(name=None)
        self.a = self.b = None

    def fit_transform(self, states, inplace=False):
        self.state_dimension = states.shape[0]
        self.a = states.min(axis=1)
        self.b = 1. / (1 + np.arange(len(self.a)))
        return self.transform(states, inplace)

    def transform(self, states, inplace=False):
        a, b = self.a, self.b
        if np.ndim(states) == 2:
            a, b = a[:, None], b[:, None]
        Y = states if inplace else states.copy()
        Y -= a
        Y *= b
        return Y

    def inverse_transform(self, states, inplace=False, locs=None):
        a, b = self.a, self.b
        if locs is not None:
            a, b = a[locs], b[locs]
        if np.ndim(states) == 2:
            a, b = a[:, None], b[:, None]
        Y = states if inplace else states.copy()
        Y /= b
        Y += a
        return Y

    def transform_ddts(self, ddts, inplace=False):
        b = self.b[:, None] if np.ndim(ddts) == 2 else self.b
        return ddts * b


LIFTERS = [None, None, None, "quad", "poly", "neg", "exp", "same"]
COEFFS = [lambda mu: 1.0, lambda mu: float(mu), lambda mu: float(mu) ** 2]


class Build:
    """One reduced-order model; two Builds with equal seeds are twins."""

    def __init__(self, seed, kind, nparam=3):
        rng = np.random.default_rng(seed)
        self.kind = kind                # (disc, "plain"|"affine"|"interp")
        disc, ptype = kind
        lk = gen.pick(rng, LIFTERS)
        self.lk = lk
        self.n0 = n0 = int(gen.pick(rng, [2, 3, 5, 8]))
        L = opinf.lift
        self.lifter = {
            None: lambda: None, "quad": L.QuadraticLifter,
            "poly": lambda: L.PolynomialLifter((2, 1)),
            "neg": lambda: L.PolynomialLifter((1, -1)),
            "exp": ExpLifter, "same": SameLifter}[lk]()
        nv = 1 if lk in (None, "same") else 2
        if lk is None and n0 > 2 and rng.random() < .5:
            nv = int(rng.integers(2, 4))
        # without lifter a random splitting into variables
        if lk not in (None, "same"):
            sizes = [n0] * 2
        elif nv > 1 and rng.random() < .5:
            self.n0 = n0 = n0 * nv
            sizes = [n0 // nv] * nv
        elif nv > 1:
            cuts = np.sort(rng.choice(np.arange(1, n0), min(nv - 1, n0 - 1),
                                      replace=False))
            sizes = [int(x) for x in
                     np.diff(np.concatenate([[0], cuts, [n0]]))]
        else:
            sizes = [n0]
        self.n = n = sum(sizes)
        self.sizes = sizes
        self.equal = len(set(sizes)) == 1
        # transformer
        tk = gen.pick(rng, [None, "leaf", "leaf", "pipe", "multi", "multi",
                            "custom"])
        self.custom = tk == "custom"
        self.tmulti = False
        if tk is None:
            self.transformer = None
        elif tk == "custom":
            self.transformer = Affine()
        elif tk == "multi" and len(sizes) > 1:
            self.transformer = pregen.multi(rng, sizes)[0]
            self.tmulti = True
        elif tk == "pipe":
            self.transformer = pregen.pipeline(rng, n)[0]
        else:
            self.transformer = pregen.leaf(rng, n)[0]
        self.tk = tk
        # basis
        bk = gen.pick(rng, [None, "linear", "pod", "pod", "multi", "multi"])
        self.bmulti = False
        self.podlike = False
        kmin = 4
        if bk is None:
            self.basis, self.r = None, n
        elif bk == "multi" and len(sizes) > 1:
            parts, rs = [], []
            for s in sizes:
                r = int(rng.integers(1, min(s, 2) + 1))
                if rng.random() < .5:
                    parts.append(basisgen.linear(rng, s, r)[0])
                else:
                    parts.append(basisgen.pod(rng, s, kmin, r,
                                              solver="dense")[0])
                    self.podlike = True
                rs.append(r)
            self.basis = opinf.basis.BasisMulti(parts, sizes)
            self.r = sum(rs)
            self.bmulti = True
        elif bk == "linear":
            self.r = int(rng.integers(1, min(n, 3) + 1))
            self.basis = basisgen.linear(rng, n, self.r)[0]
        else:
            self.r = int(rng.integers(1, min(n, 3) + 1))
            self.basis = basisgen.pod(
                rng, n, kmin, self.r,
                solver=gen.pick(rng, ["dense", "method-of-snapshots"]))[0]
            self.podlike = True
        self.bk = bk
        # model
        r = self.r
        pool = ["c", "A", "B"] + (["H"] if r <= 4 else []) + (
            ["N"] if r <= 4 else [])
        nk = int(rng.integers(1, len(pool) + 1))
        self.kinds = [str(x) for x in rng.choice(pool, nk, replace=False)]
        if "A" not in self.kinds:
            self.kinds.append("A")
        self.hasu = any(k in "BN" for k in self.kinds)
        self.m = int(rng.integers(1, 3))
        self.lam = float(10.0 ** rng.uniform(-2, 0))
        s = opinf.lstsq.L2Solver(self.lam)
        O = opinf.operators
        if ptype == "plain":
            cls = M.DiscreteModel if disc else M.ContinuousModel
            self.model = cls("".join(self.kinds), solver=s)
        elif ptype == "interp":
            cls = M.InterpDiscreteModel if disc else M.InterpContinuousModel
            self.model = cls("".join(self.kinds), solver=s)
        else:
            cls = (M.ParametricDiscreteModel if disc
                   else M.ParametricContinuousModel)
            AFF = {"c": O.AffineConstantOperator, "A": O.AffineLinearOperator,
                   "H": O.AffineQuadraticOperator,
                   "B": O.AffineInputOperator,
                   "N": O.AffineStateInputOperator}
            PL = {"c": O.ConstantOperator, "A": O.LinearOperator,
                  "H": O.QuadraticOperator, "B": O.InputOperator,
                  "N": O.StateInputOperator}
            ops = [AFF[k](COEFFS[:int(rng.integers(1, 3))])
                   if (j == 0 or rng.random() < .5) else PL[k]()
                   for j, k in enumerate(self.kinds)]
            self.model = cls(ops, solver=s)
        # derivative estimator
        self.ddt = None
        self.k = int(rng.integers(9, 16))
        if not disc and rng.random() < .6:
            D = opinf.ddt
            t = np.linspace(0, 1, self.k)
            f = gen.pick(rng, ["u", "fwd", "nu", "interp"])
            if f == "u":
                self.ddt = D.UniformFiniteDifferencer(
                    t, gen.pick(rng, ["ord2", "ord4", "ctr2", "bwd1"]))
            elif f == "fwd":
                self.ddt = D.UniformFiniteDifferencer(t, "fwd3")
            elif f == "nu":
                self.ddt = D.NonuniformFiniteDifferencer(t ** 1.3)
            else:
                self.ddt = D.InterpDerivativeEstimator(t, "cubic")
        kw = dict(lifter=self.lifter, transformer=self.transformer,
                  basis=self.basis)
        if self.ddt is not None:
            kw["ddt_estimator"] = self.ddt
        cls = opinf.roms.ROM if ptype == "plain" else opinf.roms.ParametricROM
        self.rom = cls(self.model, **kw)

    def lab(self):
        return (f"lifter={self.lk} tr={self.tk} basis={self.bk} n0={self.n0} "
                f"sizes={self.sizes} r={self.r} ops={self.kinds} "
                f"kind={self.kind} "
                f"ddt={type(self.ddt).__name__}")

    # data -----------------------------------------------------------------
    def data(self, rng, k):
        Q = rng.standard_normal((self.n0, k))
        Q = 2 * Q + rng.uniform(-3, 3, (self.n0, 1))
        if self.lk in ("neg",):
            Q = np.abs(Q) + .7
        return Q

    # the stages, one by one -----------------------------------------------
    def lift(self, Q):
        return Q.copy() if self.lk in (None, "same") else \
            self.lifter.lift(Q)

    def lift_ddts(self, Q, Z):
        return Z.copy() if self.lk in (None, "same") else \
            self.lifter.lift_ddts(Q, Z)

    def fit_t(self, Qs):
        if self.transformer is not None:
            self.transformer.fit(np.hstack(Qs))

    def t(self, Q):
        return Q if self.transformer is None else \
            self.transformer.transform(Q)

    def tddt(self, Z):
        return Z if self.transformer is None else \
            self.transformer.transform_ddts(Z)

    def fit_b(self, Qs):
        if self.basis is not None:
            self.basis.fit(np.hstack(Qs))

    def b(self, Q):
        return Q if self.basis is None else self.basis.compress(Q)

    def enc(self, Q):
        return self.b(self.t(self.lift(Q)))

    def enc_lhs(self, Q, Z):
        if self.kind[0]:
            return self.enc(Z)
        return self.b(self.tddt(self.lift_ddts(Q, Z)))

    def dec(self, X, locs=None):
        Y = X.copy()
        if self.basis is not None:
            Y = self.basis.decompress(Y, locs=locs)
        if self.transformer is not None:
            Y = self.transformer.inverse_transform(Y, locs=locs)
        if self.lifter is not None:
            Y = self.lifter.unlift(Y)
        return Y

    def adopt(self, rom):
        """Use the fitted stages of a ROM."""
        self.transformer = rom.transformer
        self.basis = rom.basis


def subspace(b, n):
    """Projection matrix onto the span, per block for multi bases."""
    if b is None:
        return np.eye(n)
    X = b.decompress(b.compress(np.eye(n)))
    return X


def fitted_as(ctx, rom, tw, Q, lab):
    """The fitted stages of rom behave like those of the twin."""
    if rom.transformer is not None:
        Y = tw.lift(Q)
        ctx.close(rom.transformer.transform(Y), tw.transformer.transform(Y),
                  "fit-transformer", rtol=1e-9, msg=lab)
    if rom.basis is not None:
        ctx.close(subspace(rom.basis, tw.n), subspace(tw.basis, tw.n),
                  "fit-basis", rtol=1e-6, scale=1., msg=lab)


def get_ops(model):
    out = []
    for op in model.operators:
        e = op.entries
        out.append(np.concatenate([np.ravel(x) for x in e])
                   if isinstance(e, (list, tuple)) else np.ravel(e))
    return out


@CHECK.family(quick=900, thorough=20000)
def encode(ctx, rng, i):
    seed = int(rng.integers(2 ** 40))
    kind = (i % 2 == 0, ["plain", "plain", "affine", "interp"][i // 2 % 4])
    R, T = Build(seed, kind), Build(seed, kind)
    rom, lab = R.rom, R.lab()
    ctx.note(lifter=R.lk, tr=R.tk, basis=R.bk, kind=kind, n0=R.n0, r=R.r)
    if R.lifter is None and R.transformer is None and R.basis is None:
        ctx.ev("no-stage")
    if R.lifter and R.transformer and R.basis:
        ctx.ev("all-stages")
    if R.lk in ("exp", "same"):
        ctx.ev(f"custom-lifter{'' if R.lk == 'exp' else '-same'}")
    if R.custom:
        ctx.ev("custom-stage")
    Q = R.data(rng, R.n + 8)
    fit_first = rng.random() < .5
    inplace = bool(rng.random() < .3)
    G = gen.layout(rng, Q, w=True)
    if fit_first:
        # fit the stages through encode()
        ctx.ev("encode-fit-transformer")
        ctx.ev("encode-fit-basis")
        Z = None
        if rng.random() < .5:
            Z = R.data(rng, Q.shape[1])
            if not kind[0]:
                Z = 7 * rng.standard_normal(Q.shape)
            E, EZ = rom.encode(G, gen.layout(rng, Z, w=True), inplace=inplace,
                               fit_transformer=True, fit_basis=True)
        else:
            E = rom.encode(G, inplace=inplace, fit_transformer=True,
                           fit_basis=True)
        Y = T.lift(Q)
        T.fit_t([Y])
        Y = T.t(Y)
        T.fit_b([Y])
        fitted_as(ctx, rom, T, Q, lab)
        T.adopt(rom)
        ctx.close(E, T.enc(Q), "encode", rtol=1e-9, msg=lab)
        if Z is not None:
            ctx.close(EZ, T.enc_lhs(Q, Z), "encode-fit-lhs", rtol=1e-9,
                      msg=lab)
    else:
        Y = T.lift(Q)
        T.fit_t([Y])
        Y = T.t(Y)
        T.fit_b([Y])
        X = R.lift(Q)
        R.fit_t([X])
        R.fit_b([R.t(X)])
        T.adopt(rom)
        E = rom.encode(G, inplace=inplace)
        ctx.close(E, T.enc(Q), "encode", rtol=1e-9, msg=lab)
    if inplace:
        ctx.ev("encode-inplace")
        G = gen.layout(rng, Q, w=True)
    else:
        ctx.equal(G, Q, "inputs-untouched", lab)
    # a new batch, a vector
    Q2 = R.data(rng, int(gen.pick(rng, [1, 2, 6])))
    E2 = rom.encode(gen.layout(rng, Q2))
    ctx.close(E2, T.enc(Q2), "encode", rtol=1e-9, msg=lab)
    ctx.ok(E2.shape == (R.r, Q2.shape[1]), "encode", f"{lab} {E2.shape}")
    v = Q2[:, 0].copy()
    ev = rom.encode(v)
    ctx.ok(np.shape(ev) == (R.r,), "encode-vector", f"{lab} {np.shape(ev)}")
    ctx.close(ev, T.enc(v), "encode-vector", rtol=1e-9, msg=lab)
    ctx.close(ev, E2[:, 0], "encode-vector", rtol=1e-8, msg=lab,
              scale=np.abs(E2).max() + 1)
    ctx.equal(v, Q2[:, 0], "inputs-untouched", lab)
    # with left-hand sides
    Z2 = R.data(rng, Q2.shape[1]) if kind[0] else rng.standard_normal(
        Q2.shape)
    A, B = gen.layout(rng, Q2, w=True), gen.layout(rng, Z2, w=True)
    ip = bool(rng.random() < .3)
    out = rom.encode(A, B, inplace=ip) if rng.random() < .5 else rom.encode(
        A, lhs=B, inplace=ip)
    ctx.ok(isinstance(out, tuple) and len(out) == 2, "encode-lhs", lab)
    ctx.close(out[0], T.enc(Q2), "encode-lhs", rtol=1e-9, msg=lab)
    ctx.close(out[1], T.enc_lhs(Q2, Z2), "encode-lhs", rtol=1e-9, msg=lab)
    if not ip:
        ctx.equal(A, Q2, "inputs-untouched", lab)
        ctx.equal(B, Z2, "inputs-untouched", lab)
    if not kind[0]:
        h = 1e-5
        P, N = rom.encode(Q2 + h * Z2), rom.encode(Q2 - h * Z2)
        ctx.close(out[1], (P - N) / (2 * h), "encode-ddt-meaning",
                  rtol=1e-4, atol=1e-7 * (1 + np.abs(E2).max()),
                  scale=np.abs(out[1]).max(), msg=lab)
    o1 = rom.encode(Q2[:, 0].copy(), Z2[:, 0].copy())
    ctx.close(o1[1], T.enc_lhs(Q2[:, 0], Z2[:, 0]), "encode-vector",
              rtol=1e-9, msg=lab)
    # decoding
    X = E2 + .01 * np.abs(E2).max() * rng.standard_normal(E2.shape)
    G = gen.layout(rng, X, w=True)
    D = rom.decode(G)
    ctx.ok(D.shape == Q2.shape, "decode", f"{lab} {D.shape}")
    ctx.close(D, T.dec(X), "decode", rtol=1e-9, msg=lab)
    ctx.equal(G, X, "inputs-untouched", lab)
    d = rom.decode(X[:, 0].copy())
    ctx.ok(np.shape(d) == (R.n0,), "decode-vector", lab)
    ctx.close(d, D[:, 0], "decode-vector", rtol=1e-8, msg=lab,
              scale=np.abs(D).max())
    p = rom.project(A if not ip else Q2)
    ctx.close(p, T.dec(T.enc(Q2)), "project", rtol=1e-9, msg=lab,
              scale=np.abs(p).max() + np.abs(Q2).max())
    if R.basis is None or (not R.bmulti and R.r == R.n and R.bk == "linear"):
        ctx.close(p, Q2, "decode-encode-identity", rtol=1e-6,
                  msg=lab)
    # selected locations
    if R.basis is not None:
        per = R.n // len(R.sizes)
        if R.lifter is None and not R.tmulti and not R.bmulti and \
                not isinstance(R.transformer, opinf.pre.TransformerPipeline):
            locs, _ = gen.locs(rng, R.n)
            ctx.close(rom.decode(X, locs=locs), D[locs], "decode-locs",
                      rtol=1e-8, scale=np.abs(D).max(), msg=f"{lab} {locs}")
            ctx.close(rom.decode(X[:, 0], locs), D[locs][:, 0],
                      "decode-locs", rtol=1e-8, scale=np.abs(D).max(),
                      msg=lab)
        elif R.bmulti and (R.tmulti or R.transformer is None) and R.equal:
            locs, _ = gen.locs(rng, per)
            if R.lifter is not None:
                ctx.ev("decode-locs-lifted")
                want = D[locs]
            else:
                want = np.concatenate([
                    D[j * per:(j + 1) * per][locs]
                    for j in range(len(R.sizes))])
            got = rom.decode(X, locs=locs)
            ctx.close(got, want, "decode-locs", rtol=1e-8,
                      scale=np.abs(D).max(), msg=f"{lab} {locs}")
    ctx.close(rom.encode(Q2), E2, "encode", rtol=1e-12, msg=lab)


def hstack_or_none(x):
    return None if x is None else np.hstack(x)


@CHECK.family(quick=1000, thorough=20000)
def fit(ctx, rng, i):
    seed = int(rng.integers(2 ** 40))
    disc = i % 2 == 0
    ptype = ["plain", "plain", "affine", "interp"][i // 2 % 4]
    kind = (disc, ptype)
    R, T = Build(seed, kind), Build(seed, kind)
    rom, lab = R.rom, R.lab()
    for rnd in range(2 if rng.random() < .35 else 1):
        if rnd:
            ctx.ev("fit-again")
            # a fresh twin: nothing may be left of the first training
            T = Build(seed, kind)
        ns = 3 if ptype != "plain" else int(gen.pick(rng, [1, 2, 3]))
        single = ns == 1
        given = (rng.random() < .4) if disc else R.ddt is None
        uneven = ns > 1 and R.ddt is None and rng.random() < .7
        # enough snapshots that the POD is determined
        base = R.k if R.ddt is not None else max(R.k, R.n // ns + 4)
        ks = [base + (int(rng.integers(0, 5)) if uneven else 0)
              for _ in range(ns)]
        if ns > 1 and R.ddt is None and rng.random() < .4:
            # trajectories of very few snapshots
            for j in rng.permutation(ns)[:int(rng.integers(1, ns))]:
                ks[j] = int(rng.integers(2 if disc else 1, 4))
            if max(ks) <= R.n + 1:
                ks[int(np.argmax(ks))] = R.n + 5
            ctx.ev("short-trajectories")
        if sum(ks) <= R.n + 1:
            return
        Qs = [R.data(rng, k) for k in ks]
        Zs = None
        if given:
            Zs = [R.data(rng, k) if disc else rng.standard_normal((R.n0, k))
                  for k in ks]
        Us = None
        longer = 0
        if R.hasu:
            if disc and not given and rng.random() < .4:
                # the input at the last snapshot is not needed
                longer = int(gen.pick(rng, [-1, -1, 1, 3]))
                ctx.ev("longer-inputs")
            oned = R.m == 1 and rng.random() < .4
            Us = [rng.standard_normal(k + longer) if oned else
                  rng.standard_normal((R.m, k + longer)) for k in ks]
            ctx.ev("fit-with-inputs")
        if len(set(ks)) > 1:
            ctx.ev("uneven-trajectories")
        ctx.ev("fit-one-trajectory" if single else "fit-many-trajectories")
        ctx.ev("fit-given-lhs" if given and not disc else
               "fit-next-states" if given else
               "fit-discrete-shift" if disc else "fit-estimated")
        ft = fb = True
        Y = [T.lift(Q) for Q in Qs]
        if rng.random() < .3:
            # stages calibrated beforehand (on other data)
            other = R.data(rng, R.n + 6)
            for X in (R, T):
                X.fit_t([X.lift(other)])
                X.fit_b([X.t(X.lift(other))])
            ft, fb = bool(rng.random() < .4), bool(rng.random() < .4)
            if R.bk == "pod" and not ft:
                pass
        Y = [T.lift(Q) for Q in Qs]
        Z = None
        if given:
            Z = ([T.lift(z) for z in Zs] if disc else
                 [T.lift_ddts(q, z) for q, z in zip(Qs, Zs)])
        if not ft and R.transformer is not None:
            ctx.ev("fit-skip-transformer")
        if not fb and R.basis is not None:
            ctx.ev("fit-skip-basis")
        if ft:
            T.fit_t(Y)
        Y = [T.t(q) for q in Y]
        if fb:
            T.fit_b(Y)
        mus = None
        args = []
        if ptype != "plain":
            mus = np.sort(rng.uniform(.2, .8, ns)) + np.arange(ns)
            args = [mus if rng.random() < .5 else list(mus)]
            ctx.ev("fit-" + ptype)
        # what is passed
        lay = [gen.layout(rng, Q) for Q in Qs]
        snap = [Q.copy() for Q in Qs]
        pas, pz, pu = lay, Zs, Us
        if single and rng.random() < .6:
            pas, pz, pu = lay[0], (Zs[0] if given else None), (
                Us[0] if Us else None)
        elif rng.random() < .3:
            pas = tuple(pas)
        kw = {}
        if given:
            kw["lhs"] = pz
        if R.hasu:
            kw["inputs"] = pu
        if not (ft and fb):
            kw.update(fit_transformer=ft, fit_basis=fb)
        ret = rom.fit(*args, pas, **kw)
        ctx.ok(ret is rom, "fit-model", lab)
        for a, b in zip(lay, snap):
            ctx.equal(a, b, "inputs-untouched", lab)
        l2 = f"{lab} ks={ks} given={given} ft={ft} fb={fb} longer={longer}"
        fitted_as(ctx, rom, T, Qs[0], l2)
        ctx.note(lifter=R.lk, tr=R.tk, basis=R.bk, kind=kind, ns=ns,
                 given=given, ft=ft, fb=fb, r=R.r, ks=str(ks), rnd=rnd)
        # regression data from the stages
        T.adopt(rom)
        X = [T.enc(Q) for Q in Qs]
        U = Us
        if given:
            W = [T.b(T.t(z) if disc else T.tddt(z)) for z in Z]
        elif disc:
            W = [x[:, 1:] for x in X]
            X = [x[:, :-1] for x in X]
            if U is not None:
                U = [u[..., :x.shape[1]] for x, u in zip(X, U)]
        else:
            nX, W, nU = [], [], []
            for j, x in enumerate(X):
                if U is None:
                    a, b = T.ddt.estimate(x)
                else:
                    a, b, c = T.ddt.estimate(x, U[j])
                    nU.append(c)
                nX.append(a)
                W.append(b)
            X, U = nX, (nU if U is not None else None)
        if ptype == "plain":
            T.model.fit(np.hstack(X), np.hstack(W), hstack_or_none(U))
        else:
            T.model.fit(mus, X, W, U)
        big = max(np.abs(x).max() for x in X)
        if ptype != "interp":
            DM = rom.model.solver.data_matrix
            ctx.close(DM, T.model.solver.data_matrix, "fit-data", rtol=1e-8,
                      msg=l2)
            ctx.close(rom.model.solver.lhs_matrix,
                      T.model.solver.lhs_matrix, "fit-data", rtol=1e-8,
                      msg=l2)
            sv = np.linalg.svd(DM, compute_uv=False)[0]
            cond = (sv / R.lam) ** 2 + 1
        else:
            cond = 1 + max(
                (np.linalg.svd(s.data_matrix, compute_uv=False)[0] / R.lam)
                ** 2 for s in rom.model.solvers)
            for a, b in zip(rom.model.solvers, T.model.solvers):
                ctx.close(a.data_matrix, b.data_matrix, "fit-data",
                          rtol=1e-8, msg=l2)
                ctx.close(a.lhs_matrix, b.lhs_matrix, "fit-data",
                          rtol=1e-8, msg=l2)
        tol = min(1e-4, 1e-11 * cond)
        for a, b in zip(get_ops(rom.model), get_ops(T.model)):
            ctx.close(a, b, "fit-model", rtol=max(tol, 1e-8), msg=l2,
                      scale=1 + np.abs(b).max())
        predict(ctx, rng, R, T, mus, l2, Qs, big)


def predict(ctx, rng, R, T, mus, lab, Qs, big):
    rom, disc = R.rom, R.kind[0]
    q0 = Qs[0][:, int(rng.integers(Qs[0].shape[1]))].copy()
    par = ptw = []
    if mus is not None:
        mu = float(rng.uniform(mus[0], mus[-1]))
        par, ptw = [mu], [mu]
        ctx.ev("predict-parametric")
    # drive the same model from the stages
    model = rom.model
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with np.errstate(all="ignore"):
            if disc:
                n = int(rng.integers(1, 5))
                a = [rng.standard_normal((R.m, n + 1))] if R.hasu else []
                got = rom.predict(*par, q0, n, *a)
                want = T.dec(model.predict(*ptw, T.enc(q0), n, *a))
                ctx.ev("predict-discrete")
            else:
                t = np.linspace(0, .05, 6)
                a = [(lambda s: np.cos(s + np.arange(R.m)))] if R.hasu \
                    else []
                kw = dict(max_step=.01) if rng.random() < .5 else {}
                got = rom.predict(*par, q0, t, *a, **kw)
                mp = model.predict(*ptw, T.enc(q0), t, *a, **kw)
                want = T.dec(mp)
                ctx.ev("predict-continuous")
    if not np.isfinite(want).all():
        ctx.ok(not np.isfinite(got).all(), "predict", lab)
        return
    ctx.close(got, want, "predict", rtol=1e-7, msg=lab,
              scale=np.abs(want).max() + np.abs(q0).max())
    if got.shape[1] > 0:
        p = rom.project(q0)
        ctx.close(got[:, 0], p, "predict", rtol=1e-7, msg=lab,
                  scale=np.abs(p).max() + np.abs(q0).max())
