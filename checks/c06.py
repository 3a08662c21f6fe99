"""C06: composites act blockwise; pipelines act stage by stage."""
import copy

import numpy as np
import opinf

from rv import basisgen, gen, pregen
from rv.core import Check

CHECK = Check(
    "C06",
    "A case builds a composite (multi-variable transformer or basis, or "
    "pipeline) and independent twins of its parts, trains both on the same "
    "data, and compares every operation of the composite with the stacked / "
    "chained operations of the twins, including selected locations, vectors, "
    "split/stack and per-variable access, refits and dimension changes.",
    require=["multi-fit", "multi-transform", "multi-inverse", "multi-locs",
             "multi-ddts", "split-stack", "get_var", "pipe-transform",
             "pipe-inverse", "pipe-ddts", "basis-compress",
             "basis-decompress", "basis-locs", "basis-project",
             "basis-split", "sizes"])


def near(ctx, got, want, s, rule, msg):
    got, want = np.asarray(got), np.asarray(want)
    ctx.ok(got.shape == want.shape, rule,
           f"{msg}: shape {got.shape} expected {want.shape}")
    s = np.asarray(s, float)
    s = s.reshape((-1, 1)) if (want.ndim == 2 and s.ndim == 1) else s
    d = np.abs(got - want) / (1e-9 * s + 1e-300)
    ctx.ok(bool(np.all(d <= 1)), rule,
           lambda: f"{msg}: off by {float(d.max()):.2e} x tolerance")


def stack(blocks):
    return np.concatenate(blocks)


def blocks_of(X, sizes):
    ends = np.cumsum(sizes)
    return [X[e - s:e] for s, e in zip(sizes, ends)]


@CHECK.family(quick=1200, thorough=30000)
def transformer_multi(ctx, rng, i):
    nv = 1 + i % 5
    equal = bool((i // 5) % 2)
    n0 = int(rng.integers(1, 7))
    sizes = [n0] * nv if equal else [int(rng.integers(1, 7))
                                     for _ in range(nv)]
    parts = []
    for s in sizes:
        if rng.random() < 0.15:
            parts.append(pregen.pipeline(rng, s, needdim=True))
        else:
            parts.append(pregen.leaf(rng, s))
    names = [None if rng.integers(2) else f"var{j}x" for j in range(nv)]
    for p, nm in zip(parts, names):
        p[0].name = nm
    twins = [copy.deepcopy(p[0]) for p in parts]
    ref = pregen.stackref([p[1] for p in parts], sizes)
    M, _, lab, _ = pregen.multi(rng, sizes, parts)
    N = sum(sizes)
    ctx.note(cls=lab, sizes=tuple(sizes))
    for rep in range(int(rng.integers(1, 3))):
        Q, kind = pregen.train_states(rng, N)
        m = ref(Q)
        a, b = (np.asarray(v, float) for v in m)
        mag = np.asarray(m.mag, float)
        inp = bool(rng.integers(2))
        A = gen.layout(rng, Q, w=True)
        if rng.integers(2):
            Y = M.fit_transform(A, inplace=inp)
            if inp:
                ctx.ok(Y is A, "multi-inplace", lab)
        else:
            ctx.ok(M.fit(A) is M, "fit-self", lab)
            Y = M.transform(Q.copy())
        Yt = stack([t.fit_transform(np.array(q), inplace=False)
                    for t, q in zip(twins, blocks_of(Q, sizes))])
        amp = 1 + 1e-4 * np.max(np.abs(a) * (np.abs(Q).max() + mag.max()))
        s = amp * (np.abs(a) * (np.abs(Q).max(axis=1) + mag) + np.abs(b)
                   + 1e-300)
        near(ctx, Y, Yt, s, "multi-fit", lab)
        ctx.ok(tuple(M.variable_sizes) == tuple(sizes)
               and M.state_dimension == N and M.num_variables == nv
               and len(M) == nv, "sizes", f"{lab}: {M.variable_sizes}")
        X = Q[:, :1] + np.abs(Q).max() * rng.standard_normal((N, 4))
        s = amp * (np.abs(a) * (np.abs(X).max(axis=1) + mag) + np.abs(b))
        for Z in (X, X[:, 1]):
            got = M.transform(gen.layout(rng, Z, w=True),
                              inplace=bool(rng.integers(2)))
            want = stack([t.transform(np.array(q)) for t, q in
                          zip(twins, blocks_of(Z, sizes))])
            near(ctx, got, want, s, "multi-transform", lab)
            got = M.inverse_transform(gen.layout(rng, want, w=True),
                                      inplace=bool(rng.integers(2)))
            inv = stack([t.inverse_transform(np.array(q)) for t, q in
                         zip(twins, blocks_of(want, sizes))])
            so = amp * (np.abs(X).max(axis=1) + mag + 1e-3 * mag.max())
            near(ctx, got, inv, so, "multi-inverse", lab)
            D = rng.standard_normal(Z.shape)
            got = M.transform_ddts(gen.layout(rng, D, w=True),
                                   inplace=bool(rng.integers(2)))
            dd = stack([t.transform_ddts(np.array(q), inplace=False)
                        for t, q in zip(twins, blocks_of(D, sizes))])
            near(ctx, got, dd, amp * np.abs(a) * 10, "multi-ddts", lab)
            if equal:
                L, lk = gen.locs(rng, n0)
                rows = np.arange(n0)[L]
                if rows.size:
                    part = [w[rows] for w in blocks_of(want, sizes)]
                    got = M.inverse_transform(
                        stack(part), locs=L, inplace=bool(rng.integers(2)))
                    w2 = stack([t.inverse_transform(np.array(q), locs=L)
                                for t, q in zip(twins, part)])
                    sl = stack([v[rows] for v in blocks_of(so, sizes)])
                    near(ctx, got, w2, sl, "multi-locs", f"{lab} {lk}")
            sp = M.split(Z)
            ctx.ok(len(sp) == nv and all(
                np.array_equal(u, v) for u, v in
                zip(sp, blocks_of(Z, sizes))), "split-stack", lab)
            ctx.equal(np.concatenate(sp), Z, "split-stack", lab)
            for j in range(nv):
                ctx.equal(M.get_var(j, Z), blocks_of(Z, sizes)[j],
                          "get_var", f"{lab} var {j}")
                nm = M.variable_names[j]
                ctx.equal(M.get_var(nm, Z), blocks_of(Z, sizes)[j],
                          "get_var", f"{lab} var {nm}")
                ctx.ok(M[j] is M.transformers[j] and M[nm] is M[j],
                       "getitem", lab)
                if names[j] is not None and parts[j][2] != "Null":
                    ctx.ok(nm == names[j], "names", f"{nm} != {names[j]}")
        if len(set(sizes)) > 1:
            with ctx.raises(ValueError, "multi-locs-unequal", lab):
                M.inverse_transform(X, locs=np.arange(1))


@CHECK.family(quick=500, thorough=12000)
def pipeline(ctx, rng, i):
    n = int(gen.pick(rng, [1, 2, 4, 7]))
    m = 1 + i % 4
    parts = [pregen.leaf(rng, n) for _ in range(m)]
    if n % 2 == 0 and rng.integers(3) == 0:
        T, ref, lab, _ = pregen.multi(rng, [n // 2] * 2)
        parts[int(rng.integers(m))] = (T, ref, lab)
    nolocs = any(p[2].startswith("Multi") for p in parts)
    twins = [copy.deepcopy(p[0]) for p in parts]
    T, ref, lab = pregen.pipeline(rng, n, parts)
    ctx.ok(T.num_transformers == m == len(T.transformers) == len(T),
           "num_transformers", lab)
    ctx.note(cls=lab, n=n)
    for rep in range(2):
        Q, kind = pregen.train_states(rng, n)
        mp = ref(Q)
        a, b = (np.asarray(v, float) for v in mp)
        mag = np.asarray(mp.mag, float)
        Y = np.array(Q)
        for t in twins:
            Y = t.fit_transform(np.array(Y), inplace=False)
        got = T.fit_transform(gen.layout(rng, Q, w=True),
                              inplace=bool(rng.integers(2)))
        amp = 1 + 1e-4 * np.max(np.abs(a) * (np.abs(Q).max() + mag.max()))
        s = amp * (np.abs(a) * (np.abs(Q).max() + mag.max()) + np.abs(b))
        near(ctx, got, Y, s, "pipe-fit", lab)
        ctx.ok(T.state_dimension == n, "pipe-dim", lab)
        X = Q[:, :1] + np.abs(Q).max() * rng.standard_normal((n, 3))
        s = amp * (np.abs(a) * (np.abs(X).max() + mag.max()) + np.abs(b))
        for Z in (X, X[:, 0]):
            W = np.array(Z)
            for t in twins:
                W = t.transform(np.array(W))
            near(ctx, T.transform(gen.layout(rng, Z)), W, s,
                 "pipe-transform", lab)
            so = amp * (np.abs(X).max() + mag.max()) * np.ones(n)
            U = np.array(W)
            for t in reversed(twins):
                U = t.inverse_transform(np.array(U))
            near(ctx, T.inverse_transform(gen.layout(rng, W)), U, so,
                 "pipe-inverse", lab)
            if not nolocs:
                L, lk = gen.locs(rng, n)
                rows = np.arange(n)[L]
                if rows.size:
                    U2 = T.inverse_transform(W[rows], locs=L)
                    near(ctx, U2, U[rows], so[rows], "pipe-locs",
                         f"{lab} {lk}")
            D = rng.standard_normal(Z.shape)
            W = np.array(D)
            for t in twins:
                W = t.transform_ddts(np.array(W), inplace=False)
            near(ctx, T.transform_ddts(gen.layout(rng, D, w=True)), W,
                 10 * amp * np.abs(a), "pipe-ddts", lab)


def make_basis(rng, n, k, name):
    if rng.random() < 0.35:
        B, V, W, lab = basisgen.linear(rng, n, name=name)
        return B, lab
    B, r, W, lab = basisgen.pod(rng, n, k, solver=gen.pick(
        rng, ["dense", "method-of-snapshots"]), name=name)
    return B, lab


@CHECK.family(quick=600, thorough=15000)
def basis_multi(ctx, rng, i):
    nv = 1 + i % 4
    equal = bool((i // 4) % 2)
    n0 = int(rng.integers(1, 8))
    sizes = [n0] * nv if equal else [int(rng.integers(1, 8))
                                     for _ in range(nv)]
    k = int(gen.pick(rng, [1, 3, 9]))
    names = [None if rng.integers(2) else f"var{j}x" for j in range(nv)]
    parts = [make_basis(rng, s, k, nm) for s, nm in zip(sizes, names)]
    twins = [copy.deepcopy(p[0]) for p in parts]
    lab = "BasisMulti[" + ",".join(p[1] for p in parts) + "]"
    anydim = any(p[1].startswith("Linear") for p in parts)
    fvs = None if equal and not anydim and rng.integers(2) else sizes
    B = opinf.basis.BasisMulti([p[0] for p in parts], full_variable_sizes=fvs)
    N = sum(sizes)
    ctx.note(cls=lab, sizes=tuple(sizes), k=k)
    for rep in range(int(rng.integers(1, 3))):
        Q = stack([basisgen.snapshots(rng, s, k)[0] for s in sizes])
        ctx.ok(B.fit(gen.layout(rng, Q)) is B, "fit-self", lab)
        for t, q in zip(twins, blocks_of(Q, sizes)):
            t.fit(np.array(q))
        rs = tuple(t.reduced_state_dimension for t in twins)
        R = sum(rs)
        ctx.ok(tuple(B.full_variable_sizes) == tuple(sizes) and
               tuple(B.reduced_variable_sizes) == rs and
               B.full_state_dimension == N and
               B.reduced_state_dimension == R and B.shape == (N, R) and
               len(B) == nv == B.num_variables, "sizes",
               f"{lab}: {B.full_variable_sizes} {B.reduced_variable_sizes}")
        # signs of POD vectors are a convention: use the composite's own parts
        for t, p in zip(twins, B.bases):
            ctx.close(p.entries, t.entries, "basis-fit", atol=1e-7, msg=lab)
        X = rng.standard_normal((N, 4)) * np.abs(Q).max()
        sc = np.abs(X).max() * 10
        for Z in (X, X[:, 2]):
            C = B.compress(gen.layout(rng, Z))
            Ct = stack([t.compress(q) for t, q in
                        zip(B.bases, blocks_of(Z, sizes))])
            near(ctx, C, Ct, sc, "basis-compress", lab)
            c = rng.standard_normal((R,) + Z.shape[1:])
            D = B.decompress(gen.layout(rng, c))
            Dt = stack([t.decompress(q) for t, q in
                        zip(B.bases, blocks_of(c, rs))])
            near(ctx, D, Dt, 10.0, "basis-decompress", lab)
            P = B.project(gen.layout(rng, Z))
            Pt = stack([t.project(q) for t, q in
                        zip(B.bases, blocks_of(Z, sizes))])
            near(ctx, P, Pt, sc, "basis-project", lab)
            e = np.linalg.norm(Z - Pt)
            near(ctx, B.projection_error(Z, relative=False), e,
                 np.array(sc * 10), "basis-projection_error", lab)
            near(ctx, B.projection_error(Z, relative=True),
                 e / np.linalg.norm(Z), np.array(100.0),
                 "basis-projection_error", lab)
            if equal:
                L, lk = gen.locs(rng, n0)
                rows = np.arange(n0)[L]
                if rows.size:
                    got = B.decompress(c, locs=L)
                    want = stack([d[rows] for d in blocks_of(D, sizes)])
                    near(ctx, got, want, 10.0, "basis-locs", f"{lab} {lk}")
            sp = B.split(Z)
            ctx.equal(np.concatenate(sp), Z, "basis-split", lab)
            ctx.ok(all(np.array_equal(u, v) for u, v in
                       zip(sp, blocks_of(Z, sizes))), "basis-split", lab)
            if R != N:
                ctx.ok(all(np.array_equal(u, v) for u, v in
                           zip(B.split(c), blocks_of(c, rs))), "basis-split",
                       lab)
            for j in range(nv):
                nm = B.variable_names[j]
                ctx.equal(B.get_var(j, Z), blocks_of(Z, sizes)[j],
                          "basis-get_var", lab)
                ctx.equal(B.get_var(nm, Z), blocks_of(Z, sizes)[j],
                          "basis-get_var", lab)
                if R != N:
                    ctx.equal(B.get_var(nm, c), blocks_of(c, rs)[j],
                              "basis-get_var", lab)
                ctx.ok(B[nm] is B.bases[j] and B[j] is B.bases[j],
                       "basis-getitem", lab)
        # change a component's dimension: the composite follows
        j = int(rng.integers(nv))
        if isinstance(B.bases[j], opinf.basis.PODBasis):
            r = int(rng.integers(1, B.bases[j].max_vectors + 1))
            B.bases[j].reduced_state_dimension = r
            rs2 = list(rs)
            rs2[j] = r
            ctx.ok(B.reduced_state_dimension == sum(rs2)
                   and B.compress(X).shape == (sum(rs2), 4), "sizes",
                   f"{lab} after changing a component dimension")
            near(ctx, B.compress(X), stack([t.compress(q) for t, q in zip(
                B.bases, blocks_of(X, sizes))]), sc, "basis-compress", lab)
            # exchange dimensions between components, total unchanged
            pods = [l for l in range(nv)
                    if isinstance(B.bases[l], opinf.basis.PODBasis)]
            for l in pods:
                if l != j:
                    a, b = rs2[j], rs2[l]
                    if a != b and a <= B.bases[l].max_vectors \
                            and b <= B.bases[j].max_vectors:
                        B.bases[j].reduced_state_dimension = b
                        B.bases[l].reduced_state_dimension = a
                        rs2[j], rs2[l] = b, a
                        break
            for l in pods:  # otherwise move one vector between components
                a, b = rs2[j], rs2[l]
                if l != j and a > 1 and b < B.bases[l].max_vectors:
                    B.bases[j].reduced_state_dimension = a - 1
                    B.bases[l].reduced_state_dimension = b + 1
                    rs2[j], rs2[l] = a - 1, b + 1
                    break
            ctx.ok(tuple(B.reduced_variable_sizes) == tuple(rs2), "sizes",
                   lab)
            near(ctx, B.compress(X), stack([t.compress(q) for t, q in zip(
                B.bases, blocks_of(X, sizes))]), sc, "basis-compress", lab)
            c = rng.standard_normal((sum(rs2), 3))
            near(ctx, B.decompress(c), stack([t.decompress(q) for t, q in zip(
                B.bases, blocks_of(c, rs2))]), 10.0, "basis-decompress", lab)
            if sum(rs2) != N:
                ctx.ok(all(np.array_equal(u, v) for u, v in
                           zip(B.split(c), blocks_of(c, rs2))),
                       "basis-split", lab)
            break
