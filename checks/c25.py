"""C25: saved files are never overwritten or misread silently."""
import hashlib
import os
import warnings

import h5py
import numpy as np
import opinf

from rv import gen, pregen, basisgen, opgen as og, lstsqgen as lg
from rv import modelgen as mg
from rv.core import Check, scratch, quiet
from checks import c24

M = opinf.models
O = opinf.operators
BadFile = opinf.errors.LoadfileFormatError
CHECK = Check(
    "C25",
    "A case draws a saveable object of any class and a file situation: an "
    "existing file of any content (with and without overwrite), a missing, "
    "empty, random or truncated file, a file of another class, a file with "
    "one required dataset, group or attribute removed, a write that fails "
    "after k datasets, a body that raises any exception while the handle is "
    "open, an open handle. Monitors compare file bytes and directory "
    "listings before and after, the exception raised, the content written, "
    "and the number of HDF5 files and objects left open in the process.",
    require=["no-overwrite", "bytes-unchanged", "overwrite-content",
             "missing", "foreign", "truncated", "wrong-class",
             "missing-content", "handles-closed", "write-fault",
             "body-exception", "handle-stays-open", "occupied-group",
             "directory", "suffix", "load-leaves-file", "default-overwrite",
             "recovers", "keyboard-interrupt", "wrong-number-of-classes",
             "symlink", "exact-name"])


ZOO = 17


def zoo(rng, i):
    """(object, load function, label, required content)."""
    n = int(gen.pick(rng, [2, 3, 5]))
    k = int(rng.integers(4, 9))
    Q = gen.states(rng, n, k, "normal")
    j = i % ZOO
    if j == 0:
        T = pregen.shift(rng, n)[0]
        return T, type(T).load, "Shift", ["meta", "meta@name",
                                          "reference_snapshot"]
    if j == 1:
        T = pregen.scale(rng, n)[0]
        return T, type(T).load, "Scale", ["meta", "meta@name", "scaler"]
    if j == 2:
        T = pregen.shiftscale(rng, n)[0]
        req = ["meta"] + ["meta@" + a for a in (
            "centering", "scaling", "byrow", "name", "state_dimension")]
        if rng.random() < .7:
            T.fit(Q)
            if T.scaling:
                req.append("transformation/shift_")
        return T, type(T).load, "ShiftScale", req
    if j == 3:
        T = pregen.pipeline(rng, n)[0]
        if rng.random() < .7:
            T.fit(Q)
        req = ["meta", "meta@num_transformers", "meta@name"] + [
            f"transformer_{a:02d}" for a in range(T.num_transformers)]
        return (T, lambda f: type(T).load(f, [type(t) for t in
                                              T.transformers]),
                "Pipeline", req)
    if j == 4:
        T = pregen.multi(rng, [n, n], allow_pipe=False)[0]
        if rng.random() < .7:
            T.fit(np.vstack([Q, Q[::-1]]))
        return (T, lambda f: type(T).load(f, [type(t) for t in
                                              T.transformers]),
                "TMulti", ["num_variables", "variable0", "variable1"])
    if j == 5:
        T = basisgen.linear(rng, n, name=gen.pick(rng, [None, "x"]))[0]
        req = ["entries"] + (["meta@name"] if T.name else [])
        return T, type(T).load, "Linear", req
    if j == 6:
        T = c24.build_basis(rng, "pod", n, k)[0]
        req = ["meta", "meta@criterion_type", "criterion_value"]
        if rng.random() < .7:
            T.fit(Q)
            req += ["svdvals"]
        return T, type(T).load, "POD", req
    if j == 7:
        T = opinf.basis.BasisMulti([
            c24.build_basis(rng, "pod", n, k)[0] for _ in range(2)])
        if rng.random() < .7:
            T.fit(np.vstack([Q, Q[::-1]]))
        return (T, lambda f: type(T).load(f, opinf.basis.PODBasis),
                "BMulti", ["num_variables", "variable0", "variable1"])
    r, m = 2, 2
    if j == 8:
        kd = gen.pick(rng, list("cAHGQBN"))
        T = og.make(rng, kd, r, m)[0] if rng.random() < .8 \
            else og.KINDS[kd][0]()
        return T, type(T).load, type(T).__name__, ["meta", "meta@class"]
    if j == 9:
        kd = gen.pick(rng, list(og.AFF))
        A = int(rng.integers(2, 4))
        co = [np.sin, np.cos, np.exp][:A]
        T = og.AFF[kd](co, entries=[og.entries(rng, kd, r, m)
                                    for _ in range(A)])
        return (T, lambda f: type(T).load(f, co), type(T).__name__,
                ["meta", "meta@class", "meta@nterms", "entries/A0"])
    if j == 10:
        kd = gen.pick(rng, list(og.INT))
        T = og.INT[kd](np.arange(4.) ** 2, [og.entries(rng, kd, r, m)
                                            for _ in range(4)])
        return (T, type(T).load, type(T).__name__,
                ["meta", "meta@class", "meta@InterpolatorClass",
                 "training_parameters"])
    if j == 11:
        cls = gen.pick(rng, [M.DiscreteModel, M.ContinuousModel, mg.Steady])
        T, kinds, infer, r, m, hasu = c24.build_model(
            rng, cls, gen.pick(rng, ["untrained", "given", "trained"]))
        req = ["meta", "meta@num_operators", "meta@r", "meta@m",
               "indices_infer", "indices_known"] + [
            f"operator_{a}" for a in range(len(kinds))]
        req.append("operator_0/meta@class")
        return T, type(T).load, type(T).__name__, req
    if j == 12:
        kind = gen.pick(rng, lg.KINDS)
        D, Z = lg.problem(rng, kind)
        Z2 = np.atleast_2d(Z)
        s = lg.settings(rng, kind, D.shape[1], Z2.shape[0], D.shape[0], 1.)
        T = lg.build(s)
        req = ["options"]
        if kind in ("tik", "tikdec"):
            req += ["meta@method", "meta"]
        if kind not in ("plain",):
            req += ["options@lapack_driver"]
        if rng.random() < .7:
            T.fit(D, Z)
            req += ["lhs_matrix"] + dict(
                tsvd=["_svals", "_ZPhi", "_SinvPsiT"],
                l2=["_svals", "_ZPhi", "_PsiT", ],
                tls=["_Ohat", "_augcond", "_norm_of_errors"],
            ).get(kind, [])
        return T, type(T).load, type(T).__name__, req
    if j == 14:
        T = opinf.pre.NullTransformer(name=gen.pick(rng, [None, "x"]))
        if rng.random() < .7:
            T.fit(Q)
        return T, type(T).load, "Null", ["meta", "meta@name"]
    if j == 15:
        p = int(rng.integers(0, 4))
        T = O.PolynomialOperator(p)
        if rng.random() < .7:
            T.set_entries(rng.standard_normal((r, T.operator_dimension(r))))
        return (T, type(T).load, "PolynomialOperator",
                ["meta", "meta@class", "meta@polynomial_order"])
    if j == 16:
        mus = np.arange(4.)
        cls = gen.pick(rng, [M.InterpDiscreteModel,
                             M.InterpContinuousModel])
        T = cls([og.INT[kd](mus, [og.entries(rng, kd, r, m) for _ in mus])
                 if rng.random() < .5 else og.INT[kd]() for kd in "cA"])
        if rng.random() < .5 and any(
                o.entries is None for o in T.operators):
            T.fit(mus, [rng.standard_normal((r, 9)) for _ in mus],
                  [rng.standard_normal((r, 9)) for _ in mus])
        return (T, type(T).load, type(T).__name__,
                ["meta", "meta@num_operators", "meta@r", "meta@m",
                 "meta@InterpolatorClass", "indices_infer",
                 "indices_known", "operator_0", "operator_1"])
    d = int(rng.integers(1, 4))
    q = int(rng.integers(1, 4))
    T = opinf.roms.OperatorPosterior(
        [rng.standard_normal(d) for _ in range(q)],
        [gen.spd(rng, d) for _ in range(q)])
    return (T, type(T).load, "Posterior", ["state_dimension"] + [
        f"{x}_{a}" for a in range(q) for x in ("means", "covs")])


def digest(f):
    with open(f, "rb") as fh:
        return hashlib.sha256(fh.read()).hexdigest()


def opened():
    return h5py.h5f.get_obj_count(
        h5py.h5f.OBJ_ALL, h5py.h5f.OBJ_FILE | h5py.h5f.OBJ_GROUP
        | h5py.h5f.OBJ_DATASET)


def closed(ctx, f, lab):
    """No file is left open in this process; f can be opened again."""
    n = h5py.h5f.get_obj_count(h5py.h5f.OBJ_ALL, h5py.h5f.OBJ_FILE)
    ctx.ok(n == 0, "handles-closed", f"{lab}: {n} HDF5 files left open")
    if f and os.path.isfile(f):
        size = os.path.getsize(f)
        os.rename(f, f + "~")
        os.rename(f + "~", f)
        ctx.ok(os.path.getsize(f) == size, "handles-closed", lab)


def contents(f):
    """All names, attribute values and data in a file."""
    out = {}

    def visit(name, x):
        out[name] = ("data", x.dtype.str, x.shape, x[()].tobytes()
                     if x.dtype.kind != "O" else str(x[()])) \
            if isinstance(x, h5py.Dataset) else ("group",)
        for a in x.attrs:
            out[f"{name}@{a}"] = ("attr", repr(x.attrs[a]))
    with h5py.File(f, "r") as hf:
        hf.visititems(visit)
        for a in hf.attrs:
            out["@" + a] = repr(hf.attrs[a])
    return out


def remove(f, item):
    with h5py.File(f, "a") as hf:
        if "@" in item:
            name, a = item.split("@")
            if name not in hf or a not in hf[name].attrs:
                return False
            del hf[name].attrs[a]
        else:
            if item not in hf:
                return False
            del hf[item]
    return True


def junk(rng, f, kind):
    """Write something that is not a saved object."""
    if kind == "empty":
        open(f, "wb").close()
    elif kind == "text":
        with open(f, "w") as fh:
            fh.write("precious results\n" * int(rng.integers(1, 400)))
    elif kind == "random":
        with open(f, "wb") as fh:
            fh.write(rng.bytes(int(rng.integers(1, 5000))))
    elif kind == "signature":
        with open(f, "wb") as fh:
            fh.write(b"\x89HDF\r\n\x1a\n" + rng.bytes(int(
                rng.integers(0, 3000))))
    elif kind == "hdf5":
        with h5py.File(f, "w") as hf:
            hf["entries"] = rng.standard_normal((40, 3))
            hf.create_group("deep/er")["x"] = np.arange(30)
            hf.attrs["a"] = 3


JUNK = ["empty", "text", "random", "signature", "hdf5"]


@CHECK.family(quick=350, thorough=8000)
def existing(ctx, rng, i):
    """Saving where a file exists."""
    obj, load, lab, _ = zoo(rng, i)
    kind = gen.pick(rng, JUNK + ["object", "same", "larger"])
    ctx.note(cls=lab, old=kind)
    lab += f" over {kind}"
    with scratch() as d:
        f = os.path.join(d, gen.pick(rng, ["a.h5", "b.c.h5", "x y.h5"]))
        if kind == "object":
            zoo(rng, int(rng.integers(ZOO)))[0].save(f, overwrite=False)
        elif kind == "same":
            obj.save(f, overwrite=False)
        elif kind == "larger":
            opinf.basis.LinearBasis(gen.orth(rng, 60, 30), name="old").save(f)
        else:
            junk(rng, f, kind)
        os.utime(f, (1e9, 1e9))
        link = None
        if rng.random() < .15:
            link = os.path.join(d, "link.h5")
            os.symlink(f, link)
            ctx.ev("symlink")
        before, names = digest(f), sorted(os.listdir(d))
        for attempt in range(2):
            with ctx.raises(FileExistsError, "no-overwrite", lab):
                if type(obj) is opinf.roms.OperatorPosterior:
                    obj.save(link or f, overwrite=False)
                elif attempt:
                    obj.save(link or f, overwrite=False)
                else:
                    obj.save(link or f)
                    ctx.ev("default-overwrite")
            ctx.ok(digest(f) == before and os.path.getmtime(f) == 1e9
                   and sorted(os.listdir(d)) == names, "bytes-unchanged", lab)
            closed(ctx, f, lab)
        ctx.ev("default-overwrite")
        # overwriting replaces everything
        obj.save(link or f, overwrite=True)
        closed(ctx, f, lab)
        g = os.path.join(d, "fresh.h5")
        obj.save(g, overwrite=False)
        closed(ctx, g, lab)
        a, b = contents(f), contents(g)
        ctx.ok(a == b, "overwrite-content",
               lambda: f"{lab}: {sorted(set(a) ^ set(b))} "
               f"{[k for k in a if k in b and a[k] != b[k]]}")
        ctx.ok(sorted(os.listdir(d)) == sorted(names + ["fresh.h5"]),
               "bytes-unchanged", lab)
        before = digest(f)
        new = load(f)
        ctx.ok(type(new) is type(obj), "overwrite-content", lab)
        ctx.ok(digest(f) == before, "load-leaves-file", lab)
        closed(ctx, f, lab)


@CHECK.family(quick=200, thorough=5000)
def neighbours(ctx, rng, i):
    """A file of exactly the given name is written; no other is touched."""
    obj, load, lab, _ = zoo(rng, i)
    stem = gen.pick(rng, ["b", "b.v1", "model 2", "run.h5.d", "B"])
    ext = gen.pick(rng, ["", ".h5", ".hdf5", ".txt", ".H5", "."])
    with scratch() as d:
        name = stem + ext
        f = os.path.join(d, name)
        near = {stem + e for e in ("", ".h5", ".hdf5", ".H5", ".h5.h5",
                                   ".txt", ".")}
        near |= {name + e for e in (".h5", ".hdf5", "~", ".bak", ".tmp",
                                    ".old", ".1", ".lock")}
        near |= {"." + name, "tmp.h5", stem.lower(), stem.upper()}
        near.discard(name)
        if stem == "run.h5.d" or rng.random() < .3:
            near = {x for x in near if rng.random() < .7}
        for x in near:
            if os.path.exists(os.path.join(d, x)):
                continue
            junk(rng, os.path.join(d, x), gen.pick(rng, JUNK))
        before = {x: digest(os.path.join(d, x)) for x in os.listdir(d)}
        ctx.note(cls=lab, name=name)
        lab += f" as {name!r}"
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            obj.save(f, overwrite=bool(rng.integers(2)))
        ctx.ok(set(os.listdir(d)) == set(before) | {name}, "exact-name",
               lambda: f"{lab}: {sorted(set(os.listdir(d)) ^ set(before))}")
        ctx.ok(all(digest(os.path.join(d, x)) == y
                   for x, y in before.items()), "bytes-unchanged", lab)
        new = load(f)
        ctx.ok(type(new) is type(obj), "exact-name", lab)
        got = digest(f)
        with ctx.raises(FileExistsError, "no-overwrite", lab), \
                warnings.catch_warnings():
            warnings.simplefilter("ignore")
            obj.save(f, overwrite=False)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            obj.save(f, overwrite=True)
        ctx.ok(set(os.listdir(d)) == set(before) | {name}, "exact-name", lab)
        ctx.ok(all(digest(os.path.join(d, x)) == y
                   for x, y in before.items()), "bytes-unchanged", lab)
        # loading does not look elsewhere
        os.remove(f)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with ctx.raises(Exception, "exact-name", lab + " removed"):
                load(f)
        del got


@CHECK.family(quick=300, thorough=7000)
def unreadable(ctx, rng, i):
    """Loading what is not there or not a saved object."""
    obj, load, lab, _ = zoo(rng, i)
    kind = gen.pick(rng, ["missing", "directory", "truncated", "cut"] + JUNK)
    ctx.note(cls=lab, kind=kind)
    lab += f" from {kind}"
    with scratch() as d:
        f = os.path.join(d, "a.h5")
        if kind == "missing":
            with ctx.raises(FileNotFoundError, "missing", lab):
                load(f)
            ctx.ok(os.listdir(d) == [], "missing", f"{lab}: file created")
            closed(ctx, None, lab)
            return
        if kind == "directory":
            os.mkdir(f)
            with ctx.raises(OSError, "directory", lab):
                load(f)
            with ctx.raises(OSError, "directory", lab):
                obj.save(f, overwrite=bool(rng.integers(2)))
            ctx.ok(os.path.isdir(f) and os.listdir(d) == ["a.h5"],
                   "directory", lab)
            closed(ctx, None, lab)
            return
        if kind in ("truncated", "cut"):
            obj.save(f, overwrite=False)
            n = os.path.getsize(f)
            cut = int(rng.integers(1, n)) if kind == "truncated" else n // 2
            with open(f, "r+b") as fh:
                fh.truncate(cut)
        else:
            junk(rng, f, kind)
            if kind == "hdf5":
                with h5py.File(f, "a") as hf:
                    del hf["entries"]
        before = digest(f)
        rule = "truncated" if kind in ("truncated", "cut") else "foreign"
        try:
            got = load(f)
        except (OSError, BadFile):
            ctx.ev(rule)
        else:
            ctx.ok(False, rule, f"{lab}: returned {type(got)}")
        if kind == "hdf5":
            with ctx.raises(BadFile, "foreign", lab):
                load(f)
        ctx.ok(digest(f) == before, "load-leaves-file", lab)
        closed(ctx, f, lab)
        # the path can be used again
        obj.save(f, overwrite=True)
        ctx.ok(type(load(f)) is type(obj), "recovers", lab)
        closed(ctx, f, lab)


@CHECK.family(quick=400, thorough=9000)
def incomplete(ctx, rng, i):
    """Files that lack required content."""
    obj, load, lab, req = zoo(rng, i)
    with scratch() as d:
        f = os.path.join(d, "a.h5")
        obj.save(f, overwrite=False)
        item = gen.pick(rng, req)
        if not remove(f, item):
            ctx.ok(False, "missing-content", f"{lab}: no {item} in file")
        ctx.note(cls=lab, item=item)
        before = digest(f)
        lab += f" without {item}"
        hd = rng.random() < .3
        with ctx.raises(BadFile, "missing-content", lab):
            if hd:
                with h5py.File(f, "r") as hf:
                    try:
                        load(hf)
                    finally:
                        ctx.ok(bool(hf), "handle-stays-open", lab)
            else:
                load(f)
        ctx.ok(digest(f) == before, "load-leaves-file", lab)
        closed(ctx, f, lab)
        obj.save(f, overwrite=True)
        ctx.ok(type(load(f)) is type(obj), "recovers", lab)


@CHECK.family(quick=200, thorough=5000)
def wrong_class(ctx, rng, i):
    """Operator files name their class; composites count their parts."""
    with scratch() as d:
        f = os.path.join(d, "a.h5")
        if i % 3 == 2:
            obj, load, lab, _ = zoo(rng, gen.pick(rng, [3, 4, 7]))
            obj.save(f)
            part = opinf.pre.ShiftTransformer if "transformers" in dir(obj) \
                else opinf.basis.PODBasis
            n = len(getattr(obj, "transformers", None) or obj.bases)
            for q in (n - 1, n + 1, 0):
                with ctx.raises((ValueError, BadFile),
                                "wrong-number-of-classes", lab):
                    type(obj).load(f, [part] * q)
            closed(ctx, f, lab)
            return
        obj, load, lab, _ = zoo(rng, gen.pick(rng, [8, 9, 10, 15]))
        obj.save(f)
        kd = gen.pick(rng, list("cAHGBN"))
        fam = [og.KINDS[kd][0], og.AFF[kd], og.INT[kd]]
        cls = fam[int(rng.integers(3))]
        if cls is type(obj):
            cls = O.QuarticOperator
        ctx.note(saved=lab, cls=cls.__name__)
        args = ([np.sin, np.cos],) if cls in og.AFF.values() else ()
        before = digest(f)
        with ctx.raises((BadFile, TypeError), "wrong-class",
                        f"{cls.__name__}.load() of {lab}"):
            cls.load(f, *args)
        ctx.ok(digest(f) == before, "load-leaves-file", lab)
        closed(ctx, f, lab)


class Boom(Exception):
    pass


@CHECK.family(quick=300, thorough=7000)
def faults(ctx, rng, i):
    """Writes that fail after some datasets."""
    obj, load, lab, _ = zoo(rng, i)
    exc = gen.pick(rng, [Boom("x"), OSError(28, "No space left on device"),
                         MemoryError(), KeyboardInterrupt(), ValueError(),
                         RuntimeError("a", 2)])
    mode = gen.pick(rng, ["save", "save", "load"])
    at = int(rng.integers(1, 5))
    count = [0]
    orig_c, orig_g = h5py.Group.create_dataset, h5py.Group.__getitem__

    def create(self, *a, **kw):
        count[0] += 1
        if count[0] == at:
            raise exc
        return orig_c(self, *a, **kw)

    def get(self, *a, **kw):
        count[0] += 1
        if count[0] == at:
            raise exc
        return orig_g(self, *a, **kw)
    ctx.note(cls=lab, exc=type(exc).__name__, mode=mode, at=at)
    lab += f" {mode} fails at {at} with {exc!r}"
    old = bool(rng.integers(2))
    with scratch() as d:
        f = os.path.join(d, "a.h5")
        if mode == "load" or old:
            obj.save(f, overwrite=False)
        seen = None
        try:
            if mode == "save":
                h5py.Group.create_dataset = create
                obj.save(f, overwrite=old)
            else:
                h5py.Group.__getitem__ = get
                load(f)
        except BaseException as e:  # noqa: BLE001
            seen = e
        finally:
            h5py.Group.create_dataset = orig_c
            h5py.Group.__getitem__ = orig_g
        if count[0] >= at:
            if mode == "save":
                ctx.ok(seen is exc, "write-fault",
                       f"{lab}: raised {seen!r}")
            elif isinstance(exc, KeyboardInterrupt):
                ctx.ok(isinstance(seen, KeyboardInterrupt),
                       "keyboard-interrupt", f"{lab}: raised {seen!r}")
            else:
                ctx.ok(isinstance(seen, BadFile), "write-fault",
                       f"{lab}: raised {seen!r}")
        else:
            ctx.ok(seen is None, "write-fault", f"{lab}: raised {seen!r}")
        if isinstance(seen, KeyboardInterrupt):
            ctx.ev("keyboard-interrupt")
        seen = None
        closed(ctx, f, lab)
        obj.save(f, overwrite=True)
        ctx.ok(type(load(f)) is type(obj), "recovers", lab)
        closed(ctx, f, lab)


@CHECK.family(quick=250, thorough=6000)
def handles(ctx, rng, i):
    """The handle classes themselves, and open handles."""
    U = opinf.utils
    exc = gen.pick(rng, [None, Boom(), Boom("a", 1), KeyError("k"),
                         BadFile("mine"), KeyboardInterrupt(), SystemExit(3),
                         OSError(5, "io"), StopIteration()])
    mode = ["save", "load"][i % 2]
    form = gen.pick(rng, ["path", "path", "file", "group"])
    ctx.note(exc=type(exc).__name__, mode=mode, form=form)
    lab = f"{mode} {form} {exc!r}"
    with scratch() as d:
        name = gen.pick(rng, ["a.h5", "a.h5", "noext", "a.hdf5"])
        f = os.path.join(d, name)
        hf = None
        if mode == "load" or form != "path":
            hf = h5py.File(f, "w")
            hf["x"] = np.arange(3)
            hf.create_group("g")["y"] = 1.5
            if form == "path":
                hf.close()
        target = dict(path=lambda: f, file=lambda: hf,
                      group=lambda: hf["g"])[form]()
        seen, h = None, None
        with warnings.catch_warnings(record=True) as rec:
            warnings.simplefilter("always")
            try:
                cm = U.hdf5_savehandle(target, False) if mode == "save" \
                    else U.hdf5_loadhandle(target)
                with cm as h:
                    if form != "path":
                        ctx.ok(h is target, "handle-stays-open", lab)
                    if mode == "save":
                        h["new"] = np.ones(2)
                    elif form == "path":
                        # opened for reading only
                        try:
                            h["new"] = 1
                            ctx.ok(False, "load-leaves-file", lab)
                        except (OSError, ValueError, TypeError, KeyError,
                                RuntimeError):
                            ctx.ev("load-leaves-file")
                    if exc is not None:
                        raise exc
            except BaseException as e:  # noqa: BLE001
                if type(e).__name__ == "Violation":
                    raise
                seen = e
        if mode == "save" and form == "path":
            ctx.ok(any(issubclass(w.category, opinf.errors.OpInfWarning)
                       for w in rec) == (not name.endswith(".h5")),
                   "suffix", f"{lab} {name}")
        if exc is None:
            ctx.ok(seen is None, "body-exception", f"{lab}: {seen!r}")
        elif mode == "save" or not isinstance(exc, Exception) \
                or isinstance(exc, BadFile):
            ctx.ok(type(seen) is type(exc) and seen.args == exc.args,
                   "body-exception", f"{lab}: {seen!r}")
        else:
            ctx.ok(isinstance(seen, BadFile), "body-exception",
                   f"{lab}: {seen!r}")
            ctx.ok(not exc.args or seen.args[0] == exc.args[0],
                   "body-exception", f"{lab}: {seen!r}")
        if form == "path":
            ctx.ok(not h, "handles-closed", f"{lab}: handle still open")
        else:
            ctx.ok(bool(target) and bool(h), "handle-stays-open",
                   f"{lab}: handle closed")
            ctx.equal(hf["x"][:], np.arange(3), "handle-stays-open", lab)
            hf.close()
        seen = exc = h = target = None
        closed(ctx, f, lab)
        if mode == "save" and form == "path":
            ctx.ok(sorted(os.listdir(d)) == [name], "suffix", lab)
            with h5py.File(f, "r") as hf:
                ctx.equal(hf["new"][:], np.ones(2), "body-exception", lab)


@CHECK.family(quick=150, thorough=3500)
def occupied(ctx, rng, i):
    """Saving a second time into the same open group."""
    obj, load, lab, _ = zoo(rng, i)
    ctx.note(cls=lab)
    with scratch() as d:
        f = os.path.join(d, "a.h5")
        with h5py.File(f, "w") as hf:
            g = hf if rng.random() < .5 else hf.create_group("g")
            obj.save(g, overwrite=False)
            hf.flush()
            before = sorted(contents_of(g))
            try:
                obj.save(g, overwrite=False)
            except Exception:  # noqa: BLE001
                ctx.ev("occupied-group")
            else:
                ctx.ok(False, "occupied-group",
                       f"{lab}: second save into the group accepted")
            ctx.ok(sorted(contents_of(g)) == before, "occupied-group",
                   f"{lab}: content changed")
            ctx.ok(bool(hf), "handle-stays-open", lab)
            ctx.ok(type(load(g)) is type(obj), "occupied-group", lab)
            ctx.ok(bool(hf), "handle-stays-open", lab)
            g = None
        closed(ctx, f, lab)


def contents_of(g):
    out = []

    def visit(name, x):
        out.append((name, x[()].tobytes() if isinstance(x, h5py.Dataset)
                    and x.dtype.kind != "O" and x.size else ""))
    g.visititems(visit)
    return out
