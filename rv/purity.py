"""Runtime monitor: public calls do not modify the data of the caller.

install() wraps every public function and method of opinf. During the
outermost public call all arrays (also the ones in lists, tuples, dicts and
sparse matrices) handed to this and to earlier public calls of the case are
compared with copies taken just before the call.
"""
import collections
import functools
import inspect

import numpy as np
import scipy.sparse as sparse

NAMESPACES = ("pre", "basis", "lift", "ddt", "lstsq", "operators", "models",
              "roms", "post", "utils")
TRANSFORMS = {"transform", "inverse_transform", "transform_ddts",
              "fit_transform"}
FUNCTIONS = {"shift", "scale"}
KEEP = 48


class Monitor:
    def __init__(self):
        self.depth = 0
        self.calls = collections.Counter()
        self.counts = collections.Counter()
        self.violations = []
        self.pool = []           # arrays the caller still owns
        self.ids = set()
        self.mode = "plain"

    def begin(self, mode="plain"):
        self.pool, self.ids, self.violations = [], set(), []
        self.mode = mode

    # -- hostile memory layouts ---------------------------------------------
    def relayout(self, x):
        """The same values in another memory layout."""
        if isinstance(x, (list, tuple)) and x and len(x) < 50 and type(
                x) in (list, tuple) and all(
                isinstance(y, np.ndarray) for y in x):
            return type(x)(self.relayout(y) for y in x)
        if type(x) is not np.ndarray or x.dtype.kind not in "fiu" \
                or x.ndim not in (1, 2, 3) or x.size > 20000:
            return x
        self.counts["layout"] += 1
        if self.mode == "fortran":
            return np.asfortranarray(x)
        if self.mode == "negative":
            y = x[tuple([slice(None, None, -1)] * x.ndim)].copy()
            return y[tuple([slice(None, None, -1)] * x.ndim)]
        big = np.full([2 * k + 3 for k in x.shape], 77, dtype=x.dtype)
        view = big[tuple(slice(1, 1 + 2 * k, 2) for k in x.shape)]
        view[...] = x
        return view

    # -- what the caller owns ----------------------------------------------
    def collect(self, x, arrays, lists, level=0):
        if isinstance(x, np.ndarray):
            if x.dtype != object:
                arrays.append(x)
                b = x.base
                if isinstance(b, np.ndarray) and b.dtype != object:
                    arrays.append(b)
        elif sparse.issparse(x):
            for k in ("data", "indices", "indptr", "row", "col", "offsets"):
                v = getattr(x, k, None)
                if isinstance(v, np.ndarray) and v.dtype != object:
                    arrays.append(v)
        elif isinstance(x, (list, tuple)) and level < 4:
            if isinstance(x, list):
                lists.append((x, list(map(id, x))))
            if len(x) < 200:
                for y in x:
                    self.collect(y, arrays, lists, level + 1)
        elif isinstance(x, dict) and level < 4:
            lists.append((x, [(k, id(v)) for k, v in x.items()]))
            for y in x.values():
                self.collect(y, arrays, lists, level + 1)
        elif hasattr(x, "initial_conditions") and level < 4:
            for y in vars(x).values():
                self.collect(y, arrays, lists, level + 1)

    @staticmethod
    def digest(a):
        return (a.shape, a.strides, a.dtype.str, a.flags.writeable,
                a.tobytes())

    @staticmethod
    def baselevel(a):
        n = 0
        while isinstance(a.base, np.ndarray):
            a, n = a.base, n + 1
        return n

    # -- one outermost call --------------------------------------------------
    def call(self, label, name, fn, sig, args, kw, ismethod):
        inplace = False
        if sig is not None and "inplace" in sig.parameters:
            try:
                b = sig.bind(*args, **kw)
                given = "inplace" in b.arguments
                b.apply_defaults()
                inplace = bool(b.arguments["inplace"]) and (
                    given or "NullTransformer" in label
                    # documented to work in place by default
                    or label.endswith("ShiftTransformer.transform_ddts"))
            except TypeError:
                inplace = True      # rejected call, nothing can be said
        if self.mode in ("fortran", "negative", "padded") and not inplace:
            args = (args[:1] if ismethod else ()) + tuple(
                self.relayout(x) for x in (args[1:] if ismethod else args))
            kw = {k: self.relayout(x) for k, x in kw.items()}
        arrays, lists = [], []
        rest = args[1:] if ismethod else args
        for x in rest:
            self.collect(x, arrays, lists)
        for x in kw.values():
            self.collect(x, arrays, lists)
        for a in arrays:
            if id(a) not in self.ids and a.size <= 200000:
                self.ids.add(id(a))
                self.pool.append(a)
        while len(self.pool) > KEEP:
            self.ids.discard(id(self.pool.pop(0)))
        given = list(self.pool)
        permitted = arrays if inplace else []
        watch = [a for a in given if not any(
            np.may_share_memory(a, p) for p in permitted)]
        before = [self.digest(a) for a in watch]
        locked = []
        if self.mode == "readonly" and not inplace:
            for a in watch:
                if a.flags.writeable:
                    a.flags.writeable = False
                    locked.append(a)
                    self.counts["layout"] += 1
        self.depth += 1
        out = None
        try:
            out = fn(*args, **kw)
            return out
        except ValueError as e:
            if locked and "read-only" in str(e):
                self.report("argument-written", f"{label}() wrote to a "
                            f"read-only array ({e})")
            raise
        finally:
            for a in sorted(locked, key=self.baselevel):
                a.flags.writeable = True
            self.depth -= 1
            self.calls[label] += 1
            self.counts["public-call"] += 1
            self.counts["array-compared"] += len(watch)
            mine = {id(a) for a in arrays}
            for a, d in zip(watch, before):
                if self.digest(a) != d:
                    which = "an argument" if id(a) in mine \
                        else "an array given to an earlier call"
                    self.report("argument-modified", f"{label}() modified "
                                f"{which} of shape {d[0]}, {d[2]}")
            if not permitted:
                for x, ids in lists:
                    now = (list(map(id, x)) if isinstance(x, list) else
                           [(k, id(v)) for k, v in x.items()])
                    self.counts["list-compared"] += 1
                    if now != ids:
                        self.report("list-modified", f"{label}() modified "
                                    f"a {type(x).__name__} of the caller")
            if out is not None and (
                    (ismethod and name in TRANSFORMS and
                     label.startswith("pre."))
                    or (not ismethod and name in FUNCTIONS)):
                self.aliasing(label, sig, args, kw, out, arrays, inplace)

    def aliasing(self, label, sig, args, kw, out, arrays, inplace):
        res, _ = [], []
        self.collect(out, res, _)
        if not inplace:
            self.counts["no-shared-memory"] += 1
            for y in res:
                for a in arrays:
                    if np.shares_memory(y, a):
                        return self.report(
                            "shared-memory", f"{label}() without inplace "
                            "returned memory of its argument")
            return
        self.counts["inplace-same-array"] += 1
        first = None
        for x in args[1:2] if len(args) > 1 else list(kw.values())[:1]:
            first = x
        for k in ("states", "states_transformed", "states_shifted", "ddts",
                  "states_scaled", "ddts_", "ddts_transformed"):
            first = kw.get(k, first)
        got = out[0] if isinstance(out, tuple) else out
        if isinstance(first, np.ndarray) and isinstance(got, np.ndarray) \
                and got is not first:
            self.report("inplace-same-array", f"{label}(inplace=True) did "
                        "not return the array it was given")

    def report(self, rule, msg):
        if len(self.violations) < 5:
            self.violations.append((rule, msg))


MON = Monitor()


def wrap(fn, label, name, ismethod):
    try:
        sig = inspect.signature(fn)
    except (TypeError, ValueError):
        sig = None

    @functools.wraps(fn)
    def wrapper(*args, **kw):
        if MON.depth:
            return fn(*args, **kw)
        return MON.call(label, name, fn, sig, args, kw, ismethod)
    return wrapper


SPECIAL = {"__init__", "__call__", "__add__", "__radd__", "__sub__",
           "__mul__", "__rmul__", "__getitem__", "__matmul__", "__eq__"}


def install():
    """Wrap the public interface; returns the number of wrapped callables."""
    import opinf
    done, count = set(), 0
    for ns in NAMESPACES:
        mod = getattr(opinf, ns)
        for name in sorted(dir(mod)):
            obj = getattr(mod, name)
            if name.startswith("_"):
                continue
            if inspect.isclass(obj) and obj.__module__.startswith("opinf."):
                for cls in obj.__mro__:
                    if not cls.__module__.startswith("opinf.") \
                            or cls in done:
                        continue
                    done.add(cls)
                    if issubclass(cls, BaseException):
                        continue
                    count += wrap_class(cls, ns)
            elif inspect.isfunction(obj) and obj.__module__.startswith(
                    "opinf."):
                setattr(mod, name, wrap(obj, f"{ns}.{name}", name, False))
                count += 1
    return count


def wrap_class(cls, ns):
    count = 0
    for k, v in list(vars(cls).items()):
        if k.startswith("_") and k not in SPECIAL:
            continue
        label = f"{ns}.{cls.__name__}.{k}"
        if inspect.isfunction(v):
            new = wrap(v, label, k, True)
        elif isinstance(v, classmethod):
            new = classmethod(wrap(v.__func__, label, k, True))
        elif isinstance(v, staticmethod):
            new = staticmethod(wrap(v.__func__, label, k, False))
        elif isinstance(v, property) and v.fset is not None:
            new = property(
                wrap(v.fget, label, k, True),
                wrap(v.fset, label + "=", k, True), v.fdel, v.__doc__)
        elif isinstance(v, property):
            new = property(wrap(v.fget, label, k, True), None, v.fdel,
                           v.__doc__)
        else:
            continue
        try:
            setattr(cls, k, new)
            count += 1
        except (AttributeError, TypeError):
            pass
    return count
