"""Core of the runtime-verification harness.

A *family* is a workload generator: a function ``fn(ctx, rng, i)`` that builds
an input / history from ``rng`` (derived only from VERIF_SEED, the family name
and the case index), drives the real code of /repo with it and reports every
observation to the monitors of ``ctx``.  A monitor is a deterministic oracle
evaluated on the observed execution; a refuted monitor raises ``Violation``.

Verdicts are three-valued:
  exit 0   every monitor held on everything observed
  exit 1   at least one unlisted violation (VIOLATION line + replay file)
  exit 3   inconclusive: a required monitor was never reached
"""

import collections
import contextlib
import io
import json
import os
import sys
import time
import traceback
import warnings
import zlib

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
MAXVIOL = 12
SOFT_WALL = 780.0  # stop generating new cases (never a verdict)


class Violation(Exception):
    """A monitor observed an execution that refutes the property."""

    def __init__(self, rule, msg, tag=None):
        super().__init__(f"[{rule}] {msg}")
        self.rule = rule
        self.tag = tag


class Expected(Exception):
    pass


def _short(x):
    s = repr(x)
    return s if len(s) < 300 else s[:300] + "..."


def shape_sig(*objs):
    """Shape/dtype signature of arrays etc. (used to count distinct cases)."""
    out = []
    for o in objs:
        if isinstance(o, np.ndarray):
            out.append((o.shape, o.dtype.str))
        elif isinstance(o, (list, tuple)):
            out.append(tuple(np.shape(x) for x in o))
        else:
            out.append(o if np.isscalar(o) or o is None else type(o).__name__)
    return tuple(out)


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.events = collections.Counter()
        self.sigs = set()
        self.samples = []
        self.case = None
        self.case_rules = 0

    # -- monitors -----------------------------------------------------------
    def ev(self, rule, n=1):
        self.events[rule] += n
        self.case_rules += n

    def note(self, **kw):
        """Describe the present case (signature and sample)."""
        sig = (self.case[0],) + tuple(
            (k, _short(v)) for k, v in sorted(kw.items())
        )
        new = sig not in self.sigs
        self.sigs.add(sig)
        if new and (len(self.samples) < 3 or
                    (len(self.samples) < 12
                     and all(s["family"] != self.case[0]
                             for s in self.samples))):
            self.samples.append(
                dict(family=self.case[0], index=self.case[1],
                     **{k: _short(v) for k, v in kw.items()})
            )

    def ok(self, cond, rule, msg="", tag=None):
        self.ev(rule)
        if not cond:
            raise Violation(rule, msg() if callable(msg) else msg, tag)

    def close(self, a, b, rule, rtol=1e-9, atol=0.0, msg="", tag=None,
              scale=None):
        """|a-b| <= atol + rtol * scale, entrywise, same shape, no NaN."""
        self.ev(rule)
        a = np.asarray(a)
        b = np.asarray(b)
        if a.shape != b.shape:
            raise Violation(
                rule, f"{msg} shape {a.shape} != expected {b.shape}", tag)
        if a.size == 0:
            return
        if a.dtype == object or b.dtype == object:
            raise Violation(rule, f"{msg} object-dtype result", tag)
        if scale is None:
            fb = np.abs(b[np.isfinite(b)]) if b.size else np.zeros(0)
            scale = fb.max() if fb.size else 0.0
        tol = atol + rtol * scale
        with np.errstate(all="ignore"):
            diff = np.abs(a - b)
            bad = ~(diff <= tol)
            same = (a == b) | (np.isnan(a) & np.isnan(b))
            bad &= ~same
        if bad.any():
            i = np.unravel_index(np.argmax(np.where(bad, np.nan_to_num(
                diff, nan=np.inf), -1)), a.shape)
            raise Violation(
                rule,
                f"{msg} got {a[i]!r} expected {b[i]!r} at {i} "
                f"(tol {tol:.3e}, {int(bad.sum())}/{a.size} entries off)",
                tag)

    def equal(self, a, b, rule, msg="", tag=None):
        self.ev(rule)
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape or not np.array_equal(a, b, equal_nan=(
                a.dtype.kind in "fc" and b.dtype.kind in "fc")):
            raise Violation(rule, f"{msg} got {_short(a)} "
                            f"expected {_short(b)}", tag)

    @contextlib.contextmanager
    def raises(self, exc, rule, msg="", tag=None):
        self.ev(rule)
        try:
            yield
        except exc:
            return
        except Violation:
            raise
        except Exception as e:
            raise Violation(
                rule, f"{msg}: expected {exc}, got {type(e).__name__}: {e}",
                tag) from e
        raise Violation(rule, f"{msg}: expected {exc}, nothing was raised",
                        tag)


class Check:
    """Registry of the families of one property."""

    def __init__(self, prop, rule_text, require=()):
        self.prop = prop
        self.rule_text = rule_text
        self.require = list(require)
        self.families = []
        self.setup = None
        self.finish = None

    def family(self, quick, thorough, name=None):
        def deco(fn):
            self.families.append((name or fn.__name__, fn, quick, thorough))
            return fn
        return deco

    # -----------------------------------------------------------------------
    def _rng(self, seed, fam, i):
        return np.random.default_rng(
            [int(seed) & 0xFFFFFFFF, zlib.crc32(self.prop.encode()),
             zlib.crc32(fam.encode()), int(i)])

    def _run_case(self, ctx, fam, fn, seed, i):
        rng = self._rng(seed, fam, i)
        np.random.seed(int(rng.integers(2**31)))
        ctx.case = (fam, i)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with np.errstate(all="ignore"):
                fn(ctx, rng, i)

    def run(self, tier, seed, replay=None):
        import opinf  # noqa: F401  (the code under test)

        src = os.path.realpath(os.path.dirname(opinf.__file__))
        if not src.startswith(os.path.realpath(REPO)):
            print(f"error: opinf imported from {src}, not {REPO}")
            return 4

        known = load_known(self.prop)
        ctx = Ctx(self.prop, tier, seed)
        t0 = time.time()
        if self.setup:
            self.setup(ctx)
        viols, hits = [], collections.OrderedDict()
        ncases = 0
        nontrivial = 0
        todo = []
        for fam, fn, q, th in self.families:
            n = q if tier == "quick" else th
            if replay:
                if fam != replay["family"]:
                    continue
                todo.append((fam, fn, [replay["index"]]))
            else:
                todo.append((fam, fn, range(n)))
        truncated = False
        percase = collections.Counter()
        # Families are run in turns, so that a run that is stopped by the
        # time limit has visited all of them in proportion.
        famviol = collections.Counter()
        turns = 1 if replay else 40
        plan = [(fam, fn, i) for c in range(turns) for fam, fn, idxs in todo
                for i in idxs[len(idxs) * c // turns:
                              len(idxs) * (c + 1) // turns]]
        for fam, fn, i in plan:
            if time.time() - t0 > SOFT_WALL:
                truncated = True
                break
            if famviol[fam] >= 4:
                continue
            ctx.case_rules = 0
            ncases += 1
            percase[fam] += 1
            try:
                self._run_case(ctx, fam, fn, seed, i)
            except Violation as v:
                tag = v.tag
                key = (tag or v.rule)
                if tag is not None and tag in known:
                    hits.setdefault(tag, known[tag])
                    continue
                viols.append((fam, i, v.rule, str(v), key, ""))
                famviol[fam] += 1
            except Exception as e:  # the real code raised unexpectedly
                tb = traceback.format_exc()
                viols.append((fam, i, "unexpected-exception",
                              f"{type(e).__name__}: {e}",
                              f"exc-{type(e).__name__}", tb))
                famviol[fam] += 1
            if ctx.case_rules > 1:
                nontrivial += 1
            if len(viols) >= MAXVIOL:
                break
        if self.finish and not viols and not replay:
            self.finish(ctx)
        wall = time.time() - t0

        for tag, desc in hits.items():
            print(f"KNOWN-FINDING: property={self.prop} {desc}")
        code = 0
        if viols:
            code = 1
            os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
            seen = set()
            for fam, i, rule, msg, key, tb in viols:
                k = (fam, key)
                if k in seen:
                    continue
                seen.add(k)
                path = os.path.join(
                    VERIF, "replays", f"{self.prop}-{fam}-{i}-{seed}.json")
                with open(path, "w") as f:
                    json.dump(dict(property=self.prop, family=fam, index=i,
                                   seed=seed, tier=tier, rule=rule,
                                   message=msg, traceback=tb), f, indent=1)
                print(f"VIOLATION property={self.prop} replay={path}")
                print(f"  family={fam} case={i} rule={rule}: {msg[:600]}")
                if tb:
                    print("  " + "\n  ".join(tb.strip().split("\n")[-7:]))
        elif not replay:
            missing = [r for r in self.require if ctx.events[r] == 0]
            if missing:
                print(f"INCONCLUSIVE: monitors never reached: {missing}")
                code = 3

        if not replay:
            ev = dict(
                property=self.prop, tier=tier, seed=int(seed),
                level="exploration",
                coverage=dict(
                    evaluations=int(ncases),
                    distinct_nontrivial=int(min(len(ctx.sigs), nontrivial)),
                    rule=self.rule_text + " A case is non-trivial when at "
                    "least two monitor evaluations were made in it; cases "
                    "are distinct when their described signature differs.",
                    samples=ctx.samples or [dict(none=True)],
                    monitor_evaluations=int(sum(ctx.events.values())),
                    monitor_events=dict(ctx.events),
                    cases_per_family=dict(percase),
                    truncated=truncated,
                ),
                assumptions=[
                    "held on the executions listed here; inputs and "
                    "histories not generated are not covered",
                    "NumPy/SciPy/h5py primitives used by the oracles are "
                    "correct"],
                wall_s=round(wall, 3),
                violations=len(viols),
            )
            os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
            with open(os.path.join(VERIF, "evidence",
                                   f"{self.prop}.json"), "w") as f:
                json.dump(ev, f, indent=1)
        print(f"{self.prop} [{tier} seed={seed}] cases={ncases} "
              f"monitors={sum(ctx.events.values())} "
              f"distinct={len(ctx.sigs)} violations={len(viols)} "
              f"wall={wall:.1f}s exit={code}")
        return code


def load_known(prop):
    path = os.path.join(VERIF, "known_findings.json")
    out = {}
    if os.path.exists(path):
        with open(path) as f:
            data = json.load(f)
        for e in data.get("findings", []):
            if e["property"] == prop:
                out[e["tag"]] = e["what"]
    return out


@contextlib.contextmanager
def quiet():
    """Silence stdout of chatty code under test."""
    old = sys.stdout
    sys.stdout = io.StringIO()
    try:
        yield sys.stdout
    finally:
        sys.stdout = old


@contextlib.contextmanager
def scratch():
    """A scratch directory that is removed again."""
    import shutil
    import tempfile
    d = tempfile.mkdtemp(prefix="rv_opinf_")
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)
