"""C27: timing blocks bound and report time and restore the environment."""
import contextlib
import io
import logging
import os
import signal
import sys
import time

import numpy as np
import opinf

from rv import gen
from rv.core import Check, scratch

TB = opinf.utils.TimedBlock
CHECK = Check(
    "C27",
    "A case is a history of timing blocks in one process (with or without "
    "limits, messages, rebuffering, log files, nesting, reuse) whose bodies "
    "finish, sleep, compute, raise or overrun; after every block the monitor "
    "reads the clock, the pending alarm, standard output, the log file and "
    "the exception that reached the caller.",
    require=["elapsed-bounds", "no-pending-alarm", "stdout-restored",
             "exception-surfaces", "interrupted", "undisturbed",
             "report-text", "rebuffer-order", "logfile", "limit-value",
             "nested-outer-limit", "nested-inner-timeout", "reuse",
             "sleep-counts", "handler-restored"])
clock = time.perf_counter
logging.getLogger().addHandler(logging.NullHandler())


class Boom(Exception):
    pass


class Odd(BaseException):
    pass


EXCS = [lambda: Boom("boom"), lambda: ValueError("bad", 3), lambda: Boom(),
        lambda: KeyError("k"), lambda: Odd("odd"), lambda: SystemExit(3),
        lambda: KeyboardInterrupt(), lambda: StopIteration(4),
        lambda: RuntimeError(""), lambda: ZeroDivisionError("division")]
MSGS = ["Running", "two words", "", None, "line\n", "carriage\r", "µ-test",
        "a {brace} 100%"]


class StrayAlarm(BaseException):
    pass


def stray(signum, frame):
    raise StrayAlarm("alarm after the timing block")


@contextlib.contextmanager
def captured():
    old, s = sys.stdout, io.StringIO()
    sys.stdout = s
    # an alarm nobody waits for must not end the process of the monitor
    mine = signal.signal(signal.SIGALRM, stray)
    try:
        yield s
    finally:
        sys.stdout = old
        signal.alarm(0)
        signal.signal(signal.SIGALRM, mine)


def settled(ctx, out, lab):
    ctx.ok(sys.stdout is out, "stdout-restored", lab)
    ctx.ok(signal.getitimer(signal.ITIMER_REAL)[0] == 0, "no-pending-alarm",
           lab)
    ctx.ok(signal.getsignal(signal.SIGALRM) is stray, "handler-restored",
           lab)


def burn(sec):
    t = clock()
    x = 0
    while clock() - t < sec:
        x += 1
    return x


def overrun(kind):
    end = clock() + 9
    if kind == "sleep":
        time.sleep(9)
    elif kind == "python":
        while clock() < end:
            pass
    elif kind == "numpy":
        A = np.ones((60, 60))
        while clock() < end:
            A = A @ A / 60
    else:
        for _ in range(9000):
            time.sleep(1e-3)


def block(ctx, rng, out, lab, limit, tb=None):
    """One block whose body finishes or raises."""
    msg = gen.pick(rng, MSGS)
    what = gen.pick(rng, ["pass", "sleep", "burn", "print", "raise",
                          "raise", "innertimeout"])
    new = tb is None
    if new:
        tb = TB(msg, limit) if limit is not None or rng.random() < .5 \
            else TB(msg)
    rebuf = TB.rebuffer
    lab = f"{lab} {what} msg={msg!r} limit={limit} rebuffer={rebuf}"
    mark = out.tell()
    exc = None
    if what == "raise":
        exc = gen.pick(rng, EXCS)()
    if what == "innertimeout" and limit is None:
        exc = TimeoutError("mine")
    got = None
    inner = 0.0
    t0 = clock()
    done = False
    try:
        with tb as same:
            ti = clock()
            if what == "sleep":
                time.sleep(0.03)
            elif what == "burn":
                burn(0.02)
            elif what == "print":
                print("body-1")
                print("body-2", end="")
                if rebuf:
                    ctx.ok("body-1" not in out.getvalue()[mark:],
                           "rebuffer-order", lab)
            if exc is not None:
                raise exc
            done = True
            inner = clock() - ti
    except BaseException as e:
        got = e
    total = clock() - t0
    text = out.getvalue()[mark:]
    settled(ctx, out, lab)
    ctx.ok(same is tb, "elapsed-bounds", lab)
    if exc is not None:
        ctx.ok(got is exc, "exception-surfaces", f"{lab}: {got!r}")
        return
    ctx.ok(got is None and done, "undisturbed", f"{lab}: {got!r}")
    ctx.ok(isinstance(tb.elapsed, float) and
           inner - 1e-6 <= tb.elapsed <= total + 1e-6, "elapsed-bounds",
           f"{lab}: elapsed={tb.elapsed} body={inner} around={total}")
    if what == "sleep":
        ctx.ok(tb.elapsed >= 0.029, "sleep-counts", f"{lab} {tb.elapsed}")
    if not new:
        ctx.ev("reuse")
    if TB.verbose and new and msg:
        m = msg.rstrip()
        ctx.ok(text.startswith(m + "...") and
               f"done in {tb.elapsed:.2f} s." in text, "report-text",
               f"{lab}: {text!r}")
        if what == "print":
            a, b, c = (text.index(x) for x in ("body-1\n", "body-2",
                                               "done in"))
            ctx.ok(a < b < c, "rebuffer-order", f"{lab}: {text!r}")
    if not TB.verbose:
        ctx.ok("done in" not in text, "report-text", f"{lab}: {text!r}")
    return tb


def overrunning(ctx, rng, out, lab):
    given = gen.pick(rng, [1, 1.0, 1.9, 0.4, np.int64(1)])
    kind = gen.pick(rng, ["sleep", "python", "numpy", "steps"])
    tb = TB(gen.pick(rng, MSGS), timelimit=given)
    lab = f"{lab} overrun={kind} limit={given}"
    ctx.ok(tb.timelimit == 1, "limit-value", lab)
    got = None
    t0 = clock()
    try:
        with tb:
            overrun(kind)
    except BaseException as e:
        got = e
    d = clock() - t0
    settled(ctx, out, lab)
    ctx.ok(isinstance(got, TimeoutError) and 0.95 <= d < 6, "interrupted",
           f"{lab}: {got!r} after {d:.2f} s")
    ctx.ok(str(got).startswith("TIMED OUT after "), "interrupted", lab)
    ctx.close(float(str(got).split()[3]), d, "interrupted", atol=0.5,
              msg=lab)


def history(ctx, rng, over, nested):
    TB.rebuffer, TB.verbose = bool(rng.random() < .4), bool(
        rng.random() < .8)
    lab = f"rebuffer={TB.rebuffer} verbose={TB.verbose}"
    steps = []
    try:
        with captured() as out:
            for _ in range(int(rng.integers(2, 6))):
                TB.rebuffer = bool(rng.random() < .4)
                limit = gen.pick(rng, [None, None, 5, 7.5, 100])
                steps.append(limit)
                tb = block(ctx, rng, out, lab, limit)
                if tb is not None and rng.random() < .4:
                    block(ctx, rng, out, lab + " reuse", limit, tb)
            if over:
                overrunning(ctx, rng, out, lab)
                block(ctx, rng, out, lab + " after-timeout", gen.pick(
                    rng, [None, 6]))
    finally:
        TB.rebuffer, TB.verbose = False, True
    ctx.note(over=over, nested=nested, steps=steps, lab=lab)


@CHECK.family(quick=120, thorough=1500)
def histories(ctx, rng, i):
    history(ctx, rng, False, False)


@CHECK.family(quick=5, thorough=90)
def overruns(ctx, rng, i):
    history(ctx, rng, True, False)


@CHECK.family(quick=3, thorough=30)
def later(ctx, rng, i):
    """A limit of an earlier block must not strike later code; a body that
    stays below its limit is not interrupted."""
    with captured() as out:
        with TB("short", timelimit=1):
            time.sleep(0.1)
        t0 = clock()
        kind = ["plain", "block", "raise"][i % 3]
        got = None
        try:
            if kind == "block":
                with TB("later") as tb:
                    time.sleep(1.2)
            elif kind == "raise":
                try:
                    with TB("r", timelimit=1):
                        raise Boom("x")
                except Boom:
                    pass
                time.sleep(1.2)
            else:
                with TB("longer", timelimit=2.9) as tb:
                    ctx.ok(tb.timelimit == 2, "limit-value")
                    time.sleep(1.2)
        except BaseException as e:
            got = e
        ctx.ok(got is None and clock() - t0 >= 1.19, "undisturbed",
               f"{kind}: {got!r} after {clock() - t0:.2f}")
        settled(ctx, out, kind)
    ctx.note(kind=kind)


@CHECK.family(quick=5, thorough=40)
def nested(ctx, rng, i):
    kind = ["outer-after-inner", "inner-timeout", "outer-in-inner",
            "both-finish", "remaining"][i % 5]
    got = left = None
    with captured() as out:
        t0 = clock()
        try:
            if kind == "outer-after-inner":
                with TB("outer", timelimit=2):
                    for _ in range(int(rng.integers(1, 4))):
                        with TB("inner", timelimit=int(rng.integers(3, 50))):
                            time.sleep(0.02)
                    overrun("sleep")
            elif kind == "inner-timeout":
                with TB("outer", timelimit=9):
                    try:
                        with TB("inner", timelimit=1):
                            overrun("steps")
                    except TimeoutError:
                        ctx.ev("nested-inner-timeout")
                    time.sleep(0.2)
                    alive = clock() - t0
            elif kind == "outer-in-inner":
                with TB("outer", timelimit=1):
                    with TB("inner", timelimit=50):
                        overrun("sleep")
            elif kind == "remaining":
                # time spent in inner blocks counts for the outer limit
                limit = int(rng.integers(9, 30))
                with TB("outer", timelimit=limit):
                    t1 = clock()
                    with TB("inner", timelimit=40):
                        time.sleep(1.8)
                    left = signal.getitimer(signal.ITIMER_REAL)[0]
                    spent = clock() - t1
                ctx.ok(left == 0 or abs(limit - spent - left) < 1.4,
                       "nested-outer-limit", f"limit {limit} s, {spent:.2f}"
                       f" s spent, but the alarm comes in {left:.2f} s")
            else:
                with TB("outer", timelimit=20) as a:
                    with TB("inner", timelimit=10) as b:
                        time.sleep(0.05)
                ctx.ok(b.elapsed <= a.elapsed, "elapsed-bounds", kind)
        except BaseException as e:
            got = e
        d = clock() - t0
        settled(ctx, out, kind)
    ctx.note(kind=kind)
    if kind in ("outer-after-inner", "outer-in-inner"):
        ctx.ok(isinstance(got, TimeoutError) and d < 6, "nested-outer-limit",
               f"{kind}: {got!r} after {d:.2f} s")
    else:
        ctx.ok(got is None, "undisturbed", f"{kind}: {got!r}")
        if kind == "inner-timeout":
            ctx.ok(1.1 <= alive < 6, "nested-inner-timeout", f"{alive}")


@CHECK.family(quick=40, thorough=600)
def logs(ctx, rng, i):
    """Records written to the log files agree with the reported times."""
    root = logging.getLogger()
    h0, lv = list(root.handlers), root.level
    with scratch() as d, captured() as out:
        TB.verbose = bool(rng.random() < .5)
        try:
            f = os.path.join(d, "a.log")
            TB.add_logfile(f)
            TB.add_logfile(f)  # ignored
            expect = []
            for j in range(int(rng.integers(1, 5))):
                if rng.random() < .3:
                    try:
                        with TB(f"step{j}"):
                            raise Boom("lost")
                    except Boom:
                        expect.append(("(Boom) lost", None))
                else:
                    with TB(f"step{j}", gen.pick(rng, [None, 9])) as tb:
                        if rng.random() < .3:
                            time.sleep(0.002)
                    expect.append((f"step{j}...done in {tb.elapsed:.6f} s.",
                                   1))
                settled(ctx, out, "log")
            with open(f) as fh:
                text = fh.read()
            for e, _ in expect:
                ctx.ok(e in text, "logfile", f"{e!r} not in {text!r}")
            ctx.ok(text.count("done in") == sum(1 for _, o in expect if o),
                   "logfile", text)
            if not TB.verbose:
                ctx.ok("done in" not in out.getvalue(), "report-text",
                       out.getvalue())
        finally:
            TB.verbose = True
            for h in list(root.handlers):
                if h not in h0:
                    root.removeHandler(h)
                    h.close()
            root.setLevel(lv)
    ctx.note(n=len(expect), kinds=[bool(o) for _, o in expect])
