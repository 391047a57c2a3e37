"""Stateless explorer over choice sequences.

A *driver* is an ordinary function driver(ctx) that runs the real code once, asking
ctx.choose(label, options) whenever something is undetermined (an input value, the next operation
of a history, an answer of the environment).  The explorer runs the driver on every choice sequence:
depth first, each execution replaying a prefix and taking option 0 afterwards.  Choices made with
dev=True count as *deviations* when they differ from option 0, and sequences with more deviations
than the bound are not explored (the bound is reported).
"""
import hashlib
import signal
import time
import warnings

import numpy as np


class Violation(Exception):
    """The property does not hold on this execution."""

    def __init__(self, msg, key=None):
        Exception.__init__(self, msg)
        self.msg, self.key = msg, key


class Prune(Exception):
    """The choices made so far do not describe an element of the alphabet."""


class StopProbe(Exception):
    pass


class NonTermination(BaseException):
    pass


class OutOfTime(BaseException):
    """The time of the whole check is up: what is left is reported as not explored."""


DEADLINE = None


class ReplayDivergence(Exception):
    pass


class Failed:
    """An API call that raised."""

    def __init__(self, exc):
        self.exc = exc

    def __repr__(self):
        return "raised %s: %s" % (type(self.exc).__name__, " ".join(str(self.exc).split()))


def _feed(h, x):
    if isinstance(x, np.ndarray):
        if x.dtype.kind in "fc":
            y = np.round(x, 7) + 0.0
            h.update(b"A" + str(y.shape).encode() + np.ascontiguousarray(y).tobytes())
        else:
            h.update(b"I" + str(x.shape).encode() + str(x.tolist()).encode())
    elif isinstance(x, (list, tuple)):
        h.update(b"(")
        for y in x:
            _feed(h, y)
        h.update(b")")
    elif isinstance(x, dict):
        _feed(h, sorted((str(k), v) for k, v in x.items()))
    elif isinstance(x, (float, np.floating)):
        h.update(("f%.7g" % x).encode())
    else:
        h.update(str(x).encode() + b";")


def digest(*x):
    h = hashlib.blake2b(digest_size=8)
    _feed(h, x)
    return int.from_bytes(h.digest(), "little")


def _on_alarm(signum, frame):
    raise NonTermination()


CALL_CPU_SECONDS = 90
CALL_WALL_SECONDS = 240
CURRENT = {}  # the call being made by this process, for the watchdog


def start_watchdog(where):
    """A thread that records the choices of a call that never returns to Python, and ends the process."""
    import json
    import os
    import threading
    import time

    def watch():
        while True:
            time.sleep(2)
            c = dict(CURRENT)
            if c.get("ctx") is not None and time.time() - c["start"] > CALL_WALL_SECONDS:
                x = c["ctx"]
                rec = dict(choices=list(x.trail), desc=" ".join(x.desc), key=None, index=0, root=list(x.prefix),
                           message="%s does not return within %d seconds" % (c["what"], CALL_WALL_SECONDS),
                           scenario=c.get("scenario"), hang=True)
                with open(os.path.join(where, "hang-%d.json" % os.getpid()), "w") as f:
                    json.dump(rec, f)
                os._exit(17)

    threading.Thread(target=watch, daemon=True).start()


class Ctx:
    def __init__(self, prefix, bound, probe=False):
        self.prefix, self.bound, self.probe = prefix, bound, probe
        self.trail, self.width, self.isdev, self.labels = [], [], [], []
        self.deviations = 0
        self.states, self.outcomes, self.steps, self.notes = [], [], 0, {}
        self.desc = []

    # -- nondeterminism
    def choose(self, label, options, dev=False):
        n = len(options)
        if n == 0:
            raise Prune()
        i = len(self.trail)
        if i < len(self.prefix):
            k = self.prefix[i]
            if not 0 <= k < n:
                raise ReplayDivergence("%s: choice %d of %d" % (label, k, n))
        else:
            if self.probe:
                self.probe_width = n
                self.probe_dev = dev
                raise StopProbe()
            k = 0
        self.trail.append(k)
        self.width.append(n)
        self.isdev.append(dev)
        if dev and k:
            self.deviations += 1
        self.desc.append("%s=%s" % (label, _short(options[k])))
        return options[k]

    def prune(self):
        raise Prune()

    # -- bookkeeping
    def state(self, *key):
        self.states.append(digest(*key))

    def outcome(self, *key):
        self.outcomes.append(digest(*key))

    def step(self, n=1):
        self.steps += n

    def note(self, name, n=1):
        self.notes[name] = self.notes.get(name, 0) + n

    # -- the code under test
    def tick(self):
        if DEADLINE is not None and time.time() > DEADLINE:
            raise OutOfTime()

    def attempt(self, fn, *a, **k):
        """Run a call of the code under test: (value or Failed, warning messages)."""
        self.tick()
        self.steps += 1
        CURRENT.update(start=time.time(), what=getattr(fn, "__qualname__", str(fn)), ctx=self)
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            signal.signal(signal.SIGVTALRM, _on_alarm)
            signal.setitimer(signal.ITIMER_VIRTUAL, CALL_CPU_SECONDS)
            try:
                try:
                    r = fn(*a, **k)
                finally:
                    signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            except NonTermination:
                raise Violation(
                    "%s does not terminate within %d seconds of CPU time"
                    % (getattr(fn, "__qualname__", fn), CALL_CPU_SECONDS)
                )
            except (MemoryError, KeyboardInterrupt):
                raise
            except (Violation, Prune, ReplayDivergence, StopProbe):
                raise
            except Exception as e:
                r = Failed(e)
            finally:
                CURRENT["ctx"] = None
        return r, [str(x.message) for x in w]

    def call(self, fn, *a, **k):
        r, _ = self.attempt(fn, *a, **k)
        if isinstance(r, Failed):
            raise Violation("%s %r" % (getattr(fn, "__qualname__", fn), r))
        return r

    def check(self, cond, msg, *args, key=None):
        if not cond:
            raise Violation(msg % args if args else msg, key)


def _short(x):
    if isinstance(x, np.ndarray):
        x = x.tolist()
    if callable(x):
        x = getattr(x, "__name__", x)
    s = str(x).replace("\n", " ")
    return s if len(s) < 80 else s[:77] + "..."


def next_prefix(trail, width, isdev, root_len, bound):
    """Successor of a complete choice sequence in depth first order, below the root prefix."""
    devs = [0]
    for k, d in zip(trail, isdev):
        devs.append(devs[-1] + (1 if d and k else 0))
    for i in range(len(trail) - 1, root_len - 1, -1):
        if trail[i] + 1 < width[i]:
            if bound is not None and isdev[i] and devs[i] + 1 > bound:
                continue
            return trail[:i] + [trail[i] + 1]
    return None


def run_once(driver, prefix, bound):
    """Returns (ctx, status, violation)."""
    ctx = Ctx(list(prefix), bound)
    try:
        driver(ctx)
    except Prune:
        return ctx, "pruned", None
    except Violation as v:
        return ctx, "violation", v
    if len(ctx.trail) < len(prefix):
        raise ReplayDivergence("execution ended before its prefix was consumed")
    return ctx, "ok", None


def expand(driver, bound, want):
    """Split the choice tree into at least `want` subtrees (or all leaves): list of root prefixes.

    Stops splitting a level at a time, so the roots cover the whole tree exactly once."""
    level, leaves = [[]], []
    while level and len(level) + len(leaves) < want:
        nxt = []
        for p in level:
            ctx = Ctx(list(p), bound, probe=True)
            try:
                driver(ctx)
                leaves.append(p)
            except StopProbe:
                for k in range(ctx.probe_width):
                    if k and ctx.probe_dev and bound is not None and ctx.deviations + 1 > bound:
                        break
                    nxt.append(p + [k])
            except (Prune, Violation):
                leaves.append(p)
        level = nxt
    return level + leaves


def explore(driver, root, bound, stop_on_violation=True, limit=None, deadline=None, known=None):
    """Every execution below the root prefix. Returns a dict of measurements."""
    out = dict(
        executions=0, pruned=0, steps=0, choices=0, states=set(), outcomes=set(), notes={},
        violations=[], samples=[], complete=True, maxdepth=0, known=[],
    )
    global DEADLINE
    DEADLINE = deadline
    prefix = list(root)
    while prefix is not None:
        if limit is not None and out["executions"] + out["pruned"] >= limit:
            out["complete"] = False
            break
        if deadline is not None and time.time() > deadline:
            out["complete"] = False
            break
        try:
            ctx, status, v = run_once(driver, prefix, bound)
        except OutOfTime:
            out["complete"] = False
            break
        out["choices"] += len(ctx.trail)
        out["maxdepth"] = max(out["maxdepth"], len(ctx.trail))
        if status == "pruned":
            out["pruned"] += 1
        else:
            out["executions"] += 1
            out["steps"] += ctx.steps
            out["states"].update(ctx.states)
            out["outcomes"].update(ctx.outcomes)
            for k, n in ctx.notes.items():
                out["notes"][k] = out["notes"].get(k, 0) + n
            if len(out["samples"]) < 1:
                out["samples"].append(" ".join(ctx.desc))
        if status == "violation":
            rec = dict(
                choices=list(ctx.trail), message=v.msg, key=v.key, desc=" ".join(ctx.desc),
                index=out["executions"] + out["pruned"] - 1, root=list(root),
            )
            if v.key is not None and known and v.key in known:
                out["known"].append(rec)
            else:
                out["violations"].append(rec)
                if stop_on_violation:
                    out["complete"] = False
                    break
        prefix = next_prefix(ctx.trail, ctx.width, ctx.isdev, len(root), bound)
    out["states"] = np.fromiter(out["states"], dtype=np.uint64, count=len(out["states"]))
    out["outcomes"] = np.fromiter(out["outcomes"], dtype=np.uint64, count=len(out["outcomes"]))
    return out


class Scenario:
    """One closed system to explore.

    mode: 'interp' (numba functions run as Python), 'jit' (compiled), per worker process."""

    def __init__(self, name, driver, mode="interp", bound=None, want=64, optional=False):
        self.name, self.driver, self.mode, self.bound, self.want = name, driver, mode, bound, want
        self.optional = optional  # may be empty: drives private functions where they exist
