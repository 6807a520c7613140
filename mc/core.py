"""
Small explicit-state / stateless model-checking engine for a sequential library.

A *driver* is a closed program over the real package in which every free choice
(operation, argument, configuration, environment answer) is made by
``ch.choose(label, options)``.  The engine enumerates every choice sequence by
depth-first re-execution, so a driver that never loops without choosing is
explored exhaustively.  ``explore_bfs`` is the explicit-state variant: states are
canonicalised observations of the live objects, reached by replaying histories.

Counters, all measured:
  states      nodes of the explored choice tree (DFS) or canonical states (BFS)
  transitions real-package operations executed (``ch.op``)
  traces      complete executions whose every step was compared with the reference
              model (the oracle)
  outcomes    distinct observation digests (vacuity indicator)
"""

import collections
import hashlib
import itertools
import json
import os
import sys
import time
import traceback
import warnings

import numpy as np

REPO = os.environ.get("VERIF_DEV_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


REPLAY = None  # a recorded violation to re-execute instead of exploring
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)


class Violation(Exception):
    def __init__(self, message, key=None):
        super().__init__(message)
        self.key = key or message


class Chooser:
    """Replays a prefix of choices and then takes choice 0 everywhere."""

    def __init__(self, prefix, stats):
        self.prefix = list(prefix)
        self.points = []  # (label, n options, chosen index, repr of chosen)
        self.stats = stats
        self.digest = hashlib.blake2b(digest_size=12)
        self.notes = []
        self._last = None

    def choose(self, label, options):
        options = list(options)
        if not options:
            raise RuntimeError(f"no options at {label}")
        ii = len(self.points)
        idx = self.prefix[ii] if ii < len(self.prefix) else 0
        if idx >= len(options):
            raise RuntimeError(f"divergence while replaying a prefix at {label}")
        self.points.append((label, len(options), idx, _short(options[idx])))
        return options[idx]

    # --- execution of the real code ---------------------------------------
    def op(self, name, func, *args, **kwargs):
        """Run one operation of the package under test."""
        self.stats.transitions += 1
        self._last = name
        return func(*args, **kwargs)

    def raises(self, name, exceptions, func, *args, **kwargs):
        """The operation must raise one of the exceptions."""
        self.stats.transitions += 1
        self._last = name
        try:
            result = func(*args, **kwargs)
        except exceptions:
            self.observe(name, "raised")
            return
        raise Violation(f"{name}: expected {exceptions}, got {_short(result)}")

    def observe(self, name, value):
        self.digest.update(_bytes(value))

    def check(self, condition, message, key=None):
        if not condition:
            raise Violation(message() if callable(message) else message, key)

    def equal(self, name, got, expected, rtol=1e-9, atol=0.0, key=None):
        """got and expected agree in shape and value (nan equals nan)."""
        got = as_numpy(got)
        expected = np.asarray(expected, dtype=float)
        if got.shape != expected.shape:
            raise Violation(
                f"{name}: shape {got.shape} instead of {expected.shape}", key
            )
        got = got.astype(float)
        self.observe(name, got)
        bad = ~close_mask(got, expected, rtol, atol)
        if bad.any():
            where = tuple(int(k) for k in np.argwhere(bad)[0])
            raise Violation(
                f"{name}: {int(bad.sum())}/{bad.size} values differ, first at {where}: "
                f"got {got[where]!r}, expected {expected[where]!r}",
                key,
            )


def close_mask(got, expected, rtol, atol):
    with np.errstate(all="ignore"):
        ok = np.abs(got - expected) <= atol + rtol * np.abs(expected)
    ok = np.asarray(ok)
    same = (got == expected) | (np.isnan(got) & np.isnan(expected))
    return (ok & np.isfinite(got) & np.isfinite(expected)) | same


def as_numpy(value):
    if hasattr(value, "to_numpy"):
        value = value.to_numpy()
    return np.asarray(value)


def _short(value, n=160):
    if isinstance(value, np.ndarray) and value.size > 6:
        return f"array{value.shape}"
    if callable(value) and hasattr(value, "__name__"):
        return value.__name__
    text = repr(value)
    return text if len(text) <= n else text[: n - 3] + "..."


def _bytes(value):
    if isinstance(value, (str, bytes, bool, int, type(None))):
        return repr(value).encode()
    try:
        arr = np.asarray(value, dtype=float)
        # round so that the digest is about behaviour, not about the last bits
        with np.errstate(all="ignore"):
            mant, expo = np.frexp(arr)
        return (
            repr(arr.shape).encode()
            + np.round(mant, 9).tobytes()
            + np.asarray(expo).tobytes()
        )
    except (TypeError, ValueError):
        return repr(value).encode()


class Stats:
    def __init__(self):
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.outcomes = set()
        self.max_depth = 0
        self.samples = []
        self.capped = False
        self.replayed = 0
        self.findings = []  # known findings seen
        self.violations = []
        self.replay = None
        self.seconds = {}


def explore_dfs(driver, stats, name, findings=(), max_violations=1):
    """Exhaustive depth-first enumeration of all choice sequences of a driver."""
    prefix = []
    first = True
    t0 = time.time()
    n_paths = 0
    if REPLAY is not None:
        if REPLAY["driver"] == name:
            ch = Chooser(REPLAY["choices"], stats)
            violation = run_once(driver, ch)
            if violation is not None:
                record_violation(stats, name, ch, violation, ())
        return
    while True:
        ch = Chooser(prefix, stats)
        violation = run_once(driver, ch)
        n_paths += 1
        new = len(ch.points) - max(len(prefix) - 1, 0)
        stats.states += new + (1 if first else 0)
        stats.traces += 1
        stats.outcomes.add(ch.digest.hexdigest())
        stats.max_depth = max(stats.max_depth, len(ch.points))
        if first or (n_paths & (n_paths - 1)) == 0:
            # determinism: the same choices must give the same observations
            ch2 = Chooser([p[2] for p in ch.points], stats)
            violation2 = run_once(driver, ch2)
            stats.replayed += 1
            if (
                [p[:3] for p in ch2.points] != [p[:3] for p in ch.points]
                or ch2.digest.digest() != ch.digest.digest()
                or (violation is None) != (violation2 is None)
            ):
                violation = violation or Violation(
                    "the same sequence of operations gave a different result the "
                    "second time it was executed"
                )
            if len(stats.samples) < 3 and violation is None:
                stats.samples.append(
                    dict(driver=name, choices=[f"{p[0]}={p[3]}" for p in ch.points])
                )
        first = False
        if violation is not None:
            if not record_violation(stats, name, ch, violation, findings):
                if len(stats.violations) >= max_violations:
                    break
        # next path
        choices = [p[2] for p in ch.points]
        sizes = [p[1] for p in ch.points]
        while choices and choices[-1] + 1 >= sizes[len(choices) - 1]:
            choices.pop()
        if not choices:
            break
        choices[-1] += 1
        prefix = choices
    stats.seconds[name] = stats.seconds.get(name, 0) + round(time.time() - t0, 2)


def run_once(driver, ch):
    np.random.seed(SEED % 2**32)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with np.errstate(all="ignore"):
                driver(ch)
    except Violation as exc:
        return exc
    except KeyboardInterrupt:
        raise
    except BaseException as exc:  # noqa: an unexpected exception is a violation
        tb = traceback.extract_tb(exc.__traceback__)
        inside = [f for f in tb if f.filename.startswith(REPO)]
        where = inside[-1] if inside else tb[-1]
        return Violation(
            f"{ch._last}: unexpected {type(exc).__name__}: {exc} "
            f"({os.path.basename(where.filename)}:{where.lineno})",
            key=f"{ch._last}: unexpected {type(exc).__name__}",
        )
    return None


def record_violation(stats, name, ch, violation, findings):
    """Returns True if the violation is a listed finding."""
    text = " ".join(f"{p[0]}={p[3]}" for p in ch.points)
    for finding in findings:
        if (
            finding["driver"] == name
            and all(part in text for part in finding["history"])
            and finding["symptom"] in str(violation)
        ):
            if finding["id"] not in [f["id"] for f in stats.findings]:
                stats.findings.append(finding)
            return True
    stats.violations.append(
        dict(
            driver=name,
            choices=[p[2] for p in ch.points],
            history=[f"{p[0]}={p[3]}" for p in ch.points],
            message=str(violation),
        )
    )
    return False


def explore_bfs(system, stats, name, depth, findings=()):
    """
    Explicit-state search.  ``system(history, ch)`` builds fresh real objects,
    replays the history (checking the oracle at every step through ch) and returns
    (canonical state, enabled events).
    """
    t0 = time.time()
    def build(history):
        ch = Chooser([], stats)
        box = {}

        def driver(ch):
            for ii, ev in enumerate(history):
                ch.points.append((f"op{ii}", 1, 0, _short(ev)))
            box["out"] = system(history, ch)

        violation = run_once(driver, ch)
        stats.traces += 1
        stats.outcomes.add(ch.digest.hexdigest())
        if violation is not None:
            record_violation(stats, name, ch, violation, findings)
            stats.violations and stats.violations[-1].update(
                bfs=True, choices=[list(ev) if isinstance(ev, tuple) else ev for ev in history]
            )
            return None
        return box["out"]

    if REPLAY is not None:
        if REPLAY["driver"] == name:
            build(
                tuple(
                    tuple(ev) if isinstance(ev, list) else ev
                    for ev in REPLAY["choices"]
                )
            )
        return
    start = build(())
    if start is None:
        return
    seen = {start[0]}
    frontier = collections.deque([((), start[1])])
    stats.states += 1
    while frontier and not stats.violations:
        hist, events = frontier.popleft()
        if len(hist) >= depth:
            continue
        for ev in events:
            nxt = build(hist + (ev,))
            if nxt is None:
                if stats.violations:
                    break
                continue
            stats.max_depth = max(stats.max_depth, len(hist) + 1)
            if nxt[0] not in seen:
                seen.add(nxt[0])
                stats.states += 1
                frontier.append((hist + (ev,), nxt[1]))
                if len(stats.samples) < 3 and len(hist) >= 1:
                    stats.samples.append(
                        dict(driver=name, choices=[_short(e) for e in hist + (ev,)])
                    )
    stats.seconds[name] = stats.seconds.get(name, 0) + round(time.time() - t0, 2)


class Guard:
    """Detects changes to user-owned (nested) dicts/lists of arrays and numbers."""

    def __init__(self, *objs):
        self.objs = objs
        self.copies = [self.freeze(o) for o in objs]

    @classmethod
    def freeze(cls, obj):
        import pandas as pd

        if isinstance(obj, pd.DataFrame):
            return (
                "frame",
                tuple(obj.columns),
                tuple(map(str, obj.dtypes)),
                obj.index.to_numpy().tobytes(),
                tuple(obj[c].to_numpy().tobytes() for c in obj.columns),
            )
        if isinstance(obj, dict):
            return ("dict", tuple((k, cls.freeze(v)) for k, v in obj.items()))
        if isinstance(obj, (list, tuple)):
            return (type(obj).__name__, tuple(cls.freeze(v) for v in obj))
        if isinstance(obj, (int, float, str, bool, type(None))):
            return repr(obj)
        arr = np.asarray(obj)
        if arr.dtype == object:
            return repr(obj)
        return (arr.shape, str(arr.dtype), arr.tobytes())

    def check(self, ch, what="the input"):
        for obj, copy in zip(self.objs, self.copies):
            ch.check(
                self.freeze(obj) == copy,
                lambda: f"{ch._last}: {what} was modified by the call",
            )


def product(**lattice):
    keys = list(lattice)
    for values in itertools.product(*lattice.values()):
        yield dict(zip(keys, values))
