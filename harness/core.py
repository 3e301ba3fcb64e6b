"""Property-based testing core: targets, seeded Hypothesis shards, shrinking, replay, evidence.

A check module (harness/checks/cNN.py) exports

    PROPERTY = "CNN"
    RULE     = how cases are made and what makes one non-trivial
    TARGETS  = [Target(...), ...]

Every Target has a Hypothesis strategy that yields a JSON-serialisable case and a
function run(case) -> Result that raises Violation when the property fails on that case.
Every random choice of a case is drawn by Hypothesis (arrays are expanded from a drawn
descriptor by a pure function), so a case alone reproduces a failure.
"""
import hashlib
import json
import os
import sys
import traceback

REPO = "/repo"
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(Exception):
    """The property does not hold on this case."""


class HarnessError(Exception):
    """The harness itself failed; never reported as a violation."""


class Known(Exception):
    """A violation listed in KNOWN_FINDINGS.txt."""

    def __init__(self, key, msg):
        super().__init__(msg)
        self.key = key


class Target:
    def __init__(self, name, strategy, run, quick, thorough, shards=4, tshards=8, stateful=False):
        self.name = name
        self.strategy = strategy
        self.run = run
        self.quick = quick  # total examples, quick tier
        self.thorough = thorough
        self.shards = shards
        self.tshards = tshards


class Result:
    """What a case covered: nontrivial (by the module's rule) and class labels."""

    def __init__(self, nontrivial=True, labels=()):
        self.nontrivial = bool(nontrivial)
        self.labels = list(labels)


def fail(msg, **ctx):
    if ctx:
        msg += " | " + ", ".join(f"{k}={_short(v)}" for k, v in ctx.items())
    raise Violation(msg)


def require(cond, msg, **ctx):
    if not cond:
        fail(msg, **ctx)


def _short(v):
    s = repr(v)
    return s if len(s) < 400 else s[:400] + "..."


def close(a, b, msg, rtol=1e-9, atol=1e-12, scale=None, **ctx):
    """|a-b| <= atol + rtol*scale with scale = max magnitude (not elementwise)."""
    import numpy as np

    a = np.asarray(a)
    b = np.asarray(b)
    if a.dtype == object:
        a = a.astype(complex)
    if b.dtype == object:
        b = b.astype(complex)
    if a.shape != b.shape:
        fail(msg + ": shapes differ", got=a.shape, expected=b.shape, **ctx)
    if a.size == 0:
        return
    if scale is None:
        scale = float(np.max(np.abs(b)))
    err = np.abs(a - b)
    bad = ~(err <= atol + rtol * scale)  # NaN counts as bad
    if np.any(bad):
        i = int(np.argmax(np.where(np.isnan(err), np.inf, err)))
        fail(msg, got=a.ravel()[i], expected=b.ravel()[i], at=i, nbad=int(bad.sum()), tolerance_scale=scale, **ctx)


def case_id(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:16]


def in_repo_frames(tb):
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if fn.startswith(REPO + "/"):
            return True
        tb = tb.tb_next
    return False


def guarded_run(target, case):
    """Run one case; classify exceptions."""
    try:
        r = target.run(case)
    except (Violation, HarnessError, Known):
        raise
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as e:
        if type(e).__module__.startswith("hypothesis"):
            raise
        if in_repo_frames(e.__traceback__):
            last = traceback.format_exception_only(type(e), e)[-1].strip()
            where = [
                f"{os.path.relpath(f.filename, REPO)}:{f.name}"
                for f in traceback.extract_tb(e.__traceback__)
                if f.filename.startswith(REPO + "/")
            ][-1]
            raise Violation(f"valid input crashed in {where}: {last}") from e
        if isinstance(e, (TypeError, ValueError, IndexError, KeyError, AttributeError, ArithmeticError, AssertionError)):
            # what the code returned cannot be evaluated as documented (wrong type, shape, missing attribute)
            last = traceback.format_exception_only(type(e), e)[-1].strip()
            f = traceback.extract_tb(e.__traceback__)[-1]
            raise Violation(f"the result is not of the documented form: {last} (evaluated at {os.path.basename(f.filename)}:{f.lineno})") from e
        raise HarnessError("".join(traceback.format_exception(type(e), e, e.__traceback__))) from e
    return r if isinstance(r, Result) else Result()


def load_known():
    """KNOWN_FINDINGS.txt: lines 'known: property=<id> key=<key> <what fails>'."""
    out = {}
    path = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("known: "):
                parts = line[len("known: "):].split(None, 2)
                pid = parts[0].split("=", 1)[1]
                key = parts[1].split("=", 1)[1]
                out[(pid, key)] = parts[2]
    return out
