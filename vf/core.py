"""Core of the property-based testing framework.

A property module (vf/props/cXX.py) holds a list SUBS of `Sub` objects.  Each
has a Hypothesis strategy producing a JSON-serialisable `case`, and a check
`check(case, rec)` that drives the real code and raises `Violation` when the
oracle disagrees.  A case contains everything the check needs, so a saved
(shrunk) case replays without Hypothesis.
"""
import contextlib
import hashlib
import io
import json
import os
import traceback


class Violation(Exception):
    """The code under test contradicts the property."""

    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.key = key or "generic"


class CaseTimeout(BaseException):
    """The case burnt far more CPU than any valid one does."""


class Rec:
    """What one case reports about itself."""

    def __init__(self):
        self.labels = []
        self.nontrivial = None
        self.excluded = False

    def label(self, *names):
        for n in names:
            self.labels.append(str(n))

    def nt(self, flag=True):
        """Mark the case as non-trivial (by the property's stated rule)."""
        self.nontrivial = bool(flag) if self.nontrivial is None else (self.nontrivial and bool(flag))


class Sub:
    def __init__(self, name, strategy, check, quick, thorough, shards=2, cpu_limit=150, examples=(), mode="normal"):
        self.name = name
        self.strategy = strategy  # zero-argument function returning a strategy
        self.check = check
        self.quick = quick  # examples per run (all shards together)
        self.thorough = thorough
        self.shards = shards
        self.cpu_limit = cpu_limit
        self.examples = list(examples)  # fixed regression cases, run first by shard 0
        self.mode = mode  # "normal" | "asan"


def require(cond, msg, key=None):
    if not cond:
        raise Violation(msg() if callable(msg) else msg, key)


class _Sink(io.StringIO):
    pass


def call(fn, *args, what=None, allow=(), **kwargs):
    """Call the code under test on an input it must accept: any exception is a
    violation.  `allow` lists exception types that are handed on instead."""
    try:
        return fn(*args, **kwargs)
    except allow:
        raise
    except Exception as e:  # noqa: BLE001
        tb = traceback.extract_tb(e.__traceback__)
        loc = " <- ".join(f"{os.path.basename(f.filename)}:{f.name}" for f in reversed(tb[-3:]))
        name = what or getattr(fn, "__qualname__", str(fn))
        raise Violation(f"{name} raised {type(e).__name__}: {str(e)[:300]} [{loc}]", key="raised") from e


def must_raise(fn, *args, what=None, **kwargs):
    """Call the code under test on an input it must reject."""
    name = what or getattr(fn, "__qualname__", str(fn))
    try:
        fn(*args, **kwargs)
    except Exception as e:  # noqa: BLE001
        return e
    raise Violation(f"{name} accepted an argument it must reject", key="accepted")


@contextlib.contextmanager
def quiet():
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(io.StringIO()):
        yield buf


def derive_seed(*parts):
    h = hashlib.sha256("|".join(str(p) for p in parts).encode()).digest()
    return int.from_bytes(h[:6], "big")


def case_hash(case):
    return hashlib.sha256(json.dumps(case, sort_keys=True).encode()).hexdigest()[:16]
