"""Violations, per-case context and the helpers that talk to the code under test."""
import hashlib
import json

import numpy as np


class Violation(Exception):
    """The code under test broke the property on the case being run."""


class Inconclusive(Exception):
    """The case cannot be judged (for instance it sits on a rounding borderline)."""


class Ctx:
    """What one case tells the runner about itself."""

    def __init__(self):
        self.labels = {}
        self.trivial = True

    def nontrivial(self, flag=True):
        if flag:
            self.trivial = False

    def label(self, name, flag=True):
        if flag:
            self.labels[name] = self.labels.get(name, 0) + 1


class SubCheck:
    def __init__(self, name, strategy, run, quick, thorough=None):
        self.name = name
        self.strategy = strategy      # () -> hypothesis strategy of JSON-able cases
        self.run = run                # (case, ctx) -> None, raises Violation
        self.quick = quick            # generated cases per shard
        self.thorough = thorough if thorough is not None else quick * 12


def case_key(sub, case):
    blob = json.dumps([sub, case], sort_keys=True, default=str)
    return hashlib.sha1(blob.encode()).hexdigest()[:16]


def fail(msg):
    raise Violation(msg)


def check(cond, msg):
    if not cond:
        raise Violation(msg() if callable(msg) else msg)


def sut(desc, fn, *args, **kwargs):
    """A call that the property says must succeed."""
    try:
        return fn(*args, **kwargs)
    except (MemoryError, Violation, Inconclusive):
        raise
    except Exception as err:  # noqa: BLE001
        raise Violation(f"{desc} raised {type(err).__name__}: {str(err)[:300]}") from err


def must_raise(desc, types, fn, *args, **kwargs):
    """A call that must be refused, with one of the given exception types."""
    try:
        fn(*args, **kwargs)
    except (MemoryError, Violation, Inconclusive):
        raise
    except types:
        return
    except Exception as err:  # noqa: BLE001
        names = types.__name__ if isinstance(types, type) else [t.__name__ for t in types]
        raise Violation(f"{desc} raised {type(err).__name__} ({str(err)[:200]!r}), expected {names}") from err
    raise Violation(f"{desc} was accepted, but must be refused")


def f64(x):
    return np.asarray(x).astype(np.float64)


TOL = {"float64": 1e-9, "float32": 2e-5, "float16": 1e-2, "bfloat16": 6e-2}


def close(got, want, tol):
    got = f64(got)
    want = f64(want)
    if got.shape != want.shape:
        return False
    with np.errstate(all="ignore"):
        same = (got == want) | (np.isnan(got) & np.isnan(want))
        near = np.abs(got - want) <= tol * (1 + np.abs(want))
    return bool(np.all(same | near))


def bits_equal(a, b):
    """Same dtype, shape and values (NaN equal to NaN)."""
    a = np.asarray(a)
    b = np.asarray(b)
    if a.dtype != b.dtype or a.shape != b.shape:
        return False
    fa, fb = a.astype(np.float64), b.astype(np.float64)
    return bool(np.all((fa == fb) | (np.isnan(fa) & np.isnan(fb))))


def check_close(desc, got, want, tol):
    if not close(got, want, tol):
        raise Violation(f"{desc}: got {f64(got).tolist()} want {f64(want).tolist()} (tol {tol})")


def check_bits(desc, got, want):
    if not bits_equal(got, want):
        g, w = np.asarray(got), np.asarray(want)
        raise Violation(f"{desc}: got {g.dtype}{g.shape} {f64(g).tolist()} want {w.dtype}{w.shape} {f64(w).tolist()}")
