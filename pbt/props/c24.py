"""C24: a function wrapped with jit_and_checkify raises exactly when one of its checks fails."""
import functools

import numpy as np
from hypothesis import strategies as st

from .. import api, gen
from ..core import SubCheck, check, check_close, fail, sut

jax, jnp = api.jax, api.jnp
utils = api.utils
from jax.experimental import checkify  # noqa: E402

RULE = """A case wraps one function with checks (on its inputs, inside a scan, inside a branch, around a controller step, several in a row, around empty results or none) and
calls it repeatedly with generated inputs, positional and keyword (None as well), some violating a check. Every call must raise an error carrying the message of
the first failing check, or return what the plain function returns, whatever the calls before it did, and be traced once per input shape.
Non-trivial: the sequence contains both a failing and a passing call."""


def checks_only(x, y=None):
    checkify.check(jnp.all(x < 4), "first check failed")
    s = x.sum()
    checkify.check(s > -6, "second check failed")
    return {"out": (x * 2, [s]), "y": None if y is None else y + x}


def in_scan(x, y=None):
    def body(c, v):
        checkify.check(c + v > -6, "second check failed")
        return c + v, c * 2

    checkify.check(jnp.all(x < 4), "first check failed")
    c, ys = jax.lax.scan(body, jnp.float32(0), x)
    return {"out": (ys, [c]), "y": None if y is None else y + x}


def with_nans(x, y=None):
    checkify.check(jnp.all(x < 4), "first check failed")
    s = x.sum()
    checkify.check(s > -6, "second check failed")
    # None of this is checked: not a number, infinite, out of bounds.
    return {"out": (jnp.log(x) / 0.0 + x[jnp.argmax(x) + 1], [s / 0.0]), "y": None if y is None else y + x}


def in_branch(x, y=None):
    def high(v):
        checkify.check(jnp.all(v < 4), "first check failed")
        return v - 1

    def low(v):
        checkify.check(jnp.all(v > -3), "second check failed")
        return v + 1

    z = jax.lax.cond(x[0] > 0, high, low, x)
    return {"out": (z, [z.sum()]), "y": None if y is None else y + x}


def around_controller(x, y=None):
    checkify.check(jnp.all(x < 4), "first check failed")
    b = api.ControllerBuilder.new_builder([len(x)])
    c = b.define_accumulator_by_shape("s", [len(x)]).build()
    c = c.cache_update("s", x).iterate_act(jnp.full(len(x), 0.5))
    checkify.check(jnp.all(c.accumulators["s"] > -1.5), "second check failed")
    return {"out": (c, [c.accumulators["s"]]), "y": None if y is None else y + x}


def empty_result(x, y=None):
    checkify.check(jnp.all(x < 4), "first check failed")
    checkify.check(x.sum() > -6, "second check failed")
    return {"out": (x[:0], [jnp.zeros([0, 2])]), "y": None if y is None else y + x}


def no_result(x, y=None):
    checkify.check(jnp.all(x < 4), "first check failed")
    checkify.check(x.sum() > -6, "second check failed")


def with_defaults(x, y=None, *rest, negate=False, scale=(2.0,), mode="plain", function=None, **more):
    """Its defaults are no arrays, and it branches on them."""
    checkify.check(jnp.all(x < 4), "first check failed")
    checkify.check(x.sum() > -6, "second check failed")
    z = x * scale[0] if mode == "plain" and not negate and function is None and not rest and not more else -x
    return {"out": (z, [x.sum()]), "y": None if y is None else y + x}


def with_another_default(x, y=7.0):
    """None is not what is meant by leaving the argument out."""
    checkify.check(jnp.all(x < 4), "first check failed")
    checkify.check(x.sum() > -6, "second check failed")
    return {"out": (x * 2, [x.sum()]), "y": None if y is None else y + x}


def expect(kind, x):
    """The message of the first failing check, or None."""
    if kind == "branch":
        if x[0] > 0:
            return "first check failed" if not np.all(x < 4) else None
        return "second check failed" if not np.all(x > -3) else None
    if not np.all(x < 4):
        return "first check failed"
    if kind in ("checks", "nans", "empty", "nothing", "defaults", "another"):
        return None if x.sum() > -6 else "second check failed"
    if kind == "scan":
        return None if np.all(np.cumsum(x) > -6) else "second check failed"
    return None if np.all(0.5 * x > -1.5) else "second check failed"


FUNCS = {"checks": checks_only, "nans": with_nans, "scan": in_scan, "branch": in_branch, "controller": around_controller, "defaults": with_defaults, "empty": empty_result, "nothing": no_result, "another": with_another_default}


@st.composite
def cases(draw):
    n = draw(st.integers(2, 5))
    value = st.one_of(st.integers(-2, 3), st.integers(-2, 3), st.integers(-7, 7))
    return {
        "kind": draw(st.sampled_from(["another", *sorted(FUNCS)])),
        "calls": [{"x": draw(st.lists(value, min_size=k, max_size=k)), "kw": draw(st.sampled_from([None, None, "kw", "pos", "all", "only", "none", "posnone"]))}
                  for k in draw(st.lists(st.sampled_from([2, 2, 2, 3]), min_size=n, max_size=n))],
        "numpy": draw(st.booleans()),
    }


def run(case, ctx):
    kind = case["kind"]
    plain = FUNCS[kind]
    traces = []

    @functools.wraps(plain)
    def counted(*a, **k):
        traces.append(1)
        return plain(*a, **k)

    wrapped = sut("jit_and_checkify", utils.jit_and_checkify, counted)
    check(not traces, "the function ran while it was being wrapped")
    shapes = set()
    passed = failed = 0
    for i, call in enumerate(case["calls"]):
        x = np.asarray(call["x"], np.float32)
        arg = x if case["numpy"] else jnp.asarray(x)
        y = jnp.ones(len(x)) * i
        shapes.add((len(x), call["kw"]))
        want = expect(kind, x)
        what = f"call {i} of {kind} with {x.tolist()}"
        try:
            out = {"pos": lambda: wrapped(arg, y), "kw": lambda: wrapped(arg, y=y), None: lambda: wrapped(arg),
                   "all": lambda: wrapped(y=y, x=arg), "only": lambda: wrapped(x=arg),
                   "none": lambda: wrapped(arg, y=None), "posnone": lambda: wrapped(arg, None)}[call["kw"]]()
        except checkify.JaxRuntimeError as err:
            if want is None:
                fail(f"{what}: raised {str(err)[:150]!r} although every check holds")
            check(want in str(err), lambda: f"{what}: raised {str(err)[:150]!r}, the first failing check says {want!r}")
            failed += 1
            continue
        except Exception as err:  # noqa: BLE001
            fail(f"{what}: raised {type(err).__name__}: {str(err)[:200]}")
        check(want is None, lambda: f"{what}: returned although {want!r}")
        passed += 1
        if kind == "nothing":
            check(out is None, f"{what}: returned {type(out).__name__}")
            continue
        check(isinstance(out, dict) and set(out) == {"out", "y"} and isinstance(out["out"], tuple), f"{what}: the output lost its structure")
        if kind == "controller":
            c = out["out"][0]
            check(isinstance(c, api.ACT_Controller), f"{what}: the controller came back as {type(c).__name__}")
            check_close(f"{what}: accumulator", c["s"], 0.5 * x, 1e-6)
            check_close(f"{what}: probabilities", c.probabilities, np.full(len(x), 0.5), 1e-6)
            check_close(f"{what}: output", out["out"][1][0], 0.5 * x, 1e-6)
        else:
            first, second = {
                "checks": lambda: (x * 2, x.sum()),
                "nans": lambda: (np.asarray(plain(jnp.asarray(x))["out"][0]), np.asarray(plain(jnp.asarray(x))["out"][1][0])),
                "defaults": lambda: (x * 2, x.sum()),
                "another": lambda: (x * 2, x.sum()),
                "empty": lambda: (np.zeros(0), np.zeros([0, 2])),
                "scan": lambda: (2 * np.concatenate([[0], np.cumsum(x)[:-1]]), x.sum()),
                "branch": lambda: ((x - 1, (x - 1).sum()) if x[0] > 0 else (x + 1, (x + 1).sum())),
            }[kind]()
            check_close(f"{what}: output", out["out"][0], first, 1e-6)
            check_close(f"{what}: output", out["out"][1][0], second, 1e-6)
        if kind == "another" and call["kw"] in (None, "only"):
            check_close(f"{what}: output of the default", out["y"], 7 + x, 1e-6)
        elif call["kw"] in (None, "only", "none", "posnone"):
            check(out["y"] is None, f"{what}: invented a value")
        else:
            check_close(f"{what}: keyword output", out["y"], np.asarray(y) + x, 1e-6)
    check(len(traces) <= len(shapes), lambda: f"{len(traces)} traces for {len(shapes)} kinds of input: the wrapped function is not compiled once")
    ctx.nontrivial(bool(passed and failed))
    ctx.label(kind)


SUBCHECKS = [SubCheck("jit-and-checkify", cases, run, 120)]
