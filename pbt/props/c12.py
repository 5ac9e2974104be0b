"""C12: a definition is accepted exactly when it is valid, and a refused one changes nothing."""
import jax
import numpy as np
from hypothesis import strategies as st

from .. import api, gen, trees
from ..core import SubCheck, check, must_raise, sut

jnp = api.jnp

RULE = """A case is a batch shape and a definition whose leaf shapes, leaf dtypes and container layout are
generated without regard to validity (shapes that match only as a suffix, that permute the batch dimensions, that are too short or
broadcastable, or that is no array at all), or a threshold parameter and core dtype; some with 64 bit types enabled, some definitions while they are traced; an independent rule says whether it must be accepted. Non-trivial: the
definition must be refused, or it must be accepted and has at least two leaves."""

ASSUMPTIONS = ["arrays are JAX arrays, as annotated; NumPy arrays in definitions are not judged"]

DTYPES = ["float32", "float16", "bfloat16", "int32", "uint8", "bool_", "complex64", "float8_e5m2"]
WIDE = ["float64", "float64", "int64", "complex128"]
FLOATING = {"float32", "float16", "bfloat16", "float8_e5m2", "float64"}


@st.composite
def shapes(draw, batch):
    kind = draw(st.integers(0, 9))
    tail = draw(st.sampled_from([[], [2], [3], [2, 2], [1]]))
    if kind <= 5:
        return batch + tail
    if kind == 6:
        return tail + batch
    if kind == 7 and batch:
        i = draw(st.integers(0, len(batch) - 1))
        return batch[:i] + [draw(st.sampled_from([1, batch[i] + 1, 2]))] + batch[i + 1:] + tail
    if kind == 8:
        return batch[: draw(st.integers(0, len(batch)))]
    return batch[::-1] + tail


@st.composite
def def_cases(draw, wide=False):
    batch = draw(gen.batches)
    spec = draw(gen.tree_specs(trail=shapes(batch), empties=True))
    n = len(list(trees.leaves(spec)))
    floating = st.sampled_from(["float32", "float16", "bfloat16"] + ["float64"] * 2 * wide)
    anything = st.sampled_from(DTYPES + WIDE * wide)
    return {"batch": batch, "spec": spec, "how": draw(st.sampled_from(["shape", "direct"])),
            "dtypes": draw(st.one_of(st.lists(floating, min_size=n, max_size=n), st.lists(st.one_of(floating, anything), min_size=n, max_size=n))),
            "dtype": draw(st.one_of(floating, anything)), "first": draw(st.booleans()), "traced": draw(st.integers(0, 3)) == 3}


def run_def(case, ctx):
    batch, spec = case["batch"], case["spec"]
    cfg = {"batch": batch, "dtype": "float32", "eps": 0.1, "dc": 1.0,
           "accs": [{"name": "kept", "spec": ["L", [2]], "dtype": "float32", "init": "fill", "fill": 1.0}] if case["first"] else []}
    b = api.make_builder(cfg)
    leafs = list(trees.leaves(spec))
    shapes_ok = all(s[: len(batch)] == batch for _, s in leafs)
    order = {p: d for (p, _), d in zip(leafs, case["dtypes"])}
    before = api.snap(b.build(), cfg)
    if case["how"] == "shape":
        # An empty list describes a scalar tensor.
        tree = trees.build(spec, lambda p, s: list(s))
        dtypes_ok = case["dtype"] in FLOATING
        call = lambda: b.define_accumulator_by_shape("new", tree, dtype=getattr(jnp, case["dtype"])).build()  # noqa: E731
    else:
        tree = trees.build(spec, lambda p, s: jnp.ones(tuple(s), getattr(jnp, order[p])))
        dtypes_ok = all(d in FLOATING for d in case["dtypes"])
        call = lambda: b.define_accumulator_directly("new", tree).build()  # noqa: E731
        if case.get("traced"):
            call = lambda: jax.eval_shape(lambda t: b.define_accumulator_directly("new", t).build(), tree)  # noqa: E731
    what = f"defining {tree if case['how'] == 'shape' else [(p, s, order[p]) for p, s in leafs]} for batch {batch}"
    if shapes_ok and dtypes_ok:
        got = sut(what, call)
        check("new" in got.accumulators, "the accumulator was not defined")
        ctx.nontrivial(len(leafs) >= 2)
        ctx.label("accepted")
    else:
        types = (ValueError, TypeError) if not shapes_ok and not dtypes_ok else ValueError if not shapes_ok else TypeError
        must_raise(what, types, call)
        ctx.nontrivial()
        ctx.label("refused for shape", not shapes_ok)
        ctx.label("refused for dtype", not dtypes_ok)
    api.snap(b.build(), cfg).same(before, "the builder after the definition")


@st.composite
def corrupt_cases(draw):
    batch = draw(gen.batches)
    spec = draw(gen.tree_specs())
    n = len(list(trees.leaves(spec)))
    return {"batch": batch, "spec": spec, "at": draw(st.integers(0, n - 1)), "kind": draw(st.integers(0, 5))}


def lone_parent(spec, target, path=""):
    """Is the leaf at target the only child of a sequence? (With an int there, the sequence is a shape.)"""
    if spec[0] in "ltN" and len(spec[1]) == 1 and trees.items(spec)[0][1][0] == "L":
        return f"{path}/{trees.items(spec)[0][0]}" == target
    return any(lone_parent(sub, target, f"{path}/{key}") for key, sub in trees.items(spec))


def run_corrupt(case, ctx):
    """Something that is not a list of ints where a shape belongs."""
    batch = case["batch"]
    paths = [p for p, _ in trees.leaves(case["spec"])]
    target = paths[case["at"]]
    good = batch + [2]
    bad = [tuple(good), "shape", 3, [float(n) for n in good], good + ["2"], np.ones(2)][case["kind"]]
    tree = trees.build(case["spec"], lambda p, s: bad if p == target else list(good))
    if isinstance(bad, int) and lone_parent(case["spec"], target):
        return  # [3] is a legal shape, not a list holding something else
    b = sut("new_builder", api.ControllerBuilder.new_builder, batch)
    must_raise(f"defining an accumulator of shapes {tree}", ValueError, b.define_accumulator_by_shape, "new", tree)
    ctx.nontrivial()


@st.composite
def stray_cases(draw):
    batch = draw(gen.batches)
    spec = draw(gen.tree_specs())
    n = len(list(trees.leaves(spec)))
    return {"batch": batch, "spec": spec, "at": draw(st.integers(0, n - 1)), "kind": draw(st.sampled_from([0.5, 1, True, "float32", "other", "type", "object"]))}


def run_stray(case, ctx):
    """A leaf that is no array at all."""
    cfg = {"batch": case["batch"], "dtype": "float32", "eps": 0.1, "dc": 1.0, "accs": [{"name": "kept", "spec": ["L", [2]], "dtype": "float32", "init": "fill", "fill": 1.0}]}
    b = api.make_builder(cfg)
    before = api.snap(b.build(), cfg)
    target = [p for p, _ in trees.leaves(case["spec"])][case["at"]]
    bad = {"type": jnp.float32, "object": object()}.get(case["kind"], case["kind"])
    tree = trees.build(case["spec"], lambda p, s: bad if p == target else jnp.ones(case["batch"] + list(s), jnp.float32))
    must_raise(f"a definition with {bad!r} in place of an array", Exception, b.define_accumulator_directly, "new", tree)
    api.snap(b.build(), cfg).same(before, "the builder after the refusal")
    ctx.nontrivial()


@st.composite
def new_cases(draw, wide=False):
    return {"batch": draw(gen.batches), "dtype": draw(st.sampled_from([None] + DTYPES + ["float32"] * 3 + WIDE * wide)),
            "eps": draw(st.one_of(st.sampled_from([0.0, 1.0, -0.1, 1.5, 1e-4, 0.5, 0.999, -1e-9, 1.0000001, 1e-12, float("nan"), float("inf")]), st.floats(-0.5, 1.5), st.floats(0.01, 0.99)))}


def run_new(case, ctx):
    eps_ok = 0.0 < case["eps"] < 1.0
    dtype_ok = case["dtype"] is None or case["dtype"] in FLOATING
    dt = None if case["dtype"] is None else getattr(jnp, case["dtype"])
    call = lambda: api.ControllerBuilder.new_builder(case["batch"], dt, epsilon=case["eps"])  # noqa: E731
    what = f"new_builder with epsilon {case['eps']} and dtype {case['dtype']}"
    if eps_ok and dtype_ok:
        b = sut(what, call)
        check(b.epsilon == case["eps"], f"{what}: epsilon became {b.epsilon}")
        check(b.probabilities.dtype == (dt or jnp.zeros([]).dtype), f"{what}: dtype became {b.probabilities.dtype}")
    else:
        must_raise(what, ValueError, call)
    ctx.nontrivial(not (eps_ok and dtype_ok) or case["eps"] < 0.01 or case["eps"] > 0.9 or case["dtype"] not in (None, "float32"))


SUBCHECKS = [
    SubCheck("definition-iff-valid", def_cases, run_def, 300),
    SubCheck("definition-x64", lambda: def_cases(True), api.wide(run_def), 60),
    SubCheck("new-builder-x64", lambda: new_cases(True), api.wide(run_new), 30),
    SubCheck("corrupt-shapes", corrupt_cases, run_corrupt, 60),
    SubCheck("stray-leaf", stray_cases, run_stray, 40),
    SubCheck("new-builder-iff-valid", new_cases, run_new, 150),
]
