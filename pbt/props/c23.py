"""C23: comparing and merging pytrees, and judging whether shapes broadcast."""
import numpy as np
from hypothesis import strategies as st

from .. import api, gen, trees
from ..core import SubCheck, check, check_bits, must_raise, sut
from .c22 import coarsen, corrupt, norm, specs

jax, jnp = api.jax, api.jnp
utils = api.utils

RULE = """Generated pytrees and variants of them: the same, keys inserted in another order, one element of one leaf changed (much, slightly, or
to NaN), one leaf of another shape, one structural change, unrelated. Structure equality must hold exactly for equal descriptions, value equality
exactly when structure, shapes and (close, or identical) contents agree; merging must pair like leaves and keep the primary structure;
shape checks must agree with numpy's. Non-trivial: the two sides differ, or contain more than one leaf."""

SHAPES = [[], [1], [2], [3], [2, 3], [2, 1], [1, 3], [3, 1], [2, 2, 3], [1, 1], [3, 2], [2, 1, 3], [4], [1, 2, 1, 3]]


def shuffle(draw, spec):
    if spec[0] == "L":
        return spec
    new = trees.remake(spec, [shuffle(draw, s) for _, s in trees.items(spec)])
    return [spec[0], draw(st.permutations(new[1]))] if spec[0] in "dDI" else new


@st.composite
def structure_cases(draw):
    a = draw(specs())
    how = draw(st.sampled_from(["same", "shuffled", "corrupt", "corrupt", "coarse", "unrelated"]))
    b = {"same": lambda: a, "shuffled": lambda: shuffle(draw, a), "corrupt": lambda: shuffle(draw, corrupt(draw, a)),
         "coarse": lambda: coarsen(draw, a), "unrelated": lambda: draw(specs())}[how]()
    return {"a": a, "b": b, "how": how, "sa": draw(st.sampled_from(SHAPES)), "sb": draw(st.sampled_from(SHAPES)),
            "seed": draw(gen.seeds), "swap": draw(st.booleans()), "leaf": draw(st.sampled_from(["array", "number", "list-free object"]))}


def run_structure(case, ctx):
    a, b = case["a"], case["b"]
    mk = {"array": lambda s: jnp.ones(s), "number": lambda s: 3, "list-free object": lambda s: np.ones(s)}[case["leaf"]]
    x = trees.build(a, lambda p, t: jnp.zeros(case["sa"]))
    y = trees.build(b, lambda p, t: mk(case["sb"]))
    if case["swap"]:
        x, y = y, x
    want = norm(a) == norm(b)
    got = sut("are_pytree_structure_equal", utils.are_pytree_structure_equal, x, y)
    check(bool(got) == want, lambda: f"are_pytree_structure_equal says {got} for {a} and {b}")
    ctx.nontrivial(a != b)
    ctx.label("equal" if want else "different")


@st.composite
def equality_cases(draw):
    a = draw(specs())
    n = sum(1 for _ in trees.leaves(a))
    how = draw(st.sampled_from(["same", "shuffled", "value", "value", "tiny", "small", "nan", "both_nan", "itself_nan", "itself", "both_inf", "inf", "opposite_inf", "shape", "structure", "unrelated", "broadcastable"]))
    if not n and how not in ("structure", "unrelated"):
        how = "shuffled"
    b = {"structure": lambda: corrupt(draw, a), "unrelated": lambda: draw(specs())}.get(how, lambda: shuffle(draw, a))()
    return {"a": a, "b": b, "how": how, "seed": draw(gen.seeds), "leaf": draw(st.integers(0, max(0, n - 1))), "elem": draw(st.integers(0, 5)),
            "shape": draw(st.sampled_from([[2, 3], [2], [], [3], [1]])), "exact": draw(st.booleans()), "swap": draw(st.booleans()),
            "leaves": draw(st.sampled_from(["jax", "jax", "jax", "numpy", "double"])), "delta": draw(st.sampled_from([1.0, -0.5, 0.01, 0.0005, 8.0])), "small": draw(st.sampled_from([2e-6, 1e-5, 5e-5, 3e-4]))}


def run_equality(case, ctx):
    a, b, how = case["a"], case["b"], case["how"]
    # Leaves are arrays of JAX or of numpy; the latter may be of double precision whatever JAX is set to.
    real = np.float64 if case.get("leaves") == "double" else np.float32
    make = jnp.asarray if case.get("leaves", "jax") == "jax" else np.array
    values = {p: trees.content(case["seed"], p, case["shape"]).astype(real) for p, _ in trees.leaves(a)}
    target = ([p for p, _ in trees.leaves(a)] or [None])[case["leaf"]]
    if how in ("both_nan", "itself_nan", "both_inf", "opposite_inf"):
        values[target] = np.array(values[target])
        values[target].reshape(-1)[case["elem"] % values[target].size] = np.nan if how.endswith("nan") else np.inf

    if how == "small":
        values[target] = np.array(values[target])
        values[target].reshape(-1)[case["elem"] % values[target].size] = 0.0 if case["elem"] % 2 else -case["small"]

    def other(path, trailing):
        v = values.get(path)
        if v is None:
            v = np.zeros(case["shape"], real)
        if path == target:
            flat = np.array(v).reshape(-1)
            k = case["elem"] % flat.size
            if how == "value":
                flat[k] += case["delta"]
            elif how == "tiny":
                flat[k] = np.nextafter(flat[k], real(99)) if flat[k] else real(1e-9)
            elif how == "small":
                # Two values that are small, but far apart for their size.
                flat[k] = real(case["small"])
            elif how == "nan":
                flat[k] = np.nan
            elif how in ("inf", "opposite_inf"):
                flat[k] = np.inf if how == "inf" else -np.inf
            v = flat.reshape(v.shape)
            if how == "shape":
                v = v[None]
            elif how == "broadcastable":
                v = np.full((2,) + v.shape, v.reshape(-1)[0], real)
        return make(v)

    x = trees.build(a, lambda p, t: make(values[p]))
    y = trees.build(b, other)
    if how == "broadcastable":
        # Would compare equal if broadcasting were allowed to hide the shape.
        values[target] = np.full(case["shape"], values[target].reshape(-1)[0], real)
        x = trees.build(a, lambda p, t: make(values[p]))
    if how in ("itself", "itself_nan"):
        # One tree compared with itself, or two trees that share their leaves.
        y = x if case["swap"] else jax.tree_util.tree_map(lambda leaf: leaf, x)
    if case["swap"]:
        x, y = y, x
    if how in ("same", "shuffled", "both_inf", "itself"):
        want = True
    elif how == "tiny":
        want = not case["exact"]
    elif how == "unrelated":
        want = norm(a) == norm(b)
        if want and any(not np.array_equal(values[p], values.get(p)) for p in values):
            want = None
    else:
        want = False
    if case["exact"]:
        got = sut("are_pytrees_equal", utils.are_pytrees_equal, x, y, use_allclose=False)
    else:
        got = sut("are_pytrees_equal", utils.are_pytrees_equal, x, y)
    if want is not None:
        check(bool(got) == want, lambda: f"are_pytrees_equal ({how}, exact {case['exact']}) says {got}, want {want}")
    ctx.nontrivial(how != "same")
    ctx.label(how)


@st.composite
def scalar_cases(draw):
    pool = st.one_of(st.integers(-2, 2), st.sampled_from(["a", "b", ""]), st.booleans(), st.sampled_from([0.0, 1.0, 0.5]))
    return {"a": draw(st.lists(pool, min_size=1, max_size=4)), "b": draw(st.lists(pool, min_size=1, max_size=4)), "same": draw(st.booleans()),
            "array": draw(st.booleans())}


def run_scalar(case, ctx):
    """Leaves that are not arrays."""
    a = case["a"]
    b = list(a) if case["same"] else case["b"]
    want = len(a) == len(b) and all(type(x) is type(y) and x == y for x, y in zip(a, b))
    x, y = (list(a), list(b)) if not case["array"] else (list(a) + [jnp.ones(2)], list(b) + [jnp.ones(2)])
    got = sut("are_pytrees_equal", utils.are_pytrees_equal, x, y)
    check(bool(got) == want, lambda: f"are_pytrees_equal says {got} for {x} and {y}")
    ctx.nontrivial(not case["same"])


def swap_sequences(spec):
    if spec[0] in "Ln":
        return spec
    return trees.remake(spec, [swap_sequences(s) for _, s in trees.items(spec)], {"l": "t", "t": "l"}.get(spec[0]))


@st.composite
def merge_cases(draw):
    a = draw(specs())
    how = draw(st.sampled_from(["same", "same", "containers"]))
    return {"a": a, "b": shuffle(draw, a), "seed": draw(gen.seeds), "op": draw(st.sampled_from(["sub", "second", "pair", "object"])),
            "jit": draw(st.booleans()), "longer": draw(st.sampled_from([False, False, True])), "how": how}


def run_merge(case, ctx):
    a, b = case["a"], case["b"]
    if case["how"] == "containers":
        b = swap_sequences(b)
    va = {p: trees.content(case["seed"], "a" + p, (2,)).astype(np.float32) for p, _ in trees.leaves(a)}
    vb = {p: trees.content(case["seed"], "b" + p, (2, 3)).astype(np.float32) for p, _ in trees.leaves(b)}
    x = trees.build(a, lambda p, t: jnp.asarray(va[p]))
    y = trees.build(b, lambda p, t: jnp.asarray(vb[p]))
    if case["longer"]:
        must_raise("merge_pytrees with more leaves on one side", Exception, utils.merge_pytrees, lambda p, q: p, x, [y, jnp.ones(2)])
        must_raise("merge_pytrees with more leaves on one side", Exception, utils.merge_pytrees, lambda p, q: p, [x, jnp.ones(2)], y)
        ctx.nontrivial()
        return
    if case["op"] == "object":
        # Whatever the function gives is what stands in the result.
        pick = lambda p: [None, "text", 7, (1, 2), {"k": [3]}, len][int(abs(float(p[0])) * 4) % 6]  # noqa: E731
        out = sut("merge_pytrees", utils.merge_pytrees, lambda p, q: pick(p), x, trees.build(a, lambda p, t: jnp.asarray(vb[p])))
        for p, v in trees.objects(out, a, "merged tree").items():
            check(type(v) is type(pick(va[p])) and v == pick(va[p]), lambda: f"merged leaf {p or '/'} is {v!r}, the function gave {pick(va[p])!r}")
        ctx.nontrivial(len(va) > 1)
        ctx.label("other objects")
        return
    fn = {"sub": lambda p, q: p[:, None] - 2 * q, "second": lambda p, q: q, "pair": lambda p, q: p.sum() * 100 + q.sum()}[case["op"]]
    npfn = fn
    seen = []

    def f(p, q):
        seen.append((tuple(p.shape), tuple(q.shape)))
        return fn(p, q)

    run_ = lambda p, q: utils.merge_pytrees(f, p, q)
    if case["how"] == "containers" and b != case["b"]:
        # Lists in one tree where the other has tuples: the result looks like the primary tree, unless refused.
        try:
            out = run_(x, y)
        except Exception:  # noqa: BLE001
            return
        ctx.label("other containers")
    else:
        out = sut("merge_pytrees", jax.jit(run_) if case["jit"] else run_, x, y)
    got = trees.read(out, a, "merged tree")
    for p, v in got.items():
        w = np.asarray(npfn(va[p], vb[p]), dtype=np.float32)
        check(v.shape == w.shape and np.allclose(v, w, rtol=1e-5, atol=1e-5), lambda: f"merged leaf {p or '/'} is {v.tolist()}, want {w.tolist()}")
    check(len(seen) == len(va) and all(s == ((2,), (2, 3)) for s in seen), lambda: f"merge_pytrees called the function with leaves of shapes {seen}")
    ctx.nontrivial(len(va) > 1)


@st.composite
def shape_cases(draw):
    dims = st.lists(st.one_of(st.sampled_from([1, 1, 2, 3]), st.sampled_from([0, 1, 2])), max_size=4)
    a = draw(dims)
    b = draw(st.one_of(dims, st.just(a), st.lists(st.sampled_from([1, 2]), max_size=2).map(lambda e: e + a)))
    return {"a": a, "b": b}


def run_shapes(case, ctx):
    a, b = case["a"], case["b"]
    x = jnp.asarray(trees.content(1, "x", a), jnp.float32)
    y = jnp.asarray(trees.content(2, "y", b), jnp.float32)
    try:
        np.broadcast_shapes(tuple(a), tuple(b))
        want = True
    except ValueError:
        want = False
    for p, q, s, t in ((x, y, a, b), (y, x, b, a)):
        got = sut("can_right_broadcast", utils.can_right_broadcast, p, q)
        check(bool(got) == want, lambda: f"can_right_broadcast says {got} for shapes {s} and {t}; numpy says {want}")
    if len(a) <= len(b):
        out = sut("setup_left_broadcast", utils.setup_left_broadcast, x, y)
        full = tuple(a) + (1,) * (len(b) - len(a))
        check_bits("setup_left_broadcast contents", np.asarray(out).reshape(-1), np.asarray(x).reshape(-1))
        if a:
            check(tuple(out.shape) == full, lambda: f"setup_left_broadcast gave shape {tuple(out.shape)} for {a} against {b}, want {full}")
        try:
            both = np.broadcast_shapes(full, tuple(b))
        except ValueError:
            both = None
        if both is not None:
            z = np.asarray(out * y)
            check(z.shape == tuple(both), lambda: f"left broadcast of {a} against {b} gives {z.shape}, want {both}")
            check_bits("left broadcast product", z, (np.asarray(x).reshape(full) * np.asarray(y)).astype(np.float32))
    ctx.nontrivial(a != b)
    ctx.label("broadcastable", want)


SUBCHECKS = [
    SubCheck("structure", structure_cases, run_structure, 200),
    SubCheck("equality", equality_cases, run_equality, 150),
    SubCheck("scalar-leaves", scalar_cases, run_scalar, 100),
    SubCheck("merge", merge_cases, run_merge, 60),
    SubCheck("shapes", shape_cases, run_shapes, 120),
]
