"""C14: a transform is applied to every tensor of a view and to nothing else."""
import numpy as np
from hypothesis import strategies as st

from .. import api, gen, trees
from ..core import SubCheck, check, check_close, must_raise, sut

jax, jnp = api.jax, api.jnp

RULE = """A case drives a controller to a generated point (pending updates may have dtypes of their own) and transforms its viewer with a generated composition of tensor functions (affine maps, flattening or
reshaping the batch dimensions, indexing, casting, summing trailing dimensions); every tensor shown must be what numpy gives for the original tensor, tensors that are not
there stay absent, and a function that fails on any one tensor makes the whole transform fail. Non-trivial: a shape-changing
function, or pending updates, or a nested accumulator. (x64) The same with 64 bit types enabled and, most of the time, everything of float64. One controller in sixteen has no accumulators."""

FUNCS = ["affine", "flatten", "square", "first", "cast", "trail_sum", "expand", "where"]


def fn(name, nb, mod):
    if name == "affine":
        return lambda t: t * 2 + 1
    if name == "square":
        return lambda t: t * t - 3
    if name == "flatten":
        return lambda t: t.reshape((int(np.prod(t.shape[:nb])),) + tuple(t.shape[nb:]))
    if name == "first":
        return lambda t: t[:1]
    if name == "cast":
        return lambda t: t.astype("float16")
    if name == "trail_sum":
        return lambda t: t.reshape(tuple(t.shape[:nb]) + (int(np.prod(t.shape[nb:])),)).sum(axis=-1)
    if name == "expand":
        return lambda t: t[None]
    return lambda t: mod.where(t > 0, t, -t)


@st.composite
def cases(draw, dtypes=("float32",)):
    cfg = draw(gen.configs(dtypes=dtypes, bare=True, batch=st.sampled_from([[2], [3], [2, 3], [2, 2], [3, 1], [5]]), empties=True,
                           trail=gen.rarely(gen.trails, [[0], [2, 0], [0, 3]], 10)))
    # At most one function that changes the batch dimensions, and that one last.
    fs = draw(st.lists(st.sampled_from(["affine", "square", "where"]), max_size=2)) + [draw(st.sampled_from(FUNCS))]
    return {
        "cfg": cfg, "fs": fs,
        "ops": draw(gen.histories(cfg["batch"], "dyadic", extra=("reset",), min_size=0, max_size=3, extra_weight=6)),
        "pending": draw(st.integers(0, len(cfg["accs"]))),
        "dtypes": draw(st.lists(st.sampled_from([None, None, "float32", "float16", "int32"]), min_size=3, max_size=3)),
        "fail_at": draw(st.integers(0, 40)),
        "jit": draw(st.integers(0, 7)),
    }


def run(case, ctx):
    cfg = case["cfg"]
    nb = len(cfg["batch"])
    c = api.make_controller(cfg)
    for op in case["ops"]:
        if op["op"] == "step":
            c = api.step(c, cfg, op["hp"], api.update_values(cfg, op["u"]), op["order"])
        else:
            c = sut("reset_batches", c.reset_batches)
    values = api.update_values(cfg, 23)
    # Updates may be of another dtype than their accumulator; where the functions are exact in it.
    exact = not {"square", "trail_sum"} & set(case["fs"])
    for acc, dtype in zip(cfg["accs"][: case["pending"]], case.get("dtypes", []) + [None] * 9):
        # (XLA crashes on the CPU now and then when it compiles float16.)
        dtype = dtype if exact and (case["jit"] or dtype != "float16") else None
        tree = api.update_tree(cfg, acc, values[acc["name"]])
        if dtype:
            tree = jax.tree_util.tree_map(lambda x: x.astype(dtype), tree)
        c = sut("cache_update", c.cache_update, acc["name"], tree)
        ctx.label("an update of another dtype", dtype not in (None, acc["dtype"]))
    s = api.snap(c, cfg)
    v = sut("make_viewer", c.make_viewer)

    def compose(mod):
        fs = [fn(name, nb, mod) for name in case["fs"]]

        def f(t):
            for g in fs:
                t = g(t)
            return t
        return f

    f, w = compose(jnp), compose(np)

    def check_bits(what, got, want):
        check(got.dtype == want.dtype, lambda: f"{what}: dtype {got.dtype}, want {want.dtype}")
        check_close(what, got, want, 1e-5)

    if case["jit"] == 0:
        out = sut("jit of transform", jax.jit(lambda x: x.transform(f)), v)
    else:
        out = sut("transform", v.transform, f)
    check(isinstance(out, api.ACTViewer), f"transform gave {type(out).__name__}")
    t = api.Snap(out, cfg)
    for label, got, orig in (("probabilities", t.p, s.p), ("residuals", t.r, s.r), ("iterations", t.it, s.it)):
        check_bits(f"transform {case['fs']}: {label}", got, w(orig))
    for label, got, orig in (("accumulators", t.acc, s.acc), ("defaults", t.defaults, s.defaults), ("updates", t.updates, s.updates)):
        for n in orig:
            if orig[n] is None:
                check(got[n] is None, f"transform: {label}[{n!r}] appeared")
                continue
            check(got[n] is not None, f"transform: {label}[{n!r}] disappeared")
            for k in orig[n]:
                check_bits(f"transform {case['fs']}: {label}[{n!r}]{k}", got[n][k], w(orig[n][k]))
    check(abs(t.threshold - s.threshold) < 1e-6, "transform: the halt threshold changed")
    check(abs(t.dc - s.dc) < 1e-6, lambda: f"transform: the depression constant changed to {t.dc}")
    api.snap(v, cfg).same(s, "the viewer that was transformed")
    # A function that fails on one tensor fails the transform.
    calls = [0]

    def count(x):
        calls[0] += 1
        return x

    sut("transform", v.transform, count)
    tensors = 3 + sum(len(x) for d in (s.acc, s.defaults) for x in d.values()) + sum(len(x) for x in s.updates.values() if x is not None)
    check(calls[0] >= tensors, lambda: f"the function saw {calls[0]} tensors, the viewer holds {tensors}")
    bad, seen = case["fail_at"] % tensors, [0]

    def explode(x):
        seen[0] += 1
        if seen[0] - 1 == bad:
            raise KeyError("boom")
        return x

    must_raise("a transform whose function fails", RuntimeError, v.transform, explode)
    api.snap(v, cfg).same(s, "the viewer after the failed transform")
    ctx.nontrivial(bool(case["pending"] or case["fs"][-1] in ("flatten", "first", "trail_sum", "expand") or any(a["spec"][0] != "L" for a in cfg["accs"])))
    ctx.label("pending updates", bool(case["pending"]))
    ctx.label("jit", case["jit"] == 0)


SUBCHECKS = [SubCheck("transform", cases, run, 90), SubCheck("transform-x64", lambda: cases(("float64", "float64", "float32")), api.wide(run), 20)]
