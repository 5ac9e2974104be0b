"""C13: a masked view shows exactly the selected elements and zeros elsewhere."""
import numpy as np
from hypothesis import strategies as st

from .. import api, gen, trees
from ..core import SubCheck, check, check_bits, f64, must_raise, sut

jax, jnp = api.jax, api.jnp

RULE = """A case drives a controller to a generated point (some elements halted, some updates pending, contents that may hold NaN and
infinities), and applies generated boolean masks, halted-only and unhalted-only views and compositions of them to its viewer. Every tensor the viewer shows
must equal the original at the selected batch elements and be zero elsewhere; masks of a wrong dtype or shape are refused.
Non-trivial: the mask or the halted set selects some but not all elements. (x64) The same with 64 bit types enabled and, most of the time, everything of float64. One controller in sixteen has no accumulators."""


@st.composite
def cases(draw, dtypes=("float32", "float32", "float32", "float16", "bfloat16")):
    cfg = draw(gen.configs(dtypes=dtypes, bare=True, empties=True))
    n = gen.nbatch(cfg["batch"])
    masks = st.lists(st.booleans(), min_size=n, max_size=n)
    return {
        "cfg": cfg,
        "ops": draw(gen.histories(cfg["batch"], "float" if cfg["dtype"] == "float64" else "dyadic", extra=("reset",), min_size=0, max_size=4, extra_weight=6)),
        "pending": draw(st.integers(0, len(cfg["accs"]))),
        "poison": draw(st.sampled_from([None, None, "nan", "inf", "-inf"])),
        "mask": draw(masks), "mask2": draw(masks),
        "edits": draw(st.lists(st.tuples(st.sampled_from(["probabilities", "residuals", "iterations"]), gen.seeds), max_size=3)) if draw(st.booleans()) else [],
        "badshape": draw(st.integers(0, 7)),
        "baddtype": draw(st.sampled_from(["int32", "float32", "uint8"])),
        "numpy": draw(st.booleans()),
    }


def masked(s, m, what, got, check_halted=False):
    """got must show the snapshot s where m, zero elsewhere."""
    for label, a, b in (("probabilities", got.p, s.p), ("residuals", got.r, s.r), ("iterations", got.it, s.it)):
        check_bits(f"{what}: {label}", a, np.where(m, b, np.zeros_like(b)))
    for label, x, y in (("accumulators", got.acc, s.acc), ("defaults", got.defaults, s.defaults), ("updates", got.updates, s.updates)):
        check(set(x) == set(y), f"{what}: {label} names")
        for n in y:
            if y[n] is None:
                check(x[n] is None, f"{what}: {label}[{n!r}] appeared")
                continue
            check(x[n] is not None, f"{what}: {label}[{n!r}] disappeared")
            for k, v in y[n].items():
                sel = np.broadcast_to(trees.left(m, v.ndim), v.shape)
                check_bits(f"{what}: {label}[{n!r}]{k}", x[n][k], np.where(sel, v, np.zeros_like(v)))
    check(abs(got.threshold - s.threshold) < 1e-6, f"{what}: the halt threshold changed")


def run(case, ctx):
    cfg = case["cfg"]
    batch = cfg["batch"]
    c = api.make_controller(cfg)
    for op in case["ops"]:
        if op["op"] == "step":
            c = api.step(c, cfg, op["hp"], api.update_values(cfg, op["u"]), op["order"])
        else:
            c = sut("reset_batches", c.reset_batches)
    values = api.update_values(cfg, 17)
    if case["poison"] and cfg["accs"]:
        bad = float(case["poison"])
        a0 = cfg["accs"][-1]
        for k, v in values[a0["name"]].items():
            v.reshape(-1)[::2] = bad
        tree = api.value_tree(cfg, a0, values[a0["name"]])
        ed = sut("edit_controller", api.TensorEditor.edit_controller, c)
        c = sut("build", sut("set_defaults", sut("set_accumulator", ed.set_accumulator, a0["name"], tree).set_defaults, a0["name"], tree).build)
    for field, seed in case.get("edits", ()):
        pool = np.random.default_rng(seed).choice([0.0, 0.0, 0.25, 0.5, 1.0, 1.0], size=batch)
        pool = pool * 4 if field == "iterations" else pool
        ed = sut("edit_controller", api.TensorEditor.edit_controller, c)
        c = sut("build", sut(f"set_{field}", getattr(ed, f"set_{field}"), api.arr(pool, cfg["dtype"], batch)).build)
    for acc in cfg["accs"][len(cfg["accs"]) - case["pending"]:]:
        c = sut("cache_update", c.cache_update, acc["name"], api.update_tree(cfg, acc, values[acc["name"]]))
    s = api.snap(c, cfg)
    v = sut("make_viewer", c.make_viewer)
    api.snap(v, cfg).same(s, "a new viewer")
    as_mask = lambda m: (np.asarray(m) if case["numpy"] else jnp.asarray(m))  # noqa: E731
    m1 = np.array(case["mask"], dtype=bool).reshape(batch)
    m2 = np.array(case["mask2"], dtype=bool).reshape(batch)
    v1 = sut("mask_data", v.mask_data, as_mask(m1))
    check(isinstance(v1, api.ACTViewer), f"mask_data gave {type(v1).__name__}")
    masked(s, m1, "mask", api.snap(v1, cfg))
    masked(s, m1 & m2, "two masks", api.snap(sut("mask_data", v1.mask_data, as_mask(m2)), cfg))
    masked(s, s.halted, "halted_only", api.snap(sut("halted_only", v.halted_only), cfg))
    masked(s, ~s.halted, "unhalted_only", api.snap(sut("unhalted_only", v.unhalted_only), cfg))
    masked(s, s.halted & m1, "halted_only of a masked view", api.snap(sut("halted_only", v1.halted_only), cfg))
    masked(s, s.halted & m1, "mask of halted_only", api.snap(sut("mask_data", sut("halted_only", v.halted_only).mask_data, as_mask(m1)), cfg))
    masked(s, np.ones_like(m1), "mask of everything", api.snap(sut("mask_data", v.mask_data, as_mask(np.ones_like(m1))), cfg))
    # Wrong masks are refused.
    variants = [batch + [1], [1] + batch, [n + 1 for n in batch], [gen.nbatch(batch)], [1] * len(batch), [], batch[::-1], batch[1:]]
    variants = [x for x in variants if x != batch]
    shape = variants[case["badshape"] % len(variants)]
    must_raise(f"a mask of shape {shape} for batch {batch}", ValueError, v.mask_data, jnp.ones(shape, bool))
    must_raise(f"a mask of dtype {case['baddtype']}", (ValueError, TypeError), v.mask_data, jnp.ones(batch, getattr(jnp, case["baddtype"])))
    traced = lambda m: jax.eval_shape(lambda v, m: v.mask_data(m), v, m)  # noqa: E731
    must_raise(f"a traced mask of shape {shape} for batch {batch}", ValueError, traced, jnp.ones(shape, bool))
    must_raise(f"a traced mask of dtype {case['baddtype']}", (ValueError, TypeError), traced, jnp.ones(batch, getattr(jnp, case["baddtype"])))
    api.snap(v, cfg).same(s, "the viewer afterwards")
    api.snap(c, cfg).same(s, "the controller afterwards")
    ctx.nontrivial(bool((m1.any() and not m1.all()) or (s.halted.any() and not s.halted.all())))
    ctx.label("some halted", bool(s.halted.any() and not s.halted.all()))
    ctx.label("pending updates", bool(case["pending"]))
    ctx.label("edited", bool(case.get("edits")))
    ctx.label("NaN or infinity", bool(case["poison"]))


SUBCHECKS = [SubCheck("masks", cases, run, 110),
             SubCheck("masks-x64", lambda: cases(("float64", "float64", "float32")), api.wide(run), 40)]
