"""C10: every object survives flattening, saving and loading, and keeps its tree structure."""
import copy
import pickle

import numpy as np
from hypothesis import strategies as st

from .. import api, gen, trees
from ..core import SubCheck, check, check_bits, must_raise, sut

jax, jnp = api.jax, api.jnp

RULE = """A case drives a controller to an arbitrary point (including partly cached updates), overwrites its
counters with distinct generated values through an editor, and then flattens, maps, saves and loads controller, viewer,
editor, builder and saved state; every field must come back in its own place and further steps
must give the same as without the round trip. Non-trivial: at least two accumulators or a nested one, and a
history of at least one step. (x64) The same with 64 bit types enabled and, most of the time, everything of float64. One controller in sixteen has no accumulators."""


@st.composite
def cases(draw, dtypes=("float32",)):
    cfg = draw(gen.configs(dtypes=dtypes, bare=True, empties=True, mags=True))
    n = gen.nbatch(cfg["batch"])
    return {
        "cfg": cfg,
        "ops": draw(gen.histories(cfg["batch"], "dyadic", extra=("reset",), min_size=0, max_size=3)),
        "pending": draw(st.integers(0, len(cfg["accs"]))),
        "inject": draw(st.one_of(st.none(), gen.seeds)),
        "later": draw(gen.step_ops(cfg["batch"])),
        "error_mode": draw(st.sampled_from(["standard", "silence"])),
        "way": draw(st.lists(st.sampled_from(["flatten", "map", "save", "editor", "path", "stack", "copy", "deepcopy", "pickle", "host", "device"]), min_size=1, max_size=3)),
        "mask": draw(st.lists(st.booleans(), min_size=n, max_size=n)),
    }


# What may be done to a save before it is loaded.
OF_SAVES = {"copy": copy.copy, "deepcopy": copy.deepcopy, "pickle": lambda s: pickle.loads(pickle.dumps(s))}


def trip(obj, way):
    if way == "flatten":
        leaves, treedef = jax.tree_util.tree_flatten(obj)
        return jax.tree_util.tree_unflatten(treedef, leaves)
    if way == "map":
        return jax.tree_util.tree_map(lambda x: x, obj)
    if way == "path":
        pairs, treedef = jax.tree_util.tree_flatten_with_path(obj)
        return jax.tree_util.tree_unflatten(treedef, [leaf for _, leaf in pairs])
    if way == "stack":
        both = jax.tree_util.tree_map(lambda x, y: (x, y), obj, obj)
        return jax.tree_util.tree_transpose(jax.tree_util.tree_structure(obj), jax.tree_util.tree_structure((0, 0)), both)[1]
    if way in OF_SAVES:
        if isinstance(obj, (api.ACT_Controller, api.ACTViewer)):
            return type(obj).load(OF_SAVES[way](obj.save()))
        if isinstance(obj, api.TensorEditor):
            return api.TensorEditor.edit_save(OF_SAVES[way](obj.save()), obj.error_mode)
        return obj
    if way == "host":
        # As a checkpoint on disk has it: numpy arrays all over.
        return jax.device_get(obj)
    if way == "device":
        return jax.device_put(obj)
    if way == "save":
        if isinstance(obj, (api.ACT_Controller, api.ACTViewer)):
            return type(obj).load(obj.save())
        if isinstance(obj, api.TensorEditor):
            return api.TensorEditor.edit_save(obj.save(), obj.error_mode)
        return obj
    if way == "editor":
        if isinstance(obj, api.ACT_Controller):
            return api.TensorEditor.edit_controller(obj).build()
        return obj
    raise ValueError(way)


def run(case, ctx):
    cfg = case["cfg"]
    c = api.make_controller(cfg)
    steps = 0
    for op in case["ops"]:
        if op["op"] == "step":
            c = api.step(c, cfg, op["hp"], api.update_values(cfg, op["u"]), op["order"])
            steps += 1
        else:
            c = sut("reset_batches", c.reset_batches)
    if case["inject"] is not None:
        # Distinct values everywhere, so that fields cannot be swapped unnoticed.
        ed = sut("edit_controller", api.TensorEditor.edit_controller, c, "silence")
        n = gen.nbatch(cfg["batch"])
        base = np.arange(n, dtype=np.float64).reshape(cfg["batch"]) + 1
        ed = sut("set_probabilities", ed.set_probabilities, api.arr(base / 64, cfg["dtype"]))
        ed = sut("set_residuals", ed.set_residuals, api.arr(base / 128, cfg["dtype"]))
        ed = sut("set_iterations", ed.set_iterations, api.arr(base + 10, cfg["dtype"]))
        c = sut("build", ed.build)
    whole = c
    values = api.update_values(cfg, 11)
    for acc in cfg["accs"][: case["pending"]]:
        c = sut("cache_update", c.cache_update, acc["name"], api.value_tree(cfg, acc, values[acc["name"]]))
    s = api.snap(c, cfg)
    mask = jnp.asarray(np.array(case["mask"], dtype=bool).reshape(cfg["batch"]))
    viewer = sut("mask_data", sut("make_viewer", c.make_viewer).mask_data, mask)
    vs = api.snap(viewer, cfg)
    editor = sut("edit_controller", api.TensorEditor.edit_controller, c, case["error_mode"])
    d, v, e = c, viewer, editor
    for way in case["way"]:
        d = sut(f"{way} of a controller", trip, d, way)
        v = sut(f"{way} of a viewer", trip, v, way)
        e = sut(f"{way} of an editor", trip, e, way)
    ways = "+".join(case["way"])
    check(type(d) is type(c) and type(v) is type(viewer) and type(e) is type(editor), f"{ways}: the class changed")
    api.snap(d, cfg).same(s, f"controller after {ways}")
    api.snap(v, cfg).same(vs, f"viewer after {ways}")
    api.snap(sut("build", e.build), cfg).same(s, f"editor after {ways}")
    check(abs(float(np.asarray(e.epsilon)) - cfg["eps"]) < 1e-6, "editor: epsilon changed")
    # The loaded halves go together too.
    api.snap(sut("load into a viewer", lambda: api.ACTViewer.load(c.save())), cfg).same(s, "state of a controller loaded into a viewer")
    api.snap(sut("edit_save", lambda: api.TensorEditor.edit_save(c.save()).build()), cfg).same(s, "edit_save")
    st2 = sut("round trip of a saved state", trip, c.save(), "flatten")
    api.snap(sut("load", api.ACT_Controller.load, st2), cfg).same(s, "a saved state after a round trip")
    # The error mode is part of the editor.
    bad = api.arr(np.full(cfg["batch"], 2.0), cfg["dtype"])
    if case["error_mode"] == "standard" and gen.nbatch(cfg["batch"]):
        must_raise(f"setting impossible probabilities after {ways}", Exception, e.set_probabilities, bad)
    else:
        sut(f"setting impossible probabilities in silence mode after {ways}", e.set_probabilities, bad)
    # Leaf-wise maps reach every tensor in its own place.
    doubled = sut("tree_map over a controller", jax.tree_util.tree_map, lambda x: x * 2, c)
    t = api.Snap(doubled, cfg)
    check_bits("doubled probabilities", t.p, s.p * np.asarray(2, s.p.dtype))
    check_bits("doubled residuals", t.r, s.r * np.asarray(2, s.r.dtype))
    check_bits("doubled iterations", t.it, s.it * np.asarray(2, s.it.dtype))
    for label, a, b in (("accumulators", t.acc, s.acc), ("defaults", t.defaults, s.defaults), ("updates", t.updates, s.updates)):
        for n in b:
            if b[n] is None:
                check(a[n] is None, f"doubled {label}: {n!r} appeared")
                continue
            for k in b[n]:
                check_bits(f"doubled {label}[{n!r}]{k}", a[n][k], b[n][k] * np.asarray(2, b[n][k].dtype))
    check(abs(t.dc - 2 * s.dc) < 1e-6 and abs((1 - t.threshold) - 2 * (1 - s.threshold)) < 1e-6, "doubled epsilon or depression constant")
    # Jax fills objects with whatever stands for a tensor - an axis, a shape, nothing of use - and keeps their class and structure.
    for obj in (c, viewer, editor, api.make_builder(cfg), c.save()):
        label, treedef = type(obj).__name__, jax.tree_util.tree_structure(obj)
        for kind, stand_in in (("objects", lambda x: object()), ("numbers", lambda x: 0), ("shapes", lambda x: jax.ShapeDtypeStruct(x.shape, x.dtype) if hasattr(x, "shape") else x)):
            filled = sut(f"tree_map over a {label}, to {kind}", jax.tree_util.tree_map, stand_in, obj)
            check(type(filled) is type(obj) and jax.tree_util.tree_structure(filled) == treedef, f"a {label} filled with {kind} is another structure")
            back = sut(f"refilling a {label}", jax.tree_util.tree_map, lambda x, y: y, filled, obj)
            for x, y in zip(jax.tree_util.tree_leaves(back), jax.tree_util.tree_leaves(obj)):
                check(x is y, f"a {label} filled with {kind} and then with its tensors again has them elsewhere")
    # Structure is stable over completed steps and resets.
    ts = jax.tree_util.tree_structure
    for obj, label in ((whole, "controller"),):
        after = api.step(obj, cfg, case["later"]["hp"], api.update_values(cfg, case["later"]["u"]))
        check(ts(after) == ts(obj), f"a step changed the tree structure of the {label}")
        check(ts(sut("reset_batches", after.reset_batches)) == ts(obj), f"a reset changed the tree structure of the {label}")
        if case["pending"]:
            check(ts(c) != ts(obj), "pending updates do not show in the tree structure")
    # Life goes on identically.
    def finish(x):
        for acc in cfg["accs"][case["pending"]:]:
            x = sut("cache_update", x.cache_update, acc["name"], api.value_tree(cfg, acc, values[acc["name"]]))
        return api.snap(sut("iterate_act", x.iterate_act, api.arr(case["later"]["hp"], cfg["dtype"], cfg["batch"])), cfg)

    finish(d).same(finish(c), f"a step after {ways}")
    # Builders.
    b = api.make_builder(cfg)
    for way in ("flatten", "map", "path"):
        b2 = sut(f"{way} of a builder", trip, b, way)
        check(type(b2) is type(b), "builder class changed")
        api.snap(sut("build", b2.build), cfg).same(api.snap(b.build(), cfg), f"builder after {way}")
        later = dict((cfg["accs"] or [{"spec": ["L", [2]], "dtype": "float32", "init": "fill", "fill": 1.0}])[0], name="later on")
        api.snap(sut("build", api.define(b2, cfg, later).build), dict(cfg, accs=cfg["accs"] + [later]))
    ctx.nontrivial(bool((len(cfg["accs"]) != 1 or cfg["accs"][0]["spec"][0] != "L") and steps))
    ctx.label("with pending updates", bool(case["pending"]))
    for way in case["way"]:
        ctx.label(way)


SUBCHECKS = [SubCheck("round-trip", cases, run, 70), SubCheck("round-trip-x64", lambda: cases(("float64", "float64", "float32")), api.wide(run), 20)]
