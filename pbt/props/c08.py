"""C08: nothing is ever modified in place; old versions stay valid and can be branched from."""
import copy

import numpy as np
from hypothesis import strategies as st

from .. import api, gen, trees
from ..core import SubCheck, check, check_bits, fail, must_raise, sut

RULE = """A case is a random sequence of operations of builders, controllers, viewers and editors,
each applied to an arbitrary earlier version (so that histories branch). Before every operation the
receiver and the arguments are copied; at the end every version ever made must still show exactly
what it showed when it was made, every argument must be unchanged, and assigning any attribute must be
refused. Replaying one branch alone must give the same as it gave among the others. Non-trivial: some version
was used as receiver at least twice and at least four versions exist. (x64) The same with 64 bit types enabled and, most of the time, everything of float64."""


@st.composite
def cases(draw, dtypes=("float32",)):
    cfg = draw(gen.configs(dtypes=dtypes, max_accs=2, empties=True, mags=True))
    kinds = ["step"] * 5 + ["cache", "cache", "commit", "reset", "viewmask", "viewhalted", "viewtransform", "edit", "editup", "define", "define_shape"]
    ops = [{"op": draw(st.sampled_from(kinds)), "on": draw(st.integers(0, 30)), "hp": draw(gen.hps(cfg["batch"])), "u": draw(gen.seeds)}
           for _ in range(draw(st.integers(2, 10)))]
    return {"cfg": cfg, "ops": ops}


ATTRS = {
    "controller": ["probabilities", "accumulators", "residuals", "iterations", "depression_constant", "halt_threshold", "state", "brand_new", "_hidden"],
    "viewer": ["probabilities", "accumulators", "defaults", "updates", "state", "brand_new", "_hidden"],
    "editor": ["probabilities", "epsilon", "accumulators", "state", "error_mode", "brand_new", "_hidden"],
    "builder": ["probabilities", "epsilon", "defaults", "state", "brand_new", "_hidden"],
}


def freeze_builder(b, names):
    out = {"p": np.array(b.probabilities), "r": np.array(b.residuals), "it": np.array(b.iterations), "eps": b.epsilon}
    for label, d in (("acc", b.accumulators), ("def", b.defaults)):
        check(set(d) == set(names), lambda: f"builder shows {label} {sorted(d)}, want {sorted(names)}")
        for n in d:
            for j, leaf in enumerate(api.jax.tree_util.tree_leaves(d[n])):
                out[f"{label}/{n}/{j}"] = np.array(leaf)
    check(set(b.updates) == set(names), "builder updates")
    return out


def same_frozen(a, b, what):
    check(set(a) == set(b), f"{what}: parts appeared or disappeared")
    for k in a:
        if isinstance(a[k], np.ndarray):
            check_bits(f"{what}: {k}", a[k], b[k])
        else:
            check(a[k] == b[k], f"{what}: {k}")


def outline(tree, spec, what):
    """The leaf objects of a tree and the order of the keys of its dicts."""
    orders = []

    def visit(node, sub, path):
        if sub[0] not in "Ln":
            if sub[0] in "dDI":
                orders.append((path, list(node)))
            got = trees.children(node, sub, what, path)
            for key, child in trees.items(sub):
                visit(got[key], child, f"{path}/{key}")

    visit(tree, spec, "")
    return trees.objects(tree, spec, what), orders


def apply(c, op, cfg, track):
    """Apply one operation to a controller; returns the new controller and a list of other objects."""
    kind, values = op["op"], api.update_values(cfg, op["u"])

    def tree(n):
        acc = next(a for a in cfg["accs"] if a["name"] == n)
        t = api.value_tree(cfg, acc, values[n])
        track(f"the update tree of {n!r}", t, acc["spec"])
        return t

    names = [a["name"] for a in cfg["accs"]]
    ups = sut("updates", lambda: c.make_viewer().updates)
    missing = [n for n in names if ups[n] is None]
    hp = api.arr(op["hp"], cfg["dtype"], cfg["batch"])
    if kind in ("step", "commit"):
        for n in missing:
            c = sut("cache_update", c.cache_update, n, tree(n))
        return sut("iterate_act", c.iterate_act, hp), []
    if kind == "cache":
        if not missing:
            return c, []
        n = missing[op["u"] % len(missing)]
        return sut("cache_update", c.cache_update, n, tree(n)), []
    if kind == "reset":
        return (sut("reset_batches", c.reset_batches) if len(missing) == len(names) else c), []
    if kind == "viewmask":
        mask = api.jnp.asarray(np.asarray(op["hp"]).reshape(cfg["batch"]) > 0.2)
        v = sut("make_viewer", c.make_viewer)
        return c, [v, sut("mask_data", v.mask_data, mask), v]
    if kind == "viewhalted":
        v = sut("make_viewer", c.make_viewer)
        return c, [v, sut("halted_only", v.halted_only), sut("unhalted_only", v.unhalted_only)]
    if kind == "viewtransform":
        v = sut("make_viewer", c.make_viewer)
        return c, [v, sut("transform", v.transform, lambda t: t * 2 + 1)]
    ed = sut("edit_controller", api.TensorEditor.edit_controller, c)
    n = names[op["u"] % len(names)]
    if kind == "edit":
        e2 = sut("set_accumulator", ed.set_accumulator, n, tree(n))
        e3 = sut("set_defaults", e2.set_defaults, n, tree(n))
        return sut("build", e3.build), [("editor", ed), ("editor", e2), ("editor", e3)]
    if kind == "editup":
        e2 = sut("set_updates", ed.set_updates, n, None if ups[n] is not None and op["u"] % 2 else tree(n))
        return sut("build", e2.build), [("editor", ed), ("editor", e2)]
    return c, []


def run(case, ctx):
    cfg = case["cfg"]
    names = [a["name"] for a in cfg["accs"]]
    arguments = []

    def track(what, tree, spec):
        leaves, orders = outline(tree, spec, what)
        arguments.append((what, tree, spec, leaves, orders, {p: np.array(x) for p, x in leaves.items()}))

    # Builders: keep every intermediate one.
    builder = api.new_builder(cfg)
    builders = [(builder, freeze_builder(builder, []), [])]
    for j, acc in enumerate(cfg["accs"]):
        if acc["init"] == "direct":
            t = api.value_tree(cfg, acc, api.default_values(cfg, acc))
            track(f"the definition of {acc['name']!r}", t, acc["spec"])
            builder = sut("define", builder.define_accumulator_directly, acc["name"], t)
        else:
            shapes = trees.build(acc["spec"], lambda p, tr: list(api.leaf_shape(cfg, tr)))
            keep = [copy.deepcopy(x) for x in outline(shapes, acc["spec"], "shapes")]
            builder = sut("define", builder.define_accumulator_by_shape, acc["name"], shapes, dtype=api.DTYPES[acc["dtype"]], fill=acc["fill"])
            check(list(outline(shapes, acc["spec"], "the shapes given to define_accumulator_by_shape")) == keep, "define_accumulator_by_shape changed the shapes it was given")
        builders.append((builder, freeze_builder(builder, names[: j + 1]), names[: j + 1]))
    root = sut("build", builder.build)
    versions = [(root, api.snap(root, cfg), None, None)]
    others = []
    used = {}
    for i, op in enumerate(case["ops"]):
        on = op["on"] % len(versions)
        used[on] = used.get(on, 0) + 1
        c = versions[on][0]
        if op["op"] in ("define", "define_shape"):
            # Building on goes on from the shared builder: the controller must not notice.
            extra = "extra" if op["u"] % 2 else names[0]
            spec_shape = list(cfg["batch"]) + [op["u"] % 2 + 1]
            import warnings
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                if op["op"] == "define":
                    b2 = sut("define", builder.define_accumulator_directly, extra, api.arr(np.ones(spec_shape)))
                else:
                    b2 = sut("define", builder.define_accumulator_by_shape, extra, spec_shape)
            check(set(b2.accumulators) == set(names) | {extra}, "define lost accumulators")
            continue
        new, extras = apply(c, op, cfg, track)
        api.snap(c, cfg).same(versions[on][1], f"op {i} ({op['op']}): its receiver")
        if new is not c:
            versions.append((new, api.snap(new, cfg), on, op))
        for e in extras:
            if isinstance(e, tuple):
                others.append(("editor", e[1], api.snap(e[1].build(), cfg)))
            else:
                others.append(("viewer", e, api.snap(e, cfg)))
    for j, (c, s, parent, op) in enumerate(versions):
        api.snap(c, cfg).same(s, f"version {j}, looked at again at the end")
        if parent is not None:
            redo, _ = apply(versions[parent][0], op, cfg, lambda *_: None)
            api.snap(redo, cfg).same(s, f"version {j}, computed again from its parent")
    for kind, obj, s in others:
        api.snap(obj if kind == "viewer" else obj.build(), cfg).same(s, f"a {kind}, looked at again at the end")
    for b, frozen, known in builders:
        same_frozen(freeze_builder(b, known), frozen, "a builder, looked at again at the end")
    for what, tree, spec, leaves, orders, values in arguments:
        now, now_orders = outline(tree, spec, what)
        check(now_orders == orders and all(now[p] is leaves[p] for p in leaves), f"{what} was restructured by an operation")
        for p, v in values.items():
            check_bits(f"{what}, leaf {p}", now[p], v)
    # Attribute assignment is refused on every class.
    targets = [("controller", versions[-1][0]), ("builder", builder), ("controller", root),
               ("viewer", sut("make_viewer", root.make_viewer)), ("editor", sut("edit_controller", api.TensorEditor.edit_controller, root))]
    targets += [(k, o) for k, o, _ in others[-2:]]
    for kind, obj in targets:
        for attr in ATTRS[kind]:
            must_raise(f"assigning {attr} on a {kind}", AttributeError, setattr, obj, attr, 1.0)
            if hasattr(obj, attr):
                must_raise(f"assigning {attr} on a {kind} what it is already", AttributeError, setattr, obj, attr, getattr(obj, attr))
    api.snap(root, cfg).same(versions[0][1], "the root after the refused assignments")
    ctx.nontrivial(len(versions) >= 4 and max(used.values()) >= 2)
    ctx.label("editors or viewers alive", bool(others))


SUBCHECKS = [SubCheck("persistence", cases, run, 90), SubCheck("persistence-x64", lambda: cases(("float64", "float64", "float32")), api.wide(run), 20)]
