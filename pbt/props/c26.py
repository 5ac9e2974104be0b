"""C26: every tensor keeps its dtype, shape and structure through every operation, eager or compiled."""
import numpy as np
from hypothesis import strategies as st

from .. import api, gen, trees
from ..core import Inconclusive, SubCheck, TOL, check, check_close, f64, sut
from ..model import Model
from .c23 import swap_sequences
from .c25 import x64

jax, jnp = api.jax, api.jnp

RULE = """A case is a configuration whose core, accumulators and updates have independently drawn floating dtypes, and a history of steps, resets,
views (masked, mapped), saves and loads, flattening round-trips and cache-only operations, eager or compiled. After every operation dtype, shape and
structure of probabilities, residuals, iterations, accumulators and defaults must be what they were at creation, the values must follow
the reference model within the coarsest dtype involved, also when updates come in other kinds of sequence (unless that is refused), and the controller must be usable as the carry of a scan. Non-trivial: two different dtypes are involved and some element
accumulated twice."""
ASSUMPTIONS = ["halting probabilities have the core dtype", "float64 is run under jax.experimental.enable_x64"]

DT = ["float32", "float16", "bfloat16", "float64"]


@st.composite
def cases(draw):
    wide = draw(st.sampled_from([False, False, True]))
    names = DT if wide else DT[:3]
    cfg = draw(gen.configs(dtypes=names, acc_dtypes=names, max_accs=3, depth=1, batch=st.sampled_from([[2], [3], [], [2, 2]])))
    if cfg["dtype"] in ("float16", "bfloat16"):
        cfg["eps"] = draw(st.sampled_from([0.25, 0.5, 0.0625, 0.125]))
    mode = "dyadic"
    if cfg["dtype"] in ("float32", "float64") and draw(st.booleans()):
        # Small remainders.
        mode = "near"
        cfg.update(dc=1.0, eps=draw(st.sampled_from([1e-4, 1e-3, 1e-6])))
    return {"cfg": cfg, "ops": draw(gen.histories(cfg["batch"], mode, extra=("reset", "save", "tree", "edit", "jit-reset"), min_size=2, max_size=6)),
            "up": {a["name"]: draw(st.sampled_from(names)) for a in cfg["accs"]},
            "compiled": draw(st.lists(st.sampled_from([False, False, False, True]), min_size=6, max_size=6)),
            "large": draw(st.integers(0, 3)) == 0,
            "counts": draw(st.sampled_from([None, None, *names])),
            "swap": draw(st.sampled_from([False, False, True])), "scan": draw(st.sampled_from([False, False, False, True]))}


def layout(tree):
    return [(str(x.dtype), tuple(x.shape)) for x in jax.tree_util.tree_leaves(tree)]


def structure(obj, cfg):
    out = {"probabilities": obj.probabilities, "residuals": obj.residuals, "iterations": obj.iterations}
    view = obj if isinstance(obj, api.ACTViewer) else obj.make_viewer()
    for a in cfg["accs"]:
        n = a["name"]
        # trees.read fails on any difference in structure
        for k, v in trees.read(obj.accumulators[n], a["spec"], f"accumulators[{n!r}]").items():
            out[f"accumulator {n!r}{k}"] = v
        for k, v in trees.read(view.defaults[n], a["spec"], f"defaults[{n!r}]").items():
            out[f"default {n!r}{k}"] = v
    return {k: (str(v.dtype), tuple(v.shape)) for k, v in out.items()}


def expected(cfg):
    out = {k: (cfg["dtype"], tuple(cfg["batch"])) for k in ("probabilities", "residuals", "iterations")}
    for a in cfg["accs"]:
        for p, t in trees.leaves(a["spec"]):
            for kind in ("accumulator", "default"):
                out[f"{kind} {a['name']!r}{p}"] = (a["dtype"], api.leaf_shape(cfg, t))
    return out


def run(case, ctx):
    used = {case["cfg"]["dtype"], case.get("counts") or case["cfg"]["dtype"]} | {a["dtype"] for a in case["cfg"]["accs"]} | set(case["up"].values())
    with x64(used):
        _run(case, ctx, used)


def same(what, got, want):
    for k in want:
        check(got.get(k) == want[k], lambda: f"{what}: {k} is {got.get(k)}, was {want[k]}")


def _run(case, ctx, used):
    cfg = case["cfg"]
    want = expected(cfg)
    c = api.make_controller(cfg)
    same("fresh controller", structure(c, cfg), want)
    if case.get("counts"):
        # The iterations may be of another dtype than the probabilities; they are where layers were restored from elsewhere.
        counts = jnp.zeros(cfg["batch"], api.DTYPES[case["counts"]])
        c = sut("an edit", lambda: api.TensorEditor.edit_controller(c, "silence").set_iterations(counts).build())
        want["iterations"] = (case["counts"], tuple(cfg["batch"]))
        same("a controller with other iterations", structure(c, cfg), want)
    m = Model(cfg["batch"], cfg["eps"], cfg["dc"], api.all_defaults(cfg))
    both = 0
    peak = {}

    def step(c, hp, ups):
        for n in ups:
            c = c.cache_update(n, ups[n])
        return c.iterate_act(hp)

    steps = []
    for i, op in enumerate(case["ops"]):
        what = f"operation {i} ({op['op']})"
        kind = op["op"]
        if kind == "reset" or kind == "jit-reset":
            f = lambda c: c.reset_batches()
            c = sut(what, jax.jit(f) if kind == "jit-reset" else f, c)
            m.reset()
        elif kind == "save":
            c = sut(what, lambda: api.ACT_Controller.load(c.save()))
        elif kind == "tree":
            leaves, treedef = jax.tree_util.tree_flatten(c)
            c = sut(what, jax.tree_util.tree_unflatten, treedef, leaves)
        elif kind == "edit":
            def edit():
                ed = api.TensorEditor.edit_controller(c)
                ed = ed.set_probabilities(c.probabilities).set_residuals(c.residuals).set_iterations(c.iterations)
                for a in cfg["accs"]:
                    ed = ed.set_accumulator(a["name"], c.accumulators[a["name"]])
                return ed.build()

            c = sut(what, edit)
        else:
            values = api.update_values(cfg, op["u"])
            large = set()
            for a in cfg["accs"]:
                if case.get("large") and a["dtype"] == "float16" and case["up"][a["name"]] != "float16":
                    # Beyond what the accumulator can hold, but not so once weighted.
                    values[a["name"]] = {p: v * 2.0 ** 15 for p, v in values[a["name"]].items()}
                    large.add(a["name"])
            ups = {a["name"]: api.value_tree(cfg, a, values[a["name"]], case["up"][a["name"]]) for a in cfg["accs"]}
            hp = api.arr(op["hp"], cfg["dtype"], cfg["batch"])
            cached = c
            for n in ups:
                cached = sut(what, cached.cache_update, n, ups[n])
            same(f"{what}, before committing", structure(cached, cfg), want)
            pend = cached.make_viewer().updates
            for a in cfg["accs"]:
                for k, v in trees.read(pend[a["name"]], a["spec"], "pending update").items():
                    check(str(v.dtype) == case["up"][a["name"]], lambda: f"{what}: the pending update of {a['name']!r} became {v.dtype}")
            if case.get("swap"):
                # Updates held in other kinds of sequence than the accumulator: refused, or without influence on its structure.
                other = c
                for a in cfg["accs"]:
                    other = sut(what, other.cache_update, a["name"], trees.build(
                        swap_sequences(a["spec"]), lambda p, t: api.arr(values[a["name"]][p], case["up"][a["name"]])))
                try:
                    other = other.iterate_act(hp)
                except Exception:  # noqa: BLE001
                    pass
                else:
                    same(f"{what}, updates in other containers", structure(other, cfg), want)
            steps.append((hp, ups))
            c = sut(what, jax.jit(step) if case["compiled"][i % 6] else step, c, hp, ups)
            m.step(np.asarray(f64(hp)), values)
            both += 1
            if any(np.abs(v).max(initial=0.0) > 6e4 for n in large for v in m.acc[n].values()):
                raise Inconclusive()
            for n in large:
                peak[n] = max(peak.get(n, 0.0), *(np.abs(v).max(initial=0.0) for v in m.acc[n].values()))
            ctx.label("large updates", bool(large))
        same(what, structure(c, cfg), want)
        v = sut("make_viewer", c.make_viewer)
        mask = np.asarray(c.halted_batches)
        for name, view in (("halted_only", v.halted_only), ("unhalted_only", v.unhalted_only), ("mask_data", lambda: v.mask_data(jnp.asarray(~mask)))):
            same(f"{what}, {name}", structure(sut(name, view), cfg), want)
        same(f"{what}, transform", structure(sut("transform", v.transform, lambda x: x * 2), cfg), want)
        check_close(f"{what}: probabilities", c.probabilities, m.p, TOL[cfg["dtype"]])
        check_close(f"{what}: iterations", c.iterations, m.it, 0)
        check_close(f"{what}: residuals", c.residuals, m.r, TOL[cfg["dtype"]])
        for a in cfg["accs"]:
            tol = max(TOL[a["dtype"]], TOL[cfg["dtype"]], TOL[case["up"][a["name"]]]) * (1 + peak.get(a["name"], 0.0))
            got = trees.read(c.accumulators[a["name"]], a["spec"], "accumulators")
            for k, ref in m.acc[a["name"]].items():
                check_close(f"{what}: accumulator {a['name']!r}{k}", got[k], ref, tol)
    if case["scan"] and steps:
        hp, ups = steps[0]
        out, _ = sut("scan carrying the controller", jax.lax.scan, lambda c, _: (step(c, hp, ups), None), api.make_controller(cfg), None, length=3)
        same("scan", structure(out, cfg), expected(cfg))
        ctx.label("scan")
    ctx.nontrivial(len(used) > 1 and bool((m.it >= 2).any()))
    ctx.label("float64", "float64" in used)


SUBCHECKS = [SubCheck("dtypes", cases, run, 50)]
