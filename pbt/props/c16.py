"""C16: editor validation refuses exactly the invalid values, in every error mode and under jit."""
import numpy as np
from hypothesis import strategies as st

from .. import api, gen, trees
from ..core import SubCheck, check, check_close, fail, must_raise, sut

jax, jnp = api.jax, api.jnp

RULE = """A case is a controller and one proposed edit whose shape, dtype, contents and container layout are
generated without regard to validity (one bad element among good ones, values exactly on the bounds, a leaf replaced by None, renamed keys, another container
type, missing or additional leaves, broadcastable shapes); an independent rule says whether it is valid. Standard mode must refuse it exactly when
it is not, silence mode must take it as it is, and under jit with checkify it must raise exactly when it is not. Non-trivial: the edit is
invalid, or it is valid and lies on a bound or replaces a nested accumulator. (x64) The same with 64 bit types enabled and float64 controllers."""
ASSUMPTIONS = ["a refusal in standard mode may be any exception: the documentation names several"]


@st.composite
def cases(draw, jit=False, wide=False):
    if jit:
        k = draw(st.integers(0, 2))
        cfg = {"batch": [[2], [2, 2], [3]][k], "dtype": "float32", "eps": 0.1, "dc": 1.0,
               "accs": [{"name": "a", "spec": ["L", [2]], "dtype": "float32", "init": "fill", "fill": 0.5},
                        {"name": "n", "spec": ["d", [["y", ["L", []]], ["x", ["t", [["L", [3]], ["L", []]]]]]], "dtype": "float32", "init": "direct", "seed": 1}]}
    else:
        cfg = draw(gen.configs(max_accs=2, dtypes=["float32", "float32", "float32", "float16", "bfloat16"] if not wide else ["float64", "float64", "float32"]))
    n = gen.nbatch(cfg["batch"])
    kind = draw(st.sampled_from(["probabilities", "residuals", "iterations", "epsilon", "accumulator", "accumulator", "defaults", "updates", "unknown"]))
    case = {"cfg": cfg, "wide": wide, "kind": kind, "i": draw(st.integers(0, 3)), "u": draw(gen.seeds), "ops": draw(gen.histories(cfg["batch"], "dyadic", extra=(), min_size=0, max_size=2))}
    if kind == "unknown":
        case["which"] = draw(st.sampled_from(["accumulator", "defaults", "updates"]))
    if kind in ("probabilities", "residuals", "iterations"):
        pool = [0.0, 1.0, 0.5, 0.25] if kind != "iterations" else [0.0, 1.0, 2.0, 100.0]
        if draw(st.integers(0, 4)) == 4:
            pool = pool[draw(st.integers(0, 1)):][:1]
        v = draw(st.lists(st.sampled_from(pool), min_size=n, max_size=n))
        plain = False
        if draw(st.booleans()) and n:
            j = draw(st.integers(0, n - 1))
            near = [1.0 + 2 ** -40, -(2 ** -40), -1e-200, 1.0 + 2 ** -52]
            plain = wide and draw(st.booleans())
            v[j] = draw(st.sampled_from(near)) if plain else draw(st.sampled_from([-0.25, 1.25, -1.0, 1.0 + 2 ** -9, -(2 ** -9), 3.0, float("nan"), 1.0 + 2 ** -23, 1.0 + 2 ** -21,
                                         -(2 ** -24), -1e-30, -0.5, float("inf"), -float("inf")]))
        case["v"] = v
        case["shape"] = None if plain else draw(st.sampled_from([None] * 4 + ["tail", "head", "flat", "grow", "swap", "scalar"]))
        case["dtype"] = None if plain else draw(st.sampled_from([None] * 5 + ["float16", "float32", "int32", "bfloat16"] + ["float64", "int64"] * wide))
    elif kind == "epsilon":
        case["v"] = draw(st.one_of(st.sampled_from([0.0, 1.0, -0.001, 1.001, 0.5, -1.0, 2.0, 1e-6, 1.0 + 2 ** -23, -1e-30, float("inf"), float("nan")]),
                                    st.sampled_from([1.0 + 2 ** -k for k in (9, 12, 15, 20, 22)] + [-(2.0 ** -k) for k in (9, 15, 26, 60)]), st.floats(-0.5, 1.5, width=32, allow_subnormal=False)))
    else:
        case["tree"] = draw(st.sampled_from(["ok"] * 3 + ["shape", "shape", "dtype", "none_leaf", "none_tree", "extra", "missing", "rename", "container", "container", "wrap"]))
        case["leaf"] = draw(st.integers(0, 5))
        case["variant"] = draw(st.integers(0, 5))
        case["poison"] = draw(st.sampled_from([None, None, None, "nan", "inf", "-inf"]))
    return case


def other_shape(shape, which):
    shape = list(shape)
    return {"tail": shape + [1], "head": [1] + shape, "flat": [-1], "grow": [n + 1 for n in shape] or [2], "swap": shape[::-1], "scalar": [1] * len(shape) if shape else [1]}[which]


def proposal(case, cfg, dtype):
    """Returns (value, valid, interesting)."""
    kind = case["kind"]
    if kind in ("probabilities", "residuals", "iterations"):
        batch = tuple(cfg["batch"])
        v = np.array(case["v"], dtype=np.float64).reshape(batch)
        if case["shape"]:
            want = other_shape(batch, case["shape"])
            v = v.reshape(want) if want != [-1] and int(np.prod(want)) == v.size else v.reshape(-1) if want == [-1] else np.full(want, v.reshape(-1)[0] if v.size else 0.5)
        dt = case["dtype"] or dtype
        value = jnp.asarray(v if "64" in dt else v.astype(np.float32)).astype(getattr(jnp, dt))
        seen = np.asarray(value).astype(np.float64)
        content = bool(np.all(seen >= 0)) and (kind == "iterations" or bool(np.all(seen <= 1)))
        valid = v.shape == batch and dt == dtype and content
        return value, valid, bool(np.any(seen == 0) or np.any(seen == 1))
    if kind == "epsilon":
        return case["v"], 0.0 <= case["v"] <= 1.0, case["v"] in (0.0, 1.0)
    acc = cfg["accs"][case["i"] % len(cfg["accs"])]
    spec = acc["spec"]
    values = {p: trees.content(case["u"], f"prop{p}", api.leaf_shape(cfg, t)) for p, t in trees.leaves(spec)}
    paths = list(values)
    if case.get("poison"):  # any content is a valid one for these
        values = {p: np.where(np.arange(v.size).reshape(v.shape) % 2, v, float(case["poison"])) for p, v in values.items()}
    target = paths[case["leaf"] % len(paths)]
    how = case["tree"]
    nested = spec[0] != "L"
    tree = api.value_tree(cfg, acc, values)
    if how == "ok":
        return tree, True, nested
    if how == "none_tree":
        return None, kind == "updates", True
    if how in ("shape", "dtype", "none_leaf"):
        def leaf(p, t):
            if p != target:
                return api.arr(values[p], acc["dtype"])
            if how == "none_leaf":
                return None
            if how == "dtype":
                choices = [d for d in ("float16", "bfloat16", "float32") + ("float64",) * case.get("wide", False) if d != acc["dtype"]]
                return api.arr(values[p], choices[case["variant"] % len(choices)])
            shape = list(values[p].shape)
            variants = [shape + [1], [1] + shape, [n + 1 for n in shape] or [2], shape[:-1], shape[::-1], [1] * len(shape)]
            variants = [x for x in variants if x != shape]
            return api.arr(trees.content(1, "w", variants[case["variant"] % len(variants)]), acc["dtype"])
        tree = trees.build(spec, leaf)
        if how == "none_leaf" and not nested:
            return None, kind == "updates", True
        return tree, False, True
    if how == "wrap":
        return [tree], False, True
    if not nested:
        return {"k": tree}, False, True
    # Another structure made of the same leaves.
    keyed = spec[0] in trees.KEYED
    kids = trees.items(spec)
    at = case["leaf"] % len(kids)
    if how == "missing" and len(kids) < 2:
        return [[tree]], False, True
    if how == "rename" and keyed:
        new = [[("renamed" if j == at else k), sub] for j, (k, sub) in enumerate(kids)]
        made = [spec[0], new]
    elif how == "extra":
        made = [spec[0], spec[1] + [["another", kids[0][1]] if keyed else kids[0][1]]]
    elif how == "missing":
        made = [spec[0], spec[1][:-1]]
    else:
        others = [k for k in (trees.KEYED + "l" if keyed else trees.PLAIN) if k != spec[0]]
        kind_ = others[case["variant"] % len(others)]
        made = [kind_, [s for _, s in kids]] if kind_ in trees.PLAIN else trees.remake(spec, [s for _, s in kids], kind_)
    return trees.build(made, lambda p, t: api.arr(trees.content(1, "w", api.leaf_shape(cfg, t)), acc["dtype"])), False, True


def name_of(case, cfg):
    if case["kind"] == "unknown":
        return "no such accumulator"
    return cfg["accs"][case["i"] % len(cfg["accs"])]["name"]


def setter(ed, case, cfg, value):
    kind = case["kind"] if case["kind"] != "unknown" else case["which"]
    if kind in ("probabilities", "residuals", "iterations"):
        return getattr(ed, "set_" + kind)(value)
    if kind == "epsilon":
        return ed.set_epsilon(value)
    f = {"accumulator": ed.set_accumulator, "defaults": ed.set_defaults, "updates": ed.set_updates}[kind]
    return f(name_of(case, cfg), value)


def prepare(case):
    cfg = case["cfg"]
    c = api.make_controller(cfg)
    for op in case["ops"]:
        c = api.step(c, cfg, op["hp"], api.update_values(cfg, op["u"]), op["order"])
    value, valid, interesting = proposal(case, cfg, cfg["dtype"])
    if case["kind"] == "unknown":
        valid = False
    return cfg, c, value, valid, interesting


def took_effect(built, case, cfg, value, what):
    """The proposed value is in place."""
    kind = case["kind"]
    if kind in ("probabilities", "residuals", "iterations"):
        got = getattr(built, kind)
    elif kind == "epsilon":
        check_close(f"{what}: the threshold", built.halt_threshold, 1 - value, 1e-6)
        return
    elif kind == "accumulator":
        got = built.accumulators[name_of(case, cfg)]
    else:
        v = built.make_viewer()
        got = (v.defaults if kind == "defaults" else v.updates)[name_of(case, cfg)]
    a, b = jax.tree_util.tree_flatten(got), jax.tree_util.tree_flatten(value)
    check(a[1] == b[1], f"{what}: the value in place has another structure")
    for x, y in zip(a[0], b[0]):
        check(x.dtype == y.dtype, f"{what}: the value in place has another dtype")
        check_close(what, x, y, 0)


def run(case, ctx):
    cfg, c, value, valid, interesting = prepare(case)
    before = api.snap(c, cfg)
    what = f"setting {case['kind']} to a {'valid' if valid else 'invalid'} value"
    ed = sut("edit_controller", api.TensorEditor.edit_controller, c)
    if valid:
        out = sut(f"{what} in standard mode", setter, ed, case, cfg, value)
        took_effect(sut("build", out.build), case, cfg, value, what)
        # The mode is handed on: a later invalid edit is still refused.
        must_raise("an invalid edit after a valid one", Exception, out.set_epsilon, 1.5)
    else:
        must_raise(f"{what} in standard mode ({case})", Exception, setter, ed, case, cfg, value)
        sed = sut("edit_save", api.TensorEditor.edit_save, c.save())
        must_raise(f"{what} in standard mode, editing a save", Exception, setter, sed, case, cfg, value)
    if case["kind"] != "unknown":
        quiet = sut("edit_controller", api.TensorEditor.edit_controller, c, "silence")
        out = sut(f"{what} in silence mode", setter, quiet, case, cfg, value)
        took_effect(sut("build", out.build), case, cfg, value, what)
        out = sut("another invalid edit in silence mode", out.set_epsilon, 1.5)
        sut("build", out.build)
    api.snap(c, cfg).same(before, "the controller that was edited")
    ctx.nontrivial(not valid or interesting)
    ctx.label(f"{case['kind']}: {'valid' if valid else 'invalid'}")


_jitted = {}


def jitted(case, cfg):
    kind = case["kind"]
    key = (kind, name_of(case, cfg) if kind in ("accumulator", "defaults", "updates") else None)
    if key not in _jitted:
        _jitted[key] = api.utils.jit_and_checkify(lambda ed, v: setter(ed, case, cfg, v).build())
    return _jitted[key]


def run_jit(case, ctx):
    if case["kind"] == "unknown":
        return
    cfg, c, value, valid, interesting = prepare(case)
    what = f"setting {case['kind']} under jit and checkify"
    ed = sut("edit_controller", api.TensorEditor.edit_controller, c)
    f = jitted(case, cfg)
    if case["kind"] == "epsilon":
        value = float(np.float32(value))
    if valid:
        built = sut(what, f, ed, value)
        took_effect(built, case, cfg, value, what)
    else:
        must_raise(f"{what} ({case})", Exception, f, ed, value)
    if case["kind"] in ("probabilities", "residuals", "iterations", "epsilon"):
        q = sut("edit_controller", api.TensorEditor.edit_controller, c, "silence")
        key = ("plain", case["kind"])
        if key not in _jitted:
            _jitted[key] = jax.jit(lambda e, v: setter(e, case, cfg, v).build())
        sut(f"{what}, silence mode without checkify", _jitted[key], q, value)
    ctx.nontrivial(not valid or interesting)
    ctx.label(f"{case['kind']}: {'valid' if valid else 'invalid'}")


@st.composite
def mode_cases(draw):
    return {"mode": draw(st.one_of(st.sampled_from(["standard", "silence", "Standard", "debug", "checkify", "", "SILENCE", "standard "]), st.text(max_size=8))),
            "via": draw(st.sampled_from(["controller", "save"]))}


def run_mode(case, ctx):
    cfg = {"batch": [2], "dtype": "float32", "eps": 0.1, "dc": 1.0, "accs": []}
    c = api.make_controller(cfg)
    call = (lambda: api.TensorEditor.edit_controller(c, case["mode"])) if case["via"] == "controller" else (lambda: api.TensorEditor.edit_save(c.save(), case["mode"]))
    if case["mode"] in ("standard", "silence"):
        sut("an editor", call)
    else:
        must_raise(f"error mode {case['mode']!r}", ValueError, call)
    ctx.nontrivial(case["mode"] not in ("standard", "silence"))


SUBCHECKS = [
    SubCheck("validation-eager", cases, run, 130),
    SubCheck("validation-x64", lambda: cases(False, True), api.wide(run), 50),
    SubCheck("validation-jit", lambda: cases(True), run_jit, 60),
    SubCheck("error-modes", mode_cases, run_mode, 12, 60),
]
