"""C11: a built controller starts out exactly as it was described."""
import math
import warnings

import numpy as np
from hypothesis import strategies as st

from .. import api, gen, trees
from ..core import SubCheck, TOL, check, check_bits, check_close, sut

RULE = """A case describes a controller (batch shape as int, list or tuple, core dtype, threshold, depression
constant) and a sequence of definitions by shape or by value, with per-leaf nested containers, several dtypes and repeated
names; after every definition the builder and a controller built from it are compared field by field with
the description. Non-trivial: two or more definitions, or a nested one, with a fill or
value that is not zero. (x64) The same with 64 bit types enabled, float64 among the dtypes."""

DT = ["float32", "float32", "float16", "bfloat16"]


@st.composite
def cases(draw, DT=tuple(DT)):
    cfg = draw(gen.configs(dtypes=DT, min_accs=0, empties=True, acc_dtypes=DT,
                           eps=st.one_of(st.sampled_from(gen.EPS + [1e-5, 1e-6]), st.integers(1, 999).map(lambda i: i / 1000)),
                           dc=st.sampled_from(gen.DCS + [0.1, 3.0])))
    again = draw(st.lists(st.integers(0, 5), max_size=2))
    more = draw(gen.accumulators(1, 2, DT))
    return {"cfg": cfg, "again": again, "more": more,
            "batch_as": draw(st.sampled_from(["list", "tuple", "int", "numpy"])), "dtype_as": draw(st.integers(0, 3)),
            "dtype_default": draw(st.booleans()), "args_default": draw(st.booleans()),
            "bare": draw(st.lists(st.integers(0, 3), min_size=3, max_size=3)), "via_layer": draw(st.booleans()),
            "fill_as": draw(st.sampled_from([0, 0, 1, 2, 3, 4])), "odd_fill": draw(st.sampled_from([None, None, None, float("inf"), -float("inf"), float("nan"), 8192.0])),
            "dc_as": draw(st.integers(0, 9))}


class Layer(api.AbstractACTTemplate):
    def make_controller(self, *a, **k):
        raise NotImplementedError

    def run_iteration(self, *a, **k):
        raise NotImplementedError

    def setup_lazy_parameters(self, *a, **k):
        pass


def dtype_as(k, name):
    """A dtype as the jax scalar type, as its name, as a numpy dtype, or as that of an array."""
    kind = api.DTYPES[name]
    return [kind, name, api.jnp.dtype(name), api.jnp.zeros([], kind).dtype][k]


def fill_as(k, value):
    """A fill as a float, a whole number, a numpy scalar or an array."""
    if k == 1 and math.isfinite(value) and float(value).is_integer():
        return int(value)
    return [lambda v: v, lambda v: v, np.float32, np.float64, api.jnp.asarray][k](value)


def run(case, ctx):
    cfg = dict(case["cfg"])
    batch = cfg["batch"]
    shape = batch[0] if case["batch_as"] == "int" and len(batch) == 1 else tuple(batch) if case["batch_as"] == "tuple" else list(batch)
    if case["batch_as"] == "numpy":
        shape = np.int64(batch[0]) if len(batch) == 1 else [np.int32(n) for n in batch]
    core = dtype_as(case.get("dtype_as", 0), cfg["dtype"])
    new = Layer().new_builder if case["via_layer"] else api.ControllerBuilder.new_builder
    default = str(api.jnp.zeros([]).dtype)
    if case["args_default"]:
        cfg.update(dtype=default, eps=1e-4, dc=1.0)
        b = sut("new_builder", new, shape)
    elif case["dtype_default"]:
        cfg.update(dtype=default)
        b = sut("new_builder", new, shape, None, cfg["eps"], api.constant(cfg["dc"], default, case.get("dc_as", 5)))
    else:
        b = sut("new_builder", new, shape, core, cfg["eps"], api.constant(cfg["dc"], cfg["dtype"], case.get("dc_as", 5)))
    want = {}
    accs = list(cfg["accs"])
    # Some names are defined again later, in another form.
    plan = list(accs)
    for i in case["again"]:
        if accs:
            m = case["more"][i % len(case["more"])]
            plan.append(dict(m, name=accs[i % len(accs)]["name"]))
    plan += [m for m in case["more"] if m["name"] not in {a["name"] for a in plan}]
    odd = case.get("odd_fill")
    if odd is not None:
        # Such as minus infinity, for a maximum.
        plan = [dict(a, fill=odd) if a["init"] == "fill" else a for a in plan]
    plan = [dict(a, fill_as=case.get("fill_as", 0)) for a in plan]
    verify(b, cfg, [], want, "new builder")
    defined = {}
    for j, acc in enumerate(plan):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            bare = case["bare"][j % 3] if acc["init"] == "fill" else 3
            if bare < 3:
                # Left to their defaults: the dtype, the fill, or both.
                shapes = trees.build(acc["spec"], lambda p, t: list(api.leaf_shape(cfg, t)))
                kw = {}
                if bare == 0:
                    kw["fill"] = fill_as(case.get("fill_as", 0), acc["fill"])
                elif bare == 1:
                    kw["dtype"] = dtype_as(case.get("dtype_as", 0), acc["dtype"])
                acc = dict(acc, dtype=acc["dtype"] if bare == 1 else "float32", fill=acc["fill"] if bare == 0 else 0.0)
                b = sut("define_accumulator_by_shape", b.define_accumulator_by_shape, acc["name"], shapes, **kw)
                ctx.label("defaults of the definition")
            else:
                b = api.define(b, cfg, acc if acc["init"] != "fill" else dict(acc, fill=fill_as(acc["fill_as"], acc["fill"])))
        defined[acc["name"]] = acc
        want[acc["name"]] = api.default_values(cfg, acc)
        verify(b, cfg, list(defined.values()), want, f"after definition {j} of {acc['name']!r}")
    ctx.nontrivial(bool(len(plan) >= 2 and any(np.any(v != 0) for t in want.values() for v in t.values())))
    ctx.label("fill not finite", odd is not None and not math.isfinite(odd))
    ctx.label("redefinition", len(plan) > len(defined))
    ctx.label("mixed dtypes", len({a["dtype"] for a in plan} | {cfg["dtype"]}) > 1)


def verify(b, cfg, accs, want, what):
    vcfg = dict(cfg, accs=accs)
    batch = tuple(cfg["batch"])
    check(abs(float(b.epsilon) - cfg["eps"]) < 1e-9, lambda: f"{what}: epsilon {b.epsilon}")
    c = sut("build", b.build)
    check(isinstance(c, api.ACT_Controller), f"{what}: build gave {type(c).__name__}")
    v = sut("make_viewer", c.make_viewer)
    e = sut("edit_controller", api.TensorEditor.edit_controller, c)
    for owner, o in (("builder", b), ("controller", c), ("viewer", v), ("editor", e)):
        for f in ("probabilities", "residuals", "iterations"):
            x = np.asarray(sut(f, getattr, o, f))
            check(x.shape == batch and str(x.dtype) == cfg["dtype"], lambda: f"{what}: {owner}.{f} is {x.dtype}{x.shape}, want {cfg['dtype']}{batch}")
            check(bool(np.all(x == 0)), f"{what}: {owner}.{f} does not start at zero")
        fields = ["accumulators"] if owner == "controller" else ["accumulators", "defaults"]
        for f in fields:
            got = api.read_named(sut(f, getattr, o, f), vcfg, f"{what}: {owner}.{f}")
            for acc in accs:
                for path, w in want[acc["name"]].items():
                    g = got[acc["name"]][path]
                    check(str(g.dtype) == acc["dtype"] and g.shape == w.shape, lambda: f"{what}: {owner}.{f}[{acc['name']!r}]{path} is {g.dtype}{g.shape}, want {acc['dtype']}{w.shape}")
                    check_close(f"{what}: {owner}.{f}[{acc['name']!r}]{path}", g, w, 0)
        if owner != "controller":
            ups = sut("updates", getattr, o, "updates")
            check(set(ups) == set(want) and all(u is None for u in ups.values()), f"{what}: {owner}.updates {ups}")
    check(abs(float(np.asarray(e.epsilon)) - cfg["eps"]) < 1e-9, lambda: f"{what}: editor.epsilon")
    check(abs(float(np.asarray(c.halt_threshold)) - (1 - cfg["eps"])) < 2e-7, lambda: f"{what}: halt_threshold {c.halt_threshold}")
    check(abs(float(np.asarray(v.halt_threshold)) - (1 - cfg["eps"])) < 2e-7, lambda: f"{what}: viewer.halt_threshold {v.halt_threshold}")
    check(abs(float(np.asarray(c.depression_constant)) - cfg["dc"]) < 1e-6, lambda: f"{what}: depression_constant {c.depression_constant}")
    check(not bool(np.any(np.asarray(c.halted_batches))), f"{what}: starts halted")
    check(not bool(np.asarray(c.is_any_halted)), f"{what}: starts with something halted")
    check(bool(np.asarray(c.is_completely_halted)) == (int(np.prod(batch)) == 0), f"{what}: starts completely halted")
    check(bool(c.has_cached_updates) is False, f"{what}: starts with cached updates")


SUBCHECKS = [SubCheck("definition", cases, run, 110),
             SubCheck("definition-x64", lambda: cases(tuple(DT) + ("float64", "float64")), api.wide(run), 25)]
