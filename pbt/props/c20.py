"""C20: the depression constant scales the clamped halting probabilities, and nothing else."""
import numpy as np
from hypothesis import strategies as st

from .. import api, gen
from ..core import SubCheck, TOL, check, check_close, f64, sut
from ..layers import TableLayer, initial_state

jax, jnp = api.jax, api.jnp

RULE = """A case is a configuration, a history and depression constants. Rescaling: the history under constant d against the history under
constant one with every halting probability clipped, multiplied by d and capped at one (operation by operation, compiled with d traced, or
through execute_act). Order: two constants d1 <= d2 on the same history; under d2 every element has at least the probability, and at most
the ponder time, at every step. Zero: nothing accumulates or halts, but iterations count. Non-trivial: the constant is not one and some element halted
after at least two steps under the smaller constant, or (zero) at least one step had a positive probability. (x64) The same with 64 bit types enabled and, most of the time, everything of float64. (half) The same with half precision."""

DCS = [0.5, 0.25, 2.0, 0.75, 1.5, 0.125, 3.0, 1.0]


@st.composite
def cases(draw, dtypes=("float32",), dcs=DCS):
    cfg = draw(gen.configs(dtypes=dtypes, dc=st.sampled_from(dcs), max_accs=2, batch=st.sampled_from([[2], [3], [], [2, 3], [1]])))
    return {"cfg": cfg, "ops": draw(gen.histories(cfg["batch"], extra=("reset",), min_size=2, max_size=8)),
            "traced": draw(st.sampled_from([False, False, False, "float16" not in cfg["dtype"]]))}


def rescaled(hp, d):
    return np.minimum(1.0, d * np.clip(np.asarray(hp, np.float64), 0, 1)).tolist()


def play(cfg, ops, rescale=None, on=None):
    c = api.make_controller(cfg)
    snaps = []
    for i, op in enumerate(ops):
        if op["op"] == "reset":
            c = sut("reset_batches", c.reset_batches)
        else:
            hp = op["hp"] if rescale is None else rescaled(op["hp"], rescale)
            c = api.step(c, cfg, hp, api.update_values(cfg, op["u"]), op["order"])
        snaps.append(api.snap(c, cfg))
    return c, snaps


def run_rescale(case, ctx):
    cfg = case["cfg"]
    d = cfg["dc"]
    ref_cfg = dict(cfg, dc=1.0)
    ref, ref_snaps = play(ref_cfg, case["ops"], rescale=d)
    if case["traced"]:
        values = [api.update_values(cfg, op["u"]) if op["op"] == "step" else None for op in case["ops"]]

        def whole(dc):
            b = api.ControllerBuilder.new_builder(list(cfg["batch"]), api.DTYPES[cfg["dtype"]], epsilon=cfg["eps"], depression_constant=dc)
            for acc in cfg["accs"]:
                b = b.define_accumulator_directly(acc["name"], api.value_tree(cfg, acc, api.default_values(cfg, acc)))
            c = b.build()
            for op, v in zip(case["ops"], values):
                if op["op"] == "reset":
                    c = c.reset_batches()
                    continue
                for acc in cfg["accs"]:
                    c = c.cache_update(acc["name"], api.value_tree(cfg, acc, v[acc["name"]]))
                c = c.iterate_act(api.arr(op["hp"], cfg["dtype"], cfg["batch"]))
            return c

        c = sut("jit of a history with a traced depression constant", jax.jit(whole), d)
        s = api.snap(c, cfg)
        s.dc, dc = None, s.dc
        check(abs(dc - d) < 1e-6, lambda: f"depression constant is {dc}, built with {d}")
        s.near(ref_snaps[-1], f"depression constant {d} (traced) against rescaled probabilities", TOL[cfg["dtype"]])
        ctx.label("traced")
    else:
        c, snaps = play(cfg, case["ops"])
        for i, (s, r) in enumerate(zip(snaps, ref_snaps)):
            check(abs(s.dc - d) < 1e-6, lambda: f"operation {i}: the depression constant became {s.dc}, built with {d}")
            r.dc = None
            s.near(r, f"operation {i}: depression constant {d} against rescaled probabilities", TOL[cfg["dtype"]])
    last = ref_snaps[-1]
    ctx.nontrivial(d != 1.0 and any(bool((s.halted & (s.it >= 2)).any()) for s in ref_snaps))


@st.composite
def order_cases(draw):
    cfg = draw(gen.configs(max_accs=1, batch=st.sampled_from([[2], [3], [2, 3], [4]])))
    d = sorted([draw(st.sampled_from(DCS)), draw(st.sampled_from(DCS))])
    return {"cfg": cfg, "d": d, "ops": draw(gen.histories(cfg["batch"], extra=(), min_size=2, max_size=9))}


def run_order(case, ctx):
    low, high = case["d"]
    _, a = play(dict(case["cfg"], dc=low), case["ops"])
    _, b = play(dict(case["cfg"], dc=high), case["ops"])
    for i, (x, y) in enumerate(zip(a, b)):
        check(bool(np.all(f64(y.p) >= f64(x.p) - 1e-6)),
              lambda: f"step {i}: with constant {high} probabilities are {y.p.tolist()}, with {low} {x.p.tolist()}")
        check(bool(np.all(y.halted | ~x.halted)), lambda: f"step {i}: halted with constant {low} but not with {high}")
        check(bool(np.all(y.it <= x.it)), lambda: f"step {i}: ponder time {y.it.tolist()} with {high}, {x.it.tolist()} with {low}")
    x, y = a[-1], b[-1]
    ctx.nontrivial(low < high and bool((x.halted & (x.it >= 2)).any()))
    ctx.label("halted earlier", bool((y.it < x.it).any()))


@st.composite
def zero_cases(draw):
    cfg = draw(gen.configs(dc=st.just(0.0)))
    return {"cfg": cfg, "ops": draw(gen.histories(cfg["batch"], extra=("reset",), min_size=1, max_size=6))}


def run_zero(case, ctx):
    cfg = case["cfg"]
    c = api.make_controller(cfg)
    first = api.snap(c, cfg)
    n = 0
    for i, op in enumerate(case["ops"]):
        if op["op"] == "reset":
            c = sut("reset_batches", c.reset_batches)
        else:
            c = api.step(c, cfg, op["hp"], api.update_values(cfg, op["u"]), op["order"])
            n += 1
        s = api.snap(c, cfg)
        what = f"operation {i} with constant zero"
        check(not s.halted.any(), lambda: f"{what}: halted {s.halted.tolist()}")
        check_close(f"{what}: probabilities", s.p, first.p, 0)
        check_close(f"{what}: residuals", s.r, first.r, 0)
        check_close(f"{what}: iterations", s.it, np.full(first.it.shape, n), 0)
        for name in s.acc:
            for k in s.acc[name]:
                check_close(f"{what}: accumulator {name!r}{k}", s.acc[name][k], first.acc[name][k], 0)
    ctx.nontrivial(any(op["op"] == "step" and max(op["hp"], default=0) > 0 for op in case["ops"]))


@st.composite
def layer_cases(draw):
    cfg = draw(gen.configs(batch=st.sampled_from([[2], [3], []]), max_accs=1, depth=1))
    n = gen.nbatch(cfg["batch"])
    pool = st.sampled_from([0.0625, 0.125, 0.1875, 0.25, 0.5, 1.0])
    return {"cfg": cfg, "table": [draw(st.lists(pool, min_size=n, max_size=n)) for _ in range(draw(st.integers(1, 4)))],
            "u": draw(gen.seeds), "d": draw(st.sampled_from(DCS)), "max": draw(st.sampled_from([10, 3, 30])), "tag": draw(st.integers(0, 9))}


def run_layer(case, ctx):
    d = case["d"]
    cfg = case["cfg"]
    scaled = [rescaled(row, d) for row in case["table"]]
    one = TableLayer(cfg, case["table"], case["u"])
    two = TableLayer(cfg, scaled, case["u"])
    a, sa = sut("execute_act", one.execute_act, initial_state(), api.constant(d, "float32", case.get("tag", 5)), case["max"])
    b, sb = sut("execute_act", two.execute_act, initial_state(), 1.0, case["max"])
    check(int(sa["i"]) == int(sb["i"]), lambda: f"execute_act with constant {d} made {int(sa['i'])} iterations, {int(sb['i'])} with rescaled probabilities")
    x, y = api.snap(a, cfg), api.snap(b, cfg)
    check(abs(x.dc - d) < 1e-6, lambda: f"the layer's controller has constant {x.dc}, executed with {d}")
    y.dc = None
    x.near(y, f"execute_act with constant {d} against rescaled probabilities", TOL["float32"])
    ctx.nontrivial(d != 1.0 and bool((y.it >= 2).any()))


SUBCHECKS = [
    SubCheck("rescale", cases, run_rescale, 70), SubCheck("rescale-x64", lambda: cases(("float64", "float64", "float32")), api.wide(run_rescale), 25),
    SubCheck("rescale-half", lambda: cases(("bfloat16", "float16"), (0.5, 0.25, 2.0, 1.0)), run_rescale, 20),
    SubCheck("order", order_cases, run_order, 60),
    SubCheck("zero", zero_cases, run_zero, 40),
    SubCheck("layer", layer_cases, run_layer, 20),
]
