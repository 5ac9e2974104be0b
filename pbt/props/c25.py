"""C25: halting works in every floating dtype and for every epsilon."""
import contextlib

import numpy as np
from hypothesis import strategies as st

from .. import api, gen
from ..core import SubCheck, check, check_close, f64, sut
from ..layers import TableLayer, initial_state

jax, jnp = api.jax, api.jnp

RULE = """A case is a core dtype (float32, float16, bfloat16, float64), an epsilon from 1e-9 to 0.9, a batch and a per-element cycle of halting
probabilities coarse enough to advance in that dtype. Steps are run until every element halts, with an accumulator of ones (same or another
dtype), optionally compiled, then the halted elements are stepped again and reset. Every element must halt in the step its exact cumulative probability crosses the
threshold, within rounding slack of the dtype; afterwards probability and accumulated weight are one. Non-trivial: the threshold rounds to
one in the dtype, or the core is not float32, with some element taking at least two steps."""
ASSUMPTIONS = ["halting probabilities are zero or at least eight units of rounding of the core dtype", "float64 is run under jax.experimental.enable_x64"]

ULP = {"float64": 2.0 ** -52, "float32": 2.0 ** -23, "float16": 2.0 ** -10, "bfloat16": 2.0 ** -7}
NAMES = ["float32", "float16", "bfloat16", "float64"]
EPSILONS = [1e-4, 1e-4, 1e-3, 1e-2, 1e-5, 1e-6, 1e-7, 1e-8, 1e-9, 0.1, 0.5, 0.9, 4.8e-4, 2.44e-4, 6e-8, 3e-8]


def x64(dtypes):
    if "float64" in dtypes:
        from jax.experimental import enable_x64
        return enable_x64()
    return contextlib.nullcontext()


@st.composite
def cases(draw):
    dtype = draw(st.sampled_from(NAMES))
    batch = draw(st.sampled_from([[2], [3], [], [2, 2], [1]]))
    n = gen.nbatch(batch)
    low = 16 if dtype == "bfloat16" else 8
    # in 1/256: exact in every dtype
    prob = st.one_of(st.integers(low, 80), st.integers(low, 256), st.sampled_from([64, 128, 32, 0, 256])).map(lambda i: i / 256)
    cyc = draw(st.integers(1, 4))
    hp = [draw(st.lists(prob, min_size=n, max_size=n)) for _ in range(cyc)]
    hp.append([max(v, 1 / 16) for v in draw(st.lists(prob, min_size=n, max_size=n))])
    acc = draw(st.sampled_from([dtype, dtype, "float32", "float16", "bfloat16"]))
    eps, dc = draw(st.sampled_from(EPSILONS)), draw(st.sampled_from([1.0, 1.0, 0.5, 2.0]))
    fine = [e for e in EPSILONS if e >= 24 * ULP[dtype] and e <= 0.1]
    if fine and draw(st.integers(0, 2)) == 0:
        # Close to the threshold, on either side of it, by half an epsilon.
        eps, dc = draw(st.sampled_from(fine)), 1.0
        hp, sides = hp[:2], draw(st.lists(st.sampled_from([0.5, 1.5]), min_size=n, max_size=n))
        hp = [[min(v, 0.375) for v in row] for row in hp]
        hp.append([1 - side * eps - sum(row[b] for row in hp) for b, side in enumerate(sides)])
        hp.append([1.0] * n)
    elif draw(st.integers(0, 3)) == 0:
        # Below the threshold by little more than rounding may explain.
        eps, dc = draw(st.sampled_from([e for e in EPSILONS if e <= 0.5])), 1.0
        hp = [[min(v, 0.25) for v in row] for row in hp[:draw(st.integers(0, 2))]]
        if dtype != "bfloat16" or not hp:
            by = 2 * (len(hp) + 1) * ULP[dtype]
            by = draw(st.lists(st.sampled_from([1.5 * by, 2 * by, 4 * by, 1.5 * by + 1e-3, 1.5 * by + 1e-5]), min_size=n, max_size=n))
            hp.append([max(1 - eps - by[b] - sum(row[b] for row in hp), 0.0) for b in range(n)])
        hp.append([1.0] * n)
    return {"dtype": dtype, "acc": acc, "eps": eps, "batch": batch, "hp": hp, "dc": dc,
             "jit": draw(st.sampled_from([False, False, True])),
            "layer": draw(st.sampled_from([False, False, False, True])), "reset": draw(st.booleans())}


def config(case):
    return {"batch": case["batch"], "dtype": case["dtype"], "eps": case["eps"], "dc": case["dc"],
            "accs": [{"name": "ones", "spec": ["L", []], "dtype": case["acc"], "init": "fill", "fill": 0.0},
                     {"name": "wide", "spec": ["d", [["v", ["L", [2]]]]], "dtype": case["acc"], "init": "fill", "fill": 0.0}]}


ONES_STEP = {}


def stepper(case, cfg):
    def one(c, hp):
        for acc in cfg["accs"]:
            values = {p: np.ones(api.leaf_shape(cfg, t)) for p, t in api.trees.leaves(acc["spec"])}
            c = c.cache_update(acc["name"], api.value_tree(cfg, acc, values))
        return c.iterate_act(hp)

    if not case["jit"]:
        return one
    key = (tuple(cfg["batch"]), cfg["dtype"], case["acc"])
    if key not in ONES_STEP:
        ONES_STEP[key] = jax.jit(one)
    return ONES_STEP[key]


def run(case, ctx):
    with x64([case["dtype"]]):
        _run(case, ctx)


def _run(case, ctx):
    cfg = config(case)
    dtype, eps = case["dtype"], case["eps"]
    ulp = ULP[dtype]
    n = gen.nbatch(cfg["batch"])
    T = len(case["hp"])
    thr = 1 - eps
    # numpy in exact enough arithmetic: probabilities are multiples of 1/512.
    exact = np.zeros(n)
    halted = np.zeros(n, bool)
    weight_ulp = max(ULP[case["acc"]], ulp)
    limit = 32 * T + 16  # Every cycle adds at least 1/32.
    if case["layer"]:
        layer = TableLayer(cfg, case["hp"], 3, backstop=10 ** 6)
        c, s = sut("execute_act", layer.execute_act, initial_state(), case["dc"], 400)
        k = int(s["i"])
        p = f64(c.probabilities).reshape(-1)
        check(bool(np.asarray(c.is_completely_halted)), lambda: f"execute_act stopped after {k} iterations with probabilities {p.tolist()}, epsilon {eps}, {dtype}")
        check(bool(np.all(p == 1)), lambda: f"halted with probabilities {p.tolist()}")
        its = f64(c.iterations).reshape(-1)
        check(k == int(its.max()), lambda: f"execute_act made {k} iterations, the elements count {its.tolist()}")
        for b in range(n):
            cum, steps = 0.0, int(its[b])
            h = [min(case["hp"][i % T][b], 1.0) * case["dc"] for i in range(steps)]
            slack = 2 * steps * ulp
            check(sum(h) >= thr - slack or sum(h) >= 1 - slack, lambda: f"element {b} halted after {steps} iterations with total {sum(h)}, threshold {thr}, {dtype}")
            check(sum(h[:-1]) <= max(min(thr + slack, 1 + slack), 0), lambda: f"element {b} halted only after {steps} iterations, total {sum(h)}, threshold {thr}, {dtype}")
        ctx.label("layer")
        ctx.nontrivial(dtype != "float32" and k >= 2)
        return
    c = api.make_controller(cfg)
    step = stepper(case, cfg)
    count = np.zeros(n)
    for i in range(limit):
        row = np.array(case["hp"][i % T])
        c = sut("step", step, c, api.arr(row, dtype, cfg["batch"]))
        p = f64(c.probabilities).reshape(-1)
        now = np.asarray(c.halted_batches).reshape(-1)
        what = f"step {i} ({dtype}, epsilon {eps}, constant {case['dc']})"
        check(str(c.probabilities.dtype) == dtype, lambda: f"{what}: probabilities became {c.probabilities.dtype}")
        check(bool(np.all(p <= 1)), lambda: f"{what}: probabilities {p.tolist()} exceed one")
        check(bool(np.all(p[now] == 1)), lambda: f"{what}: halted elements have probabilities {p[now].tolist()}")
        check(bool(np.all(now | ~halted)), lambda: f"{what}: an element resumed")
        count += ~halted
        exact = np.where(halted, exact, exact + row * case["dc"])
        slack = 2 * (i + 1) * ulp
        early = now & ~halted & (exact < thr - slack)
        late = ~now & ((exact > max(thr, 0) + slack) | (exact > 1 + slack))
        check(not early.any(), lambda: f"{what}: halted at total probability {exact.tolist()}, threshold {thr}")
        check(not late.any(), lambda: f"{what}: still running at total probability {exact.tolist()}, threshold {thr}")
        check_close(f"{what}: iterations", c.iterations, count.reshape(cfg["batch"]), 0)
        r = f64(c.residuals).reshape(-1)
        check(bool(np.all(r[~now] == 0)), lambda: f"{what}: residual of a running element: {r.tolist()}")
        wtol = 2 * (i + 2) * weight_ulp
        check_close(f"{what}: accumulated weight", c.accumulators["ones"], c.probabilities, wtol)
        check_close(f"{what}: accumulated weight", c.accumulators["wide"]["v"], np.repeat(p, 2).reshape(cfg["batch"] + [2]), wtol)
        for leaf in (c.accumulators["ones"], c.accumulators["wide"]["v"]):
            check(str(leaf.dtype) == case["acc"], lambda: f"{what}: an accumulator became {leaf.dtype}")
        halted = now
        if now.all():
            break
    check(bool(halted.all()), lambda: f"after {limit} steps of {case['hp']} probabilities are {p.tolist()} ({dtype}, epsilon {eps})")
    check(bool(np.asarray(c.is_completely_halted)), "every element halted, but not is_completely_halted")
    frozen = sut("step after halting", step, c, api.arr(np.array(case["hp"][0]), dtype, cfg["batch"]))
    for what, a, b in (("probabilities", frozen.probabilities, c.probabilities), ("residuals", frozen.residuals, c.residuals),
                       ("iterations", frozen.iterations, c.iterations), ("accumulator", frozen.accumulators["ones"], c.accumulators["ones"])):
        check_close(f"{what} after halting", a, b, 0)
    if case["reset"]:
        z = sut("reset_batches", frozen.reset_batches)
        for what, a in (("probabilities", z.probabilities), ("residuals", z.residuals), ("iterations", z.iterations),
                        ("accumulator", z.accumulators["ones"]), ("accumulator", z.accumulators["wide"]["v"])):
            check(bool(np.all(f64(a) == 0)), lambda: f"{what} after reset: {f64(a).tolist()}")
        check(not bool(np.asarray(z.is_any_halted)), "still halted after reset")
        check(str(z.probabilities.dtype) == dtype, lambda: f"reset changed the dtype to {z.probabilities.dtype}")
    rounded = float(np.asarray(jnp.asarray(thr, api.DTYPES[dtype]))) >= 1
    ctx.nontrivial((rounded or dtype != "float32") and bool((count >= 2).any()))
    ctx.label("threshold rounds to one", rounded)
    ctx.label(dtype)


SUBCHECKS = [SubCheck("dtypes", cases, run, 60)]
