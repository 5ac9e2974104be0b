"""C02: probability is conserved; everything accumulated is weighted by exactly that probability."""
import numpy as np
from hypothesis import strategies as st

from .. import api, gen, trees
from ..core import Inconclusive, SubCheck, check, check_close, f64

RULE = """A case is a configuration and a history of steps (some with out-of-range halting
probabilities, some with a depression constant above one) run until the generated steps are used
up; the invariants relate only observed quantities to each other, with no model of the recurrence.
Non-trivial: some element halted in the history, after a step that left it below the threshold. (x64) The same with 64 bit types enabled and, most of the time, everything of float64."""
ASSUMPTIONS = ["sums are compared with a relative tolerance of 2e-5 (float32)"]


@st.composite
def cases(draw, mode, dtypes=("float32",)):
    cfg = draw(gen.configs(dtypes=dtypes, eps=st.sampled_from(gen.EPS + [0.01, 0.6]),
                           dc=st.sampled_from(gen.DCS + [0.9, 1.1, 3.0])))
    names = {a["name"] for a in cfg["accs"]}
    probe = next(n for n in ("ones", "state3", "probe") if n not in names)
    cfg["accs"].insert(draw(st.integers(0, len(cfg["accs"]))),
                       {"name": probe, "spec": ["L", []], "dtype": cfg["dtype"], "init": "fill", "fill": 0.0})
    ops = draw(gen.histories(cfg["batch"], mode, extra=(), min_size=2, max_size=10))
    return {"cfg": cfg, "probe": probe, "ops": ops, "constant": draw(st.booleans())}


def run(case, ctx):
    cfg, probe = case["cfg"], case["probe"]
    batch = tuple(cfg["batch"])
    eps = cfg["eps"]
    # How much rounding may take, in sums of a handful of numbers of size one.
    unit = 1e-4 if cfg["dtype"] == "float64" else 1.0
    tol = 2e-5 * unit
    c = api.make_controller(cfg)
    defaults = api.all_defaults(cfg)
    before = api.snap(c, cfg)
    check(bool(np.all(before.p == 0)), "a fresh controller starts with probability")
    total = {n: {k: v.copy() for k, v in t.items()} for n, t in defaults.items()}
    lo = {n: {k: np.full(v.shape, np.inf) for k, v in t.items()} for n, t in defaults.items()}
    hi = {n: {k: np.full(v.shape, -np.inf) for k, v in t.items()} for n, t in defaults.items()}
    const = None
    for i, op in enumerate(case["ops"]):
        values = api.update_values(cfg, case["ops"][0]["u"] if case["constant"] else op["u"], "normal")
        values[probe] = {"": np.ones(batch)}
        const = values
        c = api.step(c, cfg, op["hp"], values, op["order"])
        now = api.snap(c, cfg)
        what = f"step {i}"
        p0, p1 = f64(before.p), f64(now.p)
        check(bool(np.all(p1 <= 1 + 1e-6 * unit)) and bool(np.all(p1 >= 0)), lambda: f"{what}: probability out of [0, 1]: {p1.tolist()}")
        check(bool(np.all(p1 >= p0 - 1e-6 * unit)), lambda: f"{what}: probability fell from {p0.tolist()} to {p1.tolist()}")
        was, halted = before.halted, now.halted
        check(bool(np.all(halted | ~was)), lambda: f"{what}: a halted element resumed")
        check(bool(np.all(np.abs(p1[halted] - 1) <= 1e-6 * unit)), lambda: f"{what}: halted elements have probability {p1[halted].tolist()}, not 1")
        check(bool(np.all(p1[~halted] <= 1 - eps + 1e-6 * unit)), lambda: f"{what}: running elements above the threshold: {p1[~halted].tolist()}")
        fresh = halted & ~was
        r0, r1 = f64(before.r), f64(now.r)
        check_close(f"{what}: residual of newly halted elements", r1[fresh], (1 - p0)[fresh], tol)
        check(bool(np.all(r1[fresh] >= eps - 1e-5 * unit)), lambda: f"{what}: residual below epsilon: {r1[fresh].tolist()}")
        check_close(f"{what}: residual of other elements", r1[~fresh], r0[~fresh], 0)
        check(bool(np.all(r1[~halted] == 0)), lambda: f"{what}: residual of a running element: {r1.tolist()}")
        check_close(f"{what}: ponder time", f64(now.it), f64(before.it) + ~was, 0)
        check_close(f"{what}: accumulated weight", now.acc[probe][""], p1, tol)
        inc = np.where(was, 0.0, p1 - p0)
        for n, t in total.items():
            for k, v in t.items():
                w = trees.left(inc, v.ndim)
                t[k] = v + w * values[n][k]
                took = np.broadcast_to(trees.left(~was & (inc > 0), v.ndim), v.shape)
                lo[n][k] = np.where(took, np.minimum(lo[n][k], values[n][k]), lo[n][k])
                hi[n][k] = np.where(took, np.maximum(hi[n][k], values[n][k]), hi[n][k])
                check_close(f"{what}: accumulator {n!r}{k} against probability-weighted updates", now.acc[n][k], t[k], 1e-4 * unit)
                sel = np.broadcast_to(trees.left(halted, v.ndim), v.shape)
                gain = f64(now.acc[n][k]) - defaults[n][k]
                check(bool(np.all((gain >= lo[n][k] - 1e-4 * unit)[sel] & (gain <= hi[n][k] + 1e-4 * unit)[sel])),
                      lambda: f"{what}: a halted accumulator {n!r}{k} is not a convex combination of its updates")
        ctx.nontrivial(bool(np.any(fresh & (p0 > 0))))
        ctx.label("residual from first step", bool(np.any(fresh & (p0 == 0))))
        before = now
    if case["constant"] and const is not None:
        for n, t in const.items():
            for k, v in t.items():
                sel = np.broadcast_to(trees.left(before.halted, v.ndim), v.shape)
                gain = f64(before.acc[n][k]) - defaults[n][k]
                check_close(f"constant update into {n!r}{k}", gain[sel], v[sel], 1e-4 * unit)


SUBCHECKS = [
    SubCheck("conservation-dyadic", lambda: cases("dyadic"), run, 90),
    SubCheck("conservation-float", lambda: cases("float"), run, 120),
    SubCheck("conservation-x64", lambda: cases("float", ("float64", "float64", "float32")), api.wide(run), 40),
]
