"""C06: reset returns exactly the halted elements to a fresh start."""
import numpy as np
from hypothesis import strategies as st

from .. import api, gen, trees
from ..core import SubCheck, TOL, check, check_bits, check_close, f64, must_raise

RULE = """A case runs a history, resets (possibly after replacing some defaults, or probabilities, with an editor),
checks every element, resets again, and then continues; elements that were restarted are compared
with a brand-new controller started from the defaults and given the same later steps. Some
accumulate infinities or NaN before they are reset. Non-trivial: the
reset found at least one halted element. (x64) The same with 64 bit types enabled and, most of the time, everything of float64. One controller in sixteen has no accumulators."""


POISON = [np.nan, np.inf, -np.inf, 1e30]


@st.composite
def cases(draw, dtypes=("float32",)):
    cfg = draw(gen.configs(dtypes=dtypes, bare=True, mags=True))
    return {
        "cfg": cfg,
        "ops": draw(gen.histories(cfg["batch"], draw(st.sampled_from(["dyadic", "dyadic", "float"])), extra=(), min_size=1, max_size=5)),
        "later": draw(gen.histories(cfg["batch"], "dyadic", extra=(), min_size=1, max_size=4)),
        "newdef": draw(st.one_of(st.none(), gen.seeds)),
        "cycles": draw(st.integers(1, 2)),
        "pending": draw(st.integers(0, len(cfg["accs"]))),
        "edited": draw(st.one_of(st.none(), st.lists(st.sampled_from([None, 0.25, 1.0, 1.0]), min_size=gen.nbatch(cfg["batch"]), max_size=gen.nbatch(cfg["batch"])))),
        "poison": draw(st.sampled_from([None, None, 0, 1, 2, 3])),
    }


def run(case, ctx):
    cfg = case["cfg"]
    c = api.make_controller(cfg)
    defaults = api.all_defaults(cfg)
    tol = TOL[cfg["dtype"]]
    for cycle in range(case["cycles"]):
        for j, op in enumerate(case["ops"] if cycle == 0 else case["later"]):
            values = api.update_values(cfg, op["u"])
            if case.get("poison") is not None:
                # Elements whose halting probability is positive accumulate something that is not finite.
                sel = np.array(op["hp"]).reshape(cfg["batch"]) > 0
                values = {n: {k: np.where(trees.left(sel, v.ndim), POISON[case["poison"]], v) for k, v in t.items()} for n, t in values.items()}
            c = api.step(c, cfg, op["hp"], values, op["order"])
        if case["newdef"] is not None and cfg["accs"] and cycle == 0:
            acc = cfg["accs"][case["newdef"] % len(cfg["accs"])]
            defaults[acc["name"]] = {p: trees.content(case["newdef"], "nd" + p, v.shape) for p, v in defaults[acc["name"]].items()}
            ed = api.sut("edit_controller", api.TensorEditor.edit_controller, c)
            c = api.sut("build", api.sut("set_defaults", ed.set_defaults, acc["name"], api.value_tree(cfg, acc, defaults[acc["name"]])).build)
        if case.get("edited") is not None and cycle == 0:
            # Halted, or running again, by an edit: the probability alone tells.
            p = f64(c.probabilities)
            new = np.array([np.nan if e is None else e for e in case["edited"]]).reshape(cfg["batch"])
            ed = api.sut("edit_controller", api.TensorEditor.edit_controller, c)
            c = api.sut("build", api.sut("set_probabilities", ed.set_probabilities, api.arr(np.where(np.isnan(new), p, new), cfg["dtype"])).build)
            # The other counters as well, to values that no short history gives them.
            big = np.where(np.isnan(new), f64(c.iterations), (np.arange(new.size).reshape(new.shape) % 3) * 20000.0 + 3.0)
            ed = api.sut("edit_controller", api.TensorEditor.edit_controller, c)
            ed = api.sut("set_iterations", ed.set_iterations, api.arr(big, cfg["dtype"]))
            c = api.sut("build", api.sut("set_residuals", ed.set_residuals, api.arr(np.where(np.isnan(new), f64(c.residuals), 0.5 * (p > 0.3)), cfg["dtype"])).build)
        before = api.snap(c, cfg)
        if case["pending"]:
            # Some updates pending: the reset must be refused.
            values = api.update_values(cfg, 3)
            part = c
            for acc in cfg["accs"][: case["pending"]]:
                part = api.sut("cache_update", part.cache_update, acc["name"], api.value_tree(cfg, acc, values[acc["name"]]))
            must_raise("reset_batches with updates pending", RuntimeError, part.reset_batches)
        after_c = api.sut("reset_batches", c.reset_batches)
        after = api.snap(after_c, cfg)
        api.snap(c, cfg).same(before, "the controller that was reset")
        h = before.halted
        ctx.nontrivial(bool(h.any()))
        ctx.label("partial", bool(h.any() and not h.all()))
        for label, a, b in (("probability", after.p, before.p), ("residual", after.r, before.r), ("iteration count", after.it, before.it)):
            check(bool(np.all(f64(a)[h] == 0)), lambda: f"reset: {label} of halted elements is {f64(a)[h].tolist()}")
            check_bits(f"reset: {label} of running elements", a[~h], b[~h])
        check(not after.halted.any(), "reset: some element is still halted")
        for acc in cfg["accs"]:
            n = acc["name"]
            for k, v in after.acc[n].items():
                sel = np.broadcast_to(trees.left(h, v.ndim), v.shape)
                check_close(f"reset: accumulator {n!r}{k} of halted elements", v[sel], defaults[n][k][sel], 0)
                check_bits(f"reset: accumulator {n!r}{k} of running elements", v[~sel], before.acc[n][k][~sel])
                check_bits(f"reset: default {n!r}{k}", after.defaults[n][k], before.defaults[n][k])
            check(after.updates[n] is None, f"reset: an update of {n!r} is pending")
        check(abs(after.threshold - before.threshold) < 1e-7 and abs(after.dc - before.dc) < 1e-7,
              "reset: the threshold or the depression constant changed")
        again = api.snap(api.sut("second reset_batches", after_c.reset_batches), cfg)
        again.same(after, "a second reset")
        # The next cycle: restarted elements behave like brand-new ones.
        fresh = api.new_builder(cfg)
        for acc in cfg["accs"]:
            fresh = api.sut("define", fresh.define_accumulator_directly, acc["name"], api.value_tree(cfg, acc, defaults[acc["name"]]))
        new = api.sut("build", fresh.build)
        old = after_c
        for i, op in enumerate(case["later"]):
            values = api.update_values(cfg, op["u"] + 1)
            new = api.step(new, cfg, op["hp"], values)
            old = api.step(old, cfg, op["hp"], values, op["order"])
            a, b = api.snap(old, cfg), api.snap(new, cfg)
            what = f"cycle {cycle}, step {i} after reset, restarted elements"
            check_close(f"{what}: probabilities", a.p[h], b.p[h], tol)
            check_close(f"{what}: residuals", a.r[h], b.r[h], tol)
            check_close(f"{what}: iterations", a.it[h], b.it[h], tol)
            check_bits(f"{what}: halted", a.halted[h], b.halted[h])
            for n in a.acc:
                for k, v in a.acc[n].items():
                    check_close(f"{what}: accumulator {n!r}{k}", v[h], b.acc[n][k][h], tol)
        c = after_c


SUBCHECKS = [SubCheck("reset", cases, run, 110),
             SubCheck("reset-x64", lambda: cases(("float64", "float64", "float32")), api.wide(run), 40)]
