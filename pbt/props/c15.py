"""C15: an editor replaces exactly the field it was asked to, and the process goes on from there."""
import numpy as np
from hypothesis import strategies as st

from .. import api, gen, trees
from ..core import SubCheck, check, check_bits, check_close, sut
from ..model import Model

RULE = """(edits) A case drives a controller to a generated point, applies a generated sequence of valid edits (probabilities, residuals, iterations,
epsilon, accumulators, defaults, updates, clearing an update) in either error mode, from the controller or from its save, checks after
every edit that exactly that field changed to exactly that value, builds, and continues with steps and resets against a
reference model that was edited in the same way. Non-trivial: at least two edits and a step or reset after
them. (saved-state) A case replaces a generated subset of the fields of a save in one call: exactly those fields change, and a controller loaded from
the result shows them. Non-trivial: two or more fields, but not all, are replaced. (x64) The same with 64 bit types enabled and, most of the time, everything of float64."""


@st.composite
def edits(draw, cfg):
    n = gen.nbatch(cfg["batch"])
    kind = draw(st.sampled_from(["probabilities", "residuals", "iterations", "epsilon", "accumulator", "accumulator", "defaults", "defaults", "updates", "updates", "clear"]))
    e = {"kind": kind, "i": draw(st.integers(0, 5)), "u": draw(gen.seeds)}
    if kind == "probabilities":
        e["v"] = draw(st.lists(st.sampled_from([0.0, 0.0625, 0.125, 0.25, 0.5, 1.0, 2.0 ** -20]), min_size=n, max_size=n))
    elif kind == "residuals":
        e["v"] = draw(st.lists(st.sampled_from([0.0, 0.25, 0.5, 1.0, 2.0 ** -20]), min_size=n, max_size=n))
    elif kind == "iterations":
        e["v"] = draw(st.lists(st.sampled_from([0.0, 1.0, 3.0, 20.0, 0.5, 2.75]), min_size=n, max_size=n))
    elif kind == "epsilon":
        e["v"] = draw(st.sampled_from([1e-4, 0.25, 0.5, 0.1, 0.01]))
    return e


@st.composite
def cases(draw, dtypes=("float32",)):
    cfg = draw(gen.configs(dtypes=dtypes, eps=st.sampled_from([1e-4, 0.25, 0.1, 0.5]), empties=True))
    return {
        "cfg": cfg,
        "ops": draw(gen.histories(cfg["batch"], "dyadic", extra=(), min_size=0, max_size=3)),
        "edits": draw(st.lists(edits(cfg), min_size=1, max_size=4)),
        "later": draw(gen.histories(cfg["batch"], "dyadic", extra=("reset",), min_size=1, max_size=4)),
        "mode": draw(st.sampled_from(["standard", "silence", "default"])),
        "via": draw(st.sampled_from(["controller", "save"])),
    }


def fields(ed, cfg):
    s = api.snap(sut("build", ed.build), cfg)
    # What the editor itself shows is what it builds.
    for label, x, y in (("probabilities", ed.probabilities, s.p), ("residuals", ed.residuals, s.r), ("iterations", ed.iterations, s.it)):
        check_bits(f"editor.{label}", x, y)
    for label, d, y in (("accumulators", ed.accumulators, s.acc), ("defaults", ed.defaults, s.defaults)):
        got = api.read_named(d, cfg, f"editor.{label}")
        for n in y:
            for k in y[n]:
                check_bits(f"editor.{label}[{n!r}]{k}", got[n][k], y[n][k])
    for n, u in s.updates.items():
        check((ed.updates[n] is None) == (u is None), "editor.updates")
    check(abs(float(np.asarray(ed.epsilon)) - (1 - s.threshold)) < 1e-6, "editor.epsilon")
    return s


def run(case, ctx):
    cfg = case["cfg"]
    c = api.make_controller(cfg)
    m = Model(cfg["batch"], cfg["eps"], cfg["dc"], api.all_defaults(cfg))
    for op in case["ops"]:
        values = api.update_values(cfg, op["u"])
        c = api.step(c, cfg, op["hp"], values, op["order"])
        m.step(op["hp"], values)
    args = [] if case["mode"] == "default" else [case["mode"]]
    if case["via"] == "controller":
        ed = sut("edit_controller", api.TensorEditor.edit_controller, c, *args)
    else:
        ed = sut("edit_save", api.TensorEditor.edit_save, c.save(), *args)
    original = api.snap(c, cfg)
    s = fields(ed, cfg)
    s.same(original, "a new editor")
    # How the editor reports errors is no field of the state that it edits.
    mode, rate = api.saved_extras(c)
    unchanged = lambda what, x: check(api.saved_extras(x) == (mode, rate), lambda: f"{what}: error mode and depression constant {api.saved_extras(x)}, were {(mode, rate)}")  # noqa: E731
    unchanged("a new editor", ed)
    pending, done = {}, 0
    for i, e in enumerate(case["edits"]):
        kind = e["kind"]
        acc = cfg["accs"][e["i"] % len(cfg["accs"])]
        n = acc["name"]
        what = f"edit {i} ({kind})"
        old = s
        if kind in ("probabilities", "residuals", "iterations"):
            v = np.array(e["v"]).reshape(cfg["batch"])
            if kind == "probabilities":
                v = np.where((v > m.threshold) & (v < 1), 1.0, v)
                m.p = v.copy()
            elif kind == "residuals":
                m.r = v.copy()
            else:
                m.it = v.copy()
            ed = sut(f"set_{kind}", getattr(ed, "set_" + kind), api.arr(v, cfg["dtype"]))
            s = fields(ed, cfg)
            check_close(what, {"probabilities": s.p, "residuals": s.r, "iterations": s.it}[kind], v, 0)
            attr = {"probabilities": "p", "residuals": "r", "iterations": "it"}[kind]
            setattr(old, attr, getattr(s, attr))
            old.halted = m.halted
        elif kind == "epsilon":
            # Elements between the threshold and one have no defined future; stay clear of them.
            if np.any((m.p > 1 - e["v"] - 1e-3) & (m.p < 1)):
                continue
            m.eps = e["v"]
            ed = sut("set_epsilon", ed.set_epsilon, e["v"])
            s = fields(ed, cfg)
            check(float(np.asarray(ed.epsilon)) == e["v"], lambda: f"{what}: epsilon is {ed.epsilon}")
            old.threshold, old.halted = 1 - e["v"], m.halted
        else:
            values = {p: trees.content(e["u"], f"edit{p}", api.leaf_shape(cfg, t)) for p, t in trees.leaves(acc["spec"])}
            tree = api.value_tree(cfg, acc, values)
            if kind == "accumulator":
                ed = sut("set_accumulator", ed.set_accumulator, n, tree)
                m.acc[n] = {k: v.copy() for k, v in values.items()}
                s = fields(ed, cfg)
                got, old.acc[n] = s.acc[n], s.acc[n]
            elif kind == "defaults":
                ed = sut("set_defaults", ed.set_defaults, n, tree)
                m.defaults[n] = {k: v.copy() for k, v in values.items()}
                s = fields(ed, cfg)
                got, old.defaults[n] = s.defaults[n], s.defaults[n]
            elif kind == "updates":
                ed = sut("set_updates", ed.set_updates, n, tree)
                pending[n] = values
                s = fields(ed, cfg)
                got, old.updates[n] = s.updates[n], s.updates[n]
                check(got is not None, f"{what}: nothing is pending")
            else:
                ed = sut("set_updates(None)", ed.set_updates, n, None)
                pending.pop(n, None)
                s = fields(ed, cfg)
                check(s.updates[n] is None, f"{what}: the update is still pending")
                old.updates[n] = None
                got = None
            if got is not None:
                for k, v in values.items():
                    check_close(f"{what}: {n!r}{k}", got[k], v, 0)
        s.same(old, f"{what}: everything else")
        unchanged(what, ed)
        done += 1
    api.snap(c, cfg).same(original, "the controller that was edited")
    c = sut("build", ed.build)
    check(isinstance(c, api.ACT_Controller), "build did not give a controller")
    unchanged("after the edits", c)
    api.against_model(c, cfg, m, "after the edits", pending)
    for i, op in enumerate(case["later"]):
        if op["op"] == "reset":
            if pending:
                continue
            c = sut("reset_batches", c.reset_batches)
            m.reset()
        else:
            values = api.update_values(cfg, op["u"])
            for acc in cfg["accs"]:
                n = acc["name"]
                if n in pending:
                    values[n] = pending[n]
                else:
                    c = sut("cache_update", c.cache_update, n, api.value_tree(cfg, acc, values[n]))
            c = sut("iterate_act", c.iterate_act, api.arr(op["hp"], cfg["dtype"], cfg["batch"]))
            m.step(op["hp"], values)
            pending = {}
        api.against_model(c, cfg, m, f"op {i} ({op['op']}) after the edits", pending)
    ctx.nontrivial(done >= 2)
    ctx.label(case["mode"])


FIELDS = ["epsilon", "iterations", "residuals", "probabilities", "accumulators", "defaults", "updates", "depression_constant", "error_mode"]


@st.composite
def replace_cases(draw):
    cfg = draw(gen.configs())
    return {"cfg": cfg, "op": draw(gen.step_ops(cfg["batch"])), "u": draw(gen.seeds),
            "fields": draw(st.lists(st.sampled_from(FIELDS), min_size=1, max_size=6, unique=True)),
            "eps": draw(st.sampled_from([0.0, 0.25, 0.5, 1.0])), "dc": draw(st.sampled_from([0.0, 0.5, 1.5])),
            "mode": draw(st.sampled_from(["standard", "silence"])),
            # What replaces the accumulators, defaults or updates need not have all the names.
            "keep": draw(st.sampled_from([9, 9, 9, 0, 1]))}


def read_some(got, cfg, what):
    specs = {a["name"]: a["spec"] for a in cfg["accs"]}
    check(isinstance(got, dict) and set(got) <= set(specs), lambda: f"{what} are {got}")
    return {n: None if v is None else trees.read(v, specs[n], f"{what}[{n!r}]") for n, v in got.items()}


def state_view(state, cfg):
    out = {f: np.array(getattr(state, f)) for f in ("iterations", "residuals", "probabilities")}
    for f in ("accumulators", "defaults"):
        out[f] = read_some(getattr(state, f), cfg, f)
    out["updates"] = read_some(state.updates, cfg, "updates")
    for f in ("epsilon", "depression_constant"):
        out[f] = np.float64(np.asarray(getattr(state, f)))
    out["error_mode"] = getattr(state, "error_mode")
    return out


def same_field(what, a, b):
    if isinstance(a, dict):
        check(isinstance(b, dict) and set(a) == set(b), lambda: f"{what}: {sorted(a)} / {sorted(b) if isinstance(b, dict) else b}")
        for k in a:
            same_field(f"{what}[{k!r}]", a[k], b[k])
    elif a is None or isinstance(a, str):
        check(a is b or a == b, lambda: f"{what}: {a!r} / {b!r}")
    else:
        check(b is not None, lambda: f"{what}: disappeared")
        check_bits(what, a, b)


def run_replace(case, ctx):
    cfg = case["cfg"]
    c = api.make_controller(cfg)
    c = api.step(c, cfg, case["op"]["hp"], api.update_values(cfg, case["op"]["u"]))
    state = sut("save", c.save)
    before = state_view(state, cfg)
    new = {}
    for f in case["fields"]:
        if f in ("iterations", "residuals", "probabilities"):
            new[f] = api.arr(np.abs(trees.content(case["u"], f, tuple(cfg["batch"]))) % 1.0, cfg["dtype"])
        elif f in ("accumulators", "defaults", "updates"):
            v = api.update_values(cfg, (case["u"] + len(f)) % 2 ** 20)
            new[f] = {a["name"]: api.value_tree(cfg, a, v[a["name"]]) for a in cfg["accs"][:case.get("keep", 9)]}
        else:
            new[f] = {"epsilon": case["eps"], "depression_constant": case["dc"], "error_mode": case["mode"]}[f]
    after = sut("replace", state.replace, **new)
    check(isinstance(after, api.ACTStates), "replace did not give a saved state")
    got, want = state_view(after, cfg), dict(before)
    for f, v in new.items():
        if f in ("accumulators", "defaults", "updates"):
            v = read_some(v, cfg, f)
        elif f in ("epsilon", "depression_constant"):
            v = np.float64(v)
        elif f != "error_mode":
            v = np.array(v)
        want[f] = v
    for f in FIELDS:
        same_field(f"{f} after replacing {case['fields']}", want[f], got[f])
    for f, v in state_view(state, cfg).items():
        same_field(f"{f} of the state replaced from", before[f], v)
    c2 = sut("load", api.ACT_Controller.load, after)
    check_bits("loaded probabilities", np.array(c2.probabilities), want["probabilities"])
    check_bits("loaded depression constant", np.float64(np.asarray(c2.depression_constant)), want["depression_constant"])
    ctx.nontrivial(2 <= len(new) < len(FIELDS))


SUBCHECKS = [SubCheck("edits", cases, run, 100), SubCheck("edits-x64", lambda: cases(("float64", "float64", "float32")), api.wide(run), 30), SubCheck("saved-state", replace_cases, run_replace, 60)]
