"""C03: a halted element is frozen, whatever happens afterwards."""
import numpy as np
from hypothesis import strategies as st

from .. import api, gen, trees
from ..core import SubCheck, check, check_bits

RULE = """A case drives a batch with staggered halting (some elements halted by an edit of their probability instead), then continues with steps whose halting
probabilities and updates hold NaN, infinities and huge numbers at the elements
that have halted (ordinary numbers elsewhere, but for an infinity or NaN now and then, so that what is frozen may not be finite either), eagerly and under jit. Non-trivial: at least one
step ran while some element was halted and another was not, or a poisoned step ran after halting. (x64) The same with 64 bit types enabled and, most of the time, everything of float64. One controller in sixteen has no accumulators."""

POISON = [np.nan, np.inf, -np.inf, 1e30, -1e30, 3.0]


@st.composite
def cases(draw, dtypes=("float32",)):
    cfg = draw(gen.configs(dtypes=dtypes, bare=True, mags=True))
    n = draw(st.integers(3, 9))
    ops = []
    for _ in range(n):
        op = draw(gen.step_ops(cfg["batch"]))
        op["poison"] = draw(st.sampled_from([None, 0, 1, 2, 3, 4, 5]))
        op["hpoison"] = draw(st.sampled_from([None, None, 0, 1, 2, 3, 4, 5]))
        op["live"] = draw(st.sampled_from([None] * 6 + [0, 1, 2]))
        ops.append(op)
    m = gen.nbatch(cfg["batch"])
    edit = draw(st.one_of(st.none(), st.none(), st.lists(st.sampled_from([None, 0.0, 0.5, 1.0]), min_size=m, max_size=m)))
    return {"cfg": cfg, "ops": ops, "edit": edit}


def _view(snapshot, cfg, halted):
    """The bits belonging to the selected elements."""
    out = {"p": snapshot.p[halted], "r": snapshot.r[halted], "it": snapshot.it[halted]}
    for n, t in snapshot.acc.items():
        for k, v in t.items():
            out[n + k] = v[halted]
    return out


def run(case, ctx):
    cfg = case["cfg"]
    c = api.make_controller(cfg)
    if case.get("edit"):
        # Halted elements anywhere between the threshold and one (0.5: halfway), without any step having been taken.
        thr = 1 - cfg["eps"]
        p = np.array([0.0 if e is None else thr + (1 - thr) * e for e in case["edit"]]).reshape(cfg["batch"])
        ed = api.sut("edit_controller", api.TensorEditor.edit_controller, c)
        c = api.sut("set_probabilities", ed.set_probabilities, api.arr(p, cfg["dtype"])).build()
    before = api.snap(c, cfg)
    tainted = np.zeros(cfg["batch"], bool)  # given something that is not finite while running
    for i, op in enumerate(case["ops"]):
        values = api.update_values(cfg, op["u"])
        if op.get("live") is not None:
            live = ~before.halted & (np.random.default_rng(op["u"]).random(tuple(cfg["batch"])) < 0.5)
            tainted |= live
            for t in values.values():
                for k, v in t.items():
                    t[k] = np.where(trees.left(live, v.ndim), POISON[op["live"]], v)
        if op["poison"] is not None:
            bad = POISON[op["poison"]]
            for t in values.values():
                for k, v in t.items():
                    sel = np.broadcast_to(trees.left(before.halted, v.ndim), v.shape)
                    t[k] = np.where(sel, bad, v)
        hp = op["hp"]
        if op.get("hpoison") is not None:
            hp = np.where(before.halted.reshape(-1), POISON[op["hpoison"]], hp)
        c = api.step(c, cfg, hp, values, op["order"])
        now = api.snap(c, cfg)
        h = before.halted
        check(bool(np.all(now.halted[h])), f"step {i}: a halted element is running again")
        a, b = _view(now, cfg, h), _view(before, cfg, h)
        for k in b:
            check_bits(f"step {i}: {k} of the halted elements", a[k], b[k])
        for n, t in now.defaults.items():
            for k, v in t.items():
                check_bits(f"step {i}: default {n!r}{k}", v, before.defaults[n][k])
        for n, t in now.acc.items():
            for k, v in t.items():
                check(bool(np.all(np.isfinite(v[~tainted].astype(np.float64)))), f"step {i}: accumulator {n!r}{k} picked up a value from a halted element")
        ctx.nontrivial(bool(h.any() and (not h.all() or op["poison"] is not None)))
        ctx.label("poisoned step after halting", bool(h.any() and op["poison"] is not None))
        before = now


def step_fn(state, xs):
    c = state
    hp, ups = xs
    for name in ups:
        c = c.cache_update(name, ups[name])
    return c.iterate_act(hp), None


_scan = api.jax.jit(lambda c, hps, ups: api.jax.lax.scan(step_fn, c, (hps, ups))[0])


@st.composite
def jit_cases(draw):
    batch = draw(st.sampled_from([[2], [3], [2, 2], []]))
    n = gen.nbatch(batch)
    trail = draw(st.sampled_from([[], [2], [3]]))
    steps = draw(st.lists(gen.hps(batch), min_size=6, max_size=6))
    return {"batch": batch, "trail": trail, "eps": draw(st.sampled_from(gen.EPS)), "dc": draw(st.sampled_from([1.0, 2.0])),
            "hp": steps, "u": draw(gen.seeds), "poison": draw(st.integers(0, 5)), "hpoison": draw(st.sampled_from([None, 0, 1, 2, 3])), "hp2": draw(st.lists(st.sampled_from([0.0, 0.25, 1.0, 9.0, -1.0]), min_size=n, max_size=n))}


def run_jit(case, ctx):
    """Complete the whole batch, then run six more poisoned steps inside a compiled scan."""
    cfg = {"batch": case["batch"], "dtype": "float32", "eps": case["eps"], "dc": case["dc"],
           "accs": [{"name": "a", "spec": ["L", case["trail"]], "dtype": "float32", "init": "direct", "seed": 5},
                    {"name": "b", "spec": ["d", [["x", ["L", []]], ["y", ["L", case["trail"]]]]], "dtype": "float32", "init": "fill", "fill": 1.0}]}
    c = api.make_controller(cfg)
    for j, hp in enumerate(case["hp"][:3]):
        c = api.step(c, cfg, hp, api.update_values(cfg, case["u"] + j))
    before = api.snap(c, cfg)
    h = before.halted
    hps, ups = [], []
    for j, hp in enumerate(case["hp"]):
        values = api.update_values(cfg, case["u"] + 50 + j)
        for t in values.values():
            for k, v in t.items():
                t[k] = np.where(np.broadcast_to(trees.left(h, v.ndim), v.shape), POISON[case["poison"]], v)
        hp = hp if j % 2 else case["hp2"]
        if case.get("hpoison") is not None and j > 1:
            hp = np.where(h.reshape(-1), POISON[case["hpoison"]], hp)
        hps.append(api.arr(hp, "float32", cfg["batch"]))
        ups.append({a["name"]: api.value_tree(cfg, a, values[a["name"]]) for a in cfg["accs"]})
    stack = lambda *xs: api.jnp.stack(xs)  # noqa: E731
    c = api.sut("scan of iterate_act", _scan, c, api.jnp.stack(hps), api.jax.tree_util.tree_map(stack, *ups))
    now = api.snap(c, cfg)
    a, b = _view(now, cfg, h), _view(before, cfg, h)
    for k in b:
        check_bits(f"after the scan: {k} of the halted elements", a[k], b[k])
    ctx.nontrivial(bool(h.any()))


SUBCHECKS = [
    SubCheck("frozen-eager", cases, run, 150), SubCheck("frozen-x64", lambda: cases(("float64", "float64", "float32")), api.wide(run), 40),
    SubCheck("frozen-scan", jit_cases, run_jit, 60),
]
