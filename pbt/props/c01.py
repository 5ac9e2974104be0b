"""C01: every history of steps and resets follows the adaptive-computation-time recurrence."""
from hypothesis import strategies as st

from .. import api, gen
from ..core import Inconclusive, SubCheck
from ..model import Borderline, Model

RULE = """A case is a generated controller configuration (batch shape of rank 0-3, threshold
parameter, depression constant, one to three accumulators that are arrays or nested containers)
and a history of steps, resets and save/load hand-overs with generated halting probabilities and
update contents; after every operation everything observable is compared with a float64 reference
model. Non-trivial: some element halted after at least two steps, or an element crossed while
another stayed below the threshold, or a step ran after a reset that restarted an element. (long-history) Up to seventy
steps of small probabilities with up to three resets and up to five accumulators. Non-trivial: some element took part in more than ten. (endless-history) Up to 1100 compiled steps. Non-trivial: some element took part in more than a hundred. (x64) The same with 64 bit types enabled and, most of the time, everything of float64. One controller in sixteen has no accumulators."""
ASSUMPTIONS = ["float comparisons use a relative tolerance per dtype; dyadic cases are exact up to it",
               "non-dyadic cases within 1e-5 of the threshold are set aside as inconclusive"]


@st.composite
def cases(draw, mode="dyadic", dtypes=("float32",)):
    cfg = draw(gen.configs(dtypes=dtypes, bare=True, mags=mode != "float"))
    ops = draw(gen.histories(cfg["batch"], mode, extra=("reset", "saveload"), max_size=10))
    return {"cfg": cfg, "ops": ops, "mode": mode}


def run(case, ctx):
    cfg, mode = case["cfg"], case["mode"]
    guard = 1e-5 if mode == "float" else 0.0
    c = api.make_controller(cfg)
    m = Model(cfg["batch"], cfg["eps"], cfg["dc"], api.all_defaults(cfg), guard)
    api.against_model(c, cfg, m, "fresh controller")
    restarted = False
    for i, op in enumerate(case["ops"]):
        what = f"after op {i} ({op['op']})"
        if op["op"] == "step":
            values = api.update_values(cfg, op["u"], "normal" if mode == "float" else "dyadic")
            try:
                crossing = m.step(op["hp"], values)
            except Borderline:
                raise Inconclusive()
            c = api.step(c, cfg, op["hp"], values, op["order"])
            ctx.nontrivial(bool((crossing & (m.it >= 2)).any()))
            ctx.nontrivial(bool(crossing.any() and not m.halted.all()))
            ctx.nontrivial(restarted)
            ctx.label("step with an already halted element", bool((m.halted & ~crossing).any()))
        elif op["op"] == "reset":
            restarted = bool(m.halted.any())
            ctx.label("reset of some but not all", bool(m.halted.any() and not m.halted.all()))
            m.reset()
            c = api.sut("reset_batches", c.reset_batches)
        else:
            c = api.sut("load(save())", lambda: api.ACT_Controller.load(c.save()))
        api.against_model(c, cfg, m, what)


@st.composite
def long_cases(draw):
    """Long runs: the same handful of operations over and over, with small probabilities."""
    cfg = draw(gen.configs(batch=st.sampled_from([[3], [2, 2], []]), max_accs=5, min_accs=1, depth=1, eps=st.sampled_from([1e-4, 0.0625, 0.25])))
    n = gen.nbatch(cfg["batch"])
    small = st.sampled_from([0.0, 1 / 64, 1 / 32, 1 / 32, 1 / 16, 1 / 64, 0.25])
    table = [draw(st.lists(small, min_size=n, max_size=n)) for _ in range(draw(st.integers(1, 4)))]
    return {"cfg": cfg, "table": table, "steps": draw(st.sampled_from([15, 20, 33, 40, 70])), "u": draw(gen.seeds),
            "resets": draw(st.lists(st.integers(5, 60), max_size=3, unique=True))}


def run_long(case, ctx):
    cfg = case["cfg"]
    c = api.make_controller(cfg)
    m = Model(cfg["batch"], cfg["eps"], cfg["dc"], api.all_defaults(cfg))
    for i in range(case["steps"]):
        values = api.update_values(cfg, case["u"] + i % 3)
        hp = case["table"][i % len(case["table"])]
        c = api.step(c, cfg, hp, values, i % 4)
        m.step(hp, values)
        if i in case["resets"]:
            c = api.sut("reset_batches", c.reset_batches)
            m.reset()
        if i % 8 == 7 or i == case["steps"] - 1:
            api.against_model(c, cfg, m, f"after step {i}")
    ctx.nontrivial(bool((m.it > 10).any()))


@st.composite
def endless_cases(draw):
    """Hundreds of steps, compiled."""
    cfg = draw(gen.configs(batch=st.sampled_from([[3], [2, 2]]), max_accs=1, depth=1, eps=st.sampled_from([1e-4, 0.0625]), dc=st.sampled_from([1.0, 0.5]),
                           trail=st.sampled_from([[], [2]])))
    n = gen.nbatch(cfg["batch"])
    tiny = st.sampled_from([0.0, 0.0, 1 / 512, 1 / 256, 1 / 1024])
    return {"cfg": cfg, "hp": draw(st.lists(tiny, min_size=n, max_size=n)), "steps": draw(st.sampled_from([130, 260, 300, 520, 1100])), "u": draw(gen.seeds)}


def run_endless(case, ctx):
    cfg = case["cfg"]
    m = Model(cfg["batch"], cfg["eps"], cfg["dc"], api.all_defaults(cfg))
    values = [api.update_values(cfg, case["u"] + i) for i in range(2)]
    acc = cfg["accs"][0]
    ups = [api.value_tree(cfg, acc, v[acc["name"]]) for v in values]
    ups = api.jax.tree_util.tree_map(lambda *x: api.jnp.stack(x), *ups)
    hp = api.arr(case["hp"], cfg["dtype"], cfg["batch"])

    def body(c, i):
        up = api.jax.tree_util.tree_map(lambda x: x[i % 2], ups)
        return c.cache_update(acc["name"], up).iterate_act(hp), None

    c, _ = api.sut("scan of steps", api.jax.lax.scan, body, api.make_controller(cfg), api.jnp.arange(case["steps"]))
    for i in range(case["steps"]):
        m.step(case["hp"], values[i % 2])
    api.against_model(c, cfg, m, f"after {case['steps']} steps")
    ctx.nontrivial(bool((m.it > 100).any()))


SUBCHECKS = [
    SubCheck("endless-history", endless_cases, run_endless, 2),
    SubCheck("history-dyadic", lambda: cases("dyadic"), run, 110),
    SubCheck("history-float", lambda: cases("float"), run, 60),
    SubCheck("history-tiny", lambda: cases("tiny"), run, 25),
    SubCheck("history-low-precision", lambda: cases("dyadic", ("float16", "bfloat16")), run, 25),
    SubCheck("history-x64", lambda: cases("float", ("float64", "float64", "float32")), api.wide(run), 40),
    SubCheck("long-history", long_cases, run_long, 15),
]
