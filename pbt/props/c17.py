"""C17: running a layer is the same as the plain loop over its iterations, up to the iteration limit."""
import collections

import numpy as np
from hypothesis import strategies as st

from .. import api, gen, trees
from ..core import SubCheck, TOL, check, check_close, sut
from ..layers import TableLayer, initial_state, state_after
from ..model import Model

jax, jnp = api.jax, api.jnp

RULE = """A case is a layer driven by a generated table of halting probabilities with a generated controller layout, and generated call
arguments (iteration limit from zero up, depression constant, error checking on or off, additional positional and keyword arguments, eager or
under jit or vmap (over states, limits and constants), limits and constants traced or not, one run or a run continued from the controller and state of an interrupted one). The final controller, the final state and the number
of iterations are compared with a reference loop. (layer-kinds) Layers
with states of other kinds (an array, a number, tuples, nothing at all), that take several steps, resets, saves, views or edits in an iteration or run
another layer in it, called several times. (x64) Layers with 64 bit types enabled. (half) Layers with probabilities of bfloat16. Non-trivial: the loop stopped at its iteration limit with something unhalted, or after at
least two iterations because everything halted."""


@st.composite
def cases(draw, dtypes=("float32",)):
    cfg = draw(gen.configs(batch=st.sampled_from([[2], [3], [2, 2], []]), max_accs=2, dtypes=dtypes))
    if cfg["dtype"] in ("float16", "bfloat16"):
        # As in C26; the constants are exact as well.
        cfg["eps"] = draw(st.sampled_from([0.25, 0.5, 0.0625, 0.125]))
    T = draw(st.integers(1, 6))
    pool = st.sampled_from([0.0, 0.0625, 0.125, 0.1875, 0.25, 0.5, 1.0])
    n = gen.nbatch(cfg["batch"])
    pool = st.one_of(st.just(0.0), pool) if draw(st.integers(0, 3)) == 3 else pool
    table = [draw(st.lists(pool, min_size=n, max_size=n)) for _ in range(T)]
    limit = draw(st.sampled_from([None, 0, 1, 2, 3, 5, 8, 10, 11, 20, 40, 150, 300]))
    if n and draw(st.integers(0, 5)) == 5:
        # One that never halts, and a long way to the limit.
        table = [[0.0] + row[1:] for row in table]
        limit = draw(st.sampled_from([129, 150, 257, 258, 300]))
    return {
        "cfg": cfg, "table": table, "u": draw(gen.seeds), "max": limit,
        "dc": draw(st.sampled_from([None, 1.0, 0.5, 2.0, 0.25])),
        "checks": draw(st.sampled_from([None, True, False])),
        "args": draw(st.lists(st.integers(0, 9), max_size=2)),
        "kwargs": draw(st.dictionaries(st.sampled_from(["foo", "state", "layers"]), st.integers(0, 9), max_size=2)),
        "how": draw(st.sampled_from(["eager", "eager", "jit", "jit-traced", "split", "vmap", "disable-jit"])),
        "split": draw(st.integers(0, 6)),
    }


def reference(cfg, layer, dc, limit):
    m = Model(cfg["batch"], cfg["eps"], dc, api.all_defaults(cfg))
    n = 0
    while n < limit and not m.halted.all():
        m.step(layer.hp(n), layer.values(n))
        n += 1
    return m, n


def run(case, ctx):
    dc = 1.0 if case["dc"] is None else case["dc"]
    cfg = dict(case["cfg"], dc=dc)
    limit = 10 if case["max"] is None else case["max"]
    log = []
    backstop = 60 if limit < 60 else 400
    layer = TableLayer(cfg, case["table"], case["u"], log, backstop=backstop)
    m, n = reference(cfg, layer, dc, limit)
    args, kwargs = list(case["args"]), dict(case["kwargs"])
    call = dict(kwargs)
    pos = []
    if args:
        pos = [dc, limit, True if case["checks"] is None else case["checks"]] + args
    else:
        if case["dc"] is not None:
            call["depression_constant"] = dc
        if case["max"] is not None:
            call["max_iterations"] = limit
        if case["checks"] is not None:
            call["check_for_errors"] = case["checks"]
    s0 = initial_state(2)
    how = case["how"]
    if how == "split" and (args or kwargs):
        how = "eager"
    if how == "eager":
        c, s = sut("execute_act", layer.execute_act, s0, *pos, **call)
    elif how == "jit":
        c, s = sut("jit of execute_act", jax.jit(lambda s: layer.execute_act(s, *pos, **call)), s0)
    elif how == "jit-traced":
        c, s = sut("jit of execute_act with traced arguments",
                   jax.jit(lambda s, d, k: layer.execute_act(s, d, k, case["checks"] is not False, *args, **kwargs)), s0, dc, limit)
    elif how == "disable-jit":
        with jax.disable_jit():
            c, s = sut("execute_act with compilation disabled", layer.execute_act, s0, *pos, **call)
    elif how == "vmap":
        # One of several lanes with limits, constants and states of their own.
        k = case["split"] % 3
        dcs, limits = [0.25, 1.0, 2.0], [7, 0, 3]
        dcs[k], limits[k] = dc, limit
        many = sut("vmap of execute_act", jax.vmap(lambda s, d, k: layer.execute_act(s, d, k, case["checks"] is not False, *args, **kwargs)),
                   jax.tree_util.tree_map(lambda *x: jnp.stack(x), *[initial_state(2 if j == k else j) for j in range(3)]),
                   jnp.asarray(dcs, api.DTYPES[cfg["dtype"]]), jnp.asarray(limits))
        c, s = jax.tree_util.tree_map(lambda x: x[k], many)
    else:
        first = min(case["split"], limit)
        c, s = sut("execute_act", layer.execute_act, s0, dc, first)
        rest = TableLayer(cfg, case["table"], case["u"], [], saved=c, backstop=backstop)
        c, s = sut("execute_act, continued", rest.execute_act, s, dc, limit - first)
    what = f"execute_act ({how}, limit {limit})"
    check(int(s["i"]) == n, lambda: f"{what} made {int(s['i'])} iterations, the plain loop makes {n}")
    check(isinstance(c, api.ACT_Controller), f"{what} gave {type(c).__name__}")
    if cfg["dtype"] == "bfloat16":
        # It cannot count any further; the layer nevertheless can.
        m.it = np.minimum(m.it, 256)
    api.against_model(c, cfg, m, what)
    _, x, y = state_after(n, 2)
    check(isinstance(s, dict) and isinstance(s["x"], tuple) and isinstance(s["x"][1], list), f"{what}: the state changed its structure")
    check_close(f"{what}: state", s["x"][0], x, 1e-5)
    check_close(f"{what}: state", s["x"][1][0], y, 1e-5)
    if how in ("eager",):
        makes = [e for e in log if e[0] == "make"]
        check(len(makes) == 1, lambda: f"{what}: make_controller was called {len(makes)} times")
        _, state, gdc, gargs, gkwargs = makes[0]
        check(state is s0, f"{what}: make_controller did not get the initial state")
        check(gdc == dc and list(gargs) == args and gkwargs == kwargs, lambda: f"{what}: make_controller got {gdc}, {gargs}, {gkwargs}; passed {dc}, {args}, {kwargs}")
        lazies = [e for e in log if e[0] == "lazy"]
        check(len(lazies) == 1 and lazies[0][2] is s0, f"{what}: setup_lazy_parameters was not called once with the initial state")
    ctx.nontrivial(bool((n == limit and not m.halted.all()) or (n >= 2 and m.halted.all())))
    ctx.label("stopped at the limit", bool(n == limit and not m.halted.all()))
    ctx.label(how)


# -- other layers ----------------------------------------------------------------------------
Pair = collections.namedtuple("Pair", ["count", "rest"])
STATES = {
    # What the state is after i iterations, and how the layer reads i from it (None: it cannot).
    "array": (lambda i: jnp.asarray([i, 0.5 ** i], jnp.float32), lambda s: s[0]),
    "scalar": (lambda i: jnp.asarray(i, jnp.int32), lambda s: s),
    "number": (lambda i: i, lambda s: s),
    "tuple": (lambda i: (jnp.zeros([2, 0]), jnp.asarray(i, jnp.float16), ()), lambda s: s[1]),
    "named": (lambda i: Pair(jnp.asarray(i, jnp.int32), [None, {"even": jnp.asarray(i % 2 == 0)}]), lambda s: s.count),
    "none": (lambda i: None, None),
    "empty": (lambda i: (), None),
    "dict": (lambda i: {}, None),
}


def next_state(kind, s):
    if kind == "array":
        return jnp.stack([s[0] + 1, s[1] * 0.5])
    if kind in ("scalar", "number"):
        return s + 1
    if kind == "tuple":
        return (s[0], s[1] + 1, ())
    if kind == "named":
        return Pair(s.count + 1, [None, {"even": ~s.rest[1]["even"]}])
    return s


class KindLayer(TableLayer):
    """A layer with a state of the given kind, that does in every iteration what the list of actions says."""

    def __init__(self, case, cfg, inner=None):
        super().__init__(cfg, case["table"], case["u"], [])
        self.case, self.inner, self.kind = case, inner, case["state"]

    def make_controller(self, initial_state, depression_constant, *args, **kwargs):
        # What the accumulators start from depends on the state.
        c, read = super().make_controller(initial_state, depression_constant), STATES[self.kind][1]
        if read is None:
            return c
        start = read(initial_state)
        b = self.new_builder(list(self.cfg["batch"]), epsilon=self.cfg["eps"], depression_constant=c.depression_constant)
        for name, tree in c.accumulators.items():
            b = b.define_accumulator_directly(name, jax.tree_util.tree_map(lambda x: x * (1 + jnp.asarray(start, x.dtype)), tree))
        return b.build()

    def run_iteration(self, controller, state):
        cfg, case, read = self.cfg, self.case, STATES[self.kind][1]
        i = jnp.asarray(read(state)).astype(jnp.int32) if read else jnp.asarray(0, jnp.int32)
        table = jnp.asarray(np.array(self.table, dtype=np.float32).reshape([len(self.table)] + list(cfg["batch"])))
        factor = (i % 4 + 1).astype(jnp.float32)
        if self.inner is not None:
            # An adaptive computation inside of the iteration.
            c, s = self.inner.execute_act(initial_state(), case["inner"]["dc"], i % case["inner"]["max"])
            factor = factor + s["i"] + c.iterations.sum()
        for k, action in enumerate(case["actions"]):
            if action == "reset":
                done = controller.reset_batches()
                # Not for ever, whatever becomes of the limit.
                controller = jax.tree_util.tree_map(lambda a, b: jnp.where(i >= self.backstop, a, b), controller, done)
            elif action == "save":
                controller = api.ACT_Controller.load(controller.save())
            elif action == "view":
                controller = api.ACT_Controller.load(controller.make_viewer().transform(lambda x: x).save())
            elif action == "edit":
                controller = api.TensorEditor.edit_controller(controller, "silence").set_residuals(controller.residuals + 0.25).build()
            else:
                for acc in cfg["accs"]:
                    tree = trees.build(acc["spec"], lambda p, t: api.arr(self.base[acc["name"]][p], "float32") * (factor + k))
                    controller = controller.cache_update(acc["name"], tree)
                controller = controller.iterate_act(jnp.where(i >= self.backstop, 1.0, table[(i + k) % len(self.table)]))
        return controller, next_state(self.kind, state)

    def reference(self, dc, limit, start):
        cfg, case = self.cfg, self.case
        defaults = {a: {p: v * (1 + start) for p, v in t.items()} for a, t in api.all_defaults(cfg).items()}
        m, n = Model(cfg["batch"], cfg["eps"], dc, defaults), 0
        while n < limit and not m.halted.all():
            i = n + start if STATES[self.kind][1] else 0
            factor = i % 4 + 1
            if self.inner is not None:
                im, count = reference(self.inner.cfg, self.inner, case["inner"]["dc"], i % case["inner"]["max"])
                factor += count + im.it.sum()
            for k, action in enumerate(case["actions"]):
                if action == "reset":
                    m.reset()
                elif action == "edit":
                    m.r = m.r + 0.25
                elif action == "step":
                    m.step(self.table[(i + k) % len(self.table)], {a: {p: v * (factor + k) for p, v in t.items()} for a, t in self.base.items()})
            n += 1
        return m, n


@st.composite
def kinds(draw):
    cfg = draw(gen.configs(batch=st.sampled_from([[2], [3], [2, 2], []]), max_accs=2, depth=1, dc=st.just(1.0)))
    n = gen.nbatch(cfg["batch"])
    state = draw(st.sampled_from(sorted(STATES)))
    counts = STATES[state][1] is not None
    pool = st.sampled_from([0.0625, 0.125, 0.1875, 0.25, 0.5, 1.0] + [0.0] * counts)
    actions = draw(st.lists(st.sampled_from(["step", "step", "save", "view", "edit"] + ["reset"] * counts), max_size=3))
    actions.insert(draw(st.integers(0, len(actions))), "step")
    inner = None
    if draw(st.integers(0, 3)) == 3:
        inner = {"cfg": draw(gen.configs(batch=st.sampled_from([[2], []]), max_accs=1, depth=0, dc=st.just(1.0))), "max": draw(st.integers(1, 4)), "dc": draw(st.sampled_from([1.0, 0.5]))}
        inner["table"] = [draw(st.lists(st.sampled_from([0.125, 0.5, 0.0]), min_size=gen.nbatch(inner["cfg"]["batch"]), max_size=gen.nbatch(inner["cfg"]["batch"]))) for _ in range(2)]
    return {"cfg": cfg, "table": [draw(st.lists(pool, min_size=n, max_size=n)) for _ in range(draw(st.integers(1, 4)))], "u": draw(gen.seeds),
            "state": state, "actions": actions, "inner": inner,
            "calls": draw(st.lists(st.tuples(st.sampled_from([1.0, 0.5, 2.0]), st.integers(0, 12), st.booleans(), st.sampled_from([0, 0, 2])), min_size=1, max_size=3)),
            "jit": draw(st.integers(0, 3)) == 0}


def run_kinds(case, ctx):
    inner = None
    if case["inner"]:
        icfg = case["inner"]["cfg"]
        inner = TableLayer(icfg, case["inner"]["table"], case["u"] + 1, [])
    layer = KindLayer(case, case["cfg"], inner)
    make, read = STATES[case["state"]]
    # The same layer, called several times.
    for k, (dc, limit, checks, start) in enumerate(case["calls"]):
        start = start if read else 0
        what = f"call {k} of execute_act ({case['state']} state from {start}, {case['actions']}, limit {limit})"
        cfg = dict(case["cfg"], dc=dc)
        f = lambda s: layer.execute_act(s, depression_constant=dc, max_iterations=limit, check_for_errors=checks)  # noqa: E731,B023
        s0 = make(start)
        c, s = sut(what, jax.jit(f) if case["jit"] else f, s0)
        m, n = layer.reference(dc, limit, start)
        check(isinstance(c, api.ACT_Controller), f"{what} gave {type(c).__name__}")
        api.against_model(c, cfg, m, what)
        want = make(start + n)
        check(jax.tree_util.tree_structure(s) == jax.tree_util.tree_structure(want), lambda: f"{what}: the state is {s}, want {want}")
        for x, y in zip(jax.tree_util.tree_leaves(s), jax.tree_util.tree_leaves(want)):
            check_close(f"{what}: state after {n} iterations", x, y, 1e-3)
        ctx.nontrivial(n >= 2)
        ctx.label("limit", n == limit and not m.halted.all())
    ctx.label(f"{case['state']} state")
    ctx.label("nested layer", case["inner"] is not None)


SUBCHECKS = [SubCheck("layer-kinds", kinds, run_kinds, 40),
             SubCheck("execute-act", cases, run, 90),
             SubCheck("execute-act-x64", lambda: cases(("float64", "float32")), api.wide(run), 20),
             SubCheck("execute-act-half", lambda: cases(("bfloat16",)), run, 30)]
