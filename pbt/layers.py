"""Layers that the checks run through execute_act.  Their behaviour is a table, so that the
number of iterations is known, and every loop ends even if the code under test ignores its limits:
past the table the halting probability is one."""
import numpy as np

from . import api, trees

jax, jnp = api.jax, api.jnp


class TableLayer(api.AbstractACTTemplate):
    """State: {"i": iteration counter, "x": (array, [array])}."""

    def __init__(self, cfg, table, useed, log=None, saved=None, mode="ok", backstop=60):
        self.cfg = cfg
        self.table = table          # list of per-step flat probability lists
        self.useed = useed
        self.log = log if log is not None else []
        self.saved = saved
        self.backstop = backstop
        self.base = api.update_values(cfg, useed)

    # -- the contract ------------------------------------------------------------------
    def make_controller(self, initial_state, depression_constant, *args, **kwargs):
        self.log.append(("make", initial_state, depression_constant, args, dict(kwargs)))
        if self.saved is not None:
            return self.saved
        cfg = dict(self.cfg)
        b = self.new_builder(list(cfg["batch"]), api.DTYPES[cfg["dtype"]], epsilon=cfg["eps"],
                             depression_constant=depression_constant)
        for acc in cfg["accs"]:
            values = api.default_values(cfg, acc)
            b = b.define_accumulator_directly(acc["name"], api.value_tree(cfg, acc, values))
        return b.build()

    def setup_lazy_parameters(self, controller, state):
        self.log.append(("lazy", controller, state))

    def run_iteration(self, controller, state):
        cfg = self.cfg
        i = state["i"]
        n = len(self.table)
        table = jnp.asarray(np.array(self.table, dtype=np.float64 if cfg["dtype"] == "float64" else np.float32).reshape([n] + list(cfg["batch"])))
        hp = jnp.where(i >= self.backstop, 1.0, table[i % n]).astype(api.DTYPES[cfg["dtype"]])
        x, (y,) = state["x"]
        x = x * 0.5 + 1
        y = y + x.sum()
        factor = i % 4 + 1
        for acc in cfg["accs"]:
            tree = trees.build(acc["spec"], lambda p, t: (api.arr(self.base[acc["name"]][p], "float64" if acc["dtype"] == "float64" else "float32") * factor).astype(api.DTYPES[acc["dtype"]]))
            controller = controller.cache_update(acc["name"], tree)
        return controller.iterate_act(hp), {"i": i + 1, "x": (x, [y])}

    # -- the same in numpy, for the reference ----------------------------------------------
    def values(self, i):
        f = i % 4 + 1
        return {n: {p: v * f for p, v in t.items()} for n, t in self.base.items()}

    def hp(self, i):
        return self.table[i % len(self.table)] if i < self.backstop else [1.0] * len(self.table[0])


def initial_state(k=0):
    return {"i": jnp.asarray(0, jnp.int32), "x": (jnp.asarray([1.0, k, -2.0], jnp.float32), [jnp.asarray(0.25, jnp.float32)])}


def state_after(n, k=0):
    x = np.array([1.0, k, -2.0])
    y = 0.25
    for _ in range(n):
        x = x * 0.5 + 1
        y = y + x.sum()
    return n, x, y
