"""Flax layers that the checks run, and the same computation in numpy."""
import numpy as np
from flax import linen as nn

from . import api

from src.jax_act.frameworks.flax import FlaxACTLayer

jax, jnp = api.jax, api.jnp


class Trace:
    """A plain recorder (Flax would freeze a list)."""

    def __init__(self):
        self.events = []

    def append(self, event):
        self.events.append(event)


class Inner(nn.Module):
    """A submodule that defines its parameters inline."""
    features: int

    @nn.compact
    def __call__(self, x):
        x = nn.tanh(nn.Dense(self.features, name="one")(x))
        return nn.Dense(self.features, name="two")(x)


class PonderLayer(FlaxACTLayer):
    features: int = 3
    outputs: int = 2
    limit: int = 10
    dc: float = 1.0
    eps: float = 1e-4
    checks: bool = True
    inline: bool = False
    tree_state: bool = False
    trace: object = None
    extra: str = ""

    def setup(self):
        if self.extra == "param":
            self.shift = self.param("shift", nn.initializers.normal(0.5), (self.features,))
        elif self.extra == "variable":
            self.shift = self.variable("constants", "shift", lambda: jnp.full((self.features,), 0.25)).value
        elif self.extra == "before":
            self.before = nn.Dense(self.features)
        self.core = Inner(self.features) if self.inline else nn.Dense(self.features)
        self.halt = nn.Dense(1)
        self.out = nn.Dense(self.outputs)

    def make_controller(self, initial_state, depression_constant, *args, **kwargs):
        if self.trace is not None:
            self.trace.append(("make", initial_state, depression_constant, args, dict(kwargs)))
        x = initial_state["x"] if self.tree_state else initial_state
        batch = list(x.shape[:-1])
        b = self.new_builder(batch, epsilon=self.eps, depression_constant=depression_constant)
        b = b.define_accumulator_by_shape("state", list(x.shape))
        b = b.define_accumulator_by_shape("out", {"y": batch + [self.outputs], "n": [batch]}, fill=kwargs.get("fill", 0.0))
        return b.build()

    def run_iteration(self, controller, state):
        x = state["x"] if self.tree_state else state
        if self.extra in ("param", "variable"):
            x = x + self.shift
        x = nn.tanh(self.core(x))
        y = self.out(x)
        hp = nn.sigmoid(self.halt(x))[..., 0]
        controller = controller.cache_update("out", {"y": y, "n": [jnp.ones(x.shape[:-1])]})
        controller = controller.cache_update("state", x)
        controller = controller.iterate_act(hp)
        return controller, ({"x": x, "count": state["count"] + 1} if self.tree_state else x)

    def __call__(self, x, **kwargs):
        return self.ponder(x, **kwargs)

    def ponder(self, x, **kwargs):
        if self.extra == "before":
            x = self.before(x)
        state = {"x": x, "count": jnp.asarray(0, jnp.int32)} if self.tree_state else x
        controller, final = self.execute_act(state, self.dc, self.limit, self.checks, **kwargs)
        return controller, final


class Parent(nn.Module):
    """Uses an ACT layer in the middle of a network, twice if asked."""
    cfg: dict
    twice: bool = False

    @nn.compact
    def __call__(self, x):
        x = nn.Dense(self.cfg["features"], name="pre")(x)
        layer = PonderLayer(**self.cfg, name="act")
        controller, final = layer(x)
        first = controller
        if self.twice:
            controller, final = layer(controller.accumulators["state"])
        return first, controller, nn.Dense(2, name="post")(controller.accumulators["state"])


class State(nn.Module):
    """The state accumulator of an ACT layer."""
    cfg: dict

    @nn.compact
    def __call__(self, x):
        controller, _ = PonderLayer(**self.cfg, name="act")(x)
        return controller.accumulators["state"]


class Scanned(nn.Module):
    cfg: dict

    @nn.compact
    def __call__(self, x, _):
        x = State(self.cfg, name="one")(x)
        return x, x


class Lifted(nn.Module):
    """Runs an ACT layer under one of the lifted transforms of Flax."""
    cfg: dict
    how: str
    times: int = 2

    @nn.compact
    def __call__(self, x):
        if self.how == "scan":
            step = nn.scan(Scanned, variable_broadcast="params", split_rngs={"params": False}, length=self.times)
            return step(self.cfg, name="it")(x, None)[1]
        if self.how == "vmap":
            # Copies with parameters of their own.
            xs = jnp.stack([x * (i + 1) for i in range(self.times)])
            return nn.vmap(State, variable_axes={"params": 0}, split_rngs={"params": True})(self.cfg, name="it")(xs)
        if self.how == "vmap-shared":
            xs = jnp.stack([x * (i + 1) for i in range(self.times)])
            return nn.vmap(State, variable_axes={"params": None}, split_rngs={"params": False})(self.cfg, name="it")(xs)
        lift = {"remat": nn.remat, "jit": nn.jit, "plain": lambda m: m}[self.how]
        return lift(State)(self.cfg, name="it")(x)[None]


class Outer(FlaxACTLayer):
    """An ACT layer whose iterations run another ACT layer."""
    cfg: dict
    limit: int
    attribute: bool

    def setup(self):
        self.inner = PonderLayer(**self.cfg) if self.attribute else State(self.cfg)
        self.halt = nn.Dense(1)

    def make_controller(self, initial_state, depression_constant, *args, **kwargs):
        b = self.new_builder(list(initial_state.shape[:-1]), epsilon=self.cfg["eps"], depression_constant=depression_constant)
        return b.define_accumulator_by_shape("x", list(initial_state.shape)).build()

    def run_iteration(self, controller, x):
        x = self.inner(x)[0].accumulators["state"] if self.attribute else self.inner(x)
        hp = nn.sigmoid(self.halt(x))[..., 0]
        return controller.cache_update("x", x).iterate_act(hp), x

    def __call__(self, x):
        return self.execute_act(x, self.cfg["dc"], self.limit)


class Noisy(FlaxACTLayer):
    """Draws random numbers in its iterations, and writes them down."""
    hp: tuple
    limit: int
    drop: bool = False

    def setup(self):
        self.mix = nn.Dense(3)
        self.dropout = nn.Dropout(0.5, deterministic=False)

    def make_controller(self, initial_state, depression_constant, *args, **kwargs):
        b = self.new_builder(list(initial_state[1].shape[:-1]), depression_constant=depression_constant)
        return b.define_accumulator_by_shape("noise", list(initial_state[1].shape)).build()

    def run_iteration(self, controller, state):
        i, x, book = state
        if self.drop:
            noise = self.dropout(jnp.ones(x.shape[:-1] + (24,)))
        else:
            noise = 0 * self.mix(x) + jax.random.normal(self.make_rng("noise"), x.shape)
        controller = controller.cache_update("noise", noise[..., :3])
        controller = controller.iterate_act(jnp.broadcast_to(jnp.asarray(self.hp)[i % len(self.hp)], x.shape[:-1]))
        return controller, (i + 1, x, book.at[i].set(noise))

    def __call__(self, x):
        width = 24 if self.drop else 3
        book = jnp.zeros((self.limit,) + x.shape[:-1] + (width,))
        return self.execute_act((jnp.asarray(0), x, book), 1.0, self.limit)


class Unfinished(FlaxACTLayer):
    """Forgets setup."""

    def make_controller(self, initial_state, depression_constant, *args, **kwargs):
        b = self.new_builder(list(initial_state.shape[:-1]), depression_constant=depression_constant)
        return b.define_accumulator_by_shape("state", list(initial_state.shape)).build()

    def run_iteration(self, controller, state):
        controller = controller.cache_update("state", state).iterate_act(jnp.ones(state.shape[:-1]))
        return controller, state

    def __call__(self, x):
        return self.execute_act(x)


# -- the same in numpy -------------------------------------------------------------------------

def np_dense(p, x):
    return x @ np.asarray(p["kernel"], dtype=np.float64) + np.asarray(p["bias"], dtype=np.float64)


def np_core(p, x, inline):
    if inline:
        return np_dense(p["two"], np.tanh(np_dense(p["one"], x)))
    return np_dense(p, x)


def np_iteration(params, x, inline, shift=0.0):
    x = np.tanh(np_core(params["core"], x + shift, inline))
    y = np_dense(params["out"], x)
    hp = 1 / (1 + np.exp(-np_dense(params["halt"], x)))[..., 0]
    return x, y, hp


def np_run(m, params, x, limit, inline, shift=0.0):
    """Steps the reference model m; returns the final state and the number of iterations."""
    n = 0
    x = np.asarray(x, dtype=np.float64)
    while n < limit and not m.halted.all():
        x, y, hp = np_iteration(params, x, inline, shift)
        m.step(hp, {"state": {"": x}, "out": {"/y": y, "/n/0": np.ones(x.shape[:-1])}})
        n += 1
    return x, n
