"""The code under test, reached only through its public operations."""
from . import boot  # noqa: F401
import zlib

import jax
import jax.numpy as jnp
import numpy as np

from src.jax_act import (  # noqa: E402
    ACT_Controller,
    ACTStates,
    ACTViewer,
    AbstractACTTemplate,
    AbstractControllerContract,
    ContractValidationWrapper,
    ControllerBuilder,
    Immutable,
    TensorEditor,
)
from src.jax_act.core import utils  # noqa: E402

from . import trees
from .core import check, check_bits, check_close, fail, sut, TOL, f64

DTYPES = {
    "float32": jnp.float32,
    "float16": jnp.float16,
    "bfloat16": jnp.bfloat16,
    "float64": jnp.float64,
}


def arr(values, dtype="float32", shape=None):
    a = np.asarray(values, dtype=np.float64)
    if shape is not None:
        a = a.reshape(tuple(shape))
    return jnp.asarray(a.astype(np.float32) if dtype != "float64" else a).astype(DTYPES[dtype])


def leaf_shape(cfg, trailing):
    return tuple(cfg["batch"]) + tuple(trailing)


def default_values(cfg, acc):
    out = {}
    for path, trailing in trees.leaves(acc["spec"]):
        shape = leaf_shape(cfg, trailing)
        if acc["init"] == "fill":
            out[path] = np.full(shape, acc["fill"], dtype=np.float64)
        else:
            out[path] = trees.content(acc["seed"], "default" + acc["name"] + path, shape, "double" if acc["dtype"] == "float64" else "dyadic") * acc.get("mag", 1)
    return out


def as_numpy(values):
    """Whether an array of these contents is handed over as a numpy array: one in eight is."""
    return zlib.crc32(np.ascontiguousarray(values, dtype=np.float64).tobytes()) % 8 == 0


def given(values, dtype="float32", shape=None):
    a = arr(values, dtype, shape)
    return np.array(a) if as_numpy(values) else a


def value_tree(cfg, acc, values, dtype=None):
    return trees.build(acc["spec"], lambda path, trailing: arr(values[path], dtype or acc["dtype"]))


def update_tree(cfg, acc, values, dtype=None):
    """The same contents as an update; definitions are made of jax arrays only, updates of numpy arrays as well."""
    return trees.build(acc["spec"], lambda path, trailing: given(values[path], dtype or acc["dtype"]))


def define(builder, cfg, acc):
    if acc["init"] == "fill":
        shapes = trees.build(acc["spec"], lambda path, trailing: list(leaf_shape(cfg, trailing)))
        return sut(
            f"define_accumulator_by_shape({acc['name']!r})",
            builder.define_accumulator_by_shape, acc["name"], shapes,
            dtype=DTYPES[acc["dtype"]], fill=acc["fill"],
        )
    return sut(
        f"define_accumulator_directly({acc['name']!r})",
        builder.define_accumulator_directly, acc["name"],
        value_tree(cfg, acc, default_values(cfg, acc)),
    )


def saved_extras(thing):
    """The fields of a save that a snapshot does not have."""
    state = sut("save", thing.save)
    return state.error_mode, float(np.asarray(state.depression_constant))


def constant(value, dtype, tag):
    """A depression constant as it is, as a whole number, as a numpy scalar or as an array, by the tag, of the
    core dtype or of a wider one."""
    k = zlib.crc32(repr((value, tag)).encode()) % 10
    if k == 0 and float(value).is_integer():
        return int(value)
    if k in (1, 2, 3):
        scalar = (np.float32 if dtype != "float64" and k < 3 else np.float64)(value)
        return jnp.asarray(scalar) if k == 2 else scalar
    return value


def threshold(eps, dtype, tag):
    """An epsilon as it is, or as a scalar or an array that is equal to it."""
    other = constant(eps, dtype, tag)
    return other if float(other) == eps else eps


def new_builder(cfg):
    return sut("new_builder", ControllerBuilder.new_builder, list(cfg["batch"]),
               DTYPES[cfg["dtype"]], epsilon=threshold(cfg["eps"], cfg["dtype"], [cfg["batch"], len(cfg["accs"])]),
               depression_constant=constant(cfg["dc"], cfg["dtype"], [a["name"] for a in cfg["accs"]]))


def make_builder(cfg):
    builder = new_builder(cfg)
    for acc in cfg["accs"]:
        builder = define(builder, cfg, acc)
    return builder


def make_controller(cfg):
    return sut("build", make_builder(cfg).build)


def all_defaults(cfg):
    return {a["name"]: default_values(cfg, a) for a in cfg["accs"]}


def update_values(cfg, seed, mode="dyadic"):
    out = {}
    for acc in cfg["accs"]:
        # Where there are doubles, numbers that need all of one.
        how = "double" if acc["dtype"] == "float64" else mode
        out[acc["name"]] = {
            path: trees.content(seed, "update" + acc["name"] + path, leaf_shape(cfg, trailing), how) * acc.get("mag", 1)
            for path, trailing in trees.leaves(acc["spec"])
        }
    return out


def cache_all(c, cfg, values, order=0, dtype=None):
    accs = list(cfg["accs"])
    if order:
        k = order % len(accs) if accs else 0
        accs = accs[k:] + accs[:k]
        if order % 2:
            accs.reverse()
    for acc in accs:
        c = sut(f"cache_update({acc['name']!r})", c.cache_update, acc["name"],
                update_tree(cfg, acc, values[acc["name"]], dtype))
    return c


def step(c, cfg, hp, values, order=0):
    c = cache_all(c, cfg, values, order)
    return sut("iterate_act", c.iterate_act, given(hp, cfg["dtype"], cfg["batch"]))


def read_named(tree_dict, cfg, what):
    check(isinstance(tree_dict, dict), lambda: f"{what} is {type(tree_dict).__name__}")
    names = {a["name"] for a in cfg["accs"]}
    check(set(tree_dict) == names, lambda: f"{what} has names {sorted(tree_dict)}, want {sorted(names)}")
    return {a["name"]: trees.read(tree_dict[a["name"]], a["spec"], f"{what}[{a['name']!r}]") for a in cfg["accs"]}


def wide(run):
    """The same with 64 bit types enabled."""
    def wrapped(case, ctx):
        from jax.experimental import enable_x64
        with enable_x64():
            run(case, ctx)
    return wrapped


class Snap:
    """A deep numpy copy of everything a controller (or viewer) shows."""

    FIELDS = ("p", "r", "it")

    def __init__(self, obj, cfg, pending=None):
        self.p = np.array(sut("probabilities", lambda: obj.probabilities))
        self.r = np.array(sut("residuals", lambda: obj.residuals))
        self.it = np.array(sut("iterations", lambda: obj.iterations))
        view = obj if isinstance(obj, ACTViewer) else sut("make_viewer", obj.make_viewer)
        self.acc = read_named(sut("accumulators", lambda: obj.accumulators), cfg, "accumulators")
        self.defaults = read_named(sut("defaults", lambda: view.defaults), cfg, "defaults")
        ups = sut("updates", lambda: view.updates)
        check(set(ups) == {a["name"] for a in cfg["accs"]}, lambda: f"updates has names {sorted(ups)}")
        # None for an accumulator without a pending update
        self.updates = {}
        for a in cfg["accs"]:
            u = ups[a["name"]]
            self.updates[a["name"]] = None if u is None else trees.read(u, a["spec"], f"updates[{a['name']!r}]")
        self.threshold = float(np.asarray(sut("halt_threshold", lambda: obj.halt_threshold)))
        self.halted = np.array(sut("halted_batches", lambda: obj.halted_batches))
        self.dc = None
        if isinstance(obj, ACT_Controller):
            self.dc = float(np.asarray(sut("depression_constant", lambda: obj.depression_constant)))
        elif isinstance(obj, ACTViewer):
            # A view shows it only to those who load its save.
            self.dc = float(np.asarray(sut("load(view.save())", lambda: ACT_Controller.load(obj.save()).depression_constant)))

    def same(self, other, what, values_only=False):
        """Bitwise comparison."""
        check_bits(f"{what}: probabilities", self.p, other.p)
        check_bits(f"{what}: residuals", self.r, other.r)
        check_bits(f"{what}: iterations", self.it, other.it)
        check_bits(f"{what}: halted batches", self.halted, other.halted)
        for label, a, b in (("accumulators", self.acc, other.acc), ("defaults", self.defaults, other.defaults),
                            ("updates", self.updates, other.updates)):
            check(set(a) == set(b), lambda: f"{what}: {label} names differ: {sorted(a)} / {sorted(b)}")
            for n in a:
                if a[n] is None or b[n] is None:
                    check(a[n] is None and b[n] is None, lambda: f"{what}: {label}[{n!r}] pending on one side only")
                    continue
                check(set(a[n]) == set(b[n]), lambda: f"{what}: {label}[{n!r}] leaves differ")
                for k in a[n]:
                    check_bits(f"{what}: {label}[{n!r}]{k}", a[n][k], b[n][k])
        check(abs(self.threshold - other.threshold) < 1e-6,
              lambda: f"{what}: halt threshold {self.threshold} / {other.threshold}")
        if self.dc is not None and other.dc is not None:
            check(abs(self.dc - other.dc) < 1e-6, lambda: f"{what}: depression constant {self.dc} / {other.dc}")

    def near(self, other, what, tol):
        check_close(f"{what}: probabilities", self.p, other.p, tol)
        check_close(f"{what}: residuals", self.r, other.r, tol)
        check_close(f"{what}: iterations", self.it, other.it, tol)
        check_bits(f"{what}: halted batches", self.halted, other.halted)
        for label, a, b in (("accumulators", self.acc, other.acc), ("defaults", self.defaults, other.defaults),
                            ("updates", self.updates, other.updates)):
            check(set(a) == set(b), lambda: f"{what}: {label} names differ")
            for n in a:
                if a[n] is None or b[n] is None:
                    check(a[n] is None and b[n] is None, lambda: f"{what}: {label}[{n!r}] pending on one side only")
                    continue
                for k in a[n]:
                    check(a[n][k].dtype == b[n][k].dtype, lambda: f"{what}: {label}[{n!r}]{k} dtype {a[n][k].dtype} / {b[n][k].dtype}")
                    check_close(f"{what}: {label}[{n!r}]{k}", a[n][k], b[n][k], tol)
        if self.dc is not None and other.dc is not None:
            check(abs(self.dc - other.dc) < 1e-6, lambda: f"{what}: depression constant {self.dc} / {other.dc}")


def snap(obj, cfg):
    return Snap(obj, cfg)


def against_model(c, cfg, m, what, pending=None):
    """Compare everything observable on the controller with the reference model."""
    s = Snap(c, cfg)
    tol = TOL[cfg["dtype"]]
    batch = tuple(cfg["batch"])
    for label, got, want in (("probabilities", s.p, m.p), ("residuals", s.r, m.r), ("iterations", s.it, m.it)):
        check(got.shape == batch, lambda: f"{what}: {label} has shape {got.shape}, batch is {batch}")
        check(str(got.dtype) == cfg["dtype"], lambda: f"{what}: {label} has dtype {got.dtype}")
        check_close(f"{what}: {label}", got, want, tol)
    # Sums of what is not negative: small ones are as accurate as any.
    check(bool(np.all(np.abs(f64(s.p) - m.p) <= tol * m.p + 1e-30)), lambda: f"{what}: probabilities: got {f64(s.p).tolist()} want {m.p.tolist()}")
    halted = m.halted
    check(s.halted.shape == batch and s.halted.dtype == np.bool_,
          lambda: f"{what}: halted_batches is {s.halted.dtype}{s.halted.shape}")
    check(bool(np.all(s.halted == halted)), lambda: f"{what}: halted batches {s.halted.tolist()} want {halted.tolist()}")
    allh = bool(np.asarray(sut("is_completely_halted", lambda: c.is_completely_halted)))
    anyh = bool(np.asarray(sut("is_any_halted", lambda: c.is_any_halted)))
    check(allh == bool(np.all(halted)), lambda: f"{what}: is_completely_halted {allh}, halted {halted.tolist()}")
    check(anyh == bool(np.any(halted)), lambda: f"{what}: is_any_halted {anyh}, halted {halted.tolist()}")
    check(abs(s.threshold - m.threshold) < 1e-6, lambda: f"{what}: halt_threshold {s.threshold} want {m.threshold}")
    check(abs(s.dc - m.dc) < 1e-6, lambda: f"{what}: depression_constant {s.dc} want {m.dc}")
    for acc in cfg["accs"]:
        n = acc["name"]
        atol, mag = max(tol, TOL[acc["dtype"]]), acc.get("mag", 1)
        for path, want in m.acc[n].items():
            got = s.acc[n][path]
            check(str(got.dtype) == acc["dtype"], lambda: f"{what}: accumulator {n!r}{path} became {got.dtype}")
            check_close(f"{what}: accumulator {n!r}{path}", f64(got) / mag, want / mag, atol)
        for path, want in m.defaults[n].items():
            check_close(f"{what}: default {n!r}{path}", f64(s.defaults[n][path]) / mag, want / mag, TOL[acc["dtype"]])
        item = sut("controller[name]", lambda: c[n])
        for path, v in trees.read(item, acc["spec"], f"controller[{n!r}]").items():
            check_bits(f"{what}: controller[{n!r}]{path}", v, s.acc[n][path])
    pending = pending or {}
    for n, u in s.updates.items():
        if n in pending:
            check(u is not None, lambda: f"{what}: the pending update of {n!r} disappeared")
            for path, want in pending[n].items():
                check_close(f"{what}: pending update {n!r}{path}", u[path], want, tol)
        else:
            check(u is None, lambda: f"{what}: an update of {n!r} is pending, but none should be")
    return s
