"""C07: the update protocol - every misuse is refused, nothing is half applied, flags tell the truth."""
import jax
import numpy as np
from hypothesis import strategies as st

from .. import api, gen, trees
from ..core import SubCheck, check, fail, must_raise
from ..model import Model

RULE = """A case is a controller and a sequence of protocol operations, legal and illegal: caching
(any subset, any order), caching twice, caching under an unknown name, looking up an unknown name,
stepping with missing updates, with a halting-probability array of a wrong but often broadcastable shape,
or with an update that has one leaf of a wrong shape or a different number of leaves, resetting while updates
are pending, and legal steps and resets. A model says which are legal; after every operation flags,
pending updates and all state are compared with it. (protocol-traced) The same with everything under jit: refusals
and flags while it is traced, all state at the end. Non-trivial: at least one illegal operation was
attempted while some update was pending, and at least one legal step was completed. (x64) The same with 64 bit types enabled and, most of the time, everything of float64."""


def hp_variants(batch):
    out = [batch + [1], [1] + batch, batch + [2], [n + 1 for n in batch], [gen.nbatch(batch)],
           [1] * len(batch), [], batch[::-1], batch[1:], batch[:-1]]
    return [v for i, v in enumerate(out) if v != batch and v not in out[:i]]


def leaf_variants(shape):
    shape = list(shape)
    out = [shape + [1], [1] + shape, shape + [2], shape[:-1], shape[1:]]
    for i, n in enumerate(shape):
        if n != 1:
            out.append(shape[:i] + [1] + shape[i + 1:])
        out.append(shape[:i] + [n + 1] + shape[i + 1:])
    out.append(shape[::-1])
    return [v for i, v in enumerate(out) if v != shape and v not in out[:i]]


@st.composite
def cases(draw, dtypes=("float32",)):
    cfg = draw(gen.configs(dtypes=dtypes, max_accs=3, empties=True, mags=True))
    kinds = ["cache"] * 7 + ["commit"] * 4 + ["again", "unknown", "getunknown", "badhp", "badhp", "badupdate", "badupdate",
                                              "leafcount", "reset", "reset", "fill"]
    ops = []
    for _ in range(draw(st.integers(2, 14))):
        kind = draw(st.sampled_from(kinds))
        op = {"op": kind, "i": draw(st.integers(0, 11)), "u": draw(gen.seeds)}
        if kind in ("commit", "badhp", "badupdate", "leafcount"):
            op["hp"] = draw(gen.hps(cfg["batch"]))
        ops.append(op)
    return {"cfg": cfg, "ops": ops}


def run_traced(case, ctx):
    """The same protocol while everything is traced: refusals and flags are matters of structure, known then."""
    run(case, ctx, traced=True)


def run(case, ctx, traced=False):
    cfg = case["cfg"]
    names = [a["name"] for a in cfg["accs"]]
    by_name = {a["name"]: a for a in cfg["accs"]}
    start = api.make_controller(cfg)
    m = Model(cfg["batch"], cfg["eps"], cfg["dc"], api.all_defaults(cfg))
    pending = {}
    objects = {}
    illegal_while_pending = steps = 0

    def value_of(name, seed, values=None):
        values = values or api.update_values(cfg, seed)[name]
        return api.value_tree(cfg, by_name[name], values)

    def completed(c, seed):
        """c with everything that is missing cached, and the values of all updates."""
        values = dict(pending)
        for n in names:
            if n not in values:
                values[n] = api.update_values(cfg, seed)[n]
                c = api.sut("cache_update", c.cache_update, n, value_of(n, 0, values[n]))
        return c, values

    def state(what):
        if not traced:
            api.against_model(c, cfg, m, what, pending)
        has = bool(api.sut("has_cached_updates", lambda: c.has_cached_updates))
        ready = bool(api.sut("updates_ready_to_commit", lambda: c.updates_ready_to_commit))
        check(has == bool(pending), lambda: f"{what}: has_cached_updates is {has}, pending are {sorted(pending)}")
        check(ready == (len(pending) == len(names)), lambda: f"{what}: updates_ready_to_commit is {ready}, pending are {sorted(pending)}")

    def protocol(controller):
        nonlocal c, pending, illegal_while_pending, steps
        c = controller
        state("fresh")
        for i, op in enumerate(case["ops"]):
            kind = op["op"]
            what = f"op {i} ({kind})"
            name = names[op["i"] % len(names)]
            missing = [n for n in names if n not in pending]
            refused = True
            if kind == "cache" or kind == "fill":
                todo = missing if kind == "fill" else [name]
                if kind == "cache" and name in pending:
                    must_raise(f"{what}: caching {name!r} twice", RuntimeError, c.cache_update, name, value_of(name, op["u"]))
                else:
                    for n in todo:
                        pending[n] = api.update_values(cfg, op["u"])[n]
                        objects[n] = value_of(n, 0, pending[n])
                        c = api.sut("cache_update", c.cache_update, n, objects[n])
                    refused = False
            elif kind == "again":
                if pending:
                    again = sorted(pending)[op["i"] % len(pending)]
                    must_raise(f"{what}: caching {again!r} twice", RuntimeError, c.cache_update, again, value_of(again, op["u"]))
                    must_raise(f"{what}: caching the same object for {again!r} twice", RuntimeError, c.cache_update, again, objects[again])
                    must_raise(f"{what}: caching the same values for {again!r} twice", RuntimeError, c.cache_update, again, value_of(again, 0, pending[again]))
                    must_raise(f"{what}: caching None for {again!r}, which is pending", RuntimeError, c.cache_update, again, None)
            elif kind in ("unknown", "getunknown"):
                bad = [n for n in ["nope", names[0] + " ", names[0] + "x", "State", "accumulators", "probabilities", names[-1][:-1]] if n not in names]
                bad = bad[op["i"] % len(bad)]
                if kind == "unknown":
                    must_raise(f"{what}: caching under the unknown name {bad!r}", ValueError, c.cache_update, bad, value_of(name, op["u"]))
                else:
                    must_raise(f"{what}: controller[{bad!r}]", KeyError, lambda: c[bad])
            elif kind == "commit":
                hp = api.arr(op["hp"], cfg["dtype"], cfg["batch"])
                if missing:
                    must_raise(f"{what}: a step without updates for {missing}", RuntimeError, c.iterate_act, hp)
                else:
                    c = api.sut("iterate_act", c.iterate_act, hp)
                    m.step(op["hp"], pending)
                    pending = {}
                    steps += 1
                    refused = False
            elif kind == "badhp":
                variants = hp_variants(cfg["batch"])
                shape = variants[op["i"] % len(variants)]
                full, _ = completed(c, op["u"])
                must_raise(f"{what}: halting probabilities of shape {shape} for batch {cfg['batch']}", ValueError, full.iterate_act,
                           api.arr(np.full(shape, 0.25), cfg["dtype"]))
                must_raise(f"{what}: halting probabilities of shape {shape}", (ValueError, RuntimeError), c.iterate_act,
                           api.arr(np.full(shape, 0.25), cfg["dtype"]))
            elif kind in ("badupdate", "leafcount"):
                if name in pending:
                    continue
                acc = by_name[name]
                good = api.update_values(cfg, op["u"])[name]
                paths = [p for p, _ in trees.leaves(acc["spec"])]
                if not paths:
                    kind = "leafcount"
                    good = {"": trees.content(op["u"], "bad", cfg["batch"])}
                target = paths[op["u"] % len(paths)] if paths else ""
                if kind == "badupdate":
                    variants = leaf_variants(good[target].shape)
                    shape = variants[op["i"] % len(variants)]
                    bad = dict(good)
                    bad[target] = trees.content(op["u"], "bad", shape)
                    tree = api.value_tree(cfg, acc, bad)
                    text = f"{what}: an update whose leaf {target or '/'} has shape {shape} instead of {good[target].shape}"
                else:
                    tree = [value_of(name, 0, good), api.arr(good[target])] if paths and (op["i"] % 2 or len(paths) < 2) else api.arr(good[target])
                    text = f"{what}: an update with another number of leaves"
                others = {n: v for n, v in completed(c, op["u"])[1].items() if n != name}
                try:
                    full = c.cache_update(name, tree)
                except (RuntimeError, ValueError, TypeError):
                    full = None
                except Exception as err:  # noqa: BLE001
                    fail(f"{text} made cache_update raise {type(err).__name__}")
                if full is not None:
                    for n in names:
                        if n != name and n not in pending:
                            full = api.sut("cache_update", full.cache_update, n, value_of(n, 0, others[n]))
                    must_raise(text, RuntimeError, full.iterate_act, api.arr(op["hp"], cfg["dtype"], cfg["batch"]))
            elif kind == "reset":
                if pending:
                    must_raise(f"{what}: a reset while {sorted(pending)} are pending", RuntimeError, c.reset_batches)
                else:
                    c = api.sut("reset_batches", c.reset_batches)
                    m.reset()
                    refused = False
            if refused and pending:
                illegal_while_pending += 1
                ctx.label(f"refused {kind} while pending")
            state(what)
        return c

    c = None
    if traced:
        c = api.sut("the protocol under jit", jax.jit(protocol), start)
        api.against_model(c, cfg, m, "what the protocol under jit returned", pending)
    else:
        protocol(start)
    ctx.nontrivial(bool(illegal_while_pending and steps))


SUBCHECKS = [SubCheck("protocol", cases, run, 150), SubCheck("protocol-x64", lambda: cases(("float64", "float64", "float32")), api.wide(run), 40),
             SubCheck("protocol-traced", cases, run_traced, 60)]
