"""C18: with checking on every breach of the layer contract is reported; conforming layers are never disturbed."""
import collections

from hypothesis import strategies as st

from .. import api, gen
from ..core import SubCheck, check, must_raise, sut
from ..layers import TableLayer, initial_state

jax, jnp = api.jax, api.jnp

RULE = """A case is a layer that conforms, or breaches the contract in one of fifteen ways in making its controller or in one of its iterations (a wrong type, a wrong number of results, the
controller it was given, any subset of updates left uncommitted on top of committed ones), run through the
validating wrapper call by call and through execute_act, with checking on and off. With checking on a breach must
raise, at the call that commits it; otherwise results come through untouched. Non-trivial: the layer breaches the contract, or conforms with checking on for
two or more iterations."""

MAKE = ["builder", "none", "viewer", "pair", "state", "empty"]
OK = ["ok", "ok", "ok", "ok_named", "ok_special"]
ITER = ["list", "controller_only", "triple", "single", "swapped", "builder_first", "none", "same", "cached_only", "partial_after", "all_after", "viewer_first"]


@st.composite
def cases(draw):
    cfg = draw(gen.configs(batch=st.sampled_from([[2], [3], [2, 2]]), max_accs=3, min_accs=1, depth=1, empties=True))
    breach = draw(st.sampled_from(OK + MAKE + ITER))
    n = gen.nbatch(cfg["batch"])
    return {"cfg": cfg, "breach": breach, "at": draw(st.integers(0, 2)), "u": draw(gen.seeds), "checks": draw(st.booleans()),
            "table": [draw(st.lists(st.sampled_from([0.0, 0.125, 0.25, 0.5]), min_size=n, max_size=n)) for _ in range(3)],
            "subset": draw(st.integers(1, 2 ** len(cfg["accs"]) - 1)), "execute": draw(st.booleans())}


Result = collections.namedtuple("Result", ["controller", "state"])


@jax.tree_util.register_pytree_node_class
class Special(api.ACT_Controller):
    """A controller is one as well when its class is derived from it."""

    def tree_flatten(self):
        return (self.save(),), None

    @classmethod
    def tree_unflatten(cls, aux, children):
        return cls.load(children[0])


class Misbehaving(TableLayer):
    breach, at, subset = "ok", 0, 1

    def make_controller(self, *a, **k):
        c = super().make_controller(*a, **k)
        if self.breach == "ok_special":
            c = Special.load(c.save())
        b = self.breach
        self.made = {"builder": lambda: self.new_builder(list(self.cfg["batch"])), "none": lambda: None if b in MAKE else c,
                     "viewer": c.make_viewer, "pair": lambda: (c, a[0]), "state": c.save,
                     "empty": lambda: self.new_builder(list(self.cfg["batch"])).build()}.get(b if self.in_make else "", lambda: c)()
        return self.made

    in_make = False
    calls = 0

    def run_iteration(self, controller, state):
        new, s = super().run_iteration(controller, state)
        now, self.calls = self.calls, self.calls + 1
        b = self.breach
        if self.in_make or b in OK or now != self.at:
            if b == "ok_special":
                new = Special.load(new.save())
            self.result = Result(new, s) if b == "ok_named" else (new, s)
            return self.result

        def cached(c, bits):
            for j, acc in enumerate(self.cfg["accs"]):
                if bits >> j & 1:
                    c = c.cache_update(acc["name"], api.value_tree(self.cfg, acc, self.base[acc["name"]]))
            return c

        full = 2 ** len(self.cfg["accs"]) - 1
        self.result = {
            "list": lambda: [new, s], "controller_only": lambda: new, "triple": lambda: (new, s, s), "single": lambda: (new,),
            "swapped": lambda: (s, new), "builder_first": lambda: (self.new_builder(list(self.cfg["batch"])), s), "none": lambda: None,
            "same": lambda: (controller, s), "cached_only": lambda: (cached(controller, self.subset), s),
            "partial_after": lambda: (cached(new, self.subset), s), "all_after": lambda: (cached(new, full), s),
            "viewer_first": lambda: (new.make_viewer(), s),
        }[b]()
        return self.result


def run(case, ctx):
    cfg, breach = case["cfg"], case["breach"]
    in_make = breach in MAKE and (breach != "none" or case["u"] % 2 == 0)
    layer = Misbehaving(cfg, case["table"], case["u"])
    layer.breach, layer.at, layer.subset, layer.in_make = breach, case["at"], case["subset"], in_make
    s0 = initial_state(1)
    checks = case["checks"]
    what = f"breach {breach!r}, checking {'on' if checks else 'off'}"
    wrapper = sut("ContractValidationWrapper", api.ContractValidationWrapper, layer, checks)
    bad_make = in_make and breach not in OK
    if bad_make and checks:
        must_raise(f"{what}: make_controller", (TypeError, RuntimeError), wrapper.make_controller, s0, 1.0)
    else:
        c = sut(f"{what}: make_controller", wrapper.make_controller, s0, 1.0)
        check(c is layer.made, f"{what}: make_controller did not hand on what the layer made")
        if not bad_make:
            s = s0
            for i in range(4):
                breaking = breach in ITER and not in_make and i == case["at"]
                if breaking and checks:
                    must_raise(f"{what}: iteration {i}", (TypeError, RuntimeError), wrapper.run_iteration, c, s)
                    break
                out = sut(f"{what}: iteration {i}", wrapper.run_iteration, c, s)
                check(out is layer.result or (isinstance(out, tuple) and isinstance(layer.result, tuple) and len(out) == len(layer.result)
                                              and all(a is b for a, b in zip(out, layer.result))), f"{what}: the result of iteration {i} was replaced")
                if breaking:
                    break
                c, s = out
    if case["execute"]:
        layer.calls = 0
        layer.at = 0  # a loop body is traced once
        if breach in OK:
            c, s = sut(f"{what}: execute_act", layer.execute_act, s0, 1.0, 4, checks)
            check(1 <= int(s["i"]) <= 4, f"{what}: execute_act made {int(s['i'])} iterations")
            check(not bool(c.has_cached_updates), f"{what}: updates left over")
        elif checks:
            must_raise(f"{what}: execute_act", (TypeError, RuntimeError), layer.execute_act, s0, 1.0, 4, True)
            layer.calls = 0
            must_raise(f"{what}: execute_act with checks by default", (TypeError, RuntimeError), layer.execute_act, s0)
    ctx.nontrivial(breach not in OK or checks)
    ctx.label(f"{breach}/{'on' if checks else 'off'}")


SUBCHECKS = [SubCheck("contract", cases, run, 130)]
