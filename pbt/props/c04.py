"""C04: batch elements are independent, and only the index of an element in the batch matters."""
import numpy as np
from hypothesis import strategies as st

from .. import api, gen, trees
from ..core import SubCheck, TOL, check, check_bits, check_close

RULE = """A case runs one history (steps and resets) on a batch and runs it again on a batch
gathered from the first by a generated index map: a permutation, a single element, a sub-batch, a
batch with repeated elements, or the same elements in another batch shape or rank. Results must be the
gathered results. Non-trivial: elements of the gathered batch halted at different steps, or
some halted and some did not. (x64) The same with 64 bit types enabled and, most of the time, everything of float64. One controller in sixteen has no accumulators."""


@st.composite
def cases(draw, dtypes=("float32",)):
    cfg = draw(gen.configs(dtypes=dtypes, bare=True, batch=st.sampled_from([[2], [3], [4], [2, 3], [2, 2], [5], [3, 1], [2, 1, 2], [2, 1, 1, 2], [1, 1, 2, 1, 2], [0, 2]]), max_accs=2))
    n = gen.nbatch(cfg["batch"])
    target = draw(st.sampled_from([cfg["batch"], [n], [], [1], [2], [3], [2, 2], [1, 2], [3, 1], [1, 3], [1, 2, 1, 2], [1, 1, 1, 3, 1]]))
    if not n:
        target = draw(st.sampled_from([[0], [0, 2], [2, 0]]))
    m = gen.nbatch(target)
    if m == n and draw(st.booleans()):
        idx = draw(st.permutations(list(range(n)))) if draw(st.booleans()) else list(range(n))
    else:
        idx = draw(st.lists(st.integers(0, max(0, n - 1)), min_size=m, max_size=m))
    ops = draw(gen.histories(cfg["batch"], draw(st.sampled_from(["dyadic", "dyadic", "float"])), extra=("reset", "view"), max_size=8))
    return {"cfg": cfg, "target": target, "idx": idx, "ops": ops}


def gather(a, batch, target, idx):
    a = np.asarray(a)
    trail = a.shape[len(batch):]
    return a.reshape((gen.nbatch(batch),) + trail)[np.asarray(idx, dtype=int)].reshape(tuple(target) + trail)


def build_direct(cfg, batch, values):
    b = api.sut("new_builder", api.ControllerBuilder.new_builder, list(batch), api.DTYPES[cfg["dtype"]],
                epsilon=cfg["eps"], depression_constant=cfg["dc"])
    for acc in cfg["accs"]:
        b = api.sut("define_accumulator_directly", b.define_accumulator_directly, acc["name"],
                    api.value_tree(cfg, acc, values[acc["name"]]))
    return api.sut("build", b.build)


def run(case, ctx):
    cfg, target, idx = case["cfg"], case["target"], case["idx"]
    batch = cfg["batch"]
    tcfg = dict(cfg, batch=target)
    g = lambda a: gather(a, batch, target, idx)  # noqa: E731
    gt = lambda t: {n: {k: g(v) for k, v in u.items()} for n, u in t.items()}  # noqa: E731
    defaults = api.all_defaults(cfg)
    one = build_direct(cfg, batch, defaults)
    two = build_direct(cfg, target, gt(defaults))
    tol = TOL[cfg["dtype"]]
    for i, op in enumerate(case["ops"]):
        what = f"op {i} ({op['op']})"
        if op["op"] == "step":
            values = api.update_values(cfg, op["u"])
            one = api.step(one, cfg, op["hp"], values, op["order"])
            two = api.step(two, tcfg, g(np.asarray(op["hp"]).reshape(batch)), gt(values), op["order"])
        elif op["op"] == "reset":
            one = api.sut("reset_batches", one.reset_batches)
            two = api.sut("reset_batches", two.reset_batches)
        else:
            for which in ("halted_only", "unhalted_only"):
                v1 = api.snap(api.sut(which, getattr(api.sut("make_viewer", one.make_viewer), which)), cfg)
                v2 = api.snap(api.sut(which, getattr(api.sut("make_viewer", two.make_viewer), which)), tcfg)
                compare(f"{what} {which}", v1, v2, g, tol)
        a, b = api.snap(one, cfg), api.snap(two, tcfg)
        compare(what, a, b, g, tol)
        h = b.halted
        ctx.nontrivial(bool(h.any() and (not h.all() or len(set(b.it.reshape(-1).tolist())) > 1)))
        ctx.label("shape changed", list(target) != list(batch))
        ctx.label("scalar batch", target == [])


def compare(what, a, b, g, tol):
    check_close(f"{what}: probabilities", b.p, g(a.p), tol)
    check_close(f"{what}: residuals", b.r, g(a.r), tol)
    check_close(f"{what}: iterations", b.it, g(a.it), tol)
    check_bits(f"{what}: halted", b.halted, g(a.halted))
    for label, x, y in (("accumulators", a.acc, b.acc), ("defaults", a.defaults, b.defaults)):
        for n in x:
            check(set(x[n]) == set(y[n]), f"{what}: {label} leaves differ")
            for k in x[n]:
                check_close(f"{what}: {label}[{n!r}]{k}", y[n][k], g(x[n][k]), tol)


SUBCHECKS = [SubCheck("gathered-batch", cases, run, 150), SubCheck("gathered-x64", lambda: cases(("float64", "float64", "float32")), api.wide(run), 40)]
