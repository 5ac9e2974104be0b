"""C05: accumulators are independent of each other, of naming, ordering and pytree layout."""
import numpy as np
from hypothesis import strategies as st

from .. import api, gen, trees
from ..model import Model
from ..core import SubCheck, TOL, check, check_bits, check_close

RULE = """A case runs one history on a controller with two to four accumulators and again on a variant
with the same data: only one of the accumulators defined, accumulators renamed and defined and cached
in another order, every leaf of a container made an accumulator of its own, or all accumulators
packed into a single container; dictionaries of its updates have their keys inserted in any order. Shared data must come out the same, as must probabilities,
residuals and iterations. A second sub-check hands the same array object to several leaves, accumulators and defaults, gives the
halting probabilities and earlier accumulators as updates, and compares with the reference model. Non-trivial: the variant differs from the original and at least one element
accumulated over two or more steps. (x64) The same with 64 bit types enabled and, most of the time, everything of float64."""


@st.composite
def cases(draw, dtypes=("float32",)):
    cfg = draw(gen.configs(dtypes=dtypes, min_accs=2, max_accs=4, mags=True, batch=st.sampled_from([[2], [3], [2, 2], [], [2, 3]])))
    kind = draw(st.sampled_from(["single", "rename", "split", "pack"]))
    ops = draw(gen.histories(cfg["batch"], "dyadic", extra=("reset",), min_size=2, max_size=6))
    return {
        "cfg": cfg, "kind": kind, "ops": ops,
        "pick": draw(st.integers(0, len(cfg["accs"]) - 1)),
        "perm": draw(st.permutations(list(range(len(cfg["accs"]))))),
        "container": draw(st.sampled_from(["l", "t", "d"])),
        "order": draw(st.integers(0, 3)),
    }


def variant(case):
    """Returns [(new accumulator name, spec, {new path: (old name, old path)})]."""
    accs = case["cfg"]["accs"]
    if case["kind"] == "single":
        a = accs[case["pick"]]
        return [(a["name"], a["spec"], {p: (a["name"], p) for p, _ in trees.leaves(a["spec"])}, a["dtype"])]
    if case["kind"] == "rename":
        out = []
        for j in case["perm"]:
            a = accs[j]
            # Reverses the alphabetical order of the names.
            name = "".join(chr(max(32, 158 - ord(ch))) for ch in a["name"]) + f"~{len(accs) - j}"
            out.append((name, a["spec"], {p: (a["name"], p) for p, _ in trees.leaves(a["spec"])}, a["dtype"]))
        return out
    if case["kind"] == "split":
        out = []
        for a in accs:
            for p, trailing in trees.leaves(a["spec"]):
                out.append((a["name"] + "|" + p, ["L", trailing], {"": (a["name"], p)}, a["dtype"]))
        out.reverse()
        return out
    mapping, subs = {}, []
    for j in case["perm"]:
        a = accs[j]
        key = f"q{j}" if case["container"] == "d" else str(len(subs))
        subs.append([key, a["spec"]] if case["container"] == "d" else a["spec"])
        for p, _ in trees.leaves(a["spec"]):
            mapping[f"/{key}{p}"] = (a["name"], p)
    return [("packed", [case["container"], subs], mapping, accs[0]["dtype"])]


def run(case, ctx):
    cfg = case["cfg"]
    var = variant(case)
    vcfg = dict(cfg, accs=[{"name": n, "spec": s, "dtype": d, "init": "direct", "seed": 0} for n, s, _, d in var])
    defaults = api.all_defaults(cfg)
    pull = lambda values: {n: {p: values[o][q] for p, (o, q) in m.items()} for n, _, m, _ in var}  # noqa: E731
    one = api.make_controller(cfg)
    b = api.new_builder(cfg)
    dv = pull(defaults)
    for acc in vcfg["accs"]:
        b = api.sut("define_accumulator_directly", b.define_accumulator_directly, acc["name"],
                    api.value_tree(vcfg, acc, dv[acc["name"]]))
    two = api.sut("build", b.build)
    tol = TOL[cfg["dtype"]]
    for i, op in enumerate(case["ops"]):
        what = f"{case['kind']} variant, op {i} ({op['op']})"
        if op["op"] == "step":
            values = api.update_values(cfg, op["u"])
            one = api.step(one, cfg, op["hp"], values, op["order"])
            rng = np.random.default_rng(op["u"])
            given = dict(vcfg, accs=[dict(a, spec=trees.shuffled(a["spec"], rng)) for a in vcfg["accs"]])
            two = api.step(two, given, op["hp"], pull(values), op["order"] + case["order"])
        else:
            one = api.sut("reset_batches", one.reset_batches)
            two = api.sut("reset_batches", two.reset_batches)
        a, b2 = api.snap(one, cfg), api.snap(two, vcfg)
        check_close(f"{what}: probabilities", b2.p, a.p, tol)
        check_close(f"{what}: residuals", b2.r, a.r, tol)
        check_close(f"{what}: iterations", b2.it, a.it, tol)
        check_bits(f"{what}: halted", b2.halted, a.halted)
        for n, _, m, _ in var:
            for p, (o, q) in m.items():
                check_close(f"{what}: {n!r}{p} against {o!r}{q}", b2.acc[n][p], a.acc[o][q], tol)
                check_close(f"{what}: default {n!r}{p} against {o!r}{q}", b2.defaults[n][p], a.defaults[o][q], tol)
        ctx.nontrivial(bool((a.it >= 2).any()))
        ctx.label(case["kind"])


@st.composite
def alias_cases(draw):
    batch = draw(st.sampled_from([[2], [3], [2, 2], [4]]))
    cfg = draw(gen.configs(min_accs=1, max_accs=3, batch=st.just(batch), trail=st.sampled_from([[], [], [2], batch[-1:]])))
    n = sum(1 for a in cfg["accs"] for _ in trees.leaves(a["spec"]))
    picks = lambda: draw(st.lists(st.integers(0, 4), min_size=n, max_size=n))  # noqa: E731
    ops = []
    for _ in range(draw(st.integers(1, 5))):
        ops.append({"hp": draw(gen.hps(batch)), "pick": picks(), "order": draw(st.integers(0, 3))})
    return {"cfg": cfg, "defs": picks(), "ops": ops, "seed": draw(gen.seeds)}


def run_alias(case, ctx):
    """The same array object is used for several leaves, for defaults, as probabilities and fed back from an earlier step."""
    cfg = case["cfg"]
    batch = cfg["batch"]
    dtype = cfg["dtype"]
    made = {}

    def pooled(kind, trailing):
        """One of two arrays per shape: values, and always the same object."""
        key = (kind, tuple(trailing))
        if key not in made:
            v = trees.content(case["seed"], f"pool{kind}{trailing}", api.leaf_shape(cfg, trailing))
            made[key] = (v, api.arr(v, dtype))
        return made[key]

    def choose(kind, trailing, hp, last):
        if kind == 2 and not trailing and hp is not None:
            return hp
        if kind >= 3 and last:
            found = [pair for pair in last if tuple(pair[0].shape) == api.leaf_shape(cfg, trailing)]
            if found:
                return found[(kind - 3) % len(found)]
        return pooled(kind % 2, trailing)

    def trees_of(picks, hp, last):
        picks, out = iter(picks), []
        for acc in cfg["accs"]:
            chosen = {p: choose(next(picks), t, hp, last) for p, t in trees.leaves(acc["spec"])}
            out.append((acc, {p: v for p, (v, _) in chosen.items()}, trees.build(acc["spec"], lambda p, t: chosen[p][1])))
        return out

    b = api.new_builder(cfg)
    defs = trees_of(case["defs"], None, None)
    for acc, _, tree in defs:
        b = api.sut("define_accumulator_directly", b.define_accumulator_directly, acc["name"], tree)
    m = Model(batch, cfg["eps"], cfg["dc"], {acc["name"]: values for acc, values, _ in defs})
    c = api.sut("build", b.build)
    last, shared = None, 0
    for i, op in enumerate(case["ops"]):
        hv = np.asarray(op["hp"]).reshape(batch)
        hp = (hv, api.arr(hv, dtype))
        given = trees_of(op["pick"], hp, last)
        k = op["order"] % len(given)
        for acc, _, tree in given[k:] + given[:k]:
            c = api.sut("cache_update", c.cache_update, acc["name"], tree)
        c = api.sut("iterate_act", c.iterate_act, hp[1])
        m.step(hv, {acc["name"]: values for acc, values, _ in given})
        what = f"step {i} with shared arrays"
        check_close(f"{what}: probabilities", c.probabilities, m.p, 1e-5)
        check_close(f"{what}: residuals", c.residuals, m.r, 1e-5)
        check_close(f"{what}: iterations", c.iterations, m.it, 0)
        last = []
        for acc in cfg["accs"]:
            got = c.accumulators[acc["name"]]
            for p, leaf in trees.objects(got, acc["spec"], what).items():
                check_close(f"{what}: {acc['name']!r}{p}", leaf, m.acc[acc["name"]][p], 1e-4)
                last.append((m.acc[acc["name"]][p].copy(), leaf))
            for p, leaf in trees.read(c.make_viewer().defaults[acc["name"]], acc["spec"], what).items():
                check_close(f"{what}: default {acc['name']!r}{p}", leaf, m.defaults[acc["name"]][p], 0)
        objects = [id(leaf) for _, _, tree in given for leaf in api.jax.tree_util.tree_leaves(tree)]
        shared += len(objects) - len(set(objects))
    for kind, (v, a) in made.items():
        check_close(f"the array given for {kind} afterwards", a, v, 0)
    ctx.nontrivial(shared > 0)


SUBCHECKS = [SubCheck("variant", cases, run, 110), SubCheck("variant-x64", lambda: cases(("float64", "float64", "float32")), api.wide(run), 30), SubCheck("aliasing", alias_cases, run_alias, 60)]
