"""C22: pytree broadcasting and binary operators do what a recursive definition says, or refuse."""
import zlib

import numpy as np
from hypothesis import strategies as st

from .. import api, gen, trees
from ..core import SubCheck, check, check_bits, check_close, must_raise, sut

jax, jnp = api.jax, api.jnp
utils = api.utils

RULE = """A case is two generated pytrees (nested dicts, lists and tuples, depth up to three, some empty): equal, one a coarsening of the other, both coarsened in
different places, unrelated, or differing in one container kind, length or key. A recursive definition over the descriptions decides whether
one broadcasts into the other. When it does, structure and every leaf are compared; when it does not, RuntimeError is required. Leaf shapes
are equal, left-broadcastable or incompatible. Non-trivial: the trees differ, or leaf shapes differ."""
ASSUMPTIONS = ["an empty container broadcasts to nothing but an empty container of its kind"]


class Mismatch(Exception):
    pass


def expand(src, tgt, path=""):
    """[source path for every leaf of tgt], in the order of trees.leaves(tgt) with sorted keys."""
    if src[0] == "L":
        return {p: path for p, _ in trees.leaves(tgt, path)}
    if tgt[0] == "L" or src[0] != tgt[0]:
        raise Mismatch()
    out, mine, other = {}, trees.items(src), dict(trees.items(tgt))
    if len(mine) != len(other):
        raise Mismatch()
    # What has an order of its own (OrderedDict, namedtuple, ...) has to agree in it.
    if [k for k, _ in mine] != list(other) and (src[0] not in "dDI" or {k for k, _ in mine} != set(other)):
        raise Mismatch()
    for k, sub in mine:
        out.update(expand(sub, other[k], f"{path}/{k}"))
    return out


EXOTIC = ["N", "S", "O", "D", "I", "C", "A", "B"]


@st.composite
def specs(draw, depth=3, empties=True):
    kind = draw(st.sampled_from(["L", "d", "l", "t", "*"])) if depth == 3 else (draw(st.sampled_from(["L", "L", "d", "l", "t", "*"])) if depth else "L")
    if kind == "L":
        return ["L", []]
    if kind == "*":
        kind = draw(st.sampled_from(EXOTIC))
    if draw(st.integers(0, 39)) == 39:
        if draw(st.booleans()):
            subs = [["L", []]] * 11
            return [kind, [[f"w{i}", s] for i, s in enumerate(subs)] if kind in trees.KEYED else subs]
        spec = ["L", []]
        for k in draw(st.lists(st.sampled_from("ltdNC"), min_size=4, max_size=6)):
            spec = [k, [["k", spec]] if k in trees.KEYED else [spec]]
        return spec
    n = draw(st.integers(1, 3))
    if empties and depth < 3 and draw(st.integers(0, 4)) == 0:
        n = 0
    subs = [draw(specs(depth - 1, empties)) for _ in range(n)]
    if kind in trees.KEYED:
        keys = draw(st.permutations(gen.KEYS))[: len(subs)]
        return [kind, [[k, s] for k, s in zip(keys, subs)]]
    return [kind, subs]


def coarsen(draw, spec):
    if spec[0] == "L" or draw(st.integers(0, 2)) == 0:
        return ["L", []]
    new = trees.remake(spec, [coarsen(draw, s) for _, s in trees.items(spec)])
    return [spec[0], draw(st.permutations(new[1]))] if spec[0] in "dDI" else new


# Containers that are told apart by their exact class, or by what they hold besides the children, only.
KIN = {"N": "t", "t": "Nl", "l": "t", "O": "dD", "D": "dO", "d": "DOSI", "I": "dO", "S": "dN", "C": "AB", "A": "BC", "B": "AC"}


def recast(spec, kind):
    subs = [s for _, s in trees.items(spec)]
    if kind in trees.PLAIN:
        return [kind, subs]
    return trees.remake(spec, subs, kind) if spec[0] in trees.KEYED else [kind, [[k, s] for k, s in zip(gen.KEYS, subs)]]


def corrupt(draw, spec):
    """One local structural change."""
    if spec[0] == "L":
        return ["l", [["L", []]]]
    keyed = spec[0] in trees.KEYED
    subs = [s for _, s in trees.items(spec)]
    if not subs:
        other = draw(st.sampled_from(["l", "t", "d", "O", "C", "A"]))
        if other == spec[0]:
            return [other, [["k", ["L", []]] if keyed else ["L", []]]]
        return [other, []]
    if draw(st.booleans()):
        i = draw(st.integers(0, len(subs) - 1))
        subs[i] = corrupt(draw, subs[i])
        return trees.remake(spec, subs)
    what = draw(st.sampled_from(["kin", "kin", "kin", "kind", "longer", "shorter", "key", "order"]))
    if what == "kin":
        return recast(spec, draw(st.sampled_from(KIN[spec[0]])))
    if what == "longer":
        return [spec[0], spec[1] + [["extra", ["L", []]] if keyed else ["L", []]]]
    if what == "shorter" and len(subs) > 1:
        return [spec[0], spec[1][:-1]]
    if what == "order" and spec[0] in "NSO" and len(subs) > 1:
        return [spec[0], spec[1][::-1]]
    if what == "key" and keyed:
        return [spec[0], [[spec[1][0][0] + "_", spec[1][0][1]]] + spec[1][1:]]
    others = [k for k in (trees.KEYED + trees.PLAIN) if k != spec[0]]
    if draw(st.booleans()):
        others = [k for k in (trees.KEYED if keyed else trees.PLAIN) if k != spec[0]]
    return recast(spec, draw(st.sampled_from(others)))


@st.composite
def pairs(draw):
    a = draw(specs())
    how = draw(st.sampled_from(["equal", "coarse", "coarse", "both", "unrelated", "corrupt", "corrupt-coarse"]))
    if how == "equal":
        b = a
    elif how == "coarse":
        b = coarsen(draw, a)
    elif how == "both":
        a, b = coarsen(draw, a), coarsen(draw, a)
    elif how == "unrelated":
        b = draw(specs())
    elif how == "corrupt":
        b = corrupt(draw, a)
    else:
        b = coarsen(draw, corrupt(draw, a))
    if draw(st.booleans()):
        a, b = b, a
    return {"a": a, "b": b, "seed": draw(gen.seeds), "how": how,
            "shapes": draw(st.sampled_from(["same", "same", "a-shorter", "b-shorter", "mixed", "bad", "empty"])),
            "op": draw(st.sampled_from(["sub", "mul-add", "pow", "where", "first", "second", "less", "count"])),
            "leaf": draw(st.sampled_from(["jax", "jax", "jax", "any"])),
            "jit": draw(st.sampled_from([False, False, False, True]))}


class Thing:
    """A leaf that JAX knows nothing about."""


# Leaves need not be arrays: broadcasting hands them over as they are.
ANY = [lambda v: "text", lambda v: 7, lambda v: 0.5, lambda v: True, lambda v: Thing, lambda v: v.astype(np.float64), lambda v: np.float16(2),
       lambda v: jax.ShapeDtypeStruct(v.shape, np.float32), lambda v: len]


def norm(spec):
    """Sorted keys, for comparing structure."""
    if spec[0] == "L":
        return spec
    new = trees.remake(spec, [norm(s) for _, s in trees.items(spec)])
    return [spec[0], sorted(new[1], key=lambda kv: kv[0])] if spec[0] in "dDI" else new


def shape_of(case, which, path):
    mode = case["shapes"]
    full = [2, 3]
    if mode == "empty":
        k = trees.content(case["seed"], path, (1,))[0]
        return [0, 3] if k > 0 else full
    if mode == "same":
        return full
    if mode == "bad":
        return [2, 3] if which == "a" else [3]
    if mode == "mixed":
        k = trees.content(case["seed"], which + path, (1,))[0]
        return [2] if k > 0.7 else ([] if k < -0.7 else ([2, 1] if k == 0 else full))
    short = mode[0] == which
    return [2] if short else full


def values(case, which, spec):
    return {p: trees.content(case["seed"], which + p, shape_of(case, which, p)) for p, _ in trees.leaves(spec)}


OPS = {
    "sub": (lambda a, b: a - b, lambda a, b: a - b),
    "mul-add": (lambda a, b: a * b + a, lambda a, b: a * b + a),
    "pow": (lambda a, b: a * a - 3 * b, lambda a, b: a * a - 3 * b),
    "where": (lambda a, b: jnp.where(a > b, a, 2 * b), lambda a, b: np.where(a > b, a, 2 * b)),
    "less": (lambda a, b: a < b, lambda a, b: a < b),
    "count": (lambda a, b: jnp.rint(a - b).astype(jnp.int32), lambda a, b: np.rint(a - b).astype(np.int32)),
    "first": (lambda a, b: a + 0 * b, lambda a, b: a + 0 * b),
    "second": (lambda a, b: b + 0 * a, lambda a, b: b + 0 * a),
}


def run_broadcast(case, ctx):
    src, tgt = case["a"], case["b"]
    sv, tv = values(case, "a", src), values(case, "b", tgt)
    plain = case.get("leaf", "jax") == "jax"
    pick = lambda which, p: ANY[(zlib.crc32((which + p).encode()) + case["seed"]) % len(ANY)]  # noqa: E731
    kept = {which: {p: jnp.asarray(v, jnp.float32) if plain else pick(which, p)(v) for p, v in vals.items()} for which, vals in (("s", sv), ("t", tv))}
    mk = lambda spec, which: trees.build(spec, lambda p, tr: kept[which][p])  # noqa: E731
    s, t = mk(src, "s"), mk(tgt, "t")
    ctx.nontrivial(norm(src) != norm(tgt))
    try:
        mapping = expand(src, tgt)
    except Mismatch:
        ctx.label("refused")
        must_raise("broadcast_pytree_shape of incompatible trees", RuntimeError, utils.broadcast_pytree_shape, s, t)
        return
    out = sut("broadcast_pytree_shape", utils.broadcast_pytree_shape, s, t)
    if not plain:
        for p, v in trees.objects(out, tgt, "broadcast tree").items():
            want = kept["s"][mapping[p]]
            check(type(v) is type(want), lambda: f"broadcast leaf {p or '/'} is of type {type(v).__name__}, was {type(want).__name__}")
            check(bool(np.all(v == want)), lambda: f"broadcast leaf {p or '/'} is {v!r}, was {want!r}")
        ctx.label("leaves of any type")
        return
    got = trees.read(out, tgt, "broadcast tree")
    for p, v in got.items():
        check_bits(f"broadcast leaf {p or '/'}", v, sv[mapping[p]].astype(np.float32))
    for which, tree, spec, vals in (("source", s, src, sv), ("target", t, tgt, tv)):
        for p, v in trees.read(tree, spec, which).items():
            check_bits(f"the {which} after broadcasting, leaf {p}", v, vals[p].astype(np.float32))
    ctx.label("replicated", len(set(mapping.values())) < len(mapping))


def run_binary(case, ctx):
    a, b = case["a"], case["b"]
    av, bv = values(case, "a", a), values(case, "b", b)
    mk = lambda spec, vals: trees.build(spec, lambda p, tr: jnp.asarray(vals[p], jnp.float32))
    ta, tb = mk(a, av), mk(b, bv)
    op, npop = OPS[case["op"]]
    ctx.nontrivial(norm(a) != norm(b) or case["shapes"] != "same")
    try:
        mapping = expand(a, b)
        big, amap, bmap = b, mapping, {p: p for p, _ in trees.leaves(b)}
    except Mismatch:
        try:
            mapping = expand(b, a)
            big, amap, bmap = a, {p: p for p, _ in trees.leaves(a)}, mapping
        except Mismatch:
            ctx.label("refused: structure")
            must_raise("execute_binary_operator on incompatible trees", RuntimeError, utils.execute_binary_operator, op, ta, tb, "context")
            return
    want = {}
    for p in amap:
        x, y = av[amap[p]], bv[bmap[p]]
        n = max(x.ndim, y.ndim)
        try:
            want[p] = npop(trees.left(x, n), trees.left(y, n))
        except ValueError:
            ctx.label("refused: shapes")
            must_raise(f"execute_binary_operator on leaves of shapes {x.shape} and {y.shape}", RuntimeError,
                       utils.execute_binary_operator, op, ta, tb, "context")
            return
    call = lambda x, y: utils.execute_binary_operator(op, x, y, "context")
    out = sut("execute_binary_operator", jax.jit(call) if case["jit"] else call, ta, tb)
    got = trees.read(out, big, "result")
    for p, v in got.items():
        check_close(f"{case['op']}, leaf {p or '/'}", v, want[p], 1e-6)
        dtype = "float32" if want[p].dtype == np.float64 else str(want[p].dtype)
        check(str(v.dtype) == dtype, lambda: f"{case['op']}, leaf {p or '/'} is of dtype {v.dtype}, the operator gives {dtype}")
    ctx.label("replicated", norm(a) != norm(b))
    ctx.label(case["shapes"])


@st.composite
def failing(draw):
    a = draw(specs(empties=False))
    n = sum(1 for _ in trees.leaves(a))
    return {"a": a, "b": coarsen(draw, a), "at": draw(st.integers(0, max(0, n - 1))), "seed": draw(gen.seeds), "swap": draw(st.booleans()),
            "error": draw(st.sampled_from(["ValueError", "TypeError", "KeyError", "ZeroDivisionError", "RuntimeError"]))}


def run_failing(case, ctx):
    """An operator that fails on any one of the leaves is reported, with the context."""
    case = dict(case, shapes="same")
    calls = []

    def op(x, y):
        calls.append(1)
        if len(calls) == case["at"] + 1:
            raise {"ValueError": ValueError, "TypeError": TypeError, "KeyError": KeyError, "ZeroDivisionError": ZeroDivisionError, "RuntimeError": RuntimeError}[case["error"]]("planned")
        return x - y

    mk = lambda which, spec: trees.build(spec, lambda p, tr: jnp.asarray(values(case, which, spec)[p], jnp.float32))
    x, y = mk("a", case["a"]), mk("b", case["b"])
    if case["swap"]:
        x, y = y, x
    try:
        utils.execute_binary_operator(op, x, y, "context-of-the-caller")
    except RuntimeError as err:
        check("context-of-the-caller" in str(err), lambda: f"the error of a failing operator does not carry the caller's context: {str(err)[:200]!r}")
    except Exception as err:  # noqa: BLE001
        check(False, lambda: f"a failing operator raised {type(err).__name__}, not RuntimeError")
    else:
        check(False, "an operator failed on a leaf, but a result was returned")
    ctx.nontrivial(case["at"] > 0)


SUBCHECKS = [
    SubCheck("broadcast", pairs, run_broadcast, 180),
    SubCheck("binary-operator", pairs, run_binary, 120),
    SubCheck("failing-operator", failing, run_failing, 50),
]
