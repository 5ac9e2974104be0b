"""Hypothesis strategies for JSON-able cases.  Shapes and dtypes come from small pools,
so that compiled kernels are shared between cases."""
from . import boot  # noqa: F401
from hypothesis import strategies as st

from . import trees

BATCHES = [[2], [3], [2, 3], [], [1], [4], [2, 2], [5], [3, 1], [1, 2], [2, 1, 2], [9]]
TRAILS = [[], [3], [2], [2, 2], [1], [3, 2], [2, 1, 2]]
EPS = [1e-4, 0.25, 0.5, 1e-3, 0.0625, 0.9, 0.125, 0.03, 1e-6, 0.96875]
# On the dyadic grid of probabilities these leave no borderline but exact ties.
DCS = [1.0, 0.5, 0.25, 2.0, 1.5, 0.75, 1.0, 0.5, 2.0, 0.125, 8.0, 100.0]
NAMES = ["state", "output", "b", "a", "zeta", "Alpha", "x_1", "10", "9", "state2", "out put", "", "A", " a", "a/b", "a.b", "\u00e4", "_", "updates",
         "defaults", "probabilities", "x" * 70, "a ", "state\n"]
KEYS = ["m", "a", "z", "k2", "k10", "B"]

seeds = st.integers(0, 2 ** 20)
# Drawn now and then, so that size and rank are not bounded by the usual pools (and may be zero).
BIG_BATCHES = [[17], [0], [130], [2, 1, 2, 1], [33], [1, 1, 1, 1, 2], [4, 5]]
BIG_TRAILS = [[1, 2, 1, 2], [0], [17], [2, 0], [130], [5, 4], [1, 1, 2, 1, 1]]


@st.composite
def rarely(draw, common, rare, one_in=24):
    """Out of rare with probability 1/one_in; shrinks to common."""
    return draw(st.sampled_from(rare)) if draw(st.integers(0, one_in - 1)) == one_in - 1 else draw(common)


batches = rarely(st.one_of(st.sampled_from(BATCHES[:3]), st.sampled_from(BATCHES)), BIG_BATCHES)
trails = rarely(st.one_of(st.sampled_from(TRAILS[:3]), st.sampled_from(TRAILS)), BIG_TRAILS, 40)


@st.composite
def tree_specs(draw, depth=2, trail=trails, empties=False):
    kind = draw(st.sampled_from(["L", "L", "d", "l", "t", "*"])) if depth else "L"
    if kind == "*":
        kind = draw(st.sampled_from(["N", "S", "C", "A", "O", "D", "I"]))
    if kind == "L":
        return ["L", draw(trail)]
    if draw(st.integers(0, 39)) == 39:
        # Wide (more children than digits) or deep.
        if draw(st.booleans()):
            subs = [["L", draw(trail)] for _ in range(11)]
            return ["d", [[f"w{i}", s] for i, s in enumerate(subs)]] if draw(st.booleans()) else ["l", subs]
        spec = ["L", draw(trail)]
        for kind in draw(st.lists(st.sampled_from("ltd"), min_size=4, max_size=6)):
            spec = ["d", [["k", spec]]] if kind == "d" else [kind, [spec]]
        return spec
    n = draw(st.integers(1, 3))
    subs = [draw(tree_specs(depth=depth - 1, trail=trail, empties=empties)) for _ in range(n)]
    if empties and draw(st.integers(0, 5)) == 0:
        subs.insert(draw(st.integers(0, n)), ["n"])
    if kind in trees.KEYED:
        keys = draw(st.permutations(KEYS))[: len(subs)]
        return [kind, [[k, s] for k, s in zip(keys, subs)]]
    return [kind, subs]


@st.composite
def accumulators(draw, min_size=1, max_size=3, dtypes=("float32",), depth=2, trail=trails, empties=False, mags=False):
    count = draw(st.integers(min_size, max_size))
    if max_size >= 3 and draw(st.integers(0, 19)) == 7:
        count += draw(st.sampled_from([3, 3, 9]))
    names = draw(st.permutations(NAMES))[:count]
    if names and draw(st.integers(0, 9)) == 9:
        text = draw(st.text(max_size=5))
        names[0] = text if text not in names else names[0]
    out = []
    for name in names:
        simple = draw(st.booleans())
        hollow = False
        spec = ["L", draw(trail)] if simple else draw(tree_specs(depth=depth, trail=trail, empties=empties))
        if empties and draw(st.integers(0, 11)) == 5:
            # Containers, but not one tensor in them. (By shape this could not be said: an empty list is a shape.)
            hollow = True
            spec = draw(st.sampled_from([["d", []], ["l", []], ["t", []], ["l", [["n"], ["d", []]]], ["d", [["k", ["t", []]]]]]))
        acc = {"name": name, "spec": spec, "dtype": draw(st.sampled_from(list(dtypes)))}
        if draw(st.booleans()) and not hollow:
            acc.update(init="fill", fill=draw(st.sampled_from([0.0, 0.0, 1.0, -1.0, 2.5, -2.5])))
        else:
            acc.update(init="direct", seed=draw(seeds))
        if mags and set(dtypes) == {"float32"} and draw(st.integers(0, 7)) == 7:
            # A power of two that everything this accumulator holds or is given is multiplied by.
            acc["mag"] = draw(st.sampled_from([2.0 ** 20, 2.0 ** -20, 2.0 ** 40, 2.0 ** -40, 2.0 ** 90, 2.0 ** -70]))
            if "fill" in acc:
                acc["fill"] *= acc["mag"]
        out.append(acc)
    return out


@st.composite
def configs(draw, batch=batches, dtypes=("float32",), acc_dtypes=None, eps=st.sampled_from(EPS),
            dc=st.sampled_from(DCS), max_accs=3, min_accs=1, depth=2, trail=trails, empties=False, mags=False, bare=False):
    dtype = draw(st.sampled_from(list(dtypes)))
    return {
        "batch": draw(batch),
        "dtype": dtype,
        "eps": draw(eps),
        "dc": draw(dc),
        # A controller may accumulate nothing: it only counts.
        "accs": [] if bare and draw(st.integers(0, 15)) == 15 else draw(accumulators(min_accs, max_accs, acc_dtypes or (dtype,), depth, trail, empties, mags)),
    }


def nbatch(batch):
    n = 1
    for d in batch:
        n *= d
    return n


# Multiples of 1/16, so that (times a depression constant of the pool) every partial sum
# is exact in every supported dtype; small values are more likely, for longer histories.
DYADIC = [i / 16 for i in range(17)]
_dyadic = st.one_of(
    st.sampled_from([0.0, 0.0625, 0.125, 0.1875, 0.25]),
    st.sampled_from([0.0625, 0.125, 0.25, 0.5]),
    st.sampled_from(DYADIC),
    st.sampled_from([-0.5, 1.5, 0.0, 1.0, 7.0, 3e4, -3e4, float("inf"), float("-inf")]),
)
_grid = st.one_of(
    st.integers(0, 350).map(lambda i: i / 1000),
    st.integers(0, 1000).map(lambda i: i / 1000),
    st.sampled_from([-0.25, 1.25, 0.0, 1.0]),
)


# Powers of two that are lost next to one in half precision, but not in single precision.
_tiny = st.one_of(st.sampled_from([2.0 ** -20, 2.0 ** -17, 2.0 ** -15, 2.0 ** -12, 0.0]), st.sampled_from([2.0 ** -20, 2.0 ** -18, 0.5, 0.25, 1.0]))


# Exact in single precision, and leaving a small remainder.
_near = st.one_of(_dyadic, st.sampled_from([1 - 2 ** -8, 0.5 - 2 ** -9, 0.75 - 2 ** -8, 0.25 - 2 ** -10, 1 - 2 ** -7]))


def hp_values(mode="dyadic"):
    return {"dyadic": _dyadic, "tiny": _tiny, "near": _near}.get(mode, _grid)


@st.composite
def hps(draw, batch, mode="dyadic"):
    n = nbatch(batch)
    return draw(st.lists(hp_values(mode), min_size=n, max_size=n))


@st.composite
def step_ops(draw, batch, mode="dyadic"):
    return {"op": "step", "hp": draw(hps(batch, mode)), "u": draw(seeds), "order": draw(st.integers(0, 3))}


@st.composite
def histories(draw, batch, mode="dyadic", extra=("reset",), min_size=1, max_size=9, extra_weight=3):
    n = draw(st.integers(min_size, max_size))
    ops = []
    for _ in range(n):
        if extra and draw(st.integers(0, extra_weight)) == 0:
            ops.append({"op": draw(st.sampled_from(list(extra)))})
        else:
            ops.append(draw(step_ops(batch, mode)))
    return ops
