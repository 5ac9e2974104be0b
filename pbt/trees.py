"""JSON descriptions of pytrees, independent of jax.tree_util.

A spec is one of
    ["L", [trailing dims]]      an array leaf (batch dims are prepended)
    ["l", [spec, ...]]          a list
    ["t", [spec, ...]]          a tuple
    ["d", [[key, spec], ...]]   a dict, built in the order given
    ["n"]                       None
or, with [key, spec] pairs like a dict: "N" a namedtuple, "S" a registered dataclass, "O" an OrderedDict, "D" a
defaultdict, "I" a dict with whole numbers for keys; or, without keys, "C", "A", "B" classes registered by hand (see nodes.py).
Values are handled as {path: numpy array}, walked by the code below only.
"""
import zlib

import numpy as np

from . import nodes
from .core import Violation

KEYED = "dNSODI"
PLAIN = "ltCAB"


def items(spec):
    """(key, sub-spec) pairs of a container."""
    if spec[0] in KEYED:
        return [(k, s) for k, s in spec[1]]
    return [(str(i), s) for i, s in enumerate(spec[1])] if spec[0] in PLAIN else []


def remake(spec, subs, kind=None):
    """The container with other sub-specs (same number, same keys)."""
    if spec[0] in KEYED:
        return [kind or spec[0], [[k, s] for (k, _), s in zip(spec[1], subs)]]
    return [kind or spec[0], list(subs)]


def leaves(spec, path=""):
    if spec[0] == "L":
        yield path, spec[1]
    for key, sub in items(spec):
        yield from leaves(sub, f"{path}/{key}")


def build(spec, leaf, path=""):
    """Build the python object; leaf(path, trailing) makes each leaf."""
    kind = spec[0]
    if kind == "L":
        return leaf(path, spec[1])
    if kind == "n":
        return None
    made = [(key, build(sub, leaf, f"{path}/{key}")) for key, sub in items(spec)]
    if kind == "d":
        return dict(made)
    if kind in "lt":
        return (list if kind == "l" else tuple)(v for _, v in made)
    return nodes.make(kind, made)


def shuffled(spec, rng):
    """The same tree with the keys of its dicts inserted in another order."""
    subs = [[k, shuffled(s, rng)] for k, s in items(spec)]
    if spec[0] in "dDI":
        return [spec[0], [subs[i] for i in rng.permutation(len(subs))]]
    return remake(spec, [s for _, s in subs]) if subs else spec


def children(tree, spec, what, path=""):
    """{key: child} of a container of the code under test; any difference to the spec is a violation."""
    kind = spec[0]
    keys = [k for k, _ in items(spec)]
    if kind in "NSODCABI":
        got, wrong = nodes.open_node(kind, keys, tree)
        if wrong:
            raise Violation(f"{what}: node {path or '/'} {wrong}")
        return got
    want = {"l": list, "t": tuple, "d": dict}[kind]
    if type(tree) is not want:
        raise Violation(f"{what}: node {path or '/'} is {type(tree).__name__}, not {want.__name__}")
    if kind == "d":
        if set(tree) != set(keys):
            raise Violation(f"{what}: node {path or '/'} has keys {sorted(map(str, tree))}, not {sorted(keys)}")
        return tree
    if len(tree) != len(keys):
        raise Violation(f"{what}: node {path or '/'} has {len(tree)} children, not {len(keys)}")
    return {str(i): x for i, x in enumerate(tree)}


def objects(tree, spec, what, path=""):
    """{path: leaf object} of a tree from the code under test."""
    if spec[0] == "L":
        return {path: tree}
    if spec[0] == "n":
        if tree is not None:
            raise Violation(f"{what}: {path or '/'} is {type(tree).__name__}, not None")
        return {}
    got, out = children(tree, spec, what, path), {}
    for key, sub in items(spec):
        out.update(objects(got[key], sub, what, f"{path}/{key}"))
    return out


def read(tree, spec, what, path=""):
    """Walk a tree from the code under test; any structural difference is a violation."""
    out = {}
    for p, leaf in objects(tree, spec, what, path).items():
        if not hasattr(leaf, "shape") or not hasattr(leaf, "dtype"):
            raise Violation(f"{what}: leaf {p or '/'} is {type(leaf).__name__}, not an array")
        out[p] = np.asarray(leaf)
    return out


def content(seed, tag, shape, mode="dyadic"):
    """Deterministic, non-uniform array contents."""
    rng = np.random.default_rng([int(seed) & 0xFFFFFFFF, zlib.crc32(str(tag).encode())])
    if mode == "dyadic":
        return rng.integers(-8, 9, size=tuple(shape)) / 4.0
    if mode == "ones":
        return np.ones(tuple(shape))
    out = rng.standard_normal(tuple(shape))
    return out if mode == "double" else out.astype(np.float32).astype(np.float64)


def left(arr, ndim):
    """Left-align arr for broadcasting against an array of ndim dimensions."""
    arr = np.asarray(arr)
    return arr.reshape(arr.shape + (1,) * (ndim - arr.ndim))
