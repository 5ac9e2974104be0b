"""Containers other than list, tuple and dict that jax takes for pytree nodes."""
from . import boot  # noqa: F401
import collections
import functools
import zlib

import flax.struct
import jax

# Classes registered by hand, which differ in their auxiliary data only.
AUX = {"C": 7, "A": ("aux", 7), "B": ("aux", 7, 3)}


def public(cls):
    """A class made here, to be found by pickle."""
    cls.__module__ = __name__
    globals()[cls.__name__] = cls
    return cls


@functools.lru_cache(None)
def named(fields):
    return public(collections.namedtuple("Named_" + "_".join(fields), fields))


@functools.lru_cache(None)
def struct(fields):
    """A dataclass registered with jax, with one static field."""
    ns = {"__annotations__": dict({f: object for f in fields}, tag=str), "tag": flax.struct.field(pytree_node=False, default="static")}
    return public(flax.struct.dataclass(type("Struct_" + "_".join(fields), (), ns)))


@jax.tree_util.register_pytree_node_class
class Custom:
    """A node class registered by hand. It can not be rebuilt by guessing at its constructor."""

    def __init__(self, *, children, aux):
        self.children, self.aux = tuple(children), aux

    def tree_flatten(self):
        return self.children, self.aux

    @classmethod
    def tree_unflatten(cls, aux, children):
        return cls(children=children, aux=aux)


# Keys of a dict that are whole numbers, and in another order than the names they stand for.
NUMBERS = {"m": 10, "a": 2, "z": -1, "k2": 3, "k10": 100, "B": 0, "k": 5, "extra": 50}


def number(key):
    if key not in NUMBERS and key[:1] == "w" and key[1:].isdigit():
        return 200 - int(key[1:])
    return NUMBERS.get(key, 1000 + zlib.crc32(key.encode()) % 100000)


def make(kind, items):
    """items: (key, value) pairs."""
    if kind == "N":
        return named(tuple(k for k, _ in items))(*[v for _, v in items])
    if kind == "S":
        return struct(tuple(k for k, _ in items))(**dict(items))
    if kind == "O":
        return collections.OrderedDict(items)
    if kind == "I":
        return {number(k): v for k, v in items}
    if kind == "D":
        return collections.defaultdict(list, items)
    return Custom(children=[v for _, v in items], aux=AUX[kind])


def open_node(kind, keys, node):
    """The children by key, or a description of what is wrong with the node."""
    want = {"O": collections.OrderedDict, "D": collections.defaultdict, "I": dict}.get(kind, Custom)
    if kind == "N":
        want = named(tuple(keys))
    elif kind == "S":
        want = struct(tuple(keys))
    if type(node) is not want:
        return None, f"is {type(node).__name__}, not {want.__name__}"
    if kind in AUX:
        if node.aux != AUX[kind]:
            return None, f"has auxiliary data {node.aux!r}, not {AUX[kind]!r}"
        if len(node.children) != len(keys):
            return None, f"has {len(node.children)} children, not {len(keys)}"
        return dict(zip(keys, node.children)), None
    if kind == "S":
        if node.tag != "static":
            return None, f"has static field {node.tag!r}"
        return {k: getattr(node, k) for k in keys}, None
    if kind == "N":
        return node._asdict(), None
    if kind == "I":
        if {k for k in node} != {number(k) for k in keys} or not all(type(k) is int for k in node):
            return None, f"has keys {list(node)}, not {[number(k) for k in keys]}"
        return {k: node[number(k)] for k in keys}, None
    if (list(node) if kind == "O" else sorted(node)) != (list(keys) if kind == "O" else sorted(keys)):
        return None, f"has keys {list(node)}, not {list(keys)}"
    if kind == "D" and node.default_factory is not list:
        return None, f"has default factory {node.default_factory}"
    return dict(node), None
