"""Symbolic counterparts of Python's mutable and sequence values."""
import z3
from .types import Ty, parse, INT, BOOL, SHAPES


class Unsupported(Exception):
    """The code uses something outside the verified subset: undecided by proof."""


def is_z3(v):
    return isinstance(v, z3.ExprRef)


def is_sym_int(v):
    return isinstance(v, z3.ArithRef)


def is_sym_bool(v):
    return isinstance(v, z3.BoolRef)


class V:
    """Base class of symbolic heap values. `state()` / `set_state()` support snapshots."""
    slots = ()

    def state(self):
        out = []
        for s in self.slots:
            x = getattr(self, s)
            if isinstance(x, list):
                x = list(x)
            elif isinstance(x, dict):
                x = dict(x)
            out.append(x)
        return tuple(out)

    def set_state(self, st):
        for s, x in zip(self.slots, st):
            if isinstance(x, list):
                x = list(x)
            elif isinstance(x, dict):
                x = dict(x)
            setattr(self, s, x)


class VList(V):
    """list (kind 'list'), tuple of unknown length ('tup') or string as code points ('str').

    Either `items` is a Python list of values (length known), or `n`, `arr` (z3) with element type `ety`."""
    slots = ('items', 'n', 'arr', 'ety', 'kind')

    def __init__(self, items=None, n=None, arr=None, ety=None, kind='list'):
        self.items = items
        self.n = n
        self.arr = arr
        self.ety = ety
        self.kind = kind
        self.parent = None  # (container, setter) when this is a view of a nested element

    @property
    def concrete(self):
        return self.items is not None

    def __repr__(self):
        return f'VList({self.items})' if self.concrete else f'VList(n={self.n}, {self.ety})'


class VSet(V):
    slots = ('arr', 'ety', 'items')

    def __init__(self, arr=None, ety=None, items=None):
        self.arr = arr
        self.ety = ety
        self.items = items  # python list of concrete hashables, or None
        self.parent = None

    def __repr__(self):
        return f'VSet({self.items if self.items is not None else self.arr})'


class VDict(V):
    slots = ('dom', 'val', 'kty', 'vty', 'items')

    def __init__(self, dom=None, val=None, kty=None, vty=None, items=None):
        self.dom = dom
        self.val = val
        self.kty = kty
        self.vty = vty
        self.items = items  # python dict with concrete keys, or None
        self.default = None
        self.parent = None

    def __repr__(self):
        return f'VDict({self.items if self.items is not None else self.dom})'


class VObj(V):
    slots = ('fields',)

    def __init__(self, cls, fields=None):
        self.cls = cls
        self.fields = fields if fields is not None else {}

    def __repr__(self):
        return f'VObj({self.cls.__name__})'


class VMat(V):
    """two-dimensional integer numpy array"""
    slots = ('rows', 'cols', 'arr')

    def __init__(self, rows, cols, arr):
        self.rows = rows
        self.cols = cols
        self.arr = arr


class VRange:
    def __init__(self, start, stop, step=1):
        self.start, self.stop, self.step = start, stop, step


class VSeq:
    """A finite sequence given by its length and an item function (enumerate, zip, dict items, ...)."""

    def __init__(self, n, item, concrete=None):
        self.n = n
        self.item = item
        self.concrete = concrete  # optional python list of items


class VNat:
    """the natural numbers as a quantifier range in specifications"""


class VClosure:
    def __init__(self, node, env, globs, name, cls=None, defaults=(), kwdefaults=None):
        self.node, self.env, self.globs, self.name, self.cls = node, env, globs, name, cls
        self.defaults = defaults
        self.kwdefaults = kwdefaults or {}


class VBound:
    def __init__(self, obj, func, cls=None):
        self.obj, self.func, self.cls = obj, func, cls


class VSuper:
    def __init__(self, obj, cls):
        self.obj, self.cls = obj, cls


class VOpaque:
    """A value about which nothing is known (e.g. a formatted message)."""

    def __init__(self, what):
        self.what = what

    def __repr__(self):
        return f'VOpaque({self.what})'
