"""Abstract values of the interpreter: heap references, closures, classes, phi nodes."""
from fractions import Fraction
from .terms import T


class Arr:
    """An array value: one size term per axis and the element term as a function of the indices."""
    __slots__ = ("dims", "fn", "dtype", "_memo")

    def __init__(self, dims, fn, dtype="float"):
        self.dims = tuple(dims)
        self._memo = {}
        self.fn = fn
        self.dtype = dtype

    def __call__(self, *idx):
        r = self._memo.get(idx)
        if r is None:
            r = self.fn(*idx)
            self._memo[idx] = r
        return r

    @property
    def ndim(self):
        return len(self.dims)


class ArrV:
    __slots__ = ("cid",)

    def __init__(self, cid):
        self.cid = cid


class ListV(ArrV):
    pass


class DictV(ArrV):
    pass


class ObjV(ArrV):
    pass


class SetV:
    def __init__(self, items):
        self.items = items


class FuncV:
    def __init__(self, node, frame, module, name, defaults, kwdefaults, cls=None, is_lambda=False):
        self.node, self.frame, self.module, self.name = node, frame, module, name
        self.defaults, self.kwdefaults, self.cls, self.is_lambda = defaults, kwdefaults, cls, is_lambda
        self.kind = None  # staticmethod / classmethod / property


class BoundV:
    def __init__(self, self_, func):
        self.self_, self.func = self_, func


class ClassV:
    def __init__(self, name, bases, attrs, module, node):
        self.name, self.bases, self.attrs, self.module, self.node = name, bases, attrs, module, node

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, ClassV):
                for c in b.mro():
                    if c not in out:
                        out.append(c)
        return out

    def lookup(self, name):
        for c in self.mro():
            if name in c.attrs:
                return c.attrs[name], c
        return None, None


class SuperV:
    def __init__(self, cls, self_):
        self.cls, self.self_ = cls, self_


class ModV:
    def __init__(self, name, frame=None, ext=False):
        self.name, self.frame, self.ext = name, frame, ext


class BuiltinV:
    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return "<builtin %s>" % self.name


class TypeV:
    def __init__(self, name):
        self.name = name


class ExtV:
    """An object of an external library, known only by the path of calls that produced it."""

    def __init__(self, path, term=None):
        self.path, self.term = path, term

    def __repr__(self):
        return "<ext %s>" % self.path


class ExcV:
    def __init__(self, name, args=()):
        self.name, self.args = name, args


class PhiV:
    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b


class SliceV:
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class RangeV:
    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step


class Undef:
    def __repr__(self):
        return "<undefined>"


UNDEF = Undef()


class Ellip:
    pass


ELLIPSIS = Ellip()
NEWAXIS = None


# ------------------------------------------------------------------ cells
class ArrCell:
    __slots__ = ("val", "owners", "base")

    def __init__(self, val, owners=frozenset(), base=None):
        self.val, self.owners, self.base = val, owners, base  # base: (cid, View)


class View:
    """dims, fwd: view idx -> base idx ; inv: base idx -> (cond, view idx)"""

    def __init__(self, dims, fwd, inv):
        self.dims, self.fwd, self.inv = dims, fwd, inv


class Seg:
    """A run of list elements: n elements, the i-th being fn(i)."""
    __slots__ = ("n", "fn")

    def __init__(self, n, fn):
        self.n, self.fn = n, fn


class ListCell:
    """items: tuple of values and Seg runs"""
    __slots__ = ("items", "owners")

    def __init__(self, items, owners=frozenset()):
        self.items, self.owners = tuple(items), owners


class MapEnt:
    """dict entries key(v) -> val(v) for v < n (later entries win)"""
    __slots__ = ("n", "v", "key", "fn")

    def __init__(self, n, v, key, fn):
        self.n, self.v, self.key, self.fn = n, v, key, fn


class DictCell:
    __slots__ = ("items", "owners", "default")

    def __init__(self, items, owners=frozenset(), default=None):
        self.items, self.owners, self.default = tuple(items), owners, default


class ObjCell:
    __slots__ = ("cls", "attrs")

    def __init__(self, cls, attrs):
        self.cls, self.attrs = cls, attrs


class FrameCell:
    __slots__ = ("vars", "parent")

    def __init__(self, vars, parent):
        self.vars, self.parent = vars, parent


class PhiCell:
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b


def is_scalar(v):
    return isinstance(v, (bool, int, Fraction, T))
