"""Values of the symbolic interpreter."""
from fractions import Fraction
from .terms import *
from . import terms as T


class Unsupported(Exception):
    """The code uses something the verifier has no rule for."""


class PyRaise(Exception):
    """A Python exception raised by the interpreted code."""

    def __init__(self, exc):
        self.exc = exc


K = [var("$k%d" % i, "I") for i in range(4)]
KID = [var_id(k) for k in K]


class Num:
    """A number: kind 'i' or 'f'; np: it is a numpy scalar."""
    __slots__ = ("kind", "p", "np")

    def __init__(self, kind, p, np=False):
        self.kind, self.p, self.np = kind, p, np

    def __repr__(self):
        return "%s:%s" % (self.kind, show(self.p))


class SBool:
    __slots__ = ("b", "np")

    def __init__(self, b, np=False):
        self.b, self.np = b, np

    def __repr__(self):
        return "SBool(%s)" % show_b(self.b)


class Cx:
    __slots__ = ("re", "im")

    def __init__(self, re, im):
        self.re, self.im = re, im

    def __repr__(self):
        return "(%s)+(%s)j" % (show(self.re), show(self.im))


class OStr:
    """An unknown string.  It differs from every literal in `but`."""

    def __init__(self, name, but=()):
        self.name, self.but = name, tuple(but)

    def __repr__(self):
        return "<str %s>" % self.name

    def __eq__(self, o):
        return isinstance(o, OStr) and o.name == self.name

    def __hash__(self):
        return hash(self.name)


class OIdx(OStr):
    """The key of an unknown dictionary at a position."""

    def __init__(self, base, idx):
        OStr.__init__(self, "%s[%r]" % (base, idx))
        self.base, self.idx = base, idx


class OVal:
    """The value of an unknown dictionary at a position: any Python object."""

    def __init__(self, base, idx):
        self.base, self.idx = base, idx

    def __repr__(self):
        return "<value %s[%r]>" % (self.base, self.idx)


class SStr:
    """A string built from literals and conversions; parts are str, ('str'|'repr', frozen value) or
    ('join', sep, n, parts template over K[0])."""

    def __init__(self, parts):
        out = []
        for p in parts:
            if p == "":
                continue
            if isinstance(p, str) and out and isinstance(out[-1], str):
                out[-1] += p
            else:
                out.append(p)
        self.parts = tuple(out)

    def __repr__(self):
        return "SStr%r" % (self.parts,)

    def __eq__(self, o):
        return isinstance(o, SStr) and o.parts == self.parts

    def __hash__(self):
        return hash(self.parts)


class Heap:
    """Base of mutable objects.  All changes go through ctx.put(obj, new state)."""
    __slots__ = ("state", "oid", "tag")


class ArrData:
    """Contents of an array.
    mode 'c': all dimensions are numbers, elems is a flat tuple
    mode 's': elem is a template over K[0..ndim)
    mode 'g': one dimension, items is a tuple of (guard, element); the array holds the elements whose
              guard is true, in order"""
    __slots__ = ("shape", "dtype", "mode", "elems")

    def __init__(self, shape, dtype, mode, elems):
        self.shape, self.dtype, self.mode, self.elems = tuple(shape), dtype, mode, elems

    def __repr__(self):
        return "ArrData(%s,%s,%s,%s)" % (self.shape, self.dtype, self.mode, str(self.elems)[:300])


class ArrObj(Heap):
    __slots__ = ("base", "spec")

    def __init__(self, state):
        self.state = state
        self.base = None
        self.spec = None
        self.tag = None


class PyList(Heap):
    """state: python list of values, or ('sym', n, template over K[0]), or ('cat', [segments]),
    or ('g', [(guard, value)])"""
    __slots__ = ()

    def __init__(self, state):
        self.state = state
        self.tag = None


class PyDict(Heap):
    """state: dict concrete key -> value"""
    __slots__ = ()

    def __init__(self, state):
        self.state = state
        self.tag = None


class SymDict(Heap):
    """A dictionary of unknown size with unknown keys and values; state: (name, size)."""
    __slots__ = ()

    def __init__(self, name, n):
        self.state = (name, n)
        self.tag = None


class SetV(Heap):
    """state: ('vals', [values]) or ('pred', n, B template over K[0])"""
    __slots__ = ()

    def __init__(self, state):
        self.state = state
        self.tag = None


class PyObj(Heap):
    __slots__ = ("cls",)

    def __init__(self, cls, attrs):
        self.cls = cls
        self.state = attrs
        self.tag = None


class ClassV:
    def __init__(self, name, bases, ns, module=None, builtin=False):
        self.name, self.bases, self.ns, self.module, self.builtin = name, bases, ns, module, builtin
        self.enum_members = None

    def mro(self):
        out = [self]
        for b in self.bases:
            for c in b.mro():
                if c not in out:
                    out.append(c)
        return out

    def find(self, name):
        for c in self.mro():
            if name in c.ns:
                v = c.ns[name]
                if isinstance(v, Unread):
                    raise Unsupported(v.reason)
                return v
        return None

    def issub(self, other):
        return other in self.mro()

    def __repr__(self):
        return "<class %s>" % self.name


class EnumMember:
    def __init__(self, cls, name, value):
        self.cls, self.name, self.value = cls, name, value

    def __repr__(self):
        return "<%s.%s>" % (self.cls.name, self.name)


class PropV:
    def __init__(self, fget, fset=None):
        self.fget, self.fset = fget, fset


class StaticV:
    def __init__(self, f):
        self.f = f


class ClassMethV:
    def __init__(self, f):
        self.f = f


class FuncV:
    def __init__(self, node, env, module, name, defaults, kw_defaults, cls=None):
        self.node, self.env, self.module, self.name = node, env, module, name
        self.defaults, self.kw_defaults, self.cls = defaults, kw_defaults, cls
        self.qual = name
        self.locals = None
        self.isgen = False

    def __repr__(self):
        return "<function %s>" % self.qual


class BoundM:
    def __init__(self, obj, func):
        self.obj, self.func = obj, func


class Builtin:
    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return "<builtin %s>" % self.name


class Unread:
    """A name of a module or class whose definition is outside the subset; reading it is what is unsupported."""

    def __init__(self, reason):
        self.reason = reason


class ModuleV:
    def __init__(self, name, ns):
        self.name, self.ns = name, ns


class RangeV:
    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step


class GenV:
    """A materialised generator / iterator: a list value (already evaluated)."""

    def __init__(self, lst, srcs=(), redo=None):
        self.lst, self.srcs, self.redo = lst, srcs, redo


class SliceV:
    def __init__(self, a, b, c):
        self.a, self.b, self.c = a, b, c


class TypeV:
    """A numpy/builtin type used as a value (dtype, isinstance)."""

    def __init__(self, name, dtype=None):
        self.name, self.dtype = name, dtype

    def __repr__(self):
        return "<type %s>" % self.name


class Undef:
    def __repr__(self):
        return "<undef>"


UNDEF = Undef()
NEWAXIS = None
