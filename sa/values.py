"""Abstract values and heap objects of the analyser.

Immutable python data are terms (``sa.terms.T``); everything with identity
lives in the heap and is denoted by ``Ref``.
"""
from .terms import T


class V:
    __slots__ = ()


class Ref(V):
    __slots__ = ("id",)

    def __init__(self, id):
        self.id = id

    def __eq__(self, o):
        return isinstance(o, Ref) and o.id == self.id

    def __hash__(self):
        return hash(("ref", self.id))

    def __repr__(self):
        return "&%d" % self.id


class Tup(V):
    __slots__ = ("items", "cls")

    def __init__(self, items, cls=None):
        self.items, self.cls = tuple(items), cls

    def __eq__(self, o):
        return isinstance(o, Tup) and self.items == o.items and self.cls is o.cls

    def __hash__(self):
        return hash(self.items)

    def __repr__(self):
        return "%s(%s)" % (self.cls.name if self.cls else "",
                           ", ".join(map(repr, self.items)))


class Phi(V):
    __slots__ = ("cond", "a", "b")

    def __init__(self, cond, a, b):
        self.cond, self.a, self.b = cond, a, b

    def __eq__(self, o):
        return isinstance(o, Phi) and (self.cond, self.a, self.b) == (
            o.cond, o.a, o.b)

    def __hash__(self):
        return hash((self.cond, self.a, self.b))

    def __repr__(self):
        return "phi(%r, %r, %r)" % (self.cond, self.a, self.b)


class Fn(V):
    def __init__(self, node, mod, name, closure=None, cls=None):
        self.node, self.mod, self.name = node, mod, name
        self.closure, self.cls = closure, cls
        self.defaults, self.kw_defaults = None, None
        self.tags = {}       # njit / vectorize / contextmanager / ...

    def __repr__(self):
        return "<fn %s>" % self.name


class BoundM(V):
    __slots__ = ("fn", "self")

    def __init__(self, fn, self_):
        self.fn, self.self = fn, self_

    def __eq__(self, o):
        return isinstance(o, BoundM) and self.fn is o.fn and self.self == o.self

    def __hash__(self):
        return hash((id(self.fn), self.self))


class Meth(V):
    """Method ``name`` of a non-repo value (array, list, term, opaque...)."""
    __slots__ = ("recv", "name")

    def __init__(self, recv, name):
        self.recv, self.name = recv, name

    def __eq__(self, o):
        return isinstance(o, Meth) and (self.recv, self.name) == (o.recv, o.name)

    def __hash__(self):
        return hash((self.recv, self.name))

    def __repr__(self):
        return "<%r.%s>" % (self.recv, self.name)


class Part(V):
    def __init__(self, func, args, kwargs):
        self.func, self.args, self.kwargs = func, args, kwargs


class Getter(V):
    """operator.attrgetter / itemgetter / methodcaller."""

    def __init__(self, kind, args, kwargs=None):
        self.kind, self.args, self.kwargs = kind, args, kwargs or {}


class ClsV(V):
    def __init__(self, info):
        self.info = info

    def __eq__(self, o):
        return isinstance(o, ClsV) and o.info is self.info

    def __hash__(self):
        return hash(id(self.info))

    def __repr__(self):
        return "<class %s>" % self.info.name


class ModV(V):
    def __init__(self, mod):
        self.mod = mod

    def __eq__(self, o):
        return isinstance(o, ModV) and o.mod is self.mod

    def __hash__(self):
        return hash(id(self.mod))


class Ext(V):
    """A name of an external library, e.g. ``numpy.where``."""
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, Ext) and o.name == self.name

    def __hash__(self):
        return hash(("ext", self.name))

    def __repr__(self):
        return "<%s>" % self.name


class DT(V):
    """A numpy dtype; struct is a tuple of (name, fmt) or None."""
    __slots__ = ("name", "struct")

    def __init__(self, name, struct=None):
        self.name, self.struct = name, struct

    def __eq__(self, o):
        return isinstance(o, DT) and (self.name, self.struct) == (o.name, o.struct)

    def __hash__(self):
        return hash((self.name, self.struct))

    def __repr__(self):
        return "dtype(%s)" % (self.struct or self.name,)


class Slice(V):
    __slots__ = ("a", "b", "c")

    def __init__(self, a, b, c):
        self.a, self.b, self.c = a, b, c

    def __eq__(self, o):
        return isinstance(o, Slice) and (self.a, self.b, self.c) == (o.a, o.b, o.c)

    def __hash__(self):
        return hash((self.a, self.b, self.c))


class Unk(V):
    __slots__ = ("reason", "roots", "uid")
    N = [0]

    def __init__(self, reason, roots=frozenset()):
        self.reason, self.roots = reason, frozenset(roots)
        Unk.N[0] += 1
        self.uid = Unk.N[0]

    def __repr__(self):
        return "?(%s)" % self.reason


class AttrsField(V):
    def __init__(self, kw):
        self.kw = kw


class FactoryV(V):
    def __init__(self, func):
        self.func = func


class EnumV(V):
    def __init__(self, cls, name, value):
        self.cls, self.name, self.value = cls, name, value

    def __eq__(self, o):
        return isinstance(o, EnumV) and (self.cls, self.name) == (o.cls, o.name)

    def __hash__(self):
        return hash((id(self.cls), self.name))

    def __repr__(self):
        return "%s.%s" % (self.cls.name, self.name)


# ------------------------------------------------------------ heap objects
class Obj:
    """Base of heap objects; treated as immutable, replaced on update."""

    def replace(self, **kw):
        o = object.__new__(type(self))
        o.__dict__.update(self.__dict__)
        o.__dict__.update(kw)
        return o


class Buf(Obj):
    """Memory.  origin: labels of who else can see it (empty: fresh).

    layout: C (row contiguous) or F (column contiguous)."""

    layout = "C"

    def __init__(self, content, origin=frozenset(), dt=None, ver=0):
        self.content, self.origin, self.dt, self.ver = content, frozenset(origin), dt, ver


class Arr(Obj):
    """An ndarray: a view on buffer ``buf`` through ``path``."""

    def __init__(self, buf, path=(), dt=None):
        self.buf, self.path, self.dt = buf, path, dt


class InstO(Obj):
    """Instance of a class of the package."""

    def __init__(self, cls, fields, origin=frozenset()):
        self.cls, self.fields, self.origin = cls, fields, frozenset(origin)
        self.cache = {}       # cached_property name -> (value, version token)


class _Kind(str):
    """A kind of container which behaves as another, in a definite order."""


KEYS = _Kind("set")        # views of the keys of a mapping


class Seg:
    """one: a single element; each: one element per index ``binder``."""
    __slots__ = ("value", "guard", "binder", "space", "key")

    def __init__(self, value, guard=None, binder=None, space=None, key=None):
        self.value, self.guard = value, guard
        self.binder, self.space, self.key = binder, space, key

    def __eq__(self, o):
        return isinstance(o, Seg) and all(
            getattr(self, s) == getattr(o, s) for s in Seg.__slots__)

    def __hash__(self):
        return hash((self.binder, self.guard))

    def __repr__(self):
        k = "" if self.key is None else "%r: " % (self.key,)
        b = "" if self.binder is None else " each %r in %r" % (self.binder, self.space)
        g = "" if self.guard is None else " if %r" % (self.guard,)
        return "%s%r%s%s" % (k, self.value, b, g)


class ListO(Obj):
    def __init__(self, segs, origin=frozenset(), kind="list"):
        self.segs, self.origin, self.kind = tuple(segs), frozenset(origin), kind


class DictO(Obj):
    """kind: dict / defaultdict / Counter; owner: the object whose __dict__ it is."""

    owner = None

    def __init__(self, segs, origin=frozenset(), kind="dict", default=None):
        self.segs, self.origin, self.kind = tuple(segs), frozenset(origin), kind
        self.default = default


class IterO(Obj):
    """One-shot iterator over a lazily described sequence."""

    def __init__(self, seq, consumed=False):
        self.seq, self.consumed = seq, consumed


class ExtO(Obj):
    """Opaque object of an external library or of the caller."""

    def __init__(self, kind, term, fields=None, origin=frozenset()):
        self.kind, self.term = kind, term
        self.fields, self.origin = fields or {}, frozenset(origin)


# -------------------------------------------------------------- sequences
class SStatic:
    def __init__(self, items):
        self.items = list(items)


class SGen:
    """Elements get(i, st) for i over ``space``; binder may be preferred."""

    def __init__(self, space, get, binder=None):
        self.space, self.get, self.binder = space, get, binder


class SCat:
    def __init__(self, parts):
        self.parts = list(parts)


class SPhi(SCat):
    """Either sequence a (under cond) or sequence b; parts as a fallback."""

    def __init__(self, cond, a, b, parts):
        SCat.__init__(self, parts)
        self.cond, self.a, self.b = cond, a, b


class SInf:
    """Infinite sequence with element get(i, st)."""

    def __init__(self, get):
        self.get = get


class SOcc:
    """Iterator q made afresh for each value of key: element number
    occurrence-of-key."""

    def __init__(self, key, q):
        self.key, self.q = key, q


class SUnk:
    def __init__(self, roots=frozenset(), reason=""):
        self.roots, self.reason = frozenset(roots), reason
