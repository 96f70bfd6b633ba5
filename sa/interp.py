"""Abstract interpreter over the package's syntax trees.

Flow-sensitive, interprocedural (bounded inlining), with joins at merge
points; loops are summarised, never iterated concretely.  Nothing of the
analysed package is executed.
"""
import ast

from . import terms as tm, sparse
from .loader import AnalysisBroken, qualname, PKG
from .terms import T, const, mk, raw, NONE, TRUE, FALSE
from .values import *  # noqa: F401,F403
from .values import V, Ref, Tup, Phi, Fn, BoundM, Meth, Part, Getter, ClsV, \
    ModV, Ext, DT, Slice, Unk, AttrsField, FactoryV, EnumV, Buf, Arr, InstO, \
    Seg, ListO, DictO, IterO, ExtO, SStatic, SGen, SCat, SInf, SUnk, SPhi, KEYS

ARRAY_COLS = {  # public contract: wrapped columns of each array class
    ("MomentumArray", "_data"): 4,
    ("ColorArray", "_data"): 2,
    ("AdjacencyList", "_data"): 2,
}
UNROLL = 48


class AbsDead(Exception):
    """The abstract state has no continuation (always raises)."""


class PropV(V):
    def __init__(self, fget, fset=None, cached=False):
        self.fget, self.fset, self.cached = fget, fset, cached


class ClsMeth(V):
    def __init__(self, fn):
        self.fn = fn


class StatMeth(V):
    def __init__(self, fn):
        self.fn = fn


class FieldInfo:
    def __init__(self, name, default=None, converter=None, init=True, kw=None,
                 array=None):
        self.name, self.default, self.converter = name, default, converter
        self.init, self.kw, self.array = init, kw or {}, array


class ClassInfo:
    def __init__(self, name, mod, node):
        self.name, self.mod, self.node = name, mod, node
        self.bases, self.ext_bases = [], []
        self.attrs = {}
        self.fields = []
        self.annotations = []
        self.kind = "plain"
        self.attrs_eq = False
        self.members = []

    def mro(self):
        out = [self]
        for b in self.bases:
            for c in b.mro():
                if c not in out:
                    out.append(c)
        return out

    def lookup(self, name):
        for c in self.mro():
            if name in c.attrs:
                return c.attrs[name]
            if c.kind == "attrs" and any(f.name == name for f in c.fields):
                return None      # slot of an instance
        return None

    def all_ext(self):
        s = set()
        for c in self.mro():
            s.update(c.ext_bases)
        return s

    def is_sub(self, other):
        return other in self.mro()

    def __repr__(self):
        return "<class %s>" % self.name


class State:
    __slots__ = ("heap", "assume")

    def __init__(self, heap=None, assume=None):
        self.heap = heap if heap is not None else {}
        self.assume = assume if assume is not None else {}

    def copy(self):
        return State(dict(self.heap), dict(self.assume))

    def take(self, other):
        self.heap, self.assume = other.heap, other.assume


class Frame:
    def __init__(self, mod, fn=None, closure=()):
        self.env = {}
        self.mod, self.fn = mod, fn
        self.closure = list(closure)
        self.returns = []
        self.yields = None
        self.loops = []
        self.globals = set()
        self.cls = None
        self.nonlocals = set()


class Loc:
    __slots__ = ("file", "line", "func", "stack")

    def __init__(self, file, line, func, stack=()):
        self.file, self.line, self.func, self.stack = file, line, func, stack

    def __repr__(self):
        return "%s:%s in %s" % (self.file, self.line, self.func)


class Event:
    def __init__(self, kind, labels, what, loc, assume, extra=None):
        self.kind, self.labels, self.what = kind, labels, what
        self.loc, self.assume, self.extra = loc, assume, extra

    def __repr__(self):
        return "%s %s %s at %r" % (self.kind, sorted(self.labels), self.what,
                                   self.loc)


class RaiseRec:
    def __init__(self, exc, assume, loc, maybe=False):
        self.exc, self.assume, self.loc, self.maybe = exc, assume, loc, maybe

    def __repr__(self):
        return "raise %s at %r" % (self.exc, self.loc)


_NID = [0]


# binders of the generic elements being described, the ones an object was made
# under, the spaces of binders, and what is an image of an element of a generic
# container: id -> (id of the object, its binder, the index)
ACTIVE, MADE, SPACES, VIA, IMAGES = [], {}, {}, {}, {}
BEFORE = {}                    # contents of buffers at the start of a loop


def nid():
    _NID[0] += 1
    if ACTIVE:
        MADE[_NID[0]] = tuple(ACTIVE)
    return _NID[0]


_VER = [0]


def new_ver():
    _VER[0] += 1
    return _VER[0]


def unk_term(reason="?"):
    _NID[0] += 1
    return raw("unk", "%s#%d" % (reason, _NID[0]))


def hashing(v):
    """'str' for values with a randomised hash, 'fixed' for others, None if
    unknown."""
    if isinstance(v, T):
        if v.op == "const":
            return "str" if isinstance(v.args[0], (str, bytes)) else "fixed"
        k = tm.kind(v)
        if v.op == "fmt":
            return "str"
        return "str" if k == "str" else "fixed" if k in ("int", "f8", "b1", "c16") else None
    if isinstance(v, Tup):
        ks = {hashing(x) for x in v.items}
        return "str" if "str" in ks else None if None in ks else "fixed"
    if isinstance(v, EnumV):
        return "str"
    if isinstance(v, Phi):
        ks = {hashing(v.a), hashing(v.b)}
        return "str" if "str" in ks else None if None in ks else "fixed"
    return None


class Interp:
    def __init__(self, pkg):
        self.pkg = pkg
        self.events = []
        self.raises = [[]]
        self.tries = []
        self.catching, self.inexact = [], 0
        self.with_body = []
        self.final_effect = False
        self.stack = []
        self.suppress = 0
        self.real_conv = False     # analyse the converters of array fields
        self.jit = []              # compiled kernels on the call stack
        self.set_perm = None       # reorders sets of strings (random.Random)
        self.native = False         # mark numpy scalars taken from arrays
        self.unknowns = []
        self.calls = []          # resolved call events (fn, args, loc, assume)
        self.hooks = {}
        self.track_cache = True
        self.base = State()
        self.loading = []
        self.cur = None
        self.curframe = None
        self.visited = set()
        self.active_binders = ACTIVE
        self.changing = []
        self.kernel_stack = []
        self.warn_mode = None
        self.steps = 0
        self.max_steps = 4000000
        from . import npmodel
        self.np = npmodel
        for name in sorted(pkg.modules):
            self.module(name)

    # ------------------------------------------------------------ modules
    def module(self, name):
        m = self.pkg.modules.get(name)
        if m is None:
            return None
        if m.loaded or name in self.loading:
            return m
        self.loading.append(name)
        fr = Frame(m)
        fr.env = m.env
        m.env["__name__"] = const(name)
        self.suppress += 1
        try:
            st = self.base
            for s in m.tree.body:
                try:
                    self.exec_stmt(s, fr, st)
                except AbsDead:
                    pass
        finally:
            self.suppress -= 1
            self.loading.pop()
        m.loaded = True
        # module level mutable objects are visible to every caller
        seen = set()
        for k, v in m.env.items():
            self.label(v, self.base, "global:%s.%s" % (name, k), seen)
        return m

    def get_class(self, name, module=PKG + ".data"):
        v = self.pkg.modules[module].env.get(name) if module in self.pkg.modules else None
        if not isinstance(v, ClsV):
            v = self.public(name)
        if not isinstance(v, ClsV):
            raise AnalysisBroken("public class %s has vanished" % name)
        return v.info

    def public(self, dotted):
        """Resolve e.g. 'select.clusters' from the package namespace."""
        parts = dotted.split(".")
        v = ModV(self.pkg.modules[PKG])
        for i, p in enumerate(parts):
            if isinstance(v, ModV):
                nxt = v.mod.env.get(p)
                if nxt is None:
                    sub = self.module(v.mod.name + "." + p)
                    nxt = ModV(sub) if sub else None
                v = nxt
            elif isinstance(v, ClsV):
                v = self.getattr(v, p, self.base) \
                    if v.info.lookup(p) is not None else None
            else:
                v = None
            if v is None:
                raise AnalysisBroken("public name %s has vanished" % dotted)
        return v

    # ---------------------------------------------------------- utilities
    def here(self, node=None):
        n = node if node is not None and hasattr(node, "lineno") else self.cur
        fr = self.curframe
        if fr is None:
            return Loc("?", 0, "?")
        return Loc(fr.mod.rel, getattr(n, "lineno", 0),
                   qualname(fr.fn.node) if fr.fn is not None else "<module>",
                   tuple(self.stack))

    def unknown(self, reason, roots=frozenset()):
        if not self.suppress:
            self.unknowns.append((reason, self.here()))
        return Unk(reason, roots)

    def event(self, kind, labels, what, st, extra=None):
        if self.suppress:
            return
        self.events.append(Event(kind, frozenset(labels), what, self.here(),
                                 dict(st.assume), extra))

    def alloc(self, st, obj):
        i = nid()
        st.heap[i] = obj
        return Ref(i)

    def new_arr(self, st, content, dt=None, origin=frozenset()):
        b = nid()
        st.heap[b] = Buf(content, origin, dt, new_ver())
        return self.alloc(st, Arr(b, (), dt))

    def get(self, st, ref):
        return st.heap[ref.id]

    def is_arr(self, st, v):
        return isinstance(v, Ref) and isinstance(st.heap.get(v.id), Arr)

    def is_inst(self, st, v):
        return isinstance(v, Ref) and isinstance(st.heap.get(v.id), InstO)

    def new_list(self, st, items, kind="list"):
        return self.alloc(st, ListO([Seg(x) for x in items], kind=kind))

    # ------------------------------------------------------- reachability
    def reach(self, st, *vals):
        """Ids of heap objects (incl. buffers) reachable from values."""
        seen = set()
        stack = list(vals)
        while stack:
            v = stack.pop()
            if isinstance(v, Ref):
                if v.id in seen:
                    continue
                seen.add(v.id)
                o = st.heap.get(v.id)
                if isinstance(o, Arr):
                    seen.add(o.buf)
                elif isinstance(o, InstO):
                    stack.extend(o.fields.values())
                    stack.extend(c[0] for c in o.cache.values())
                elif isinstance(o, ListO):
                    stack.extend(s.value for s in o.segs)
                elif isinstance(o, DictO):
                    for s in o.segs:
                        stack.append(s.value)
                        if isinstance(s.key, V):
                            stack.append(s.key)
                elif isinstance(o, ExtO):
                    stack.extend(o.fields.values())
                elif isinstance(o, IterO):
                    if isinstance(o.seq, SStatic):
                        stack.extend(o.seq.items)
            elif isinstance(v, Tup):
                stack.extend(v.items)
            elif isinstance(v, Phi):
                stack.extend((v.a, v.b))
            elif isinstance(v, Unk):
                seen.update(v.roots)
            elif isinstance(v, BoundM):
                stack.append(v.self)
            elif isinstance(v, Meth):
                stack.append(v.recv)
            elif isinstance(v, Part):
                stack.append(v.func)
                stack.extend(v.args)
                stack.extend(v.kwargs.values())
            elif isinstance(v, Slice):
                stack.extend((v.a, v.b, v.c))
        return seen

    def label(self, v, st, name, seen=None):
        """Mark everything reachable from v as visible under ``name``."""
        seen = set() if seen is None else seen
        if isinstance(v, Ref):
            if v.id in seen:
                return
            seen.add(v.id)
            o = st.heap.get(v.id)
            if isinstance(o, Arr):
                b = st.heap[o.buf]
                st.heap[o.buf] = b.replace(origin=b.origin | {name})
            elif isinstance(o, InstO):
                st.heap[v.id] = o.replace(origin=o.origin | {name})
                for k, x in o.fields.items():
                    self.label(x, st, name + "." + k.lstrip("_"), seen)
                for k, c in o.cache.items():
                    self.label(c[0], st, name + "." + k, seen)
            elif isinstance(o, (ListO, DictO)):
                st.heap[v.id] = o.replace(origin=o.origin | {name})
                for i, s in enumerate(o.segs):
                    k = s.key
                    kn = repr(k) if k is not None else str(i)
                    self.label(s.value, st, "%s[%s]" % (name, kn), seen)
            elif isinstance(o, ExtO):
                st.heap[v.id] = o.replace(origin=o.origin | {name})
                for k, x in o.fields.items():
                    self.label(x, st, name + "." + k, seen)
        elif isinstance(v, Tup):
            for i, x in enumerate(v.items):
                self.label(x, st, "%s[%d]" % (name, i), seen)
        elif isinstance(v, Phi):
            self.label(v.a, st, name, seen)
            self.label(v.b, st, name, seen)

    # --------------------------------------------------------- conditions
    def assume(self, st, c, val=True):
        """Record that condition c has truth value val; False if impossible."""
        if c.op == "not":
            return self.assume(st, c.args[0], not val)
        d = self.decide(st, c)
        if d is not None:
            return d == val
        st.assume[c] = val
        if c.op == "bany" and val and isinstance(c.args[0], T):
            sp = c.args[0]
            while isinstance(sp, T):
                st.assume[raw("nonempty", sp)] = True
                sp = sp.args[0] if sp.op == "subspace" else None
        if c.op == "and" and val:
            return self.assume(st, c.args[0]) and self.assume(st, c.args[1])
        if c.op == "or" and not val:
            return self.assume(st, c.args[0], False) and \
                self.assume(st, c.args[1], False)
        return True

    def decide(self, st, c):
        """True / False when the assumptions settle c, else None."""
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        if c.op == "const":
            return bool(c.args[0])
        if c.op not in ("and", "or", "ite", "not", "truth", "isnone"):
            return self._decide(st, c)
        if self._dmemo is not None:
            if c in self._dmemo:
                return self._dmemo[c]
            r = self._dmemo[c] = self._decide(st, c)
            return r
        self._dmemo = {}
        try:
            return self._decide(st, c)
        finally:
            self._dmemo = None

    _dmemo = None

    def _decide(self, st, c):
        r = st.assume.get(c)
        if r is not None:
            return r
        if c.op == "not":
            r = self.decide(st, c.args[0])
            return None if r is None else not r
        if c.op == "and":
            a, b = self.decide(st, c.args[0]), self.decide(st, c.args[1])
            if a is False or b is False:
                return False
            return True if a and b else None
        if c.op == "or":
            a, b = self.decide(st, c.args[0]), self.decide(st, c.args[1])
            if a or b:
                return True
            return False if a is False and b is False else None
        if c.op == "ite":
            k = self.decide(st, c.args[0])
            if k is not None:
                return self.decide(st, c.args[1 if k else 2])
            a, b = self.decide(st, c.args[1]), self.decide(st, c.args[2])
            return a if a is not None and a == b else None
        if c.op in ("lt", "le", "gt", "ge", "eq", "ne"):
            neg = st.assume.get(raw(tm._NEGCMP[c.op], *c.args))
            if neg is not None and c.op in ("eq", "ne"):
                return not neg
            return self.cmp_decide(st, c)
        if c.op == "truth":
            a = c.args[0]
            if a.op == "sym":
                p = tm.props(a)
                if p.get("truthy") is not None:
                    return p["truthy"]
            b = self.bounds(st, a)
            if b is not None:
                lo, lo_o, hi, hi_o = b
                if lo > 0 or hi < 0 or (lo == 0 and lo_o) or (hi == 0 and hi_o):
                    return True
                if lo == hi == 0:
                    return False
        if c.op == "isnone":
            a = c.args[0]
            if a.op == "ite":
                k = self.decide(st, a.args[0])
                if k is not None:
                    return self.decide(st, mk("isnone", a.args[1 if k else 2]))
        return None

    def nonempty(self, st, sp):
        """Whether index space sp is known to have an element."""
        if st.assume.get(raw("nonempty", sp)):
            return True
        if sp.op == "subspace" and tm.kind(sp.args[1]) == "b1" and \
                tm.rank(sp.args[1]) == 1:
            k = tm.reduce_rows("bany", sp.args[1])
            return bool(st.assume.get(k))
        return False

    def bounds(self, st, t):
        """(lo, lo_open, hi, hi_open) of a scalar term, or None."""
        inf = float("inf")
        if t.op == "const":
            v = t.args[0]
            if isinstance(v, (int, float)) and not isinstance(v, bool):
                if v != v:
                    return None
                return (v, False, v, False)
            return None
        lo, lo_o, hi, hi_o = -inf, True, inf, True
        known = False
        if t.op == "sym":
            p = tm.props(t)
            if "lo" in p or "hi" in p:
                lo, lo_o = p.get("lo", -inf), p.get("lo_open", False)
                hi, hi_o = p.get("hi", inf), p.get("hi_open", False)
                known = True
        elif t.op in ("len", "rows_n"):
            lo, lo_o, known = 0, False, True
            if t.op == "rows_n" and isinstance(t.args[0], T) and \
                    self.nonempty(st, t.args[0]):
                lo = 1
        elif t.op == "abs":
            lo, lo_o, known = 0, False, True
        elif t.op == "add":
            a, b = self.bounds(st, t.args[0]), self.bounds(st, t.args[1])
            if a and b:
                return (a[0] + b[0], a[1] or b[1], a[2] + b[2], a[3] or b[3])
        elif t.op == "neg":
            a = self.bounds(st, t.args[0])
            if a:
                return (-a[2], a[3], -a[0], a[1])
        elif t.op == "ite":
            k = self.decide(st, t.args[0])
            if k is not None:
                return self.bounds(st, t.args[1 if k else 2])
        for c, val in st.assume.items():
            if c.op in ("lt", "le", "gt", "ge", "eq") and len(c.args) == 2:
                a, b, op_ = c.args[0], c.args[1], c.op
                if b is t and a.op == "const":
                    a, b = b, a
                    op_ = {"lt": "gt", "le": "ge", "gt": "lt", "ge": "le",
                           "eq": "eq"}[op_]
                if a is t and b.op == "const" and tm._num(b.args[0]) and \
                        not isinstance(b.args[0], complex):
                    v = b.args[0]
                    if not val:
                        if op_ == "eq":
                            continue
                        op_ = tm._NEGCMP[op_]
                    known = True
                    if op_ in ("lt", "le", "eq"):
                        o = op_ == "lt"
                        if v < hi or (v == hi and o):
                            hi, hi_o = v, o
                    if op_ in ("gt", "ge", "eq"):
                        o = op_ == "gt"
                        if v > lo or (v == lo and o):
                            lo, lo_o = v, o
        return (lo, lo_o, hi, hi_o) if known else None

    def cmp_decide(self, st, c):
        a, b = c.args
        if a is b and tm.kind(a) in ("int", "str", "b1"):
            return c.op in ("le", "ge", "eq")
        x, y = self.bounds(st, a), self.bounds(st, b)
        if x is None or y is None:
            if c.op in ("eq", "ne") and (a.op == "const" or b.op == "const"):
                s, k = (a, b) if b.op == "const" else (b, a)
                if s.op == "sym":
                    p = tm.props(s)
                    if "among" in p and k.args[0] not in p["among"]:
                        return c.op == "ne"
                    if k.args[0] in p.get("excluded", ()):
                        return c.op == "ne"
                    if p.get("kind") == "str" and not isinstance(k.args[0], str):
                        return c.op == "ne"
            return None
        op = c.op
        if op in ("gt", "ge"):
            x, y = y, x
            op = {"gt": "lt", "ge": "le"}[op]
        lt_sure = x[2] < y[0] or (x[2] == y[0] and (x[3] or y[1]))
        le_sure = lt_sure or x[2] <= y[0]
        gt_sure = x[0] > y[2] or (x[0] == y[2] and (x[1] or y[3]))
        ge_sure = gt_sure or x[0] >= y[2]
        if op == "lt":
            return True if lt_sure else (False if ge_sure else None)
        if op == "le":
            return True if le_sure else (False if gt_sure else None)
        if op == "eq":
            if lt_sure or gt_sure:
                return False
            if x[0] == x[2] == y[0] == y[2]:
                return True
            return None
        if op == "ne":
            if lt_sure or gt_sure:
                return True
            if x[0] == x[2] == y[0] == y[2]:
                return False
            return None
        return None

    def norm(self, st, v):
        """Resolve phis decided by the current assumptions."""
        while isinstance(v, Phi):
            d = self.decide(st, v.cond)
            if d is None:
                return v
            v = v.a if d else v.b
        if isinstance(v, T) and v.op == "ite":
            d = self.decide(st, v.args[0])
            if d is not None:
                return self.norm(st, v.args[1 if d else 2])
        return v

    def on_phi(self, v, st, f):
        """Apply f(leaf, st) to each leaf of a phi, joining the results."""
        v = self.norm(st, v)
        if not isinstance(v, Phi):
            return f(v, st)
        return self.branch(v.cond, st,
                           lambda s: self.on_phi(v.a, s, f),
                           lambda s: self.on_phi(v.b, s, f))

    def branch(self, c, st, fa, fb):
        d = self.decide(st, c)
        if d is True:
            return fa(st)
        if d is False:
            return fb(st)
        fr = self.curframe
        env0 = dict(fr.env) if fr else {}
        sa, sb = st.copy(), st.copy()
        self.assume(sa, c, True)
        self.assume(sb, c, False)
        ra = rb = None
        da = db = False
        try:
            ra = fa(sa)
        except AbsDead:
            da = True
        enva = dict(fr.env) if fr else {}
        if fr:
            fr.env.clear()
            fr.env.update(env0)
        try:
            rb = fb(sb)
        except AbsDead:
            db = True
        envb = dict(fr.env) if fr else {}
        if da and db:
            raise AbsDead()
        if da:
            st.take(sb)
            return rb
        if db:
            if fr:
                fr.env.clear()
                fr.env.update(enva)
            st.take(sa)
            return ra
        if fr:
            env = self.join_env(c, enva, envb)
            fr.env.clear()
            fr.env.update(env)
        self.join(c, st, sa, sb)
        return self.unify(self.merge(c, ra, rb), st)

    # -------------------------------------------------------------- joins
    def merge(self, c, a, b):
        if a is b or (type(a) is type(b) and a == b):
            return a
        if a is None:
            return b
        if b is None:
            return a
        if isinstance(a, T) and isinstance(b, T):
            return mk("ite", c, a, b)
        if isinstance(a, Tup) and isinstance(b, Tup) and \
                len(a.items) == len(b.items) and a.cls is b.cls:
            return Tup([self.merge(c, x, y) for x, y in zip(a.items, b.items)],
                       a.cls)
        if c.op == "not":
            return self.merge(c.args[0], b, a)
        return Phi(c, a, b)

    def unify(self, v, st):
        """One tuple of alternatives for alternatives of tuples."""
        if not isinstance(v, Phi):
            return v
        a, b = self.unify(v.a, st), self.unify(v.b, st)
        segs = []
        for x in (a, b):
            o = st.heap.get(x.id) if isinstance(x, Ref) else None
            if not isinstance(o, ListO) or o.kind != "tuple" or \
                    len(o.segs) != 1 or o.segs[0].binder is None or \
                    o.segs[0].guard is not None:
                return v
            segs.append(o.segs[0])
        sa, sb = segs
        if sa.space is not sb.space:
            return v
        vb = self.rename(sb.value, sb.binder, sa.binder, st)
        return self.alloc(st, ListO([Seg(
            self.merge(v.cond, sa.value, vb), None, sa.binder, sa.space)],
            kind="tuple"))

    def join_env(self, c, ea, eb):
        out = {}
        for k in ea:
            if k in eb:
                out[k] = self.merge(c, ea[k], eb[k])
            else:
                out[k] = ea[k] if ea[k] is _UNBOUND else Phi(c, ea[k], _UNBOUND)
        for k in eb:
            if k not in ea:
                out[k] = Phi(c, _UNBOUND, eb[k])
        return out

    def join(self, c, st, sa, sb):
        heap = {}
        ha, hb = sa.heap, sb.heap
        for i, oa in ha.items():
            ob = hb.get(i)
            if ob is None or ob is oa:
                heap[i] = oa
            else:
                heap[i] = self.join_obj(c, oa, ob)
        for i, ob in hb.items():
            if i not in ha:
                heap[i] = ob
        st.heap = heap
        st.assume = {k: v for k, v in sa.assume.items()
                     if sb.assume.get(k) is v}

    def join_obj(self, c, a, b):
        if isinstance(a, Buf):
            ver = a.ver if a.ver == b.ver else ("phi", a.ver, b.ver)
            return a.replace(content=mk("ite", c, a.content, b.content)
                             if a.content is not b.content else a.content,
                             origin=a.origin | b.origin, ver=ver,
                             dt=a.dt if a.dt == b.dt else None)
        if isinstance(a, Arr):
            if a.buf == b.buf and a.path == b.path:
                return a
            return a
        if isinstance(a, InstO):
            fields = {}
            for k in list(a.fields) + [k for k in b.fields if k not in a.fields]:
                fields[k] = self.merge(c, a.fields.get(k), b.fields.get(k))
            o = a.replace(fields=fields, origin=a.origin | b.origin)
            cache = {}
            for k in set(a.cache) | set(b.cache):
                ca, cb = a.cache.get(k), b.cache.get(k)
                if ca is None:
                    cache[k] = (self.merge(c, _ABSENT, cb[0]), cb[1])
                elif cb is None:
                    cache[k] = (self.merge(c, ca[0], _ABSENT), ca[1])
                elif ca == cb:
                    cache[k] = ca
                else:
                    cache[k] = (self.merge(c, ca[0], cb[0]),
                                ca[1] if ca[1] == cb[1] else
                                ("phi", ca[1], cb[1]))
            o.cache = cache
            return o
        if isinstance(a, ListO):
            n = 0
            while n < len(a.segs) and n < len(b.segs) and a.segs[n] == b.segs[n]:
                n += 1
            segs = list(a.segs[:n])
            ra, rb = a.segs[n:], b.segs[n:]
            if len(ra) == len(rb) and all(
                    x.binder is y.binder and x.guard == y.guard and x.space == y.space
                    for x, y in zip(ra, rb)):
                segs += [Seg(self.merge(c, x.value, y.value), x.guard, x.binder,
                             x.space) for x, y in zip(ra, rb)]
            else:
                segs += [Seg(x.value, self.conj(c, x.guard), x.binder, x.space)
                         for x in ra]
                nc = mk("not", c)
                segs += [Seg(x.value, self.conj(nc, x.guard), x.binder, x.space)
                         for x in rb]
            return a.replace(segs=tuple(segs), origin=a.origin | b.origin)
        if isinstance(a, DictO):
            segs = []
            kb = list(b.segs)
            ka = [(x.key, x.binder, x.space) for x in a.segs]
            both = [x for x in ka if x in [(y.key, y.binder, y.space) for y in kb]]
            if both != [x for x in [(y.key, y.binder, y.space) for y in kb] if x in both] or \
                    ka[:len(both)] != both:
                # the order of the keys differs
                n = 0
                while n < len(a.segs) and n < len(kb) and a.segs[n] == kb[n]:
                    n += 1
                segs = list(a.segs[:n]) + [Seg(
                    x.value, self.conj(g, x.guard), x.binder, x.space, x.key)
                    for g, y in ((c, a.segs[n:]), (mk("not", c), kb[n:])) for x in y]
                return a.replace(segs=tuple(segs), origin=a.origin | b.origin)
            for x in a.segs:
                m = next((y for y in kb if y.key == x.key and
                          y.binder is x.binder and y.space == x.space), None)
                if m is None:
                    segs.append(Seg(x.value, self.conj(c, x.guard), x.binder,
                                    x.space, x.key))
                else:
                    kb.remove(m)
                    g = x.guard if x.guard == m.guard else mk(
                        "ite", c, TRUE if x.guard is None else x.guard,
                        TRUE if m.guard is None else m.guard)
                    segs.append(Seg(self.merge(c, x.value, m.value), None if g is TRUE else g,
                                    x.binder, x.space, x.key))
            nc = mk("not", c)
            segs += [Seg(y.value, self.conj(nc, y.guard), y.binder, y.space,
                         y.key) for y in kb]
            return a.replace(segs=tuple(segs), origin=a.origin | b.origin)
        if isinstance(a, ExtO):
            fields = dict(a.fields)
            for k, v in b.fields.items():
                fields[k] = self.merge(c, fields.get(k), v)
            return a.replace(fields=fields, term=mk("ite", c, a.term, b.term)
                             if a.term is not b.term else a.term,
                             origin=a.origin | b.origin)
        return a

    def conj(self, c, g):
        return c if g is None else mk("and", c, g)

    # ------------------------------------------------------- term conversion
    def content(self, st, ref):
        a = st.heap[ref.id]
        t = st.heap[a.buf].content
        for step in a.path:
            t = self.np.apply_step(t, step)
        return t

    def term(self, v, st):
        """Pure snapshot of any value."""
        v = self.norm(st, v)
        if isinstance(v, T):
            return v
        if isinstance(v, Ref):
            o = st.heap.get(v.id)
            if isinstance(o, Arr):
                return self.content(st, v)
            if isinstance(o, InstO):
                fs = tuple(sorted(k for k in o.fields
                                  if k not in ("dtype", "_HANDLED_TYPES")
                                  and "__" not in k))
                return raw("inst", o.cls.name, fs,
                           tuple(self.term(o.fields[k], st) for k in fs))
            if isinstance(o, ListO):
                if o.kind == "set" and o.kind is not KEYS:
                    return self.np.setterm(self, st, v)
                return raw("list", tuple(self.seg_term(s, st) for s in o.segs))
            if isinstance(o, DictO):
                return raw("dict", tuple(self.seg_term(s, st) for s in o.segs))
            if isinstance(o, ExtO):
                if o.kind == "coo" and "row" in o.fields:
                    return sparse.term(self, o, st)
                return o.term
            return unk_term("obj")
        if isinstance(v, Tup):
            return raw("tuple", *[self.term(x, st) for x in v.items])
        if isinstance(v, Phi):
            return mk("ite", v.cond, self.term(v.a, st), self.term(v.b, st))
        if isinstance(v, Slice):
            return raw("slice", *[self.term(x, st) for x in (v.a, v.b, v.c)])
        if isinstance(v, (Ext, ClsV, EnumV, DT, Fn)):
            return raw("glob", repr(v))
        return unk_term(getattr(v, "reason", type(v).__name__))

    def seg_term(self, s, st):
        t = self.term(s.value, st)
        if s.key is not None:
            k = self.term(s.key, st) if isinstance(s.key, V) else s.key
            t = raw("pair", k, t)
        if s.guard is not None:
            t = raw("guarded", s.guard, t)
        if s.binder is not None:
            sp = s.space if isinstance(s.space, T) else raw("nospace")
            t = tm.bind("each", sp, s.binder, t)
        return t

    # --------------------------------------------------------------- truth
    def truth(self, v, st):
        """Condition term for bool(v)."""
        v = self.norm(st, v)
        if isinstance(v, T) and v.op == "np_":
            v = v.args[0]
        if isinstance(v, T):
            if v.op == "const":
                try:
                    return const(bool(v.args[0]))
                except Exception:
                    return unk_term("truth")
            if v.op == "ite":
                return mk("ite", v.args[0], self.truth(v.args[1], st),
                          self.truth(v.args[2], st))
            k = tm.kind(v)
            if k == "b1":
                return v
            return mk("truth", v)
        if isinstance(v, Tup):
            return const(len(v.items) > 0)
        if isinstance(v, Ref):
            o = st.heap.get(v.id)
            if isinstance(o, InstO):
                f = o.cls.lookup("__bool__")
                if f is not None:
                    return self.truth(self.call(BoundM(f, v), [], {}, st), st)
                f = o.cls.lookup("__len__")
                if f is not None:
                    n = self.call(BoundM(f, v), [], {}, st)
                    return self.truth(n, st)
                return TRUE
            if isinstance(o, (ListO, DictO)):
                if any(s.binder is None and s.guard is None for s in o.segs):
                    return TRUE
                if not o.segs:
                    return FALSE
                return mk("truth", self.list_len(o, st))
            if isinstance(o, Arr):
                t = self.content(st, v)
                if tm.rank(t) == 0:
                    return self.truth(t, st)
                return mk("truth", t)
            if isinstance(o, ExtO):
                return mk("truth", o.term)
            return TRUE
        if isinstance(v, Phi):
            r = []
            out = self.on_phi(v, st, lambda x, s: self.truth(x, s))
            return out
        if isinstance(v, (Fn, BoundM, ClsV, Ext, ModV, EnumV, DT, Meth, Part)):
            return TRUE
        return unk_term("truth")

    def list_len(self, o, st):
        total = const(0)
        segs = o.segs
        if isinstance(o, DictO) or o.kind == "set":
            segs = self.np.first_each(self, st, segs, isinstance(o, DictO))
        for s in segs:
            if s.binder is None:
                n = const(1)
            else:
                n = raw("rows_n", s.space if isinstance(s.space, T)
                        else raw("nospace"))
            if s.guard is not None:
                if s.binder is None:
                    n = mk("ite", s.guard, n, const(0))
                else:
                    n = tm.bind("bsum", s.space if isinstance(s.space, T)
                                else raw("nospace"), s.binder, mk("ite", s.guard, const(1),
                                                                  const(0)))
            total = mk("add", total, n)
        return total

    # ------------------------------------------------------- sequences
    def seq(self, v, st):
        """Describe iteration over v."""
        v = self.norm(st, v)
        if isinstance(v, Tup):
            return SStatic(v.items)
        if isinstance(v, T):
            if v.op == "const" and isinstance(v.args[0], (str, bytes)):
                return SStatic([const(ch) for ch in v.args[0]])
            if v.op in ("row",):
                return SStatic(v.args)
            if v.op == "tuple":
                return SStatic(v.args)
            if tm.kind(v) in ("f8", "int", "b1") and tm.rank(v) == 0:
                return SUnk(reason="iterating a scalar")
            sp = tm.space(v) or raw("elems", v)
            return SGen(sp, lambda i, s: mk("at", v, i))
        if isinstance(v, Ref):
            o = st.heap.get(v.id)
            if isinstance(o, ListO):
                return self.segs_seq(self.in_order(o, st), lambda s: s.value)
            if isinstance(o, DictO):
                from . import npmodel as N
                return self.segs_seq(N.dict_keys(self, st, o), lambda s: s.value)
            if isinstance(o, IterO):
                if o.consumed:
                    return SStatic([])
                st.heap[v.id] = o.replace(consumed=True)
                return o.seq
            if isinstance(o, Arr):
                return self.arr_seq(v, st)
            if isinstance(o, InstO):
                f = o.cls.lookup("__iter__")
                if f is not None:
                    return self.seq(self.call(BoundM(f, v), [], {}, st), st)
                f = o.cls.lookup("__getitem__")
                if f is not None:
                    n = self.length(v, st)
                    return SGen(raw("range", const(0), n, const(1)),
                                lambda i, s: self.call(BoundM(f, v), [i], {}, s))
            if isinstance(o, ExtO):
                t = o.term
                return SGen(raw("elems", t), lambda i, s: mk("at", t, i))
        if isinstance(v, Phi):
            return self.seq_phi(v.cond, self.seq(v.a, st), self.seq(v.b, st))
        if isinstance(v, ClsV) and v.info.kind == "enum":
            return SStatic([EnumV(v.info, n, x) for n, x in v.info.members])
        roots = self.reach(st, v)
        return SUnk(roots, "iterating %r" % (v,))

    def seq_phi(self, c, a, b):
        if isinstance(a, SUnk) or isinstance(b, SUnk) or \
                isinstance(a, SInf) or isinstance(b, SInf):
            return SUnk(getattr(a, "roots", frozenset()) |
                        getattr(b, "roots", frozenset()), "alternatives")
        return SPhi(c, a, b, self.guard_seq(a, c) +
                    self.guard_seq(b, mk("not", c)))

    def guard_seq(self, q, g):
        if isinstance(q, SStatic):
            sp = raw("maybe", g)
            return [SGen(sp, lambda i, s, x=x: x) for x in q.items]
        if isinstance(q, SCat):
            return [y for p in q.parts for y in self.guard_seq(p, g)]
        if isinstance(q, SGen):
            if q.space.op == "maybe":
                sp = raw("maybe", mk("and", g, q.space.args[0]))
            else:
                b = tm.fresh_binder()
                sp = raw("filt", q.space, tm.bind("lam", raw("nospace"), b, g))
            return [SGen(sp, q.get, q.binder)]
        return [q]

    def in_order(self, o, st):
        """Elements of a list or set in the order of iteration: any order for
        sets whose hashes differ between processes."""
        if o.kind != "set" or o.kind is KEYS or not o.segs or len(o.segs) == 1 and o.segs[0].binder is None:
            return o.segs
        o = o.replace(segs=tuple(self.np.first_each(self, st, o.segs, isset=True)))
        ks = {hashing(s.value) for s in o.segs}
        if "str" not in ks:
            if None in ks:
                self.event("set-order", (), "unknown", st)
            return o.segs
        self.event("set-order", (), "str", st)
        if self.set_perm is None:
            return o.segs
        segs = [s if s.binder is None or not isinstance(s.space, T) else Seg(
            s.value, s.guard, s.binder, raw("rev", s.space), s.key) for s in o.segs]
        self.set_perm.shuffle(segs)
        return tuple(segs)

    def segs_seq(self, segs, pick):
        if all(s.binder is None and s.guard is None for s in segs):
            return SStatic([pick(s) for s in segs])
        parts = []
        run = []
        for s in segs:
            if s.binder is None and s.guard is None:
                run.append(pick(s))
                continue
            if run:
                parts.append(SStatic(run))
                run = []
            parts.append(self.seg_gen(s, pick))
        if run:
            parts.append(SStatic(run))
        return parts[0] if len(parts) == 1 else SCat(parts)

    def seg_gen(self, s, pick):
        val = pick(s)
        if s.binder is None:
            sp = raw("maybe", s.guard)
            return SGen(sp, lambda i, st: val)
        sp = s.space if isinstance(s.space, T) else raw("nospace")
        if s.guard is not None:
            g = tm.bind("lam", raw("nospace"), s.binder, s.guard)
            sp = raw("filt", sp, g)
        b = s.binder

        def get(i, st):
            if i is b:
                return val
            return self.rename(val, b, i, st)
        return SGen(sp, get, binder=b)

    def rename(self, v, b, i, st):
        """Element value with binder b replaced by index term i."""
        if isinstance(v, T):
            return tm.subst(v, {b: i})
        if isinstance(v, Tup):
            return Tup([self.rename(x, b, i, st) for x in v.items], v.cls)
        if isinstance(v, Phi):
            return self.merge(tm.subst(v.cond, {b: i}),
                              self.rename(v.a, b, i, st),
                              self.rename(v.b, b, i, st))
        if isinstance(v, Slice):
            return Slice(*[self.rename(x, b, i, st) for x in (v.a, v.b, v.c)])
        if isinstance(v, Ref):
            return self.clone(v, st, {b: i}, {}, keep_origin=True)
        return v

    def per(self, v, st, b, seen=None):
        """Whether the value differs between the elements bound by b."""
        seen = set() if seen is None else seen
        if isinstance(v, T):
            return b in tm.tvars(v)
        if isinstance(v, Tup):
            return any(self.per(x, st, b, seen) for x in v.items)
        if isinstance(v, Phi):
            return any(self.per(x, st, b, seen) for x in (v.cond, v.a, v.b))
        if v is None or isinstance(v, (str, ClsV, Ext, EnumV)):
            return False
        if not isinstance(v, Ref):
            return True
        if v.id in seen:
            return False
        seen.add(v.id)
        if b in MADE.get(v.id, ()):
            return True
        o = st.heap[v.id]
        if isinstance(o, Arr):
            return b in MADE.get(o.buf, ()) or self.per(
                st.heap[o.buf].content, st, b) or any(
                    self.per(x, st, b) for s in o.path for x in s if isinstance(x, T))
        if isinstance(o, InstO):
            return any(self.per(x, st, b, seen) for x in o.fields.values())
        if isinstance(o, (ListO, DictO)):
            return any(self.per(x, st, b, seen) for s in o.segs for x in (
                s.value, s.guard, s.key, s.space))
        return True

    def clone(self, v, st, mapping=None, memo=None, keep_origin=False):
        """Deep copy of everything reachable from v."""
        memo = {} if memo is None else memo
        sub = (lambda t: tm.subst(t, mapping)) if mapping else (lambda t: t)
        if isinstance(v, T):
            return sub(v)
        if isinstance(v, Tup):
            return Tup([self.clone(x, st, mapping, memo, keep_origin)
                        for x in v.items], v.cls)
        if isinstance(v, Phi):
            return self.merge(sub(v.cond),
                              self.clone(v.a, st, mapping, memo, keep_origin),
                              self.clone(v.b, st, mapping, memo, keep_origin))
        if not isinstance(v, Ref):
            return v
        if v.id in memo:
            return Ref(memo[v.id])
        o = st.heap[v.id]
        image = None
        if keep_origin and mapping and len(mapping) == 1:
            (b, i), = mapping.items()
            if not self.per(v, st, b):
                return v
            image = (b, i)
        n = nid()
        memo[v.id] = n
        go = lambda x: self.clone(x, st, mapping, memo, keep_origin)  # noqa
        if image:
            VIA[n] = (v.id,) + image
        else:
            MADE[n] = MADE.get(n, ()) + MADE.get(v.id, ())
        if isinstance(o, Arr):
            if o.buf not in memo:
                nb = nid()
                memo[o.buf] = nb
                if image:
                    VIA[nb] = (o.buf,) + image
                    IMAGES.setdefault(o.buf, []).append(nb)
                    for d in self.changing:
                        if o.buf in d and d[o.buf] is not image[1]:
                            self.unknown("element of another iteration")
                else:
                    MADE[nb] = MADE.get(nb, ()) + MADE.get(o.buf, ())
                b = st.heap[o.buf]
                st.heap[nb] = b.replace(
                    content=sub(b.content),
                    origin=b.origin if keep_origin else frozenset())
            path = tuple(
                tuple(sub(x) if isinstance(x, T) else x for x in stp)
                for stp in o.path)
            st.heap[n] = o.replace(buf=memo[o.buf], path=path)
        elif isinstance(o, InstO):
            st.heap[n] = o
            c = o.replace(fields={k: go(x) for k, x in o.fields.items()},
                          origin=o.origin if keep_origin else frozenset())
            c.cache = {k: (go(x[0]), x[1]) for k, x in o.cache.items()}
            st.heap[n] = c
        elif isinstance(o, (ListO, DictO)):
            st.heap[n] = o
            segs = [Seg(go(s.value), sub(s.guard) if s.guard is not None
                        else None, s.binder,
                        sub(s.space) if isinstance(s.space, T) else s.space,
                        go(s.key) if isinstance(s.key, V) else
                        (sub(s.key) if isinstance(s.key, T) else s.key))
                    for s in o.segs]
            st.heap[n] = o.replace(segs=tuple(segs),
                                   origin=o.origin if keep_origin
                                   else frozenset())
        elif isinstance(o, ExtO):
            st.heap[n] = o
            st.heap[n] = o.replace(term=sub(o.term),
                                   fields={k: go(x) for k, x in o.fields.items()},
                                   origin=o.origin if keep_origin
                                   else frozenset())
        else:
            st.heap[n] = o
        return Ref(n)

    def arr_seq(self, v, st):
        t = self.content(st, v)
        if t.op in ("row", "mat") or (t.op == "rows"):
            n = len(t.args)
            return SStatic([self.np.index_arr(self, st, v, const(i))
                            for i in range(n)])
        r = tm.rank(t)
        sp = tm.space(t) or raw("rowsof", t)
        if t.op == "struct":
            return SGen(sp, lambda i, s: self.np.index_arr(self, s, v, i))
        if r == 1:
            return SGen(sp, lambda i, s: self.npscalar(mk("at", self.content(s, v), i)))
        return SGen(sp, lambda i, s: self.np.index_arr(self, s, v, i))

    def npscalar(self, t):
        return raw("np_", t) if self.native else t

    def length(self, v, st):
        v = self.norm(st, v)
        if isinstance(v, Tup):
            return const(len(v.items))
        if isinstance(v, T):
            if v.op == "const" and isinstance(v.args[0], (str, bytes)):
                return const(len(v.args[0]))
            if v.op in ("row", "tuple"):
                return const(len(v.args))
            sp = tm.space(v)
            return self.space_len(sp) if sp is not None else raw("len", v)
        if isinstance(v, Ref):
            o = st.heap.get(v.id)
            if isinstance(o, InstO):
                f = o.cls.lookup("__len__")
                if f is not None:
                    return self.call(BoundM(f, v), [], {}, st)
            if isinstance(o, (ListO, DictO)):
                return self.list_len(o, st)
            if isinstance(o, Arr):
                t = self.content(st, v)
                if t.op in ("row", "mat"):
                    return const(len(t.args))
                sp = tm.space(t)
                return self.space_len(sp) if sp is not None else raw("len", t)
            if isinstance(o, ExtO):
                return raw("len", o.term)
        if isinstance(v, Phi):
            return self.on_phi(v, st, lambda x, s: self.length(x, s))
        return unk_term("len")

    def space_len(self, sp):
        while sp.op in ("rev", "sortedspace"):
            sp = sp.args[0]
        if sp.op == "range":
            a, b, c = sp.args
            if a is const(0) and c is const(1):
                return b
        if sp.op == "statics":
            return sp.args[0]
        if sp.op == "range" and all(x.op == "const" for x in sp.args):
            return const(len(range(*[x.args[0] for x in sp.args])))
        return raw("rows_n", sp)

    def len_space(self, n):
        if n.op == "rows_n":
            return n.args[0]
        return raw("range", const(0), n, const(1))

    def static_items(self, v, st, limit=512):
        """Items of a statically known sequence, else None."""
        s = self.seq(v, st)
        return self.flat_static(s, limit)

    def flat_static(self, s, limit=512):
        if isinstance(s, SStatic):
            return s.items if len(s.items) <= limit else None
        if isinstance(s, SCat):
            out = []
            for p in s.parts:
                x = self.flat_static(p, limit)
                if x is None:
                    return None
                out += x
            return out
        return None

    # ----------------------------------------------------------- statements
    def exec_block(self, stmts, fr, st):
        for s in stmts:
            try:
                alive = self.exec_stmt(s, fr, st)
            except AbsDead:
                return False
            if not alive:
                return False
        return True

    def exec_stmt(self, s, fr, st):
        self.cur, self.curframe = s, fr
        self.steps += 1
        if self.steps > self.max_steps:
            raise AnalysisBroken("analysis budget exceeded")
        if not self.suppress:
            self.visited.add((fr.mod.rel, s.lineno))
        m = getattr(self, "st_" + type(s).__name__, None)
        if m is None:
            self.unknown("statement " + type(s).__name__)
            return True
        return m(s, fr, st)

    def st_Expr(self, s, fr, st):
        if isinstance(s.value, ast.Constant):
            return True
        self.ev(s.value, fr, st)
        return True

    def st_Pass(self, s, fr, st):
        return True

    def st_Global(self, s, fr, st):
        fr.globals.update(s.names)
        return True

    def st_Nonlocal(self, s, fr, st):
        fr.nonlocals.update(s.names)
        return True

    def st_Import(self, s, fr, st):
        for a in s.names:
            root = a.name.split(".")[0]
            if root == PKG:
                m = self.module(a.name if a.asname else root)
                v = ModV(m) if m else Ext(a.name)
            else:
                v = Ext(a.name if a.asname else root)
            self.store(a.asname or root, v, fr, st)
        return True

    def st_ImportFrom(self, s, fr, st):
        if s.level:
            base = fr.mod.name
            is_pkg = fr.mod.path.endswith("__init__.py")
            up = s.level - (1 if is_pkg else 0)
            for _ in range(up):
                base = base.rsplit(".", 1)[0]
            name = base + ("." + s.module if s.module else "")
        else:
            name = s.module
        if name.split(".")[0] == PKG:
            m = self.module(name)
            for a in s.names:
                if m is None:
                    v = Unk("missing module " + name)
                elif a.name == "*":
                    for k, x in m.env.items():
                        if not k.startswith("_"):
                            self.store(k, x, fr, st)
                    continue
                elif a.name in m.env:
                    v = m.env[a.name]
                else:
                    sub = self.module(name + "." + a.name)
                    v = ModV(sub) if sub is not None else _UNBOUND
                self.store(a.asname or a.name, v, fr, st)
        else:
            for a in s.names:
                if a.name == "*":
                    continue
                self.store(a.asname or a.name, Ext(name + "." + a.name), fr, st)
        return True

    def st_FunctionDef(self, s, fr, st):
        fn = Fn(s, fr.mod, s.name)
        if fr.fn is not None or fr.env is not fr.mod.env:
            fn.closure = [fr.env] + fr.closure
            if fr.cls is not None:
                fn.closure = list(fr.closure)
        fn.cls = fr.cls
        fn.defaults = [self.ev(d, fr, st) for d in s.args.defaults]
        fn.kw_defaults = [None if d is None else self.ev(d, fr, st)
                          for d in s.args.kw_defaults]
        v = fn
        for d in reversed(s.decorator_list):
            v = self.decorate(d, v, fr, st)
        self.store(s.name, v, fr, st)
        return True

    def decorate(self, d, v, fr, st):
        if isinstance(d, ast.Attribute) and d.attr in ("setter", "deleter"):
            old = fr.env.get(d.value.id) if isinstance(d.value, ast.Name) else None
            if isinstance(old, PropV) and d.attr == "setter":
                return PropV(old.fget, v, old.cached)
            return old if old is not None else v
        dv = self.ev(d, fr, st)
        name = dv.name if isinstance(dv, Ext) else None
        call = None
        if isinstance(dv, Ref):
            o = st.heap.get(dv.id)
            if isinstance(o, ExtO) and o.kind == "decorator":
                name = o.fields["name"]
                call = o.fields
        if name in ("property", "builtins.property", "abc.abstractproperty"):
            return PropV(v)
        if name in ("functools.cached_property",):
            return PropV(v, cached=True)
        if name in ("classmethod", "builtins.classmethod"):
            return ClsMeth(v)
        if name in ("staticmethod", "builtins.staticmethod"):
            return StatMeth(v)
        if name in ("abc.abstractmethod",):
            if isinstance(v, Fn):
                v.tags["abstract"] = True
            return v
        if name == "typing.overload":
            return v
        if name in ("contextlib.contextmanager",):
            if isinstance(v, Fn):
                v.tags["ctx"] = True
            return v
        if name in ("functools.wraps", "deprecation.deprecated"):
            return v
        if name in ("functools.lru_cache", "functools.cache"):
            if isinstance(v, Fn):
                v.tags["memo"] = True
            return v
        if name and name.startswith("numba."):
            if isinstance(v, Fn):
                tail = name.split(".")[-1]
                v.tags["numba_opts"] = call or {}
                v.tags["numba"] = tail
                v.tags["numba_node"] = d
                if tail in ("vectorize", "guvectorize"):
                    v.tags["vectorize"] = True
            return v
        if isinstance(dv, (Fn, BoundM, Part)):
            return self.call(dv, [v], {}, st)
        return v

    st_AsyncFunctionDef = st_FunctionDef

    def st_ClassDef(self, s, fr, st):
        ci = ClassInfo(s.name, fr.mod, s)
        for b in s.bases:
            if isinstance(b, ast.Subscript):
                b = b.value
            bv = self.ev(b, fr, st)
            if isinstance(bv, ClsV):
                ci.bases.append(bv.info)
            elif isinstance(bv, Ext):
                ci.ext_bases.append(bv.name)
        if any(e.endswith("NamedTuple") for e in ci.ext_bases):
            ci.kind = "namedtuple"
        elif any(e.split(".")[-1] in ("Enum", "IntEnum", "StrEnum")
                 for e in ci.ext_bases):
            ci.kind = "enum"
        elif any(e.split(".")[-1] in ("Protocol", "TypedDict")
                 for e in ci.ext_bases):
            ci.kind = "protocol"
        for d in s.decorator_list:
            node = d.func if isinstance(d, ast.Call) else d
            dv = self.ev(node, fr, st)
            if isinstance(dv, Ext) and dv.name.split(".")[-1] in (
                    "define", "mutable", "frozen", "s", "attrs", "dataclass"):
                ci.kind = "attrs"
                ci.attrs_eq = True
                ci.attrs_opts = {}
                if isinstance(d, ast.Call):
                    for kw in d.keywords:
                        kv = self.ev(kw.value, fr, st)
                        ci.attrs_opts[kw.arg] = kv
                        if kw.arg == "eq" and kv is FALSE:
                            ci.attrs_eq = False
        cf = Frame(fr.mod, fr.fn, [fr.env] + fr.closure if fr.fn else [])
        cf.cls = ci
        cf.env = {}
        for n in s.body:
            if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                nm = self.mangle(n.target.id, ci)
                ci.annotations.append((nm, n.annotation))
                val = self.ev(n.value, cf, st) if n.value is not None else None
                if ci.kind == "attrs":
                    ci.fields.append(self.field_info(ci, nm, val, st))
                elif ci.kind == "namedtuple":
                    ci.fields.append(FieldInfo(nm, val))
                elif val is not None:
                    cf.env[nm] = val
            elif isinstance(n, ast.Assign) and ci.kind == "enum":
                val = self.ev(n.value, cf, st)
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        ci.members.append((t.id, val))
            elif isinstance(n, ast.Assign) and ci.kind == "attrs" and \
                    len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                val = self.ev(n.value, cf, st)
                nm = self.mangle(n.targets[0].id, ci)
                if isinstance(val, AttrsField):
                    ci.fields.append(self.field_info(ci, nm, val, st))
                else:
                    cf.env[nm] = val
            else:
                try:
                    self.exec_stmt(n, cf, st)
                except AbsDead:
                    pass
        for k, v in cf.env.items():
            ci.attrs[self.mangle(k, ci)] = v
        self.cur, self.curframe = s, fr
        self.store(s.name, ClsV(ci), fr, st)
        return True

    def mangle(self, name, ci):
        if ci is not None and name.startswith("__") and not name.endswith("__"):
            return "_%s%s" % (ci.name.lstrip("_"), name)
        return name

    def field_info(self, ci, name, val, st):
        kw = {}
        if isinstance(val, AttrsField):
            kw = val.kw
            default = kw.get("default", kw.get("factory"))
            if "factory" in kw:
                default = FactoryV(kw["factory"])
            conv = kw.get("converter")
            if conv is NONE:
                conv = None
            init = kw.get("init") is not FALSE
            arr = None
            dt = None
            if isinstance(default, FactoryV) and isinstance(default.func, Part) \
                    and isinstance(default.func.func, Ext) and \
                    default.func.func.name.startswith("numpy."):
                dt = self.np.as_dtype(self, default.func.kwargs.get("dtype"))
            if conv is not None and dt is not None:
                arr = (dt, ARRAY_COLS.get((ci.name, name), 1))
            return FieldInfo(name, default, conv, init, kw, arr)
        return FieldInfo(name, val, None, True, kw)

    def store(self, name, v, fr, st):
        if name in fr.globals:
            fr.mod.env[name] = v
            self.event("global-write", {"global:%s.%s" % (fr.mod.name, name)},
                       "rebinding of global %s" % name, st)
            return
        if name in fr.nonlocals:
            for env in fr.closure:
                if name in env:
                    # other paths and iterations would see it, too
                    env[name] = self.unknown("nonlocal variable", self.reach(st, v))
                    return
        if fr.cls is not None and fr.fn is None:
            name = self.mangle(name, fr.cls)
        fr.env[name] = v

    def st_Assign(self, s, fr, st):
        v = self.ev(s.value, fr, st)
        for t in s.targets:
            self.cur, self.curframe = s, fr
            self.assign(t, v, fr, st)
        return True

    def st_AnnAssign(self, s, fr, st):
        if s.value is None:
            return True
        self.assign(s.target, self.ev(s.value, fr, st), fr, st)
        return True

    def assign(self, t, v, fr, st):
        if isinstance(t, ast.Name):
            self.store(t.id, v, fr, st)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t, v, fr, st)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr, st)
            # renaming fields of a freshly made structured array
            if t.attr == "names" and isinstance(t.value, ast.Attribute) and \
                    t.value.attr == "dtype":
                base = self.ev(t.value.value, fr, st)
                self.np.rename_fields(self, st, base, v)
                return
            self.setattr(o, self.mangle(t.attr, self.cls_of(fr)), v, st)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr, st)
            k = self.ev_index(t.slice, fr, st)
            self.setitem(o, k, v, st)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, fr, st)

    def cls_of(self, fr):
        if fr.cls is not None:
            return fr.cls
        if fr.fn is not None:
            return fr.fn.cls
        return None

    def unpack(self, t, v, fr, st):
        v = self.norm(st, v)
        n = len(t.elts)
        star = next((i for i, e in enumerate(t.elts)
                     if isinstance(e, ast.Starred)), None)
        if isinstance(v, Phi):
            items = self.static_items(v.a, st), self.static_items(v.b, st)
            if items[0] is not None and items[1] is not None and \
                    len(items[0]) == len(items[1]) == n:
                v = Tup([self.merge(v.cond, x, y) for x, y in zip(*items)])
        items = None
        if isinstance(v, T) and v.op not in ("const", "row", "tuple"):
            items = [mk("at", v, const(i)) for i in range(n)] if star is None \
                else None
        elif not isinstance(v, (Phi, Unk)):
            items = self.static_items(v, st)
        if items is None and self.is_arr(st, v) and star is None:
            items = [self.np.index_arr(self, st, v, const(i)) for i in range(n)]
        if items is not None and star is None and len(items) == n:
            for e, x in zip(t.elts, items):
                self.assign(e, x, fr, st)
            return
        if items is not None and star is not None and len(items) >= n - 1:
            k = len(items) - (n - 1)
            vals = items[:star] + [self.new_list(st, items[star:star + k])] + \
                items[star + k:]
            for e, x in zip(t.elts, vals):
                self.assign(e, x, fr, st)
            return
        roots = self.reach(st, v)
        for e in t.elts:
            self.assign(e, self.unknown("unpacking", roots), fr, st)

    def st_AugAssign(self, s, fr, st):
        opn = self.np.BINOPS.get(type(s.op).__name__)
        t = s.target
        if isinstance(t, ast.Name):
            old = self.ev_load(t, fr, st)
            v = self.ev(s.value, fr, st)
            self.cur, self.curframe = s, fr
            self.divides(s.op, old, v, st)
            new = self.inplace(opn, old, v, st)
            self.store(t.id, new, fr, st)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr, st)
            name = self.mangle(t.attr, self.cls_of(fr))
            old = self.getattr(o, name, st)
            v = self.ev(s.value, fr, st)
            self.cur, self.curframe = s, fr
            self.setattr(o, name, self.inplace(opn, old, v, st), st)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr, st)
            k = self.ev_index(t.slice, fr, st)
            old = self.getitem(o, k, st)
            v = self.ev(s.value, fr, st)
            self.cur, self.curframe = s, fr
            self.divides(s.op, old, v, st)
            new = self.inplace(opn, old, v, st)
            self.setitem(o, k, new, st)
        return True

    def inplace(self, opn, old, v, st):
        old = self.norm(st, old)
        if isinstance(old, Phi):
            return self.on_phi(old, st, lambda x, s: self.inplace(opn, x, v, s))
        if self.is_arr(st, old):
            new = self.np.binop(self, st, opn, old, v)
            self.np.write(self, st, old, self.term(new, st))
            return old
        if isinstance(old, Ref):
            o = st.heap.get(old.id)
            if isinstance(o, ListO) and opn == "add" and o.kind == "list":
                self.np.list_extend(self, st, old, v)
                return old
            if isinstance(o, DictO) and opn in ("or", "bitor"):
                self.np.method(self, st, old, "update", [v], {})
                return old
            if isinstance(o, ListO) and o.kind == "set":
                m = {"or": "update", "bitor": "update", "sub": "difference_update",
                     "and": "intersection_update", "bitand": "intersection_update",
                     "xor": "symmetric_difference_update",
                     "bitxor": "symmetric_difference_update"}.get(opn)
                if m is not None:
                    self.np.method(self, st, old, m, [v], {})
                    return old
            if isinstance(o, ListO) and o.kind == "list" and opn == "mul":
                new = self.np.binop(self, st, opn, old, v)
                n = st.heap.get(new.id) if isinstance(new, Ref) else None
                if not isinstance(n, ListO):
                    return new
                self.np.note_mut(self, st, old, o, "mul")
                st.heap[old.id] = o.replace(segs=n.segs)
                return old
            if isinstance(o, InstO):
                m = o.cls.lookup("__i%s__" % {"add": "add", "sub": "sub",
                                              "mul": "mul"}.get(opn, opn))
                if m is not None:
                    return self.call(BoundM(m, old), [v], {}, st)
                if self.np.is_ufunc_inst(self, o):
                    uf = self.np.OP_UFUNC.get(opn)
                    if uf:
                        return self.np.ufunc_call(
                            self, st, uf, [old, v],
                            {"out": Tup([old])})
        return self.np.binop(self, st, opn, old, v)

    def st_Delete(self, s, fr, st):
        for t in s.targets:
            if isinstance(t, ast.Name):
                fr.env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, fr, st)
                k = self.ev_index(t.slice, fr, st)
                self.cur, self.curframe = s, fr
                self.delitem(o, k, st)
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, fr, st)
                self.delattr(o, self.mangle(t.attr, self.cls_of(fr)), st)
        return True

    def st_Return(self, s, fr, st):
        v = self.ev(s.value, fr, st) if s.value is not None else NONE
        self.do_return(v, fr, st, s)
        return False

    def do_return(self, v, fr, st, s=None):
        assume = dict(st.assume)
        fr.returns.append((assume, v, st.copy(), s))

    def st_Raise(self, s, fr, st):
        name = "Exception"
        if s.exc is not None:
            node = s.exc
            v = None
            if isinstance(node, ast.Call):
                fv = self.ev(node.func, fr, st)
                for a in node.args:
                    try:
                        self.ev(a, fr, st)
                    except AbsDead:
                        raise
                v = fv
            else:
                v = self.ev(node, fr, st)
            if isinstance(v, Ext):
                name = v.name.split(".")[-1]
            elif isinstance(v, ClsV):
                name = v.info.name
            elif isinstance(v, Ref) and isinstance(st.heap.get(v.id), ExtO):
                name = st.heap[v.id].kind.split(":")[-1]
        self.cur, self.curframe = s, fr
        self.do_raise(name, st)
        return False

    def do_raise(self, exc, st, maybe=False):
        rec = RaiseRec(exc, dict(st.assume), self.here(), maybe)
        rec.state = st.copy()
        rec.suppressed = bool(self.suppress)
        self.record_raise(rec)

    def record_raise(self, rec):
        rec.envs = [dict(f.env) for f in self.tries]
        rec.env = rec.envs[-1] if rec.envs else {}
        self.raises[-1].append(rec)

    def pass_on(self, r, fr, env):
        """Hand an exception which leaves a try statement of frame fr, with
        the local variables env then, to the one around it."""
        k = len(self.tries) - 1
        if k < 0:
            r.env = {}
        elif self.tries[k] is fr:
            r.env = env
        else:
            r.env = r.envs[k] if k < len(r.envs) else dict(self.tries[k].env)
        self.raises[-1].append(r)

    def raise_now(self, exc, st):
        self.do_raise(exc, st)
        raise AbsDead()

    def st_Assert(self, s, fr, st):
        c = self.truth(self.ev(s.test, fr, st), st)
        d = self.decide(st, c)
        if d is True:
            return True
        bad = st.copy()
        if d is False or self.assume(bad, c, False):
            self.cur, self.curframe = s, fr
            rec = RaiseRec("AssertionError", dict(bad.assume), self.here(),
                           maybe=True)
            rec.state = bad
            self.record_raise(rec)
        if d is False:
            return False
        return self.assume(st, c, True)

    def st_If(self, s, fr, st):
        c = self.cond(s.test, fr, st)
        return self.if_blocks(c, fr, st,
                              lambda x: self.exec_block(s.body, fr, x),
                              lambda x: self.exec_block(s.orelse, fr, x))

    def if_blocks(self, c, fr, st, fa, fb):
        d = self.decide(st, c)
        if d is True:
            return fa(st)
        if d is False:
            return fb(st)
        env0 = dict(fr.env)
        sa, sb = st.copy(), st.copy()
        pa = self.assume(sa, c, True)
        pb = self.assume(sb, c, False)
        la = lb = False
        if pa:
            try:
                la = fa(sa)
            except AbsDead:
                la = False
        enva = dict(fr.env)
        fr.env.clear()
        fr.env.update(env0)
        self.curframe = fr
        if pb:
            try:
                lb = fb(sb)
            except AbsDead:
                lb = False
        envb = dict(fr.env)
        self.curframe = fr
        if not la and not lb:
            return False
        if not la:
            st.take(sb)
            return True
        if not lb:
            fr.env.clear()
            fr.env.update(enva)
            st.take(sa)
            return True
        env = self.join_env(c, enva, envb)
        fr.env.clear()
        fr.env.update(env)
        self.join(c, st, sa, sb)
        return True

    def cond(self, e, fr, st):
        return self.truth(self.ev(e, fr, st), st)

    # ---- match statements (refactored if-chains)
    def st_Match(self, s, fr, st):
        subj = self.ev(s.subject, fr, st)
        return self.match_cases(subj, s.cases, fr, st)

    def match_cases(self, subj, cases, fr, st):
        if not cases:
            return True
        case = cases[0]
        c, binds = self.match_pat(case.pattern, subj, fr, st)
        if case.guard is not None and c is not None:
            for k, v in binds:
                self.store(k, v, fr, st)
            g = self.cond(case.guard, fr, st)
            c = mk("and", c, g)
        if c is None:
            c = unk_term("match")

        def run(x):
            for k, v in binds:
                self.store(k, v, fr, x)
            return self.exec_block(case.body, fr, x)
        return self.if_blocks(
            c, fr, st, run,
            lambda x: self.match_cases(subj, cases[1:], fr, x))

    def match_pat(self, p, subj, fr, st):
        if isinstance(p, ast.MatchValue):
            v = self.ev(p.value, fr, st)
            return self.truth(self.np.compare(self, st, "Eq", subj, v), st), []
        if isinstance(p, ast.MatchSingleton):
            return self.truth(self.np.compare(
                self, st, "Is", subj, const(p.value)), st), []
        if isinstance(p, ast.MatchAs):
            if p.pattern is None:
                return TRUE, ([(p.name, subj)] if p.name else [])
            c, b = self.match_pat(p.pattern, subj, fr, st)
            return c, b + ([(p.name, subj)] if p.name else [])
        if isinstance(p, ast.MatchOr):
            c = FALSE
            for q in p.patterns:
                d, _ = self.match_pat(q, subj, fr, st)
                if d is None:
                    return None, []
                c = mk("or", c, d)
            return c, []
        if isinstance(p, ast.MatchClass) and not p.patterns and not p.kwd_patterns:
            cls = self.ev(p.cls, fr, st)
            return self.truth(self.np.isinstance_(self, st, subj, cls), st), []
        return None, []

    # ------------------------------------------------------------- loops
    def st_For(self, s, fr, st):
        it = self.ev(s.iter, fr, st)
        it = self.norm(st, it)
        if isinstance(it, Phi):
            return self.if_blocks(
                it.cond, fr, st,
                lambda x: self.for_seq(s, self.seq(it.a, x), fr, x),
                lambda x: self.for_seq(s, self.seq(it.b, x), fr, x))
        q = self.seq(it, st)
        return self.for_seq(s, q, fr, st)

    def for_seq(self, s, q, fr, st):
        items = self.flat_static(q, UNROLL)
        if items is not None:
            return self.for_static(s, items, fr, st)
        parts = q.parts if isinstance(q, SCat) else [q]
        items = []
        for p in parts:
            if isinstance(p, SStatic):
                items += [(None, lambda z, x=x: x) for x in p.items]
            elif isinstance(p, SGen) and p.space.op == "maybe":
                items.append((p.space.args[0],
                              lambda z, p=p: p.get(const(0), z)))
            else:
                items = None
                break
        if items is not None and len(items) <= UNROLL:
            return self.for_maybe(s, items, fr, st)
        if len(parts) > 1 and any(
                isinstance(x, ast.Break) for x in ast.walk(s)):
            self.unknown("a loop over several sequences is left early")
        for p in parts:
            if isinstance(p, SStatic):
                if len(p.items) <= UNROLL:
                    ok = self.for_static(s, p.items, fr, st, orelse=False)
                    if not ok:
                        return False
                    continue
                p = SGen(raw("statics", const(len(p.items))),
                         lambda i, x: self.unknown("long static loop"))
            if not self.for_generic(s, p, fr, st, len(parts) == 1):
                return False
        if s.orelse and len(parts) > 1:
            return self.exec_block(s.orelse, fr, st)
        return True

    def for_static(self, s, items, fr, st, orelse=True):
        lp = {"generic": False, "breaks": []}
        fr.loops.append(lp)
        alive = True
        for x in items:
            lp["continues"] = []
            self.assign(s.target, x, fr, st)
            alive = self.exec_block(s.body, fr, st)
            alive = self.rejoin(lp["continues"], fr, st, alive)
            if not alive:
                break
        fr.loops.pop()
        if alive and s.orelse and orelse:
            alive = self.exec_block(s.orelse, fr, st)
        return self.rejoin(lp["breaks"], fr, st, alive)

    def for_maybe(self, s, items, fr, st):
        """Loop over items that are present under a condition each."""
        lp = {"generic": False, "breaks": []}
        fr.loops.append(lp)
        alive = True

        def once(get, z):
            lp["continues"] = []
            self.assign(s.target, get(z), fr, z)
            ok = self.exec_block(s.body, fr, z)
            return self.rejoin(lp["continues"], fr, z, ok)

        for (g, get) in items:
            if g is None:
                alive = once(get, st)
            else:
                alive = self.if_blocks(g, fr, st,
                                       lambda z, get=get: once(get, z),
                                       lambda z: True)
            if not alive:
                break
        fr.loops.pop()
        if alive and s.orelse:
            alive = self.exec_block(s.orelse, fr, st)
        return self.rejoin(lp["breaks"], fr, st, alive)

    def rejoin(self, snaps, fr, st, alive):
        """Join continue/break snapshots back into the current state."""
        for (cst, cenv) in snaps:
            if not alive:
                st.take(cst)
                fr.env.clear()
                fr.env.update(cenv)
                alive = True
                continue
            c = self.split_cond(cst.assume, st.assume)
            env = self.join_env(c, cenv, dict(fr.env))
            fr.env.clear()
            fr.env.update(env)
            cur = st.copy()
            self.join(c, st, cst, cur)
        return alive

    def split_cond(self, a, b):
        """Condition under which state with assumptions a (not b) holds."""
        g = TRUE
        for k, v in a.items():
            if b.get(k) is not v:
                g = mk("and", g, k if v else mk("not", k))
        if g is TRUE:
            return unk_term("choice")
        return g

    def st_Break(self, s, fr, st):
        if fr.loops:
            fr.loops[-1]["breaks"].append((st.copy(), dict(fr.env)))
        return False

    def st_Continue(self, s, fr, st):
        if fr.loops:
            fr.loops[-1].setdefault("continues", []).append(
                (st.copy(), dict(fr.env)))
        return False

    def st_While(self, s, fr, st):
        c, z = self.glimpse(s, fr, st)
        if c is not None and self.decide(z, c) is False:
            self.cond(s.test, fr, st)
            return self.exec_block(s.orelse, fr, st) if s.orelse else True
        if c is TRUE and not isinstance(s.test, ast.Constant) and self.while_ends(s, fr, st):
            return self.while_static(s, fr, st)
        p = SGen(raw("infinite"), lambda i, x: NONE)
        fake = ast.For(target=ast.Name(id="__while__", ctx=ast.Store()),
                       iter=s.test, body=s.body, orelse=s.orelse)
        ast.copy_location(fake, s)
        ast.fix_missing_locations(fake)
        fake._while = s.test
        return self.for_generic(fake, p, fr, st)

    def glimpse(self, s, fr, st):
        """Condition of a loop on entry, without the effects of evaluating it."""
        z, env = st.copy(), dict(fr.env)
        self.suppress += 1
        self.raises.append([])
        try:
            return self.cond(s.test, fr, z), z
        except AbsDead:
            return None, z
        finally:
            self.suppress -= 1
            self.raises.pop()
            fr.env.clear()
            fr.env.update(env)

    def while_static(self, s, fr, st, limit=None):
        """A loop whose condition is a constant before every iteration; None
        when it is not within the limit."""
        lp = {"generic": False, "breaks": []}
        fr.loops.append(lp)
        alive, n = True, 0
        try:
            while alive:
                c = self.cond(s.test, fr, st)
                if c is FALSE:
                    break
                n += 1
                if limit is not None and (c is not TRUE or n > limit):
                    return None
                lp["continues"] = []
                alive = self.exec_block(s.body, fr, st)
                alive = self.rejoin(lp["continues"], fr, st, alive)
        finally:
            fr.loops.pop()
        if alive and s.orelse:
            alive = self.exec_block(s.orelse, fr, st)
        return self.rejoin(lp["breaks"], fr, st, alive)

    def while_ends(self, s, fr, st):
        """Does the loop run a constant number of times?"""
        env, nret = dict(fr.env), len(fr.returns)
        ny = len(fr.yields) if fr.yields is not None else 0
        self.suppress += 1
        self.raises.append([])
        try:
            return self.while_static(s, fr, st.copy(), UNROLL) is not None
        except AbsDead:
            return False
        finally:
            self.suppress -= 1
            self.raises.pop()
            del fr.returns[nret:]
            if fr.yields is not None:
                del fr.yields[ny:]
            fr.env.clear()
            fr.env.update(env)

    def stored_names(self, body):
        out = set()
        for n in body:
            for x in ast.walk(n):
                if isinstance(x, ast.Name) and isinstance(
                        x.ctx, (ast.Store, ast.Del)):
                    out.add(x.id)
                elif isinstance(x, ast.FunctionDef):
                    out.add(x.name)
        return out

    def pick_binder(self, p):
        b = p.binder
        if b is None or b in self.active_binders:
            b = tm.fresh_binder()
        return b

    def for_generic(self, s, p, fr, st, orelse=True):
        if isinstance(p, SUnk):
            roots = p.roots
            reason = p.reason
            if not self.suppress:
                self.unknowns.append(("loop over unknown: " + reason,
                                      self.here(s)))
            p = SGen(raw("nospace"), lambda i, x: Unk("element", roots))
        if isinstance(p, SInf):
            p = SGen(raw("infinite"), p.get)
        b = self.pick_binder(p)
        sp = p.space if isinstance(p.space, T) else raw("nospace")
        self.active_binders.append(b)
        SPACES.setdefault(b, sp)
        entry = set(st.assume)
        names = self.stored_names(s.body) | self.stored_names([ast.Expr(s.target)] if isinstance(s.target, ast.AST) else [])
        pre_env = dict(fr.env)
        pre_heap = st.heap

        def run(sx, lp):
            lp["continues"] = []
            lp["breaks"] = []
            fr.loops.append(lp)
            try:
                el = p.get(b, sx)
                if not getattr(s, "_while", None):
                    self.assign(s.target, el, fr, sx)
                    alive = True
                else:
                    c = self.cond(s._while, fr, sx)
                    lp["test"] = c
                    alive = self.assume(sx, c, True)
                if alive:
                    alive = self.exec_block(s.body, fr, sx)
                alive = self.rejoin(lp["continues"], fr, sx, alive)
            finally:
                fr.loops.pop()
            return alive

        # dry runs: which variables and objects does an iteration change?
        def dry_run(dry):
            self.suppress += 1
            nret = len(fr.returns)
            ny = len(fr.yields) if fr.yields is not None else 0
            self.raises.append([])
            lp = dict(generic=True, space=sp, binder=b, entry=entry, exits=[])
            try:
                try:
                    alive = run(dry, lp)
                except AbsDead:
                    alive = False
            finally:
                self.suppress -= 1
                self.raises.pop()
                del fr.returns[nret:]
                if fr.yields is not None:
                    del fr.yields[ny:]
            return dict(fr.env), ([dry] if alive else []) + [x[0] for x in lp["breaks"]], (
                [dict(fr.env)] if alive else []) + [x[1] for x in lp["breaks"]]
        nret = len(fr.returns)
        carried, cbufs, own, mine, clists, cfields = {}, {}, {}, {}, {}, {}
        changed_bufs, changed_objs, told = set(), set(), set()
        body_st, ends = st.copy(), ()
        for _ in range(4):
            start, heap = dict(fr.env), dict(body_st.heap)
            env1, ends, ends_env = dry_run(body_st.copy())
            fr.env.clear()
            fr.env.update(start)
            more = False
            for e in ends:
                for i, o in e.heap.items():
                    if i in pre_heap and heap[i] is not o and heap[i] is pre_heap[i] and \
                            i not in changed_bufs and i not in changed_objs:
                        if isinstance(o, Buf):
                            if o.content is not pre_heap[i].content:
                                changed_bufs.add(i)
                                more = True
                                self.carry_buf(i, pre_heap, b, sp, ends, body_st, own, mine,
                                               cbufs)
                        elif not isinstance(o, IterO):
                            changed_objs.add(i)
                            more = True
                            self.carry_obj(i, pre_heap, b, sp, ends, body_st, mine, clists,
                                           cfields, st)
            # carried values
            for n in names:
                if n not in pre_env or n in told:
                    continue
                v0 = pre_env[n]
                v1 = env1.get(n)
                if all(e.get(n) is v0 or (type(e.get(n)) is type(v0) and
                                          e.get(n) == v0) for e in ends_env):
                    continue
                told.add(n)
                more = True
                if isinstance(v0, T):
                    c = tm.sym("%%c%d.%s" % (nid(), n), kind=tm.kind(v0) or None,
                               rank=tm.rank(v0) if tm.rank(v0) is not None else 0)
                    if isinstance(v1, T) and tm.kind(v1) != tm.kind(v0):
                        tm.SYM[c.args[0]]["kind"] = "f8" if {
                            tm.kind(v0), tm.kind(v1)} <= {"f8", "int"} else None
                    carried[n] = c
                    fr.env[n] = c
                elif isinstance(v1, V) and not isinstance(v1, Unk):
                    lit = unk_term("iter")
                    fr.env[n] = self.merge(lit, v0, v1)
                    for e in ends:
                        for i, o in e.heap.items():
                            if i not in body_st.heap:
                                body_st.heap[i] = o
                else:
                    fr.env[n] = Unk("loop carried", self.reach(st, v0))
            if not more:
                break
        lp2 = dict(generic=True, space=sp, binder=b, entry=entry, exits=[])
        start_heap = dict(body_st.heap)
        seg_y = len(fr.yields) if fr.yields is not None else 0
        self.changing.append(mine)
        self.raises.append([])
        try:
            alive = run(body_st, lp2)
        finally:
            self.changing.pop()
            raised = self.raises.pop()
        out_y = None
        if fr.yields is not None and len(fr.yields) > seg_y:
            out_y = []
            for y in fr.yields[seg_y:]:
                g = y.guard
                for c, v in y.guard_assume.items():
                    if c not in entry:
                        g = self.conj(c if v else mk("not", c), g)
                out_y.append(Seg(y.value, g, y.binder, y.space))
            del fr.yields[seg_y:]
        env2 = dict(fr.env)
        has_break = bool(lp2["breaks"])

        def path(facts):
            g = TRUE
            for c, v in facts.items():
                if c not in entry:
                    g = mk("and", g, c if v else mk("not", c))
            return g
        snaps = ([(body_st, env2, None)] if alive else []) + [
            (x, y, path(x.assume)) for x, y in lp2["breaks"]]
        leave = [path(r[0]) for r in fr.returns[nret:]]
        fails = [path(r.assume) for r in raised]
        fr.env.clear()
        fr.env.update(pre_env)
        self.curframe = fr
        earlier = self.earlier_values(b, sp, snaps, carried, cbufs, clists, cfields, pre_env,
                                      pre_heap)
        allc = set(carried.values()) | set(cbufs.values()) | {
            x[0] for x in clists.values()} | {x[0] for x in cfields.values()}
        base = sp
        if "test" in lp2:
            base = raw("whilst", sp, self.lam(b, earlier(lp2["test"])))
        broken = mk_or([c for _, _, c in snaps if c is not None])
        done = base if broken is FALSE else raw("until", base, self.lam(b, earlier(broken)))
        every = mk_or([broken] + leave + fails)
        seen = base if every is FALSE else raw("until", base, self.lam(b, earlier(every)))
        if snaps:
            self.finish_loop(s, p, b, done, fr, st, pre_env, snaps, carried,
                             cbufs, changed_objs, start_heap, names, has_break, own, mine,
                             out_y, earlier, sp, clists, cfields)
        if out_y:
            if leave or not snaps:
                self.unknown("values yielded by a loop that is left early")
            fr.yields += [_Yield(y.value, {c: v for c, v in st.assume.items() if c in entry},
                                 y.binder, y.space, y.guard)
                          for y in self.loop_segs(out_y, b, done)]
        self.active_binders.pop()
        over = False
        for r, g in zip(raised, fails):
            # raised by *some* iteration
            g = earlier(g)
            lit = tm.bind("bany", seen, b, g)
            self.leave_as(r.state, clists, cbufs, cfields, earlier, b, raw(
                "firstof", raw("filt", seen, self.lam(b, g))))
            r.assume = {c: x for c, x in r.assume.items() if c in entry}
            if lit is not TRUE:
                r.assume[lit] = True
            r.state.assume = dict(r.assume)
            self.raises[-1].append(r)
            if not over and not self.assume(st, lit, False):
                over = True
        if over:
            return False
        for k, g in enumerate(leave):
            # a return inside a summarised loop happens for *some* iteration
            facts, v, s2, node = fr.returns[nret + k]
            g = earlier(g)
            lit = tm.bind("bany", seen, b, g)
            facts = {c: x for c, x in facts.items() if c in entry}
            if lit is not TRUE:
                facts[lit] = True
            first = raw("firstof", raw("filt", seen, self.lam(b, g)))
            self.leave_as(s2, clists, cbufs, cfields, earlier, b, first)
            v = self.rename(self.mapped(v, earlier), b, first, s2)
            fr.returns[nret + k] = (facts, v, s2, node)
            if not self.assume(st, lit, False):
                return False
        if not snaps:
            # goes on only when there was nothing to iterate over
            if not self.assume(st, mk("gt", self.space_len(base), const(0)), False):
                return False
        if isinstance(getattr(s, "_while", None), ast.Constant) and not has_break:
            return False
        if s.orelse and orelse:
            if broken is FALSE:
                return self.exec_block(s.orelse, fr, st)
            return self.if_blocks(tm.bind("bany", base, b, earlier(broken)), fr, st,
                                  lambda x: True,
                                  lambda x: self.exec_block(s.orelse, fr, x))
        return True

    def carry_buf(self, i, pre_heap, b, sp, ends, body_st, own, mine, cbufs):
        o = pre_heap[i]
        if b in MADE.get(i, ()) and SPACES.get(b) is sp:
            mine[i] = b         # one such object per iteration
            return
        if b in MADE.get(i, ()):
            own[i] = None       # iterations do not cover the elements
            if self.part_of(sp, SPACES.get(b)):
                mine[i] = b
            return
        bs = self.one_element(o.content, [e.heap[i].content for e in ends], i, b)
        if bs is not None:
            own[i] = bs
            mine[i] = b
            return
        c = tm.sym("%%b%d" % nid(), kind=tm.kind(o.content), rank=tm.rank(o.content),
                   space=tm.space(o.content), space1=tm.space1(o.content), hidden=True)
        cbufs[i] = c
        body_st.heap[i] = o.replace(content=c, ver=new_ver())

    def carry_obj(self, i, pre_heap, b, sp, ends, body_st, mine, clists, cfields, st):
        if b in MADE.get(i, ()) and SPACES.get(b) is sp:
            mine[i] = b
            return
        got = self.growing(pre_heap[i], i, ends)
        if got is not None:
            clists[i] = got
            body_st.heap[i] = pre_heap[i].replace(segs=(got[1],))
            return
        o = self.in_flux(pre_heap[i], i, ends, body_st)
        if isinstance(o, InstO):
            f = dict(o.fields)
            for k, v in pre_heap[i].fields.items():
                if any(e.heap[i].fields.get(k) is not v for e in ends):
                    got = self.replaced(v, k, i, ends, st)
                    if got is not None:
                        cfields[i, k] = got
                        f[k] = self.new_arr(body_st, got[0], got[2], got[3])
            o = o.replace(fields=f)
        body_st.heap[i] = o

    def replaced(self, v, k, i, ends, st):
        """Symbol, first content, dtype and origin of an array of an instance
        for which iterations substitute others of its kind, or None."""
        if not isinstance(v, Ref) or not isinstance(st.heap.get(v.id), Arr):
            return None
        h = st.heap[v.id]
        t = self.term(v, st)
        if tm.has_unknown(t) or tm.rank(t) is None or tm.kind(t) is None or tm.space(t) is None:
            return None
        for e in ends:
            w = e.heap[i].fields.get(k)
            if e.heap.get(h.buf) is not st.heap[h.buf] or not isinstance(w, (Ref, Phi)):
                return None
            x = self.term(w, e)
            if tm.kind(x) != tm.kind(t) or tm.rank(x) != tm.rank(t):
                return None
        c = tm.sym("%%f%d" % nid(), kind=tm.kind(t), rank=tm.rank(t), space=tm.space(t),
                   space1=tm.space1(t), hidden=True)
        return c, t, h.dt, st.heap[h.buf].origin

    def field_step(self, h, i, k, c):
        """What an iteration leaves in such a field."""
        v = h.heap[i].fields.get(k)
        t = self.term(v, h) if isinstance(v, (Ref, Phi)) else None
        if not isinstance(t, T) or tm.kind(t) not in (tm.kind(c), None) or tm.rank(
                t) != tm.rank(c):
            return unk_term("carried field")
        return t

    def leave_as(self, st, clists, cbufs, cfields, earlier, b, ix):
        """Give what iterations share the content it has when iteration ix
        leaves the loop."""
        for i, (c, flux, first) in clists.items():
            o = st.heap[i]
            t = tm.subst(earlier(self.grown(o, c, flux, first)), {b: ix})
            if t.op == "unk":
                st.heap[i] = o.replace(segs=(Seg(Unk("loop list", ()), unk_term("kept"), None,
                                                 None, unk_term("kept")),))
                continue
            j = tm.fresh_binder()
            seg = Seg(mk("at", t, j), None, j, raw("rowsof", t))
            SPACES.setdefault(j, seg.space)
            st.heap[i] = o.replace(segs=(seg,))
        for (i, k), x in cfields.items():
            t = tm.subst(earlier(self.field_step(st, i, k, x[0])), {b: ix})
            o = st.heap[i]
            f = dict(o.fields)
            f[k] = self.new_arr(st, t, x[2], x[3])
            st.heap[i] = o.replace(fields=f)
        for i in cbufs:
            o = st.heap[i]
            t = tm.subst(earlier(o.content), {b: ix})
            if t is not o.content:
                st.heap[i] = o.replace(content=t, ver=new_ver())

    @staticmethod
    def lam(b, body):
        return tm.bind("lam", raw("nospace"), b, body)

    def mapped(self, v, f):
        if isinstance(v, T):
            return f(v)
        if isinstance(v, Tup):
            return Tup([self.mapped(x, f) for x in v.items], v.cls)
        if isinstance(v, Phi):
            return self.merge(f(v.cond), self.mapped(v.a, f), self.mapped(v.b, f))
        return v

    def growing(self, o, i, ends):
        """Symbol, generic segment and first content of a list (or set) of plain
        values to which every iteration of a loop may add some, or None."""
        if not isinstance(o, ListO) or o.kind not in ("list", "set"):
            return None
        n, kinds = len(o.segs), set()
        for e in ends:
            x = e.heap[i]
            if not isinstance(x, ListO) or x.kind != o.kind or x.segs[:n] != o.segs:
                return None
            for y in x.segs[n:]:
                if y.binder is not None:
                    return None
        for e in ends:
            for y in e.heap[i].segs:
                if not isinstance(y.value, T) or tm.rank(y.value) != 0:
                    return None
                kinds.add(tm.kind(y.value))
        if len(kinds) != 1 or kinds & {None, "obj", "c16"}:
            return None
        if any(y.guard is not None or y.binder is not None for y in o.segs):
            return None
        k = kinds.pop()
        c = tm.sym("%%l%d" % nid(), kind=k, rank=1, hidden=True)
        j = tm.fresh_binder()
        flux = Seg(mk("at", c, j), None, j, raw("rowsof", c))
        SPACES.setdefault(j, flux.space)
        return c, flux, raw("seqof", k, *[y.value for y in o.segs])

    @staticmethod
    def grown(o, c, flux, first):
        """What an iteration makes of such a list, as a term of its symbol."""
        if not isinstance(o, ListO) or not o.segs or o.segs[0] != flux:
            return unk_term("carried list")
        t = c
        for y in o.segs[1:]:
            if y.binder is not None or not isinstance(y.value, T) or tm.rank(
                    y.value) != 0 or tm.kind(y.value) != tm.kind(c):
                return unk_term("carried list")
            g = TRUE if y.guard is None else y.guard
            t = raw("snoc", t, y.value, g, o.kind)
        return t

    def earlier_values(self, b, sp, snaps, carried, cbufs, clists, cfields, pre_env, pre_heap):
        """Substitution expressing what a loop carries from one iteration to
        the next through the values before the loop: the result maps a term of
        iteration b to one free of the carried symbols."""
        allc = list(carried.values()) + list(cbufs.values()) + [x[0] for x in clists.values()] + [
            x[0] for x in cfields.values()]
        if not allc:
            return lambda t: t
        inits = [pre_env[n] for n in carried] + [pre_heap[i].content for i in cbufs] + [
            x[2] for x in clists.values()] + [x[1] for x in cfields.values()]
        if snaps and snaps[0][2] is None:
            _, env, _ = snaps[0]
            heap = snaps[0][0].heap
            steps = [env.get(n) for n in carried] + [heap[i].content for i in cbufs] + [
                self.grown(heap[i], *x) for i, x in clists.items()] + [
                    self.field_step(snaps[0][0], i, k, x[0]) for (i, k), x in cfields.items()]
        else:
            steps = [None] * len(allc)
        steps = [v if isinstance(v, T) else unk_term("carried value") for v in steps]
        self.loop_vars = (allc, inits, steps)
        memo = {}

        def go(t):
            if not isinstance(t, T) or not self.mentions(t, set(allc)):
                return t
            if not memo:
                for c in allc:
                    d = self.delta(steps[allc.index(c)], c, set(allc))
                    nb = tm.fresh_binder()
                    pre = raw("prefix", sp, b)
                    if sp.op in ("nested", "nospace"):
                        memo[c] = unk_term("carried value")
                    elif d is not None:
                        memo[c] = mk("add", inits[allc.index(c)], tm.bind(
                            "bsum", pre, nb, tm.subst(d, {b: nb})))
                    else:
                        memo[c] = tm.fold(pre, nb, c, allc, inits,
                                          [tm.subst(v, {b: nb}) for v in steps])
            return tm.subst(t, memo)
        return go

    def mentions(self, t, syms):
        return any(x in syms for x in tm.tvars(t))

    def delta(self, v, c, allc):
        """e with v == c + e, or None."""
        if v is c:
            return const(0.0)
        if v.op == "add":
            a, b = v.args
            for x, y in ((a, b), (b, a)):
                if not self.mentions(y, allc):
                    d = self.delta(x, c, allc)
                    if d is not None:
                        return mk("add", d, y)
            return None
        if v.op == "sub" and not self.mentions(v.args[1], allc):
            d = self.delta(v.args[0], c, allc)
            return None if d is None else mk("sub", d, v.args[1])
        if v.op == "ite" and not self.mentions(v.args[0], allc):
            a = self.delta(v.args[1], c, allc)
            b = self.delta(v.args[2], c, allc)
            if a is None or b is None:
                return None
            return mk("ite", v.args[0], a, b)
        return None

    def lat(self, v, c, allc, op):
        """e with v == op(c, e), or None (for or/and/maximum/minimum/mul)."""
        if v.op == op:
            for x, y in (v.args, v.args[::-1]):
                if x is c and not self.mentions(y, allc):
                    return y
        if v.op == "ite" and v.args[2] is c and op == "or" and \
                v.args[1] is TRUE and not self.mentions(v.args[0], allc):
            return v.args[0]
        return None

    def finish_loop(self, s, p, b, sp, fr, st, pre_env, snaps, carried, cbufs,
                    changed_objs, start_heap, names, has_break, own, mine, out_y,
                    earlier, whole, clists, cfields):
        allc = set(carried.values()) | set(cbufs.values()) | {
            x[0] for x in clists.values()} | {x[0] for x in cfields.values()}
        acc, env, _ = snaps[0]
        for (s2, e2, c) in snaps[1:]:
            env = self.join_env(c, e2, env)
            tmp, acc = acc, acc.copy()
            self.join(c, acc, s2, tmp)
        syms = list(carried.values()) + list(cbufs.values()) + [x[0] for x in clists.values()] + [
            x[0] for x in cfields.values()]
        inits = [pre_env[n] for n in carried] + [st.heap[i].content for i in cbufs] + [
            x[2] for x in clists.values()] + [x[1] for x in cfields.values()]
        steps = [env.get(n) for n in carried] + [acc.heap[i].content for i in cbufs] + [
            self.grown(acc.heap[i], *x) for i, x in clists.items()] + [
                self.field_step(acc, i, k, x[0]) for (i, k), x in cfields.items()]
        steps = [v if isinstance(v, T) else unk_term("carried value") for v in steps]

        def run_through(c):
            if sp.op in ("nested", "nospace"):
                return unk_term("loop value")
            return tm.fold(sp, b, c, syms, inits, steps)
        looped = unk_term("looped")
        # variables
        for n in names:
            if n not in env:
                continue
            v = env[n]
            if n in pre_env and v is pre_env[n]:
                fr.env[n] = v
                continue
            init = pre_env.get(n, _UNBOUND)
            if n in carried and isinstance(v, T):
                c = carried[n]
                d = self.delta(v, c, allc)
                if d is not None:
                    fr.env[n] = mk("add", init, tm.bind("bsum", sp, b, d))
                    continue
                done = False
                for op_, red in (("or", "bany"), ("and", "ball"),
                                 ("maximum", "bmax"), ("minimum", "bmin"),
                                 ("mul", "bprod")):
                    e = self.lat(v, c, allc, op_)
                    if e is not None:
                        fr.env[n] = mk(op_, init, tm.bind(red, sp, b, e))
                        done = True
                        break
                if done:
                    continue
            if isinstance(v, T):
                if not self.mentions(v, allc) and not self.mentions(v, {b}):
                    t = v
                    fr.env[n] = t if init is _UNBOUND else (
                        mk("ite", mk("gt", self.space_len(sp), const(0)), t,
                           init) if isinstance(init, T) else t)
                elif n in carried:
                    fr.env[n] = run_through(carried[n])
                elif sp.op in ("nested", "nospace"):
                    fr.env[n] = unk_term("loop value " + n)
                else:
                    c = tm.sym("%%c%d.%s" % (nid(), n), kind=tm.kind(v), rank=tm.rank(v))
                    fr.env[n] = tm.fold(sp, b, c, syms + [c], inits + [
                        init if isinstance(init, T) else unk_term("unset")], steps + [v])
            else:
                fr.env[n] = v if init is _UNBOUND else self.merge(
                    looped, v, init)
        # heap
        out = dict(st.heap)
        for i, o in acc.heap.items():
            if i not in out:
                out[i] = o
        for i, o in acc.heap.items():
            o0 = st.heap.get(i)
            if o0 is None or o is start_heap.get(i):
                continue
            if isinstance(o, Buf):
                c = cbufs.get(i)
                if i in own:
                    t = unk_term("loop content")
                    bs = own[i]
                    if bs is None and i in mine and not has_break:
                        out[i] = o.replace(content=mk("ite", raw("member", b, sp), o.content,
                                                      o0.content), ver=new_ver())
                        continue
                    if not has_break and bs is not None and self.one_element(o0.content, [
                            o.content], i, b) is bs:
                        t = tm.subst(tm.subst(o.content, {x: TRUE for x in self.picks(
                            bs, b)}), {b: bs})
                        if self.mentions(t, allc):
                            t = unk_term("loop content")
                    out[i] = o.replace(content=t, ver=new_ver())
                    continue
                if c is None:
                    if has_break and i in mine or self.mentions(o.content, allc):
                        o = o.replace(content=unk_term("loop content"), ver=new_ver())
                    out[i] = o
                    continue
                new = self.np.loop_content(self, st, o0.content, c, o.content, b, sp, allc)
                if new.op == "unk":
                    new = run_through(c)
                if new.op not in ("unk", "fold"):     # iterations only read what is their own
                    BEFORE[c] = o0.content
                out[i] = o.replace(content=new, ver=new_ver())
            elif i in mine and not has_break:
                out[i] = o
            elif isinstance(o, (ListO, DictO)):
                if i in clists:
                    flux = clists[i][1]
                    if not o.segs or o.segs[0] != flux:
                        out[i] = o.replace(segs=(Seg(Unk("loop list", ()), unk_term("kept"), b,
                                                     sp),))
                        continue
                    o = o.replace(segs=o0.segs + o.segs[1:])
                out[i] = self.loop_container(o0, o, b, sp, looped)
            elif isinstance(o, InstO):
                j = self.join_obj(looped, o, o0)
                mine_ = [k for (n, k) in cfields if n == i]
                if mine_:
                    f = dict(j.fields)
                    for k in mine_:
                        x = cfields[i, k]
                        tmp = st.copy()
                        tmp.heap = out
                        f[k] = self.new_arr(tmp, run_through(x[0]), x[2], x[3])
                        out = tmp.heap
                    j = j.replace(fields=f)
                out[i] = j
            elif isinstance(o, IterO):
                out[i] = o
            else:
                out[i] = o
        if allc:
            self.scrub(st, out, fr, names, allc, earlier, out_y)
        for i, cs in IMAGES.items():
            if i in out and out[i] is not st.heap.get(i):
                for c in cs:
                    if c in st.heap and c in out:
                        _, bv, j = VIA[c]
                        out[c] = out[c].replace(content=tm.subst(out[i].content, {bv: j}),
                                                ver=new_ver())
        st.heap = out

    def scrub(self, st, out, fr, names, allc, earlier, out_y=None):
        """Express what objects hold of a variable during an iteration."""
        def fix(v):
            if isinstance(v, T):
                return earlier(v)
            if isinstance(v, Tup):
                xs = [fix(x) for x in v.items]
                return v if all(x is y for x, y in zip(xs, v.items)) else Tup(xs, v.cls)
            if isinstance(v, Phi):
                c, x, y = fix(v.cond), fix(v.a), fix(v.b)
                return v if c is v.cond and x is v.a and y is v.b else self.merge(c, x, y)
            return v
        for i, o in list(out.items()):
            if o is st.heap.get(i):
                continue
            if isinstance(o, Buf):
                t = fix(o.content)
                if t is not o.content:
                    out[i] = o.replace(content=t)
            elif isinstance(o, Arr):
                p = tuple(tuple(fix(x) for x in q) for q in o.path)
                if any(x is not y for q, r in zip(p, o.path) for x, y in zip(q, r)):
                    out[i] = o.replace(path=p)
            elif isinstance(o, InstO):
                f = {k: fix(v) for k, v in o.fields.items()}
                if any(f[k] is not v for k, v in o.fields.items()):
                    out[i] = o.replace(fields=f)
            elif isinstance(o, (ListO, DictO)):
                segs = tuple(Seg(fix(x.value), fix(x.guard), x.binder, fix(x.space), fix(x.key))
                             for x in o.segs)
                if any(y.value is not x.value or y.guard is not x.guard or y.key is not x.key
                       or y.space is not x.space for x, y in zip(o.segs, segs)):
                    out[i] = o.replace(segs=segs)
        for n in names:
            if n in fr.env and not isinstance(fr.env[n], T):
                fr.env[n] = fix(fr.env[n])
        for k, x in enumerate(out_y or ()):
            out_y[k] = Seg(fix(x.value), fix(x.guard), x.binder, fix(x.space), x.key)

    def in_flux(self, o, i, ends, st):
        """What a loop iteration may find in an object other iterations change."""
        if isinstance(o, (DictO, ListO)):
            seg = Seg(Unk("earlier iterations", ()), unk_term("earlier"), None, None,
                      unk_term("earlier"))
            n = len(o.segs)
            if all(tuple(e.heap[i].segs[:n]) == tuple(o.segs) for e in ends):
                return o.replace(segs=tuple(o.segs) + (seg,))
            return o.replace(segs=(seg,))
        if isinstance(o, InstO):
            f = dict(o.fields)
            for k, v in o.fields.items():
                r = v
                for e in ends:
                    w = e.heap[i].fields.get(k)
                    if w is v or w == v:
                        continue
                    if isinstance(v, T) or w is None or isinstance(w, (T, Unk)):
                        r = unk_term("earlier") if isinstance(v, T) else Unk("earlier", ())
                        break
                    r = self.merge(unk_term("earlier"), r, w)
                    for j, x in e.heap.items():
                        if j not in st.heap:
                            st.heap[j] = x
                f[k] = r
            return o.replace(fields=f)
        return o

    def effects(self, pre, st, b, what):
        """Objects which a generic element of a sequence changes for good."""
        if self.suppress:
            return
        for i, o in pre.items():
            n = st.heap.get(i)
            if n is o or n is None or b in MADE.get(i, ()):
                continue
            if isinstance(o, Buf) and n.content is not o.content or isinstance(
                    o, (ListO, DictO)) and n.segs != o.segs or isinstance(o, InstO) and any(
                        n.fields.get(k) is not v for k, v in o.fields.items()):
                self.unknowns.append(("effect of " + what, self.here()))
                return

    @staticmethod
    def part_of(sp, whole):
        while sp is not whole and sp.op in ("rev", "filt", "part", "sortedspace"):
            sp = sp.args[0]
        return sp is whole

    @staticmethod
    def picks(bs, b):
        return [raw("ixeq", bs, b), raw("ixeq", b, bs)]

    def one_element(self, old, news, i, b):
        """Binder of the generic container of which iteration b changes only
        element b of the object i, where there is one such iteration for each
        element; else None."""
        for bs in MADE.get(i, ()):
            if bs in ACTIVE or SPACES.get(bs) is not SPACES.get(b):
                continue
            no = {x: FALSE for x in self.picks(bs, b)}
            if all(tm.subst(n, no) is old for n in news):
                return bs
        return None

    def loop_segs(self, new, b, sp, ordered=True):
        """Segments of what every iteration b of a loop adds to a sequence."""
        if len(new) > 1 and ordered:
            return [self.woven(new, b, sp)]
        out = []
        for y in new:
            if y.binder is None:
                out.append(Seg(y.value, y.guard, b, sp, y.key))
            else:
                out.append(Seg(y.value, y.guard, y.binder, raw(
                    "nested", sp, b, y.space if isinstance(y.space, T)
                    else raw("nospace")), y.key))
        return out

    def woven(self, new, b, sp):
        """Several additions per iteration, in the order they are made."""
        which, one = tm.fresh_binder(), tm.fresh_binder()
        zero, unit = const(0), const(1)
        spaces, val, guard = [], None, None
        for k, y in reversed(list(enumerate(new))):
            v, g, s2 = y.value, y.guard, raw("range", zero, unit, unit)
            if y.binder is not None:
                s2 = y.space if isinstance(y.space, T) and y.space.op != "nested" \
                    else raw("nospace")
                v = self.rename(v, y.binder, one, None)
                g = tm.subst(g, {y.binder: one}) if g is not None else None
            spaces.insert(0, s2)
            g = TRUE if g is None else g
            c = mk("eq", which, const(k))
            val = v if val is None else self.merge(c, v, val)
            guard = g if guard is None else mk("ite", c, g, guard)
        inner = raw("nested", raw("range", zero, const(len(new)), unit), which,
                    raw("alts", which, *spaces))
        return Seg(val, None if guard is TRUE else guard, one,
                   raw("nested", sp, b, inner))

    def loop_container(self, o0, o, b, sp, looped):
        for i, x in enumerate(o.segs):
            if isinstance(x.value, Unk) and x.value.reason == "earlier iterations" and \
                    x not in o0.segs:
                rest = o.segs[:i] + o.segs[i + 1:]
                if isinstance(o, ListO) and o.kind != "set" and i:
                    if o.segs[i + 1:] == o0.segs and isinstance(sp, T):     # put in front
                        return o.replace(segs=tuple(self.loop_segs(
                            o.segs[:i], b, raw("rev", sp), True)) + o0.segs)
                    rest = tuple(self.np.jumbled(self, None, rest))
                o = o.replace(segs=rest)
                break
        n = len(o0.segs)
        if len(o.segs) >= n and all(
                x == y or (x.key == y.key and x.binder is y.binder)
                for x, y in zip(o0.segs, o.segs[:n])):
            segs = []
            for x, y in zip(o0.segs, o.segs[:n]):
                if x == y:
                    segs.append(x)
                else:
                    segs.append(Seg(self.merge(looped, y.value, x.value),
                                    x.guard, x.binder, x.space, x.key))
            segs += self.loop_segs(o.segs[n:], b, sp,
                                   isinstance(o, ListO) and o.kind != "set")
            return o.replace(segs=tuple(segs))
        # removals or reorderings: keep everything as possible content
        segs = [Seg(x.value, self.conj(unk_term("kept"), x.guard), x.binder,
                    x.space, x.key) for x in o0.segs]
        segs += [Seg(y.value, self.conj(unk_term("kept"), y.guard), b, sp,
                     y.key) for y in o.segs if y not in o0.segs]
        return o.replace(segs=tuple(segs))

    # -------------------------------------------------------------- try/with
    def st_Try(self, s, fr, st):
        self.raises.append([])
        pre = st.copy()
        unk0 = len(self.unknowns)
        env0 = dict(fr.env)
        ret0 = len(fr.returns)
        warns, outer = None, self.np.WARN[0]
        if any(self.only_warning(h, fr, st) for h in s.handlers):
            warns = self.np.WARN[0] = []
        self.tries.append(fr)
        inexact0 = self.inexact
        self.catching.append(any(self.handles(h, "KeyError", fr, st) for h in s.handlers))
        try:
            alive = self.exec_block(s.body, fr, st)
        finally:
            self.catching.pop()
            sink = self.raises.pop()
            self.tries.pop()
            self.np.WARN[0] = outer
        self.curframe = fr
        body_alive, body_rets = alive, len(fr.returns)
        caught = []
        rest = []
        may_ext = self.may_raise_ext(s.body)
        # lookups that fail are modelled, in the absence of anything unknown
        lookup = len(self.unknowns) == unk0
        if lookup and all(isinstance(x, ast.Delete) for x in s.body):
            may_ext = False
        if lookup and self.inexact == inexact0 and not self.calls_out(s.body) and all(
                self.only_lookup(h, fr, st, True) for h in s.handlers):
            may_ext = False
        if s.handlers:
            for r in sink:
                if any(self.handles(h, r.exc, fr, st) for h in s.handlers):
                    caught.append(r)
                else:
                    rest.append(r)
        else:
            rest = sink
        if s.finalbody:
            # what is raised from here on passes the final block, too
            self.raises.append(rest)
            self.tries.append(fr)
        else:
            for r in rest:
                self.pass_on(r, fr, r.env)
        if alive and s.orelse:
            alive = self.exec_block(s.orelse, fr, st)
        for h in s.handlers:
            entries = []
            for r in caught:
                if self.handles(h, r.exc, fr, st):
                    entries.append((r.state.copy(), dict(getattr(r, "env", env0)), None))
            if warns is not None and not entries and self.only_warning(h, fr, st):
                if self.warn_mode != "error" or not warns:
                    continue
                lit = None
                for w in warns:
                    w = unk_term("array warning") if w is None else w
                    lit = w if lit is None else mk("or", lit, w)
                if lit is not FALSE:
                    entries.append((pre.copy(), dict(env0), lit))
                    if not body_alive and body_rets == ret0 + 1 and isinstance(
                            s.body[-1], ast.Return):
                        # the value is returned when nothing warned before
                        a, v, rs, n = fr.returns[ret0]
                        fr.returns[ret0] = ({**a, lit: False}, v, rs, n)
            elif may_ext and not entries and not (lookup and self.only_lookup(h, fr, st)):
                hs = pre.copy()
                entries.append((hs, dict(env0), unk_term("raises")))
            body_env, body_st = dict(fr.env), st.copy()
            if len(entries) > 12:
                self.unknown("many exceptions are caught")
            for (hst, henv, lit) in entries[:12]:
                if lit is not None and not self.assume(hst, lit, True):
                    continue
                fr.env.clear()
                fr.env.update(henv)
                if h.name:
                    fr.env[h.name] = self.unknown_quiet("exception")
                ok = self.exec_block(h.body, fr, hst)
                self.curframe = fr
                if ok:
                    c = lit if lit is not None else self.split_cond(
                        hst.assume, body_st.assume)
                    if alive:
                        env = self.join_env(c, dict(fr.env), body_env)
                        tmp = State()
                        self.join(c, tmp, hst, body_st)
                        body_env, body_st = env, tmp
                    else:
                        body_env, body_st = dict(fr.env), hst
                        alive = True
            fr.env.clear()
            fr.env.update(body_env)
            st.take(body_st)
        if s.finalbody:
            self.raises.pop()
            self.tries.pop()
            for r in rest:
                keep = dict(fr.env)
                fr.env.clear()
                fr.env.update(r.env)
                ok = self.exec_block(s.finalbody, fr, r.state)
                env = dict(fr.env)
                fr.env.clear()
                fr.env.update(keep)
                if not ok:
                    self.unknown("a final block which does not end")
                self.pass_on(r, fr, env)
            for k in range(ret0, len(fr.returns)):
                a, v, rs, n = fr.returns[k]
                keep = dict(fr.env)
                self.exec_block(s.finalbody, fr, rs)
                fr.env.clear()
                fr.env.update(keep)
            if alive:
                alive = self.exec_block(s.finalbody, fr, st)
            else:
                tmp = st.copy()
                self.exec_block(s.finalbody, fr, tmp)
                if self.with_body and any(
                        tmp.heap.get(i) is not o for i, o in st.heap.items()):
                    self.final_effect = True
        return alive

    st_TryStar = st_Try

    def unknown_quiet(self, reason):
        return Unk(reason)

    def may_raise_ext(self, body):
        for n in body:
            for x in ast.walk(n):
                if isinstance(x, (ast.Call, ast.Subscript, ast.Attribute,
                                  ast.BinOp, ast.Delete)):
                    return True
        return False

    def only_warning(self, h, fr, st):
        """The handler catches RuntimeWarning and no exception class."""
        return h.type is not None and self.handles(h, "RuntimeWarning", fr, st) \
            and not self.handles(h, "ValueError", fr, st) \
            and not self.handles(h, "KeyError", fr, st)

    def calls_out(self, body):
        """Something other than a harmless builtin is called."""
        return any(isinstance(x, ast.Call) and not (isinstance(x.func, ast.Name) and x.func.id in (
            "float", "int", "bool", "str", "len", "list", "tuple", "set", "abs", "isinstance",
            "range", "zip", "enumerate"))
            for n in body for x in ast.walk(n))

    def only_lookup(self, h, fr, st, items=False):
        """The handler catches nothing but failing attribute and name lookups
        (and item lookups)."""
        if h.type is None:
            return False
        v = self.ev(h.type, fr, st)
        vs = v.items if isinstance(v, Tup) else [v]
        return all(isinstance(x, Ext) and x.name.split(".")[-1] in (
            "AttributeError", "NameError", "UnboundLocalError") or items and isinstance(
                x, Ext) and x.name.split(".")[-1] in ("KeyError", "IndexError", "LookupError")
            for x in vs)

    def handles(self, h, exc, fr, st):
        if h.type is None:
            return True
        v = self.ev(h.type, fr, st)
        vs = v.items if isinstance(v, Tup) else [v]
        for x in vs:
            n = x.name.split(".")[-1] if isinstance(x, Ext) else (
                x.info.name if isinstance(x, ClsV) else "")
            if exc_is(exc, n):
                return True
        return False

    def st_With(self, s, fr, st):
        if len(s.items) == 1 and isinstance(s.items[0].context_expr, ast.Call):
            x = s.items[0].context_expr
            f = self.ev(x.func, fr, st)
            if isinstance(f, Ext) and f.name == "contextlib.suppress":
                t = getattr(s, "_as_try", None)
                if t is None:
                    h = ast.ExceptHandler(ast.Tuple(list(x.args), ast.Load()), None, [ast.Pass()])
                    t = s._as_try = ast.Try(s.body, [h], [], [])
                    for n in (t, h, h.type, h.body[0]):
                        ast.copy_location(n, s)
                return self.st_Try(t, fr, st)
        return self.with_items(s, list(s.items), fr, st)

    def with_items(self, s, items, fr, st):
        if not items:
            return self.exec_block(s.body, fr, st)
        item = items[0]
        cm = None
        if isinstance(item.context_expr, ast.Call):
            f = self.ev(item.context_expr.func, fr, st)
            g = f.fn if isinstance(f, BoundM) else f
            if isinstance(g, Fn) and g.tags.get("ctx") and not isinstance(g.node, ast.Lambda):
                return self.with_generator(s, g, item, items, fr, st)
        cm = self.ev(item.context_expr, fr, st)
        self.cur, self.curframe = s, fr
        val = cm
        o = st.heap.get(cm.id) if isinstance(cm, Ref) else None
        scope = None
        if isinstance(o, ExtO) and o.kind == "ctx":
            scope = o
            val = o.fields.get("value", NONE)
        elif isinstance(o, ExtO):
            val = cm
        if item.optional_vars is not None:
            self.assign(item.optional_vars, val, fr, st)
        if scope is not None:
            self.kernel_stack.append(scope)
        mode = self.warn_mode
        try:
            alive = self.with_items(s, items[1:], fr, st)
        finally:
            if scope is not None:
                self.kernel_stack.pop()
                if o.fields.get("name") == const("warnings.catch_warnings"):
                    self.warn_mode = mode
        return alive

    def with_generator(self, s, g, item, items, fr, st):
        """A context manager made of a generator function: its statements with
        those of the with statement in the place of its yield."""
        spots = [n for n in ast.walk(g.node) if isinstance(n, (ast.Yield, ast.YieldFrom))]
        out = [True]

        def inner(val, state):
            saved = self.cur, self.curframe, self.tries
            if item.optional_vars is not None:
                self.assign(item.optional_vars, val, fr, state)
            self.curframe = fr
            scope = ExtO("ctx", raw("ctx", g.name), {"value": val, "name": const(g.name)})
            self.kernel_stack.append(scope)
            n = len(fr.returns), len(fr.loops) and len(fr.loops[-1]["breaks"]), \
                len(fr.loops) and len(fr.loops[-1]["continues"])
            try:
                out[0] = self.with_items(s, items[1:], fr, state)
            finally:
                self.kernel_stack.pop()
                self.cur, self.curframe, _ = saved
            if not out[0] or n[0] != len(fr.returns) or fr.loops and (
                    n[1] != len(fr.loops[-1]["breaks"]) or n[2] != len(
                        fr.loops[-1]["continues"])):
                left.append(state)
            return out[0]
        left = []
        effect, self.final_effect = self.final_effect, False
        if len(spots) != 1 or isinstance(spots[0], ast.YieldFrom):
            self.unknown("context manager with several yields")
            return self.exec_block(s.body, fr, st)
        self.with_body.append((spots[0], inner))
        try:
            self.ev(item.context_expr, fr, st)
        except AbsDead:
            if out[0]:
                raise
            out[0] = False
        finally:
            self.with_body.pop()
            self.curframe = fr
        if left and self.final_effect:
            self.unknown("leaving a context manager early")
        self.final_effect = effect
        return out[0]

    # ---------------------------------------------------------- expressions
    def ev(self, e, fr, st):
        self.curframe = fr
        self.steps += 1
        m = getattr(self, "ex_" + type(e).__name__, None)
        if m is None:
            return self.unknown("expression " + type(e).__name__)
        return m(e, fr, st)

    def ex_Constant(self, e, fr, st):
        if e.value is Ellipsis:
            return ELLIPSIS
        return const(e.value)

    def ex_Name(self, e, fr, st):
        return self.ev_load(e, fr, st)

    def ev_load(self, e, fr, st):
        name = e.id
        v = None
        if fr.cls is not None and self.mangle(name, fr.cls) in fr.env:
            v = fr.env[self.mangle(name, fr.cls)]
        elif name in fr.env and name not in fr.globals:
            v = fr.env[name]
        else:
            for env in fr.closure:
                if name in env:
                    v = env[name]
                    break
            else:
                if name in fr.mod.env:
                    v = fr.mod.env[name]
                elif name in self.np.BUILTINS or hasattr(
                        __import__("builtins"), name):
                    if name in ("True", "False", "None"):
                        v = const({"True": True, "False": False}.get(name))
                    elif name == "Ellipsis":
                        v = ELLIPSIS
                    elif name == "NotImplemented":
                        v = Ext("builtins.NotImplemented")
                    else:
                        v = Ext("builtins." + name)
                elif name == "__file__":
                    v = const("file")
        if v is None or v is _UNBOUND:
            self.event("unbound", set(), name, st)
            return self.unknown("unbound name " + name)
        if isinstance(v, Phi):
            v = self.strip_unbound(v, st)
        return self.norm(st, v)

    def strip_unbound(self, v, st):
        if isinstance(v, Phi):
            a = self.strip_unbound(v.a, st)
            b = self.strip_unbound(v.b, st)
            if a is _UNBOUND:
                return b
            if b is _UNBOUND:
                return a
            if a is v.a and b is v.b:
                return v
            return self.merge(v.cond, a, b)
        return v

    def ex_Tuple(self, e, fr, st):
        items = self.star_items(e.elts, fr, st)
        if items is None:
            segs = []
            for x in e.elts:
                if isinstance(x, ast.Starred):
                    segs.extend(self.np.to_segs(self, st, self.ev(x.value, fr, st)))
                else:
                    segs.append(Seg(self.ev(x, fr, st)))
            return self.alloc(st, ListO(segs, kind="tuple"))
        return Tup(items)

    def star_items(self, elts, fr, st):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, fr, st)
                q = self.seq(v, st) if not isinstance(v, Ref) or not \
                    isinstance(st.heap.get(v.id), IterO) else None
                if q is None:
                    o = st.heap[v.id]
                    its = self.flat_static(o.seq)
                else:
                    its = self.flat_static(q)
                if its is None:
                    return None
                out.extend(its)
            else:
                out.append(self.ev(x, fr, st))
        return out

    def ex_List(self, e, fr, st):
        segs = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                segs.extend(self.np.to_segs(self, st, self.ev(x.value, fr, st)))
            else:
                segs.append(Seg(self.ev(x, fr, st)))
        return self.alloc(st, ListO(segs))

    def ex_Set(self, e, fr, st):
        return self.call(Ext("builtins.set"), [self.ex_List(e, fr, st)], {}, st)

    def ex_Dict(self, e, fr, st):
        d = self.alloc(st, DictO([]))
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.np.dict_update(self, st, d, self.ev(v, fr, st))
            else:
                kv = self.ev(k, fr, st)
                self.np.dict_set(self, st, d, kv, self.ev(v, fr, st))
        return d

    def ex_JoinedStr(self, e, fr, st):
        parts = []
        for x in e.values:
            if isinstance(x, ast.FormattedValue):
                v = self.ev(x.value, fr, st)
                t = self.term(v, st) if not isinstance(v, Unk) else unk_term("s")
                if t.op == "const" and x.format_spec is None and \
                        x.conversion == -1 and isinstance(t.args[0], (str, int)):
                    parts.append(const(str(t.args[0])))
                else:
                    how = () if x.format_spec is None and x.conversion == -1 else (
                        self.ev(x.format_spec, fr, st) if x.format_spec is not None
                        else const(""), x.conversion)
                    parts.append(t if tm.kind(t) == "str" and not how else raw("fmt", t, *how))
            else:
                parts.append(self.ev(x, fr, st))
        if all(p.op == "const" for p in parts):
            return const("".join(str(p.args[0]) for p in parts))
        return self.np.strcat(parts)

    def ex_FormattedValue(self, e, fr, st):
        return self.ev(e.value, fr, st)

    def ex_UnaryOp(self, e, fr, st):
        v = self.ev(e.operand, fr, st)
        n = type(e.op).__name__
        if n == "Not":
            return mk("not", self.truth(v, st))
        return self.np.unop(self, st, {"USub": "neg", "UAdd": "pos",
                                       "Invert": "invert"}[n], v)

    def ex_BinOp(self, e, fr, st):
        a = self.ev(e.left, fr, st)
        b = self.ev(e.right, fr, st)
        self.curframe = fr
        self.divides(e.op, a, b, st)
        return self.np.binop(self, st, self.np.BINOPS[type(e.op).__name__], a, b)

    def divides(self, op, a, b, st):
        """Scalar divisions of compiled code raise for zero divisors."""
        if not self.jit or not self.jit[-1] or self.suppress or not isinstance(
                op, (ast.Div, ast.FloorDiv, ast.Mod, ast.Pow)):
            return
        self.event("division", (), "site", st)
        if isinstance(a, Tup) or isinstance(b, Tup):
            return
        try:
            x, y = self.term(a, st), self.term(b, st)
        except (KeyError, TypeError, AttributeError):
            self.event("division", (), "unknown", st)
            return
        if isinstance(op, ast.Pow):     # negative whole powers
            if not (y.op == "const" and isinstance(y.args[0], int) and y.args[0] < 0):
                return
            x, y = y, x
        for v, t in ((a, x), (b, y)):
            if tm.rank(t) != 0 and (tm.rank(t) is not None or self.is_arr(st, v)):
                return
        if y.op == "const" and y.args[0] != 0:
            return
        self.event("division", (), type(op).__name__, st, (y, tuple(self.active_binders)))

    def ex_BoolOp(self, e, fr, st):
        is_and = isinstance(e.op, ast.And)
        return self.boolop(is_and, e.values, fr, st)

    def boolop(self, is_and, vals, fr, st):
        v = self.ev(vals[0], fr, st)
        if len(vals) == 1:
            return v
        c = self.truth(v, st)
        d = self.decide(st, c)
        if d is not None:
            if d == is_and:
                return self.boolop(is_and, vals[1:], fr, st)
            return v if not isinstance(v, T) or tm.kind(v) != "b1" else const(d)
        rest = lambda s: self.boolop(is_and, vals[1:], fr, s)  # noqa
        keep = lambda s: v  # noqa
        # boolean-valued operands combine into a single condition
        if is_and:
            r = self.branch(c, st, rest, keep)
        else:
            r = self.branch(c, st, keep, rest)
        if isinstance(v, T) and tm.kind(v) == "b1" and isinstance(r, T) and \
                r.op == "ite" and r.args[0] is c:
            if is_and:
                return mk("and", c, r.args[1]) if tm.kind(r.args[1]) == "b1" else r
            return mk("or", c, r.args[2]) if tm.kind(r.args[2]) == "b1" else r
        return r

    def ex_Compare(self, e, fr, st):
        left = self.ev(e.left, fr, st)
        out = None
        for o, r in zip(e.ops, e.comparators):
            right = self.ev(r, fr, st)
            self.curframe = fr
            c = self.np.compare(self, st, type(o).__name__, left, right)
            if out is None:
                out = c
            else:
                a, b = self.truth(out, st), self.truth(c, st)
                out = mk("and", a, b)
            left = right
        return out

    def ex_IfExp(self, e, fr, st):
        c = self.cond(e.test, fr, st)
        return self.branch(c, st, lambda s: self.ev(e.body, fr, s),
                           lambda s: self.ev(e.orelse, fr, s))

    def ex_NamedExpr(self, e, fr, st):
        v = self.ev(e.value, fr, st)
        self.store(e.target.id, v, fr, st)
        return v

    def ex_Lambda(self, e, fr, st):
        fn = Fn(e, fr.mod, "<lambda>", [fr.env] + fr.closure)
        fn.cls = self.cls_of(fr) if fr.fn else None
        fn.defaults = [self.ev(d, fr, st) for d in e.args.defaults]
        fn.kw_defaults = [None if d is None else self.ev(d, fr, st)
                          for d in e.args.kw_defaults]
        return fn

    def ex_Starred(self, e, fr, st):
        return self.ev(e.value, fr, st)

    def ex_Attribute(self, e, fr, st):
        o = self.ev(e.value, fr, st)
        self.cur = self.cur if self.cur is not None else e
        self.curframe = fr
        return self.getattr(o, self.mangle(e.attr, self.cls_of(fr)), st)

    def ev_index(self, e, fr, st):
        if isinstance(e, ast.Slice):
            return self.ex_Slice(e, fr, st)
        if isinstance(e, ast.Tuple):
            return Tup([self.ev_index(x, fr, st) for x in e.elts])
        return self.ev(e, fr, st)

    def ex_Slice(self, e, fr, st):
        f = lambda x: NONE if x is None else self.ev(x, fr, st)  # noqa
        return Slice(f(e.lower), f(e.upper), f(e.step))

    def ex_Subscript(self, e, fr, st):
        o = self.ev(e.value, fr, st)
        if isinstance(o, (ClsV,)) or (isinstance(o, Ext) and o.name.startswith(
                ("typing", "numpy.typing", "typing_extensions",
                 "collections.abc"))):
            return o
        k = self.ev_index(e.slice, fr, st)
        self.curframe = fr
        return self.getitem(o, k, st)

    def ex_Yield(self, e, fr, st):
        v = self.ev(e.value, fr, st) if e.value is not None else NONE
        if self.with_body and self.with_body[-1][0] is e:
            hook = self.with_body.pop()
            try:
                alive = hook[1](v, st)
            finally:
                self.with_body.append(hook)
            if not alive:
                raise AbsDead()
            self.curframe = fr
            return NONE
        if fr.yields is not None:
            fr.yields.append(_Yield(v, dict(st.assume)))
        return NONE

    def ex_YieldFrom(self, e, fr, st):
        v = self.ev(e.value, fr, st)
        if fr.yields is not None:
            for sg in self.np.to_segs(self, st, v):
                y = _Yield(sg.value, dict(st.assume), sg.binder, sg.space,
                           sg.guard)
                fr.yields.append(y)
        return NONE

    def ex_Await(self, e, fr, st):
        return self.unknown("await")

    # comprehensions
    def ex_ListComp(self, e, fr, st):
        segs = self.comp(e, fr, st, lambda s: self.ev(e.elt, fr, s))
        return self.alloc(st, ListO(segs))

    def ex_SetComp(self, e, fr, st):
        segs = self.comp(e, fr, st, lambda s: self.ev(e.elt, fr, s))
        return self.alloc(st, ListO(segs, kind="set"))

    def ex_GeneratorExp(self, e, fr, st):
        segs = self.comp(e, fr, st, lambda s: self.ev(e.elt, fr, s))
        return self.alloc(st, IterO(self.segs_seq(segs, lambda s: s.value)))

    def ex_DictComp(self, e, fr, st):
        segs = self.comp(e, fr, st, lambda s: Tup(
            [self.ev(e.key, fr, s), self.ev(e.value, fr, s)]))
        d = self.alloc(st, DictO([]))
        for sg in segs:
            k, v = sg.value.items
            if sg.binder is None and sg.guard is None:
                self.np.dict_set(self, st, d, k, v)
            else:
                o = st.heap[d.id]
                st.heap[d.id] = o.replace(segs=o.segs + (Seg(
                    v, sg.guard, sg.binder, sg.space, k),))
        return d

    def lift_raises(self, raised, b, sp, entry):
        """What the evaluation of an element raises for one index at least."""
        for r in raised:
            g = TRUE
            for c, v in r.assume.items():
                if c not in entry:
                    g = mk("and", g, c if v else mk("not", c))
            lit = tm.bind("bany", sp if isinstance(sp, T) else raw("nospace"), b, g)
            r.assume = {c: x for c, x in r.assume.items() if c in entry}
            if lit is not TRUE:
                r.assume[lit] = True
            r.state.assume = dict(r.assume)
            self.raises[-1].append(r)

    def comp(self, e, fr, st, elt):
        """Segments produced by a comprehension."""
        saved = dict(fr.env)
        names = set()
        for g in e.generators:
            for x in ast.walk(g.target):
                if isinstance(x, ast.Name):
                    names.add(x.id)
        out = []

        def level(k, guard, binders, s):
            if k == len(e.generators):
                v = elt(s)
                if not binders:
                    out.append(Seg(v, guard))
                else:
                    b, sp = binders[-1]
                    for (b2, sp2) in reversed(binders[:-1]):
                        sp = raw("nested", sp2, b2, sp)
                    out.append(Seg(v, guard, b, sp))
                return
            g = e.generators[k]
            q = self.seq(self.ev(g.iter, fr, s), s)

            def one(x, binders2, s=s):
                self.assign(g.target, x, fr, s)
                tests(0, guard, binders2, s)

            def tests(n, gd, binders2, s):
                if n == len(g.ifs):
                    return level(k + 1, gd, binders2, s)
                t = self.cond(g.ifs[n], fr, s)
                d = self.decide(s, t)
                if d is None:
                    self.branch(t, s, lambda z: tests(
                        n + 1, self.conj(t, gd), binders2, z) or NONE,
                        lambda z: NONE)
                elif d:
                    tests(n + 1, gd, binders2, s)

            def perhaps(c, x):
                d = self.decide(s, c)
                if d is None:
                    self.branch(c, s, lambda z: held(c, x(z), z),
                                lambda z: NONE)
                elif d:
                    one(x(s), binders)

            def held(c, x, z):
                self.assign(g.target, x, fr, z)
                tests(0, self.conj(c, guard), binders, z)
                return NONE

            parts = q.parts if isinstance(q, SCat) else [q]
            for p in parts:
                if isinstance(p, SStatic):
                    for x in p.items:
                        one(x, binders)
                    continue
                if isinstance(p, SUnk):
                    roots = p.roots
                    p = SGen(raw("nospace"), lambda i, x: Unk("element", roots))
                if isinstance(p, SInf):
                    p = SGen(raw("infinite"), p.get)
                if p.space.op == "maybe":
                    perhaps(p.space.args[0], lambda z, p=p: p.get(const(0), z))
                    continue
                b = self.pick_binder(p)
                self.active_binders.append(b)
                SPACES.setdefault(b, p.space)
                pre = dict(s.heap)
                entry = set(s.assume)
                self.raises.append([])
                try:
                    one(p.get(b, s), binders + [(b, p.space)])
                    self.effects(pre, s, b, "a comprehension")
                finally:
                    self.active_binders.pop()
                    raised = self.raises.pop()
                    self.lift_raises(raised, b, p.space, entry)

        level(0, None, [], st)
        for n in names:
            if n in saved:
                fr.env[n] = saved[n]
            else:
                fr.env.pop(n, None)
        return out

    def ex_Call(self, e, fr, st):
        # syntactic special cases
        f = self.ev(e.func, fr, st)
        args, kwargs = [], {}
        dyn = False
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, fr, st)
                its = None
                if isinstance(v, Ref) and isinstance(st.heap.get(v.id), ListO) \
                        or isinstance(v, (Tup, T)):
                    its = self.flat_static(self.seq(v, st))
                elif isinstance(v, Ref):
                    q = self.seq(v, st)
                    its = self.flat_static(q)
                    if its is None:
                        v = self.alloc(st, IterO(q))
                if its is None:
                    args.append(StarV(v))
                    dyn = True
                else:
                    args.extend(its)
            else:
                args.append(self.ev(a, fr, st))
        for k in e.keywords:
            v = self.ev(k.value, fr, st)
            if k.arg is None:
                got = False
                if isinstance(v, Ref) and isinstance(st.heap.get(v.id), DictO):
                    o = st.heap[v.id]
                    for sg in o.segs:
                        if isinstance(sg.key, T) and sg.key.op == "const" and \
                                sg.binder is None:
                            x = sg.value
                            if sg.guard is not None:
                                x = Phi(sg.guard, x, _MISSING)
                            kwargs[sg.key.args[0]] = x
                            got = True
                        else:
                            kwargs["**"] = v
                    if not o.segs:
                        got = True
                if not got:
                    kwargs["**"] = v
            else:
                kwargs[k.arg] = v
        self.cur, self.curframe = (e if hasattr(e, "lineno") else self.cur), fr
        return self.call(f, args, kwargs, st)

    # --------------------------------------------------------------- calls
    def call(self, f, args, kwargs, st):
        f = self.norm(st, f)
        if isinstance(f, Phi):
            return self.branch(f.cond, st,
                               lambda s: self.call(f.a, args, kwargs, s),
                               lambda s: self.call(f.b, args, kwargs, s))
        if isinstance(f, Part):
            kw = dict(f.kwargs)
            kw.update(kwargs)
            return self.call(f.func, list(f.args) + list(args), kw, st)
        if isinstance(f, BoundM):
            fn = f.fn
            if isinstance(fn, ClsMeth):
                fn = fn.fn
            return self.call(fn, [f.self] + list(args), kwargs, st)
        if isinstance(f, StatMeth):
            return self.call(f.fn, args, kwargs, st)
        if isinstance(f, Fn):
            return self.call_fn(f, args, kwargs, st)
        if isinstance(f, ClsV):
            return self.construct(f.info, args, kwargs, st)
        if isinstance(f, Getter):
            return self.np.getter_call(self, st, f, args)
        if isinstance(f, Ext):
            return self.np.ext_call(self, st, f.name, args, kwargs)
        if isinstance(f, Meth) and isinstance(f.recv, ClsV) and f.name == "_make":
            return self.make_tuple(f.recv.info, args[0], st)
        if isinstance(f, Meth):
            return self.np.method(self, st, f.recv, f.name, args, kwargs)
        if isinstance(f, Ref):
            o = st.heap.get(f.id)
            if isinstance(o, InstO):
                m = o.cls.lookup("__call__")
                if m is not None:
                    return self.call(BoundM(m, f), args, kwargs, st)
            if isinstance(o, ExtO):
                if o.kind == "decorator":
                    return args[0] if args else NONE
                return self.np.opaque_call(self, st, "call", [f] + list(args), kwargs)
        if isinstance(f, T) and f.op == "sym" and tm.props(f).get("callback"):
            return self.np.callback(self, st, f, args, kwargs)
        if isinstance(f, DT):
            return self.np.dtype_call(self, st, f, args)
        roots = set(self.reach(st, f, *args))
        roots |= self.reach(st, *kwargs.values())
        self.event("unknown-call", set(), repr(f), st, roots)
        return self.unknown("call of %r" % (f,), roots)

    def has_yield(self, node):
        r = getattr(node, "_has_yield", None)
        if r is None:
            r = False
            stack = list(node.body) if isinstance(node.body, list) else [node.body]
            while stack:
                n = stack.pop()
                if isinstance(n, (ast.Yield, ast.YieldFrom)):
                    r = True
                    break
                if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                    continue
                stack.extend(ast.iter_child_nodes(n))
            node._has_yield = r
        return r

    def bind_args(self, fn, args, kwargs, st):
        a = fn.node.args
        env = {}
        params = [p.arg for p in a.posonlyargs + a.args]
        kwargs = dict(kwargs)
        pos = list(args)
        extra_star = None
        if any(isinstance(x, StarV) for x in pos):
            i = next(i for i, x in enumerate(pos) if isinstance(x, StarV))
            extra_star = pos[i].v
            roots = self.reach(st, *[x.v if isinstance(x, StarV) else x
                                     for x in pos[i:]])
            tailv = pos[i:]
            pos = pos[:i]
        for n, v in zip(params, pos):
            env[n] = v
        rest = pos[len(params):]
        missing = []
        nd = len(fn.defaults or [])
        defaults = dict(zip(params[len(params) - nd:], fn.defaults or []))
        for n in params[len(pos):]:
            if n in kwargs:
                v = kwargs.pop(n)
                if isinstance(v, Phi) and (v.b is _MISSING or v.a is _MISSING):
                    d = defaults.get(n)
                    v = self.merge(v.cond, d if v.a is _MISSING else v.a,
                                   d if v.b is _MISSING else v.b)
                env[n] = v
            elif extra_star is not None:
                sq = self.seq(extra_star, st) if not isinstance(extra_star, Ref) else None
                env[n] = mk("at", self.term(extra_star, st), const(
                    params.index(n) - len(pos))) if isinstance(extra_star, T) \
                    else Unk("starred argument", roots)
            elif n in defaults:
                env[n] = defaults[n]
            else:
                missing.append(n)
        for p, d in zip(a.kwonlyargs, fn.kw_defaults or []):
            if p.arg in kwargs:
                env[p.arg] = kwargs.pop(p.arg)
            elif d is not None:
                env[p.arg] = d
            else:
                missing.append(p.arg)
        star_unknown = kwargs.pop("**", None)
        if a.vararg:
            if extra_star is not None:
                segs = [Seg(x) for x in rest]
                for x in tailv:
                    segs.extend(self.np.to_segs(self, st, x.v) if
                                isinstance(x, StarV) else [Seg(x)])
                env[a.vararg.arg] = self.alloc(st, ListO(segs, kind="tuple"))
            else:
                env[a.vararg.arg] = Tup(rest)
            rest = []
        if a.kwarg:
            env[a.kwarg.arg] = self.alloc(st, DictO(
                [Seg(v, key=const(k)) for k, v in kwargs.items()]))
            kwargs = {}
        if star_unknown is not None:
            for n in missing:
                env[n] = Unk("** argument", self.reach(st, star_unknown))
            missing = []
        bad = None
        if rest:
            bad = "too many positional arguments"
        elif kwargs:
            bad = "unexpected keyword " + ", ".join(sorted(kwargs))
        elif missing:
            bad = "missing argument " + ", ".join(missing)
        return env, bad

    def call_fn(self, fn, args, kwargs, st):
        hook = self.hooks.get("call")
        if hook is not None:
            r = hook(self, fn, args, kwargs, st)
            if r is not None:
                return r
        if fn.tags.get("vectorize"):
            return self.np.vectorized(self, st, fn, args, kwargs)
        env, bad = self.bind_args(fn, args, kwargs, st)
        if bad:
            self.event("bad-call", set(), "%s: %s" % (fn.name, bad), st)
            self.raise_now("TypeError", st)
        if not self.suppress:
            self.calls.append((fn, env, self.here(), list(self.kernel_stack)))
        depth = sum(1 for x in self.stack if x[0] is fn.node)
        if depth > 4 or len(self.stack) > 60 or (depth >= 1 and any(
                isinstance(x, Unk) or (isinstance(x, T) and x.op == "unk")
                for x in env.values())):
            roots = self.reach(st, *env.values())
            return self.unknown("recursion limit in " + fn.name, roots)
        if fn.tags.get("numba") and not fn.tags.get("vectorize"):
            for k, v in env.items():
                env[k] = self.np.numba_arg(self, st, v)
        saved = (self.cur, self.curframe)
        fr = Frame(fn.mod, fn, fn.closure or [])
        fr.env = env
        self.stack.append((fn.node, saved[0].lineno if saved[0] is not None and
                           hasattr(saved[0], "lineno") else 0, fn.name))
        jitted = "numba" in fn.tags and not fn.tags.get("kernel") and fn.tags.get(
            "numba_opts", {}).get("error_model") is not const("numpy")
        self.jit.append(jitted or "numba" not in fn.tags and bool(self.jit) and self.jit[-1])
        entry = dict(st.assume)
        try:
            if isinstance(fn.node, ast.Lambda):
                return self.ev(fn.node.body, fr, st)
            if self.has_yield(fn.node):
                fr.yields = []
                if fn.tags.get("ctx"):
                    return self.np.context_manager(self, st, fn, fr)
                self.exec_block(fn.node.body, fr, st)
                segs = self.np.yield_segs(self, fr.yields, entry)
                return self.alloc(st, IterO(self.segs_seq(
                    segs, lambda s: s.value)))
            alive = self.exec_block(fn.node.body, fr, st)
            self.curframe = fr
            if alive:
                fr.returns.append((dict(st.assume), NONE, st.copy(), None))
            if not fr.returns:
                raise AbsDead()
            return self.merge_returns(fr, st, entry)
        finally:
            self.jit.pop()
            self.stack.pop()
            self.cur, self.curframe = saved

    def merge_returns(self, fr, st, entry):
        rets = fr.returns
        if len(rets) == 1:
            a, v, s2, _ = rets[0]
            st.take(s2)
            return v
        common = None
        for a, _, _, _ in rets:
            items = set((k, v) for k, v in a.items())
            common = items if common is None else common & items
        # last return is the default
        a, val, acc, _ = rets[-1]
        acc = acc.copy()
        val = val
        for a, v, s2, _ in reversed(rets[:-1]):
            c = TRUE
            for k, x in a.items():
                if (k, x) in common or k in entry:
                    continue
                c = mk("and", c, k if x else mk("not", k))
            if c is TRUE:
                c = unk_term("return")
            val = self.merge(c, v, val)
            tmp = acc.copy()
            self.join(c, acc, s2, tmp)
        st.heap = acc.heap
        st.assume = {k: v for k, v in acc.assume.items()}
        for k, v in common:
            st.assume[k] = v
        return self.unify(val, st)

    # -------------------------------------------------------- construction
    def make_tuple(self, ci, v, st):
        """NamedTuple._make"""
        q = self.seq(v, st)
        if isinstance(q, SStatic) and len(q.items) == len(ci.fields):
            return Tup(q.items, ci)
        return self.construct(ci, [StarV(v)], {}, st)

    def construct(self, ci, args, kwargs, st):
        if ci.kind == "namedtuple":
            names = [f.name for f in ci.fields]
            if any(isinstance(a, StarV) for a in args):
                if len(args) == 1 and not kwargs:
                    t = args[0].v
                    if self.is_arr(st, t) or isinstance(t, T):
                        tt = self.term(t, st)
                        return Tup([self.npscalar(mk("at", tt, const(i)))
                                    for i in range(len(names))], ci)
                    if isinstance(t, Ref) and isinstance(st.heap.get(t.id), ListO):
                        tt = raw("listof", self.term(t, st))
                        return Tup([mk("at", tt, const(i)) for i in
                                    range(len(names))], ci)
                return Tup([self.unknown("starred") for _ in names], ci)
            vals = dict(zip(names, args))
            vals.update(kwargs)
            if len(args) > len(names) or any(k not in names for k in kwargs):
                self.event("bad-call", set(), ci.name, st)
                self.raise_now("TypeError", st)
            out = []
            for f in ci.fields:
                if f.name in vals:
                    out.append(vals[f.name])
                elif f.default is not None:
                    out.append(f.default)
                else:
                    self.event("bad-call", set(), ci.name, st)
                    self.raise_now("TypeError", st)
            return Tup(out, ci)
        if ci.kind == "enum":
            if len(args) == 1:
                t = args[0]
                if isinstance(t, EnumV):
                    return t
                if isinstance(t, T) and t.op == "const":
                    for n, v in ci.members:
                        if v is t:
                            return EnumV(ci, n, v)
                    self.raise_now("ValueError", st)
                if isinstance(t, T):
                    val = None
                    for n, v in reversed(ci.members):
                        e = EnumV(ci, n, v)
                        val = e if val is None else Phi(mk("eq", t, v), e, val)
                    return val
            return self.unknown("enum")
        if ci.kind == "attrs":
            return self.construct_attrs(ci, args, kwargs, st)
        init = ci.lookup("__init__")
        r = self.alloc(st, InstO(ci, {}))
        if init is not None:
            self.call(BoundM(init, r), args, kwargs, st)
        if any(e.split(".")[-1].endswith(("Warning", "Error", "Exception"))
               for e in ci.all_ext()):
            return r
        return r

    def attrs_fields(self, ci):
        out = []
        for c in reversed(ci.mro()):
            for f in c.fields:
                out = [g for g in out if g.name != f.name] + [f]
        return out

    def construct_attrs(self, ci, args, kwargs, st):
        fields = [f for f in self.attrs_fields(ci)]
        inits = [f for f in fields if f.init]
        names = [f.name.lstrip("_") for f in inits]
        vals = {}
        star = kwargs.get("**")
        kwargs = {k: v for k, v in kwargs.items() if k != "**"}
        if any(isinstance(a, StarV) for a in args):
            roots = self.reach(st, *[a.v if isinstance(a, StarV) else a
                                     for a in args])
            args = [Unk("starred", roots) for _ in inits[:1]]
        if len(args) > len(inits):
            self.event("bad-call", set(), ci.name, st)
            self.raise_now("TypeError", st)
        for f, v in zip(inits, args):
            vals[f.name] = v
        for k, v in kwargs.items():
            if k not in names:
                self.event("bad-call", set(),
                           "%s: unexpected keyword %s" % (ci.name, k), st)
                self.raise_now("TypeError", st)
            vals[inits[names.index(k)].name] = v
        r = self.alloc(st, InstO(ci, {}))
        cur = {}
        for f in inits:
            if star is not None and f.name not in vals:
                v = Unk("** argument", self.reach(st, star))
            elif f.name in vals:
                v = vals[f.name]
                if isinstance(v, Phi) and (v.a is _MISSING or v.b is _MISSING):
                    d = self.default_of(f, st)
                    v = self.merge(v.cond, d if v.a is _MISSING else v.a,
                                   d if v.b is _MISSING else v.b)
            else:
                v = self.default_of(f, st)
                if v is None:
                    self.event("bad-call", set(), ci.name, st)
                    self.raise_now("TypeError", st)
            cur[f.name] = self.convert(f, v, st)
        st.heap[r.id] = InstO(ci, cur)
        post = ci.lookup("__attrs_post_init__") or ci.lookup("__post_init__")
        if post is not None:
            self.call(BoundM(post, r), [], {}, st)
        return r

    def default_of(self, f, st):
        d = f.default
        if d is None:
            return None
        if isinstance(d, FactoryV):
            return self.call(d.func, [], {}, st)
        return d

    def convert(self, f, v, st):
        if f.converter is None:
            return v
        if f.array is not None and not (self.real_conv and not self.np.is_empty(
                self, st, v)):
            return self.on_phi(v, st, lambda x, s: self.np.conv_array(
                self, s, x, f.array[0], f.array[1]))
        return self.call(f.converter, [v], {}, st)

    # ----------------------------------------------------------- attributes
    def getattr(self, o, name, st):
        o = self.norm(st, o)
        if isinstance(o, Phi):
            return self.on_phi(o, st, lambda x, s: self.getattr(x, name, s))
        if isinstance(o, ModV):
            m = o.mod
            if name in m.env:
                return m.env[name]
            sub = self.module(m.name + "." + name)
            if sub is not None:
                return ModV(sub)
            self.event("missing-attr", set(), "%s.%s" % (m.name, name), st)
            return self.unknown("module attribute %s.%s" % (m.name, name))
        if isinstance(o, Ext):
            return self.np.ext_attr(self, st, o, name)
        if isinstance(o, ClsV):
            ci = o.info
            if name == "__name__":
                return const(ci.name)
            if name == "__annotations__":
                return self.alloc(st, DictO([Seg(Unk("annotation"), key=const(n))
                                             for n, _ in ci.annotations]))
            if name == "__dict__":
                segs = [Seg(Unk("attr"), key=const(k)) for k in
                        ["__module__", "__doc__"] + list(ci.attrs)]
                return self.alloc(st, DictO(segs))
            if ci.kind == "enum":
                for n, v in ci.members:
                    if n == name:
                        return EnumV(ci, n, v)
            if name == "__members__":
                return self.unknown("enum members")
            if ci.kind == "namedtuple" and name == "_make":
                return Meth(o, name)
            if ci.kind == "namedtuple" and name == "_fields":
                return Tup([const(f.name) for f in ci.fields])
            a = ci.lookup(name)
            if isinstance(a, ClsMeth):
                return BoundM(a, o)
            if isinstance(a, StatMeth):
                return a.fn
            if a is not None:
                return a
            if name == "__attrs_attrs__":
                return Tup([Unk("attribute") for _ in ci.fields])
            if ci.all_ext():
                return self.unknown("class attribute %s.%s" % (ci.name, name))
            self.event("missing-attr", set(), "%s.%s" % (ci.name, name), st)
            self.raise_now("AttributeError", st)
        if isinstance(o, EnumV):
            if name == "name":
                return const(o.name)
            if name == "value":
                return o.value
            return self.unknown("enum attribute")
        if isinstance(o, Slice) and name in ("start", "stop", "step"):
            return {"start": o.a, "stop": o.b, "step": o.c}[name]
        if isinstance(o, Tup):
            if o.cls is not None:
                for i, f in enumerate(o.cls.fields):
                    if f.name == name:
                        return o.items[i]
                a = o.cls.lookup(name)
                if isinstance(a, Fn):
                    return BoundM(a, o)
                if isinstance(a, PropV):
                    return self.call(a.fget, [o], {}, st)
                if name == "__class__":
                    return ClsV(o.cls)
            return Meth(o, name)
        if isinstance(o, Ref):
            h = st.heap.get(o.id)
            if isinstance(h, InstO):
                return self.getattr_inst(o, h, name, st)
            if isinstance(h, Arr):
                return self.np.arr_attr(self, st, o, name)
            if isinstance(h, ExtO):
                return self.np.extobj_attr(self, st, o, h, name)
            return Meth(o, name)
        if isinstance(o, T):
            return self.np.term_attr(self, st, o, name)
        if isinstance(o, DT):
            return self.np.dtype_attr(self, st, o, name)
        if isinstance(o, (Fn,)):
            if name == "__name__":
                return const(o.name)
            return self.unknown("function attribute")
        if isinstance(o, Unk):
            return Unk(o.reason + "." + name, o.roots)
        if isinstance(o, BoundM):
            return self.unknown("method attribute")
        return Meth(o, name)

    def getattr_inst(self, ref, h, name, st):
        if name in h.cache and has_absent(h.cache[name][0]):
            val, ver = h.cache[name]
            a = h.cls.lookup(name)
            new = self.call(a.fget, [ref], {}, st)
            h = st.heap[ref.id]
            c = dict(h.cache)
            c[name] = (self.fill_absent(val, new), self.data_version(ref, st))
            if ver != c[name][1]:
                self.event("stale-read", h.origin, "%s.%s" % (h.cls.name, name), st)
            n = h.replace()
            n.cache = c
            st.heap[ref.id] = n
            return c[name][0]
        if name in h.cache:
            val, ver = h.cache[name]
            if ver != self.data_version(ref, st):
                self.event("stale-read", h.origin, "%s.%s" % (h.cls.name, name),
                           st)
            return val
        a = h.cls.lookup(name)
        if isinstance(a, PropV):
            val = self.call(a.fget, [ref], {}, st)
            if a.cached:
                h = st.heap[ref.id]
                c = dict(h.cache)
                c[name] = (val, self.data_version(ref, st))
                n = h.replace()
                n.cache = c
                st.heap[ref.id] = n
                labels = h.origin
                if labels:
                    for lb in labels:
                        self.label(val, st, "%s.%s" % (lb, name))
                self.event("cache-fill", labels, name, st, (ref.id, name))
            return val
        if name in h.fields:
            return h.fields[name]
        if name == "__class__":
            return ClsV(h.cls)
        if name == "__annotations__":
            return self.getattr(ClsV(h.cls), name, st)
        if name == "__dict__":
            d = DictO([Seg(v, key=const(k)) for k, v in h.fields.items()] + [
                Seg(present(c[0]), guard(c[0]), key=const(k)) for k, c in h.cache.items()])
            d.owner = (ref, {s.key.args[0]: (s.value, s.guard) for s in d.segs})
            return self.alloc(st, d)
        if isinstance(a, ClsMeth):
            return BoundM(a, ClsV(h.cls))
        if isinstance(a, StatMeth):
            return a.fn
        if isinstance(a, Fn):
            return BoundM(a, ref)
        if a is not None:
            return a
        ext = h.cls.all_ext()
        got = self.np.mixin_attr(self, st, ref, h, name, ext)
        if got is not None:
            return got
        self.event("missing-attr", set(), "%s.%s" % (h.cls.name, name), st)
        self.raise_now("AttributeError", st)

    def absent(self, guard, v):
        """A memoised value held only where guard is true."""
        return self.merge(guard, v, _ABSENT)

    def fill_absent(self, v, new):
        """Memoised value with a computed one where nothing was memoised."""
        if v is _ABSENT:
            return new
        if isinstance(v, Phi) and has_absent(v):
            return self.merge(v.cond, self.fill_absent(v.a, new), self.fill_absent(v.b, new))
        return v

    def data_version(self, ref, st):
        """Version token of all array data held directly by an instance."""
        h = st.heap[ref.id]
        out = []
        for k in sorted(h.fields):
            v = h.fields[k]
            out.append(self.ver_of(v, st))
        return tuple(out)

    def ver_of(self, v, st):
        if isinstance(v, Phi):
            return ("phi", self.ver_of(v.a, st), self.ver_of(v.b, st))
        if isinstance(v, Ref):
            o = st.heap.get(v.id)
            if isinstance(o, Arr):
                return (o.buf, st.heap[o.buf].ver)
        return 0

    def setattr(self, o, name, v, st, direct=False):
        """``direct`` as by object.__setattr__: no conversion of fields."""
        o = self.norm(st, o)
        if isinstance(o, Phi):
            return self.on_phi(o, st, lambda x, s: self.setattr(
                x, name, v, s, direct))
        if isinstance(o, Ref):
            h = st.heap.get(o.id)
            if isinstance(h, InstO):
                own = None if direct else h.cls.lookup("__setattr__")
                if isinstance(own, Fn):
                    self.call(BoundM(own, o), [const(name), v], {}, st)
                    return NONE
                a = h.cls.lookup(name)
                if isinstance(a, PropV) and not a.cached:
                    if a.fset is None:
                        self.event("missing-attr", set(),
                                   "%s.%s has no setter" % (h.cls.name, name), st)
                        self.raise_now("AttributeError", st)
                    self.call(a.fset, [o, v], {}, st)
                    return NONE
                if isinstance(a, PropV) and a.cached:
                    c = dict(h.cache)
                    c[name] = (v, self.data_version(o, st))
                    n = h.replace()
                    n.cache = c
                    st.heap[o.id] = n
                    return NONE
                f = next((f for f in self.attrs_fields(h.cls)
                          if f.name == name), None) if h.cls.kind == "attrs" \
                    else None
                if f is not None and f.converter is not None and not direct:
                    v = self.convert(f, v, st)
                    h = st.heap[o.id]
                if name in h.fields and h.origin and not self.in_init(o, st):
                    self.event("setattr", h.origin, "%s.%s" % (h.cls.name, name),
                               st, (o.id, name))
                fs = dict(h.fields)
                fs[name] = v
                st.heap[o.id] = h.replace(fields=fs)
                if o.id in VIA:
                    self.unknown("change of an element of a generic container")
                return NONE
            if isinstance(h, ExtO):
                if h.origin:
                    self.event("setattr", h.origin, name, st, (o.id, name))
                self.np.extobj_setattr(self, st, o, h, name, v)
                return NONE
            if isinstance(h, Arr):
                self.np.arr_setattr(self, st, o, name, v)
                return NONE
        if isinstance(o, Unk):
            self.event("unknown-write", set(), "attribute %s" % name, st, o.roots)
        if isinstance(o, (ModV, ClsV, Ext)):
            self.event("global-write", {"global:%r" % (o,)},
                       "setting %s" % name, st)
        return NONE

    def in_init(self, o, st):
        return False

    def delattr(self, o, name, st):
        o = self.norm(st, o)
        if isinstance(o, Phi):
            return self.on_phi(o, st, lambda x, s: self.delattr(x, name, s))
        if isinstance(o, Ref):
            h = st.heap.get(o.id)
            if isinstance(h, InstO):
                if name in h.cache:
                    c = dict(h.cache)
                    del c[name]
                    n = h.replace()
                    n.cache = c
                    st.heap[o.id] = n
                    return NONE
                if name in h.fields:
                    fs = dict(h.fields)
                    del fs[name]
                    st.heap[o.id] = h.replace(fields=fs)
                    return NONE
                a = h.cls.lookup(name)
                if a is None:
                    self.event("missing-delattr", set(),
                               "%s.%s" % (h.cls.name, name), st)
                self.raise_now("AttributeError", st)
        return NONE

    # ------------------------------------------------------------- items
    def getitem(self, o, k, st):
        o = self.norm(st, o)
        if isinstance(o, Phi):
            return self.on_phi(o, st, lambda x, s: self.getitem(x, k, s))
        k = self.norm(st, k)
        if isinstance(k, Phi):
            return self.on_phi(k, st, lambda x, s: self.getitem(o, x, s))
        if not (isinstance(o, Ref) and isinstance(st.heap.get(o.id), DictO)) and not (
                isinstance(k, T) and k.op == "const" and (isinstance(o, Tup) or isinstance(
                    o, Ref) and isinstance(st.heap.get(o.id), ListO))):
            self.inexact += 1
        if isinstance(o, Ref):
            h = st.heap.get(o.id)
            if isinstance(h, InstO):
                m = h.cls.lookup("__getitem__")
                if m is None:
                    self.event("missing-attr", set(), h.cls.name + ".__getitem__", st)
                    self.raise_now("TypeError", st)
                return self.call(BoundM(m, o), [k], {}, st)
        return self.np.getitem(self, st, o, k)

    def setitem(self, o, k, v, st):
        o = self.norm(st, o)
        if isinstance(o, Phi):
            return self.on_phi(o, st, lambda x, s: self.setitem(x, k, v, s))
        if isinstance(o, Ref):
            h = st.heap.get(o.id)
            if isinstance(h, InstO):
                m = h.cls.lookup("__setitem__")
                if m is None:
                    self.event("missing-attr", set(), h.cls.name + ".__setitem__", st)
                    self.raise_now("TypeError", st)
                return self.call(BoundM(m, o), [k, v], {}, st)
        return self.np.setitem(self, st, o, k, v)

    def delitem(self, o, k, st):
        o = self.norm(st, o)
        if isinstance(o, Phi):
            return self.on_phi(o, st, lambda x, s: self.delitem(x, k, s))
        if isinstance(o, Ref):
            h = st.heap.get(o.id)
            if isinstance(h, InstO):
                m = h.cls.lookup("__delitem__")
                if m is None:
                    self.event("missing-attr", set(), h.cls.name + ".__delitem__", st)
                    self.raise_now("TypeError", st)
                return self.call(BoundM(m, o), [k], {}, st)
        return self.np.delitem(self, st, o, k)


class StarV(V):
    def __init__(self, v):
        self.v = v


def mk_or(conds):
    r = FALSE
    for c in conds:
        r = mk("or", r, c)
    return r


class _Yield:
    def __init__(self, value, guard_assume, binder=None, space=None,
                 guard=None):
        self.value, self.guard_assume = value, guard_assume
        self.binder, self.space, self.guard = binder, space, guard


class _Sentinel(V):
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return self.n


_UNBOUND = _Sentinel("<unbound>")
_ABSENT = _Sentinel("<absent>")


def guard(v):
    """Where something is memoised (None: everywhere)."""
    if not has_absent(v):
        return None
    if v is _ABSENT:
        return FALSE
    a, b = guard(v.a), guard(v.b)
    return mk("ite", v.cond, TRUE if a is None else a, TRUE if b is None else b)


def present(v):
    if isinstance(v, Phi) and has_absent(v):
        if v.a is _ABSENT:
            return present(v.b)
        if v.b is _ABSENT:
            return present(v.a)
        return Phi(v.cond, present(v.a), present(v.b))
    return v


def has_absent(v):
    return v is _ABSENT or isinstance(v, Phi) and (has_absent(v.a) or has_absent(v.b))

_MISSING = _Sentinel("<missing>")
ELLIPSIS = raw("ellipsis")

EXC_PARENTS = {
    "KeyError": "LookupError", "IndexError": "LookupError",
    "LookupError": "Exception", "ValueError": "Exception",
    "TypeError": "Exception", "AttributeError": "Exception",
    "ZeroDivisionError": "ArithmeticError", "ArithmeticError": "Exception",
    "OverflowError": "ArithmeticError",
    "NotImplementedError": "RuntimeError", "RuntimeError": "Exception",
    "RuntimeWarning": "Warning", "UserWarning": "Warning",
    "NumericalStabilityWarning": "UserWarning", "Warning": "Exception",
    "ImportError": "Exception", "ModuleNotFoundError": "ImportError",
    "AssertionError": "Exception", "NameError": "Exception",
    "UnboundLocalError": "NameError", "StopIteration": "Exception",
    "Exception": "BaseException",
}


def exc_is(exc, name):
    while exc is not None:
        if exc == name:
            return True
        exc = EXC_PARENTS.get(exc)
    return False
