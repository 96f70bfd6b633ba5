"""Abstract inputs for the public functions of the package."""
from . import terms as tm
from .terms import T, const, raw, NONE, TRUE, FALSE
from .interp import Interp, State, AbsDead, Frame
from .values import (Ref, Tup, Phi, DT, Unk, Fn, ClsV, BoundM, Arr, InstO,
                     Seg, ListO, DictO, ExtO, Buf)


class Env:
    """A fresh analysis state with builders for inputs."""

    def __init__(self, I):
        self.I = I
        self.st = I.base.copy()
        self.inputs = []

    def nonempty(self, sp):
        """Assume that space sp has at least one element."""
        self.st.assume[raw("nonempty", sp)] = True
        return sp

    # ------------------------------------------------------------ arrays
    def space(self, name="E"):
        return raw("space", name)

    def col(self, name, kind="f8", sp=None, **kw):
        return tm.sym(name, kind, 1, space=(self.space() if sp is None else sp), **kw)

    def arr(self, t, dt=None):
        return self.I.new_arr(self.st, t, DT(dt) if isinstance(dt, str) else dt)

    def cls(self, name):
        return self.I.get_class(name)

    def make(self, cls, *args, **kw):
        return self.I.construct(self.cls(cls), list(args), kw, self.st)

    def momenta(self, name="p", sp=None):
        sp = (self.space() if sp is None else sp)
        c = [self.col("%s.%s" % (name, q), sp=sp, mom=name, comp=q)
             for q in ("px", "py", "pz", "e")]
        return self.make("MomentumArray", self.arr(raw("cols", *c), "f8"))

    def pdg(self, name="pdg", sp=None):
        return self.make("PdgArray", self.arr(self.col(name, "int", sp), "i4"))

    def status(self, name="status", sp=None):
        return self.make("StatusArray", self.arr(self.col(name, "int", sp), "i2"))

    def helicity(self, name="helicity", sp=None):
        return self.make("HelicityArray", self.arr(self.col(name, "int", sp), "i2"))

    def color(self, name="color", sp=None):
        c = [self.col(name + "." + q, "int", sp) for q in ("color", "anticolor")]
        return self.make("ColorArray", self.arr(raw("struct", (
            "color", "anticolor"), *c), DT("struct", (
                ("color", "i4"), ("anticolor", "i4")))))

    def mask(self, name="mask", sp=None):
        return self.make("MaskArray", self.arr(self.col(name, "b1", sp), "b1"))

    def edges(self, name="edges", sp=None):
        c = [self.col(name + "." + q, "int", sp) for q in ("src", "dst")]
        return self.arr(raw("cols", *c), "i4")

    def adj(self, name="adj", sp=None, weights=True):
        sp = (self.space() if sp is None else sp)
        if weights:
            return self.make("AdjacencyList", self.edges(name, sp), self.arr(
                self.col(name + ".w", "f8", sp), "f8"))
        return self.make("AdjacencyList", self.edges(name, sp))

    def mask_group(self, name="mg", keys=("a", "b"), agg=None, sp=None,
                   nested=None):
        I, st = self.I, self.st
        d = I.alloc(st, DictO([], kind="OrderedDict"))
        for k in keys:
            if nested and k in nested:
                v = self.mask_group("%s.%s" % (name, k), nested[k], agg, sp)
            else:
                v = self.mask("%s.%s" % (name, k), sp)
            I.np.dict_set(I, st, d, const(k), v)
        kw = {} if agg is None else {"agg_op": const(agg)}
        return self.make("MaskGroup", d, **kw)

    def particle_set(self, name="", sp=None):
        sp = (self.space() if sp is None else sp)
        n = name
        return self.make("ParticleSet", pdg=self.pdg(n + "pdg", sp),
                         pmu=self.momenta(n + "p", sp),
                         color=self.color(n + "color", sp),
                         helicity=self.helicity(n + "helicity", sp),
                         status=self.status(n + "status", sp),
                         final=self.mask(n + "final", sp))

    def graphicle(self, name="", sp=None):
        sp = (self.space() if sp is None else sp)
        return self.make("Graphicle", self.particle_set(name, sp),
                         self.adj(name + "edges", sp))

    def num(self, name, kind="f8", **kw):
        return tm.sym(name, kind, 0, **kw)

    # ------------------------------------------------------------- calls
    def call(self, f, *args, **kw):
        """Returns (kind, value): ('ok', v) or ('raise', None)."""
        I = self.I
        if isinstance(f, str):
            f = I.public(f)
        I.raises.append([])
        try:
            v = I.call(f, list(args), kw, self.st)
            return I.norm(self.st, v)
        except AbsDead:
            return None
        finally:
            self.raised = I.raises.pop()

    def method(self, obj, name, *args, **kw):
        I = self.I
        I.raises.append([])
        try:
            f = I.getattr(obj, name, self.st)
            return I.norm(self.st, I.call(f, list(args), kw, self.st))
        except AbsDead:
            return None
        finally:
            self.raised = I.raises.pop()

    def attr(self, obj, name):
        I = self.I
        I.raises.append([])
        try:
            return I.norm(self.st, I.getattr(obj, name, self.st))
        except AbsDead:
            return None
        finally:
            self.raised = I.raises.pop()

    def term(self, v):
        """Content of an array-like or scalar value."""
        return self.I.np.val(self.I, self.st, v)
