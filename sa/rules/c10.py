"""C10: structured input is read by field name into one canonical layout.

Every way of supplying data (structured arrays with each order and naming of
the fields, plain arrays of each memory layout and element type, lists, other
objects) is passed through the constructors, the data setters and from_numpy;
the columns read back are extracted as value graphs and compared with the
columns supplied, and the element type, number of columns and memory layout
of the stored array are read off the abstract heap.
"""
import itertools
from .. import api, terms as tm, model
from ..model import np, Inst, Rec
from ..terms import const, raw, NONE, TRUE
from ..values import Ext, Tup, DT, Slice, InstO, Arr
from ..interp import ELLIPSIS
from . import Result
from .common import seq, expect, sc_one, sc_steps, where, why_not

PMU = ("x", "y", "z", "e")
ALIAS = {"x": ("x", "px"), "y": ("y", "py"), "z": ("z", "pz"), "e": ("e", "pe", "E"),
         "src": ("src", "in"), "dst": ("dst", "out"), "color": ("color",),
         "anticolor": ("anticolor",)}
COLS = {"MomentumArray": PMU, "ColorArray": ("color", "anticolor"),
        "AdjacencyList": ("src", "dst")}
DTYPE = {"MomentumArray": "f8", "ColorArray": "i4", "AdjacencyList": "i4", "PdgArray": "i4",
         "HelicityArray": "i2", "StatusArray": "i2", "MaskArray": "b1"}
ONE = ("MaskArray", "PdgArray", "HelicityArray", "StatusArray")
KIND = {"f8": "f8", "f4": "f8", "b1": "b1"}


def col(e, n, dt):
    return e.col("v." + n, KIND.get(dt, "int"))


def struct(e, order, names, dt):
    """Structured array with fields ``names`` holding the columns ``order``."""
    cs = [col(e, q, dt) for q in order]
    return e.arr(raw("struct", tuple(names), *cs), DT("struct", tuple(
        (n, dt) for n in names)))


def plain(e, order, dt):
    return e.arr(raw("cols", *[col(e, q, dt) for q in order]), dt)


def sources(cls):
    """name -> builder of each way to supply data; all hold the columns v.*"""
    cols = COLS.get(cls, ("v",))
    dt = DTYPE[cls]
    other = {"f8": ("f4", "i8"), "i4": ("i8", "i2"), "i2": ("i8", "i4"), "b1": ()}[dt]
    n = len(cols)
    if n > 1:
        k = 0
        for order in itertools.permutations(cols):
            for al in (itertools.product(*[ALIAS[q] for q in order]) if n == 2 else
                       [[ALIAS[q][(k + i) % len(ALIAS[q])] for i, q in enumerate(order)],
                        [ALIAS[q][(k + 2 * i + 1) % len(ALIAS[q])]
                         for i, q in enumerate(order)]]):
                k += 1
                yield "fields %s" % " ".join(al), \
                    lambda e, order=order, al=tuple(al): struct(e, order, al, dt)
        for d in other:
            yield "%s fields reversed" % d, lambda e, d=d: struct(
                e, cols[::-1], [ALIAS[q][0] for q in cols[::-1]], d)
    if n > 1:
        yield "array", lambda e: plain(e, cols, dt)
        for d in other:
            yield "%s array" % d, lambda e, d=d: plain(e, cols, d)
        yield "transposed array", lambda e: e.I.getattr(e.arr(raw("stackrows", *[
            col(e, q, dt) for q in cols]), dt), "T", e.st)
        if other:
            yield "transposed %s array" % other[0], lambda e: e.I.getattr(e.arr(
                raw("stackrows", *[col(e, q, other[0]) for q in cols]), other[0]), "T", e.st)
        wide = lambda e: e.arr(raw("cols", *([col(e, q, dt) for q in cols] + [   # noqa: E731
            e.col("u", KIND.get(dt, "int"))])), dt)
        yield "slice of columns", lambda e: e.I.getitem(wide(e), Tup([
            ELLIPSIS, Slice(NONE, const(n), NONE)]), e.st)
    else:
        yield "array", lambda e: e.arr(col(e, "v", dt), dt)
        for d in other:
            yield "%s array" % d, lambda e, d=d: e.arr(col(e, "v", d), d)
        yield "column of a table", lambda e: e.I.getitem(e.arr(raw(
            "cols", e.col("u", KIND.get(dt, "int")), col(e, "v", dt)), dt), Tup([
                Slice(NONE, NONE, NONE), const(1)]), e.st)
        yield "(n, 1) array", lambda e: e.I.call(e.I.getattr(e.arr(
            col(e, "v", dt), dt), "reshape", e.st), [const(-1), const(1)], {}, e.st)
    yield "same class", lambda e: e.make(cls, plain(e, cols, dt) if n > 1 else e.arr(
        col(e, "v", dt), dt))
    if n > 1:
        yield "its data", lambda e: e.I.getattr(e.make(cls, plain(e, cols, dt)), "data", e.st)
    yield "list", lambda e: e.I.call(e.I.getattr(plain(e, cols, dt) if n > 1 else e.arr(
        col(e, "v", dt), dt), "tolist", e.st), [], {}, e.st)
    yield "list of elements", lambda e: e.I.call(Ext("builtins.list"), [e.make(
        cls, plain(e, cols, dt) if n > 1 else e.arr(col(e, "v", dt), dt))], {}, e.st)
    yield "tuple of elements", lambda e: e.I.call(Ext("builtins.tuple"), [e.make(
        cls, plain(e, cols, dt) if n > 1 else e.arr(col(e, "v", dt), dt))], {}, e.st)


NAMED = {"MomentumArray": ("x", "y", "z", "energy"), "ColorArray": ("color", "anticolor"),
         "AdjacencyList": ()}


def read(e, cls, o):
    """The columns as the public interface gives them."""
    I, st = e.I, e.st
    d = I.getattr(o, "data", st)
    if cls in ONE:
        return [d]
    out = [I.getitem(d, const(q), st) for q in COLS[cls]]
    out += [I.getattr(o, q, st) for q in NAMED[cls]]
    if cls == "AdjacencyList":
        ed = I.getattr(o, "edges", st)
        out += [I.getitem(ed, const(q), st) for q in COLS[cls]]
    return out


def entries(cls):
    def ctor(e, v):
        return e.make(cls, v)
    yield "%s(...)" % cls, cls, ctor

    def setter(e, v):
        o = api.build(e, cls, "old")
        e.I.setattr(o, "data", v, e.st)
        return o
    if cls != "AdjacencyList":
        yield "%s.data = ..." % cls, cls + ".data", setter
    name = {"MomentumArray": "pmu", "ColorArray": "color", "AdjacencyList": "edges",
            "PdgArray": "pdg", "HelicityArray": "helicity", "StatusArray": "status",
            "MaskArray": "final"}[cls]

    def from_numpy(comp):
        def go(e, v):
            o = e.I.call(e.I.getattr(e.I.public(comp), "from_numpy", e.st), [], {name: v}, e.st)
            return e.I.getattr(o, name if name != "edges" else "adj", e.st)
        return go
    for comp in ("ParticleSet", "Graphicle"):
        if name != "edges" or comp == "Graphicle":
            yield "%s.from_numpy(%s=...)" % (comp, name), comp + ".from_numpy", from_numpy(comp)


def run(ctx):
    res = Result(__doc__)
    I = ctx.interp
    I.real_conv = model.COARSE[0] = True
    try:
        return check(res, ctx, I)
    finally:
        I.real_conv = model.COARSE[0] = False


def check(res, ctx, I):
    for cls in DTYPE:
        cols = COLS.get(cls, ("v",))
        for en, target, make in entries(cls):
            for sn, src in sources(cls):
                if "from_numpy" in en and sn not in ("array", "same class") and \
                        "fields" not in sn:
                    continue
                box = {}
                def go(e, v, make=make, box=box, cls=cls):
                    o = make(e, v)
                    box["o"] = o
                    return Tup(read(e, cls, o))
                sc = seq("%s from %s" % (en, sn), lambda e, src=src: [("v", src(e))], go,
                         target=target)
                o = sc_one(I, sc, sc_steps(ctx))

                def ref(X, cls=cls, cols=cols):
                    k = DTYPE[cls]
                    c = [X.M.val(tm.sym("v." + q, KIND.get(X.kind, "int"), 1, space=raw(
                        "space", "E"))) for q in cols]
                    c = c * (2 if len(cols) == 2 else 1 if cls in ONE else 2)
                    return tuple(np.asarray(x, {"f8": float, "b1": bool}.get(k, int)) for x in c)
                kd = "f4" if "f4" in sn else "i8" if "i8 " in sn or "i2 " in sn or (
                    "i4 " in sn) else DTYPE[cls]

                def ref2(X, ref=ref, kd=kd):
                    X.kind = kd
                    return ref(X)
                expect(res, ctx, "columns", sc, ref2, "columns read back", o=o, n=3,
                       moods=("plain",))
                if not o.exact or o.dead:
                    continue
                layout(res, ctx, sc, o, cls, box["o"])
    return res


def layout(res, ctx, sc, o, cls, ref):
    """Element type, columns and memory layout of the stored array."""
    I, st = ctx.interp, o.st
    N = I.np
    at = where(ctx, sc.target)
    h = st.heap.get(getattr(ref, "id", None))
    name = sc.name
    if not isinstance(h, InstO) or h.cls.name != cls:
        res.unknown("%s: no instance" % name)
        return
    d = I.getattr(ref, "data", st)
    base = None
    if hasattr(d, "id") and isinstance(st.heap.get(d.id), Arr):
        base = st.heap[d.id].buf
    held = [v for v in h.fields.values() if hasattr(v, "id") and isinstance(
        st.heap.get(v.id), Arr) and st.heap[v.id].buf == base]
    if not held:
        res.bad("detached", at[0], at[1], at[2], "%s: data is a copy of the stored array, so "
                "writing to it has no effect on the %s" % (name, cls))
        return
    for v in held:
        lay = N.layout(I, st, v)
        if lay is None:
            res.unknown("%s: memory layout" % name)
        elif lay != "C":
            res.bad("layout", at[0], at[1], at[2], "%s: the data is stored with memory layout "
                    "%s instead of row contiguous" % (name, lay))
        else:
            res.ok("%s: row contiguous" % name)
        dt = N.dt_of(I, st, v)
        buf = st.heap[st.heap[v.id].buf]
        want = DTYPE[cls]
        if dt is None or dt.struct:
            res.unknown("%s: element type" % name)
        elif dt.name != want:
            res.bad("dtype", at[0], at[1], at[2], "%s: elements are stored as %s instead of %s"
                    % (name, dt.name, want))
        else:
            res.ok("%s: element type" % name)
    dd = N.dt_of(I, st, d)
    if cls not in ONE:
        names = tuple(n for n, _ in dd.struct) if dd is not None and dd.struct else None
        if names != COLS[cls]:
            res.bad("fields", at[0], at[1], at[2], "%s: the structured view has fields %s" % (
                name, names))
        elif any(t not in (DTYPE[cls], "?") for _, t in dd.struct):
            res.bad("fields", at[0], at[1], at[2], "%s: the structured view has types %s" % (
                name, dd.struct))
        else:
            res.ok("%s: structured view" % name)
