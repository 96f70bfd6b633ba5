"""C20: numpy ufuncs work on the data and keep the declared result class.

Calls, reductions, in-place variants and several-output ufuncs on every array
structure are extracted through its __array_ufunc__ as value graphs and
compared with the same ufunc on the plain data in finite models; the class of
the result is read off the extracted value.
"""
from .. import api, terms as tm
from ..model import np, Inst, Raised, Rec
from ..terms import const, raw, NONE, TRUE
from ..values import Ext, Tup
from . import Result
from .common import seq, expect
from .c19 import table

ARRAYS = ("MaskArray", "PdgArray", "MomentumArray", "ColorArray", "HelicityArray", "StatusArray",
          "AdjacencyList")
WIDE = ("MomentumArray", "ColorArray", "AdjacencyList")
INT1 = ("negative", "absolute", "positive", "sign", "square")
INT2 = ("add", "subtract", "multiply", "maximum", "minimum", "bitwise_xor", "gcd")
FLT1 = ("negative", "absolute", "exp", "square", "arctan", "sinh", "cbrt", "degrees")
FLT2 = ("add", "subtract", "multiply", "maximum", "hypot", "arctan2", "copysign", "logaddexp",
        "heaviside")
BOOL1 = ("logical_not", "invert")
BOOL2 = ("logical_and", "logical_or", "logical_xor", "bitwise_and", "bitwise_or")
CMP1 = ("isfinite", "signbit", "logical_not")
CMP2 = ("greater", "less_equal", "equal", "not_equal", "logical_and", "logical_or")


def kinds(cls):
    if cls == "MaskArray":
        return BOOL1, BOOL2, "b1", "b1"
    if cls == "MomentumArray":
        return FLT1, FLT2, "f8", "f8"
    return INT1, INT2, "int", "i4"


def plain_arr(e, cls, name="a", sp=None):
    """A numpy array broadcasting against the data of cls."""
    k, dt = kinds(cls)[2:]
    w = {"MomentumArray": 4, "ColorArray": 2, "AdjacencyList": 2}.get(cls)
    if w is None:
        return e.arr(e.col(name, k, sp), dt)
    return e.arr(raw("cols", *[e.col("%s%d" % (name, i), k, sp) for i in range(w)]), dt)


def rowvec(e, cls):
    k, dt = kinds(cls)[2:]
    w = {"MomentumArray": 4, "ColorArray": 2, "AdjacencyList": 2}[cls]
    return e.arr(raw("row", *[e.num("r%d" % i, k) for i in range(w)]), dt)


def num(e, cls):
    return e.num("c", kinds(cls)[2])


def wide(cls, a):
    """Array data as the structure holds it."""
    a = np.asarray(a)
    if cls in WIDE:
        return a.reshape(-1, {"MomentumArray": 4}.get(cls, 2))
    return a


def unpack(v):
    return table(v) if isinstance(v, Inst) else np.column_stack(v.vals) if isinstance(
        v, Rec) else v


def result(v):
    """Class-tagged contents."""
    if isinstance(v, Inst):
        return (v.cls, table(v))
    if isinstance(v, (tuple, list)):
        return tuple(result(x) for x in v)
    if isinstance(v, Rec):
        return ("array", np.column_stack(v.vals))
    if v is None:
        return None
    return ("array" if np.ndim(v) else "scalar", v)


def wanted(cls, r, kind="same"):
    """What numpy's result r has to be presented as."""
    if isinstance(r, tuple):
        return tuple(wanted(cls, x, kind) for x in r)
    if np.ndim(r) == 0:
        return ("scalar", r)
    if r.dtype == bool:
        return ("MaskArray", r)
    if kind == "plain":
        return ("array", r)
    return (cls, wide(cls, r))


def uf(e, name, how, args, kw=None):
    f = "numpy." + name + ("" if how == "__call__" else "." + how)
    return e.I.call(Ext(f), list(args), dict(kw or {}), e.st)


def run(ctx):
    res = Result(__doc__)
    for cls in ARRAYS:
        b = lambda e, n="x", c=cls: api.build(e, c, n)       # noqa: E731
        target = cls + ".__array_ufunc__"
        u1, u2 = kinds(cls)[:2]

        def check(tag, setup, go, ref, what="numpy's result on the data", rule="ufunc", n=4,
                  moods=("plain",), **kw):
            expect(res, ctx, rule, seq("%s %s" % (cls, tag), setup, go, target=target), ref, what,
                   norm=result, n=n, moods=moods, **kw)

        # element-wise ---------------------------------------------------
        for f in u1 + (CMP1 if cls != "MaskArray" else ()):
            check("np.%s(x)" % f, lambda e, b=b: [("x", b(e))],
                  lambda e, x, f=f: uf(e, f, "__call__", [x]),
                  lambda X, f=f: wanted(cls, getattr(np, f)(unpack(X("x", norm=None)))))
        others = [("same class", lambda e: b(e, "y")), ("array", lambda e: plain_arr(e, cls)),
                  ("number", lambda e: num(e, cls) if cls != "MaskArray" else TRUE)]
        if cls in WIDE:
            others.append(("row vector", lambda e: rowvec(e, cls)))
            others.append(("list", lambda e: e.I.new_list(e.st, [const(k) for k in (
                range(1, 5) if cls == "MomentumArray" else range(1, 3))])))
        for f in u2 + (CMP2 if cls != "MaskArray" else ()):
            for on, ob in others:
                for order in (0, 1):
                    def go(e, x, y, f=f, order=order):
                        return uf(e, f, "__call__", [y, x] if order else [x, y])

                    def ref(X, f=f, order=order):
                        a = [unpack(X("x", norm=None)), unpack(X("y", norm=None))]
                        return wanted(cls, getattr(np, f)(*(a[::-1] if order else a)))
                    check("np.%s(%s)" % (f, "%s, x" % on if order else "x, %s" % on),
                          lambda e, ob=ob, b=b: [("x", b(e)), ("y", ob(e))], go, ref)
        # reductions -----------------------------------------------------
        reds = {"MaskArray": ("logical_and", "logical_or", "add"),
                "MomentumArray": ("add", "maximum", "multiply")}.get(
                    cls, ("add", "minimum", "multiply"))
        axes = [("default", {}, "same"), ("axis=0", {"axis": 0}, "same"),
                ("axis=None", {"axis": None}, "plain")]
        if cls in WIDE:
            axes += [("axis=1", {"axis": 1}, "plain"), ("axis=-1", {"axis": -1}, "plain"),
                     ("axis=1, keepdims", {"axis": 1, "keepdims": True}, "plain"),
                     ("axis=0, keepdims", {"axis": 0, "keepdims": True}, "same"),
                     ("axis=(1,)", {"axis": (1,)}, "plain"),
                     ("axis=(0,)", {"axis": (0,)}, "same"),
                     ("axis=(0, 1)", {"axis": (0, 1)}, "plain")]
        else:
            axes += [("axis=-1, keepdims", {"axis": -1, "keepdims": True}, "same")]
        for f in reds + (("logical_or",) if cls in WIDE else ()):
            for an, kw, kind in axes:
                check("np.%s.reduce(x, %s)" % (f, an), lambda e, b=b: [("x", b(e))],
                      lambda e, x, f=f, kw=kw: uf(e, f, "reduce", [x], {
                          k: NONE if v is None else Tup([const(i) for i in v]) if isinstance(
                              v, tuple) else const(v) for k, v in kw.items()}),
                      lambda X, f=f, kw=kw, kind=kind: wanted(cls, getattr(np, f).reduce(
                          unpack(X("x", norm=None)), **kw), kind), rule="reduction")
        if cls in WIDE:
            for an, ax, kind in (("0", 0, "same"), ("1", 1, "plain"), ("None", None, "plain")):
                check("np.sum(x, %s)" % an, lambda e, b=b: [("x", b(e))],
                      lambda e, x, ax=ax: e.I.call(Ext("numpy.sum"), [
                          x, NONE if ax is None else const(ax)], {}, e.st),
                      lambda X, ax=ax, kind=kind: wanted(
                          cls, np.sum(unpack(X("x", norm=None)), axis=ax), kind),
                      rule="reduction")
        # in place -------------------------------------------------------
        outs = [("same class", lambda e: b(e, "z")), ("array", lambda e: plain_arr(e, cls, "z"))]
        f = u2[1]
        for on, ob in others:
            for zn, zb in outs:
                def go(e, x, y, z, f=f):
                    r = uf(e, f, "__call__", [x, y], {"out": z})
                    return Tup([r, z])

                def ref(X, f=f, zn=zn):
                    w = getattr(np, f)(unpack(X("x", norm=None)), unpack(X("y", norm=None)))
                    # a bare result array of several columns is wrapped like any other
                    r = wanted(cls, w)
                    return (r, r if zn == "same class" else ("array", w))
                check("np.%s(x, %s, out=%s)" % (f, on, zn),
                      lambda e, ob=ob, zb=zb, b=b: [("x", b(e)), ("y", ob(e)), ("z", zb(e))],
                      go, ref, "result and destination", rule="out")
            iop = {"subtract": "__isub__", "logical_or": "__ior__"}[f]

            def go(e, x, y, iop=iop):
                r = e.I.call(e.I.getattr(x, iop, e.st), [y], {}, e.st)
                return Tup([r, x])

            def ref(X, f=f):
                r = wanted(cls, getattr(np, f)(unpack(X("x", norm=None)), unpack(
                    X("y", norm=None))))
                return (r, r)
            if cls != "MaskArray":
                check("x -= %s" % on, lambda e, ob=ob, b=b: [("x", b(e)), ("y", ob(e))], go, ref,
                      "result and operand", rule="out")
        for f in u2[:2]:
            def go(e, x, k, v, f=f):
                r = uf(e, f, "at", [x, k, v])
                return Tup([r, x])

            def ref(X, f=f):
                a = np.array(unpack(X("x", norm=None)))
                v = unpack(X("v", norm=None))
                getattr(np, f).at(a, X("k"), v)
                return (None, (cls, a))

            def leaf(M, name, p):
                if name == "k":
                    return np.random.default_rng([M.seed, 5]).integers(
                        0, M.nspace("E"), M.nspace("K"))
            check("np.%s.at(x, k, values)" % f, lambda e, b=b: [
                ("x", b(e)), ("k", e.arr(tm.sym("k", "int", 1, space=raw("space", "K")), "i8")),
                ("v", plain_arr(e, cls, "v", raw("space", "K")))], go, ref,
                "the operand is updated at every index", rule="at", leaf=leaf)
        # several outputs ------------------------------------------------
        if cls != "MaskArray":
            fs = ("modf", "divmod") if cls == "MomentumArray" else ("divmod",)
            for f in fs:
                def go(e, x, f=f):
                    return uf(e, f, "__call__", [x] + ([const(3)] if f == "divmod" else []))

                def ref(X, f=f):
                    return wanted(cls, getattr(np, f)(unpack(X("x", norm=None)), *(
                        [3] if f == "divmod" else [])))
                check("np.%s(x)" % f, lambda e, b=b: [("x", b(e))], go, ref, "a tuple of results",
                      rule="several-outputs")
        # refused operands -----------------------------------------------
        bad = [("None", lambda e: NONE), ("dict", lambda e: e.I.call(
            Ext("builtins.dict"), [], {}, e.st)), ("set", lambda e: e.I.call(
                Ext("builtins.set"), [], {}, e.st))]
        for on, ob in bad:
            for order in (0, 1):
                def go(e, x, y, order=order):
                    return e.I.call(e.I.getattr(x, "__array_ufunc__", e.st), [
                        Ext("numpy." + u2[0]), const("__call__")] + (
                            [y, x] if order else [x, y]), {}, e.st)
                check("refuses %s as operand %d" % (on, 1 - order),
                      lambda e, ob=ob, b=b: [("x", b(e)), ("y", ob(e))],
                      lambda e, x, y, go=go: e.I.np.compare(
                          e.I, e.st, "Is", go(e, x, y), Ext("builtins.NotImplemented")),
                      lambda X: ("scalar", True), "NotImplemented", rule="refused")

                def go2(e, x, y, order=order):
                    return uf(e, u2[0], "__call__", [y, x] if order else [x, y])
                check("np.%s with %s as operand %d" % (u2[0], on, 1 - order),
                      lambda e, ob=ob, b=b: [("x", b(e)), ("y", ob(e))], go2,
                      lambda X: Raised("TypeError"), "TypeError", rule="refused")
    return res
