"""Models of python built-ins, numpy arrays and operators for the interpreter.

Arrays are views (``Arr``: buffer and path) on buffers (``Buf``: content term,
origin labels, version).  Which numpy operations return views and which copy
is part of the model, as is which of them write into an argument.
"""
from . import terms as tm
from .terms import T, const, mk, raw, NONE, TRUE, FALSE, rank, kind, space
from .values import (V, Ref, Tup, Phi, Fn, BoundM, Meth, Part, Getter, ClsV,
                     ModV, Ext, DT, Slice, Unk, EnumV, Buf, Arr, InstO, Seg,
                     ListO, DictO, IterO, ExtO, SStatic, SGen, SCat, SInf, SOcc,
                     SUnk, SPhi)

BINOPS = {"Add": "add", "Sub": "sub", "Mult": "mul", "Div": "div",
          "FloorDiv": "floordiv", "Mod": "mod", "Pow": "pow",
          "MatMult": "matmul", "BitAnd": "bitand", "BitOr": "bitor",
          "BitXor": "bitxor", "LShift": "lshift", "RShift": "rshift"}
DUNDER = {"add": "add", "sub": "sub", "mul": "mul", "div": "truediv",
          "floordiv": "floordiv", "mod": "mod", "pow": "pow",
          "matmul": "matmul", "bitand": "and", "bitor": "or",
          "bitxor": "xor", "lshift": "lshift", "rshift": "rshift"}
CMP = {"Eq": "eq", "NotEq": "ne", "Lt": "lt", "LtE": "le", "Gt": "gt",
       "GtE": "ge"}
CMP_SWAP = {"eq": "eq", "ne": "ne", "lt": "gt", "le": "ge", "gt": "lt",
            "ge": "le"}
OP_UFUNC = {"add": "numpy.add", "sub": "numpy.subtract",
            "mul": "numpy.multiply", "div": "numpy.true_divide",
            "floordiv": "numpy.floor_divide", "mod": "numpy.remainder",
            "pow": "numpy.power", "matmul": "numpy.matmul",
            "bitand": "numpy.bitwise_and", "bitor": "numpy.bitwise_or",
            "bitxor": "numpy.bitwise_xor", "neg": "numpy.negative",
            "invert": "numpy.invert", "pos": "numpy.positive",
            "lt": "numpy.less", "le": "numpy.less_equal",
            "gt": "numpy.greater", "ge": "numpy.greater_equal",
            "eq": "numpy.equal", "ne": "numpy.not_equal",
            "abs": "numpy.absolute", "lshift": "numpy.left_shift",
            "rshift": "numpy.right_shift"}
UFUNC_OP = {v: k for k, v in OP_UFUNC.items() if k != "pos"}
UFUNC_OP.update({
    "numpy.abs": "abs", "numpy.divide": "div", "numpy.mod": "mod",
    "numpy.fabs": "abs", "numpy.bitwise_not": "invert",
    "numpy.logical_and": "l_and", "numpy.logical_or": "l_or",
    "numpy.logical_not": "l_not", "numpy.logical_xor": "l_xor",
    "numpy.sqrt": "sqrt", "numpy.exp": "exp", "numpy.log": "log",
    "numpy.sin": "sin", "numpy.cos": "cos", "numpy.tan": "tan",
    "numpy.arcsin": "arcsin", "numpy.arccos": "arccos",
    "numpy.arctan": "arctan", "numpy.sinh": "sinh", "numpy.cosh": "cosh",
    "numpy.tanh": "tanh", "numpy.arcsinh": "arcsinh",
    "numpy.arccosh": "arccosh", "numpy.arctanh": "arctanh",
    "numpy.hypot": "hypot", "numpy.arctan2": "arctan2",
    "numpy.copysign": "copysign", "numpy.sign": "sign",
    "numpy.expm1": "expm1", "numpy.log1p": "log1p", "numpy.log10": "log10",
    "numpy.log2": "log2", "numpy.isnan": "isnan", "numpy.isinf": "isinf",
    "numpy.isfinite": "isfinite", "numpy.maximum": "maximum",
    "numpy.minimum": "minimum", "numpy.fmax": "fmax", "numpy.fmin": "fmin",
    "numpy.conj": "conj", "numpy.conjugate": "conj", "numpy.square": "square",
    "numpy.reciprocal": "reciprocal", "numpy.floor": "floor",
    "numpy.ceil": "ceil", "numpy.rint": "rint", "numpy.trunc": "trunc",
    "numpy.signbit": "signbit", "numpy.cbrt": "cbrt",
    "numpy.float_power": "pow", "numpy.pow": "pow", "numpy.acos": "arccos",
    "numpy.asin": "arcsin", "numpy.atan": "arctan", "numpy.atan2": "arctan2",
    "numpy.atanh": "arctanh", "numpy.asinh": "arcsinh",
    "numpy.acosh": "arccosh", "numpy.bitwise_invert": "invert",
    "numpy.deg2rad": "deg2rad", "numpy.radians": "deg2rad",
})
REDUCE = {"numpy.add": "bsum", "numpy.multiply": "bprod",
          "numpy.logical_or": "bany", "numpy.logical_and": "ball",
          "numpy.maximum": "bmax", "numpy.minimum": "bmin",
          "numpy.bitwise_or": "bor", "numpy.bitwise_and": "band"}
BUILTINS = {"len", "abs"}

DTYPES = {"bool": "b1", "bool_": "b1", "<?": "b1", "?": "b1", "|b1": "b1",
          "float64": "f8", "<f8": "f8", "f8": "f8", "float": "f8",
          "double": "f8", "float32": "f4", "<f4": "f4", "f4": "f4",
          "int32": "i4", "<i4": "i4", "i4": "i4", "int64": "i8",
          "<i8": "i8", "i8": "i8", "int": "i8", "int16": "i2", "<i2": "i2",
          "i2": "i2", "complex128": "c16", "<c16": "c16", "c16": "c16",
          "complex": "c16", "intp": "i8", "uint8": "u1", "str_": "str",
          "object": "obj", "object_": "obj", "int_": "i8", "float_": "f8",
          "longlong": "i8", "single": "f4", "half": "f2", "float16": "f2",
          "int8": "i1", "d": "f8", "i": "i4", "f": "f4", "D": "c16",
          "str": "str", "void": "void", "b1": "b1"}
for _n, _m in (("f2", "float16"), ("c8", "complex64"), ("i1", "int8"), ("u1", "uint8"),
               ("u2", "uint16"), ("u4", "uint32"), ("u8", "uint64")):
    DTYPES[_n] = DTYPES["<" + _n] = DTYPES[_m] = _n
TYPICLE = {"int": "i4", "double": "f8", "bool": "b1", "h_int": "i2",
           "float": "f4", "complex": "c16"}


def _k2dt(k):
    return {"b1": "b1", "f8": "f8", "c16": "c16", "int": "i8",
            "str": "str"}.get(k)


# ------------------------------------------------------------------ dtypes
def as_dtype(I, v, st=None):
    """DT for a dtype-like value, or None."""
    if v is None or v is NONE:
        return None
    if isinstance(v, DT):
        return v
    if isinstance(v, T) and v.op == "const" and isinstance(v.args[0], str):
        n = DTYPES.get(v.args[0])
        return DT(n) if n else None
    if isinstance(v, Ext):
        tail = v.name.split(".")[-1]
        if v.name.startswith("builtins."):
            n = {"float": "f8", "int": "i8", "bool": "b1", "complex": "c16",
                 "str": "str", "object": "obj"}.get(tail)
            return DT(n) if n else None
        if v.name.startswith(("numpy.", "numba.")):
            n = DTYPES.get(tail)
            return DT(n) if n else None
        if v.name.startswith("typicle"):
            n = TYPICLE.get(tail)
            return DT(n) if n else None
    st = st or I.base
    items = None
    if isinstance(v, (Ref, Tup)):
        try:
            items = I.static_items(v, st)
        except Exception:
            items = None
    if items:
        out = []
        for x in items:
            pr = x.items if isinstance(x, Tup) else I.static_items(x, st)
            if not pr or len(pr) < 2:
                return None
            d = as_dtype(I, pr[1], st)
            n = pr[0]
            if d is None or not (isinstance(n, T) and n.op == "const"):
                return None
            out.append((n.args[0], d.name))
        return DT("struct", tuple(out))
    return None


def cast(t, dt):
    """Content t converted to dtype dt (as seen by value)."""
    if dt is None or dt.struct:
        return t
    k = kind(t)
    if dt.name == "b1" and k != "b1":
        return mk("cast_b1", t)
    if dt.name in ("i1", "i2", "i4", "i8") and k in ("f8", "b1"):
        if k == "b1":
            if t.op == "full":
                return raw("full", t.args[0], cast(t.args[1], dt), t.args[2])
            return t if rank(t) is None else mk("ite", t, const(1), const(0)) \
                if rank(t) == 0 else mk("cast_int", t)
        return mk("cast_int", t)
    if dt.name == "f4" and k in ("f8", None):
        return mk("f4", t)
    if dt.name == "f8" and t.op == "const" and isinstance(t.args[0], int) \
            and not isinstance(t.args[0], bool):
        return const(float(t.args[0]))
    return t


def dt_of(I, st, ref):
    a = st.heap[ref.id]
    if a.dt is not None:
        return a.dt
    t = I.content(st, ref)
    if t.op == "struct":
        return DT("struct", tuple((n, "?") for n in t.args[0]))
    n = _k2dt(kind(t))
    return DT(n) if n else None


# --------------------------------------------------------------- view steps
def apply_step(t, s):
    op = s[0]
    if t.op == "ite" and rank(t.args[0]) == 0 and \
            "struct" in (t.args[1].op, t.args[2].op):
        return mk("ite", t.args[0], apply_step(t.args[1], s),
                  apply_step(t.args[2], s))
    if op == "take":
        return take(t, s[1])
    if op == "at":
        return at(t, s[1])
    if op == "col":
        return col(t, s[1])
    if op == "cols":
        if t.op == "cols":
            return raw("cols", *t.args[s[1]:s[2]])
        if t.op == "row":
            return raw("row", *t.args[s[1]:s[2]])
        if t.op == "mat":
            return raw("mat", *[apply_step(r, s) for r in t.args])
        if s[2] is not None and rank(t) == 2:
            return raw("cols", *[col(t, k) for k in range(s[1] or 0, s[2])])
        return raw("colslice", t, s[1], s[2])
    if op == "struct":
        if t.op == "struct":
            return raw("struct", s[1], *t.args[1:])
        n = len(s[1])
        if t.op == "row":
            return raw("struct", s[1], *t.args)
        return raw("struct", s[1], *[col(t, k) for k in range(n)])
    if op == "field":
        return field(t, s[1])
    if op == "unstruct":
        if t.op == "struct":
            if rank(t) == 0:
                return raw("row", *t.args[1:])
            return raw("cols", *t.args[1:])
        return raw("unstruct", t)
    if op == "cplx":
        if t.op == "row" and len(t.args) == 2:
            return mk("complex", *t.args)
        if t.op == "cols":
            pairs = [mk("complex", t.args[k], t.args[k + 1])
                     for k in range(0, len(t.args) - 1, 2)]
            return pairs[0] if len(pairs) == 1 else raw("cols", *pairs)
        return raw("viewc", t)
    if op == "uncplx":
        if kind(t) == "c16":
            return raw("cols", mk("re", t), mk("im", t))
        return raw("viewf", t)
    if op == "re":
        return mk("re", t)
    if op == "im":
        return mk("im", t)
    if op == "T":
        return transpose(t)
    if op == "colvec":
        return raw("colvec", t)
    if op == "rowvec":
        return raw("rowvec", t)
    if op == "diag":
        return diag(t)
    if op == "ravel":
        return mk("ravel", t)
    if op == "id":
        return t
    return raw("view", t, repr(s))


def field(t, name):
    if t.op == "struct":
        if name in t.args[0]:
            return t.args[1 + t.args[0].index(name)]
        return raw("nofield", t, name)
    if t.op == "take":
        return take(field(t.args[0], name), t.args[1])
    if t.op == "at":
        return at(field(t.args[0], name), t.args[1])
    return mk("field", t, name)


def col(t, k):
    if t.op in ("row",):
        return t.args[k] if -len(t.args) <= k < len(t.args) else raw("col", t, k)
    if t.op == "cols" and -len(t.args) <= k < len(t.args):
        return t.args[k]
    if t.op == "mat":
        return raw("row", *[col(r, k) for r in t.args])
    if t.op == "T":
        return at(t.args[0], const(k))
    return mk("col", t, k)


def transpose(t):
    if t.op == "T":
        return t.args[0]
    if t.op == "mat":
        n = len(t.args[0].args)
        return raw("mat", *[raw("row", *[r.args[j] for r in t.args])
                            for j in range(n)])
    if t.op == "stackrows":
        return raw("cols", *t.args)
    if t.op == "cols":
        return raw("stackrows", *t.args)
    if rank(t) in (0, 1):
        return t
    if t.op in tm.ELEMENTWISE and rank(t) == 2:
        return mk(t.op, *[transpose(a) if rank(a) == 2 else a
                          for a in t.args])
    return raw("T", t)


def diag(t):
    if t.op == "mat":
        return raw("row", *[r.args[i] for i, r in enumerate(t.args)
                            if i < len(r.args)])
    if t.op == "filldiag" and rank(t.args[1]) == 0:
        return raw("full", raw("diagspace", t.args[0]), t.args[1], 1)
    return raw("diag", t)


def static_slice(key, n):
    """Indices of a constant slice over a static length, or None."""
    vals = []
    for x in key.args:
        if x is NONE:
            vals.append(None)
        elif x.op == "const" and isinstance(x.args[0], int):
            vals.append(x.args[0])
        else:
            return None
    return list(range(*slice(*vals).indices(n)))


def take(t, key):
    if key.op == "slice":
        if t.op in ("row", "mat"):
            ix = static_slice(key, len(t.args))
            if ix is not None:
                return raw(t.op, *[t.args[i] for i in ix])
        if t.op == "struct":
            return raw("struct", t.args[0], *[take(x, key) for x in t.args[1:]])
        if t.op == "colvec":
            return raw("colvec", take(t.args[0], key))
    if t.op == "struct":
        return raw("struct", t.args[0], *[mk("take", x, key)
                                          for x in t.args[1:]])
    if t.op == "row" and key.op == "row" and all(
            k.op == "const" for k in key.args):
        try:
            if kind(key.args[0]) == "b1" if key.args else False:
                return raw("row", *[x for x, k in zip(t.args, key.args)
                                    if k.args[0]])
            return raw("row", *[t.args[k.args[0]] for k in key.args])
        except Exception:
            pass
    return mk("take", t, key)


def at(t, i):
    if t.op == "struct":
        return raw("struct", t.args[0], *[at(x, i) for x in t.args[1:]])
    if t.op == "colvec":
        return raw("row", at(t.args[0], i))
    if t.op in ("row", "mat") and i.op == "const" and isinstance(
            i.args[0], int) and -len(t.args) <= i.args[0] < len(t.args):
        return t.args[i.args[0]]
    if t.op == "cols":
        return raw("row", *[at(c, i) for c in t.args])
    if t.op == "stackrows" and i.op == "const" and isinstance(i.args[0], int) \
            and -len(t.args) <= i.args[0] < len(t.args):
        return t.args[i.args[0]]
    if t.op == "ite" and rank(t.args[0]) == 0:
        return mk("ite", t.args[0], at(t.args[1], i), at(t.args[2], i))
    return mk("at", t, i)


def back(t, s, v):
    """Content of t after its part at step s was replaced by v."""
    op = s[0]
    if op == "take":
        if t.op in ("row", "mat") and s[1].op == "slice":
            ix = static_slice(s[1], len(t.args))
            if ix is not None and v.op == t.op and len(v.args) == len(ix):
                a = list(t.args)
                for i, x in zip(ix, v.args):
                    a[i] = x
                return raw(t.op, *a)
        if t.op == "struct" and v.op == "struct":
            return raw("struct", t.args[0], *[mk("upd", x, s[1], y) for x, y in
                                              zip(t.args[1:], v.args[1:])])
        return mk("upd", t, s[1], v)
    if op == "at":
        if t.op == "struct" and v.op == "struct":
            return raw("struct", t.args[0], *[mk("upd", x, s[1], y) for x, y in
                                              zip(t.args[1:], v.args[1:])])
        return mk("upd", t, s[1], v)
    if op == "col":
        if t.op in ("cols", "row"):
            a = list(t.args)
            a[s[1]] = v
            return raw(t.op, *a)
        if t.op == "mat" and v.op == "row":
            return raw("mat", *[back(r, ("col", s[1]), x)
                                for r, x in zip(t.args, v.args)])
        return raw("updcol", t, s[1], v)
    if op == "cols":
        if t.op in ("cols", "row") and v.op == t.op:
            a = list(t.args)
            a[s[1]:s[2]] = v.args
            return raw(t.op, *a)
        if t.op == "mat" and v.op == "mat":
            return raw("mat", *[back(r, s, x) for r, x in zip(t.args, v.args)])
        return raw("updcols", t, s[1], s[2], v)
    if op == "struct":
        if v.op == "struct":
            if t.op == "struct":
                return raw("struct", t.args[0], *v.args[1:])
            return raw("row" if t.op == "row" else "cols", *v.args[1:])
        return raw("updstruct", t, v)
    if op == "field":
        if t.op == "struct" and s[1] in t.args[0]:
            a = list(t.args)
            a[1 + t.args[0].index(s[1])] = v
            return raw("struct", *a)
        return raw("updfield", t, s[1], v)
    if op == "unstruct":
        if t.op == "struct" and v.op in ("cols", "row"):
            return raw("struct", t.args[0], *v.args)
        if t.op == "struct" and rank(v) == 2:
            return raw("struct", t.args[0], *[col(v, k) for k in range(len(t.args[0]))])
        return raw("updunstruct", t, v)
    if op == "cplx":
        if t.op == "cols" and len(t.args) == 2:
            return raw("cols", mk("re", v), mk("im", v))
        return raw("updc", t, v)
    if op == "uncplx":
        if v.op == "cols" and len(v.args) == 2:
            return mk("complex", *v.args)
        return raw("updf", t, v)
    if op == "re":
        return mk("complex", v, mk("im", t))
    if op == "im":
        return mk("complex", mk("re", t), v)
    if op == "T":
        return transpose(v)
    if op in ("ravel", "id", "colvec"):
        if op == "colvec" and v.op == "colvec":
            return v.args[0]
        if op == "ravel" and rank(t) == 1:
            return v
        if op == "id":
            return v
        return raw("updview", t, op, v)
    if op == "diag":
        return filldiag(t, v)
    return raw("updview", t, repr(s), v)


def filldiag(t, v):
    if t.op == "mat":
        rows = []
        for i, r in enumerate(t.args):
            a = list(r.args)
            if i < len(a):
                a[i] = v.args[i] if v.op == "row" else v
            rows.append(raw("row", *a))
        return raw("mat", *rows)
    return raw("filldiag", t, v)


def put(t, path, v):
    if not path:
        return tm.bcast_to(t, v)
    inner = apply_step(t, path[0])
    return back(t, path[0], put(inner, path[1:], v))


def interp():
    from . import interp as m
    return m


def buf_write(I, st, buf_id, content):
    b = st.heap[buf_id]
    m = interp()
    st.heap[buf_id] = b.replace(content=content, ver=m.new_ver())
    via = m.VIA.get(buf_id)
    if via is not None and via[0] in st.heap:
        # the element of a generic container this is an image of
        o, bv, i = via
        old = content
        if content.op != "unk" and i.op == "bvar" and i not in m.ACTIVE:
            # both stand for all the elements
            content = tm.subst(content, {i: bv}) if m.SPACES.get(i) is m.SPACES.get(bv) \
                else unk("element of another container")
        elif content.op != "unk":
            content = mk("ite", mk("ixeq", bv, i), content, st.heap[o].content)
        buf_write(I, st, o, content)
        content = old
    for c in m.IMAGES.get(buf_id, ()):
        if c in st.heap:
            _, bv, i = m.VIA[c]
            st.heap[c] = st.heap[c].replace(content=tm.subst(content, {bv: i}),
                                            ver=m.new_ver())
    if b.origin:
        I.event("write", b.origin, "array data", st, buf_id)


def write(I, st, ref, v):
    """Write term v into everything the array view ref covers."""
    a = st.heap[ref.id]
    b = st.heap[a.buf]
    if a.dt is not None and a.dt.name in ("b1", "i4", "i2", "f4"):
        v = cast(v, a.dt)
    buf_write(I, st, a.buf, put(b.content, a.path, v))


def view(I, st, ref, *steps, dt=None, keep=True):
    a = st.heap[ref.id]
    path = a.path
    for s in steps:
        # view(view(x)) cancellations
        if path and s[0] == "unstruct" and path[-1][0] == "struct":
            path = path[:-1]
            continue
        if path and s[0] == "struct" and path[-1][0] == "unstruct":
            path = path[:-1]
            t = st.heap[a.buf].content
            for q in path:
                t = apply_step(t, q)
            if t.op != "struct" or t.args[0] != s[1]:
                path = path + (s,)
            continue
        if s[0] == "take" and (s[1].op == "ellipsis" or (
                s[1].op == "slice" and all(x is NONE for x in s[1].args))):
            continue
        path = path + (s,)
    return I.alloc(st, Arr(a.buf, path, dt if dt is not None else
                           (a.dt if keep else None)))


def layout(I, st, ref):
    """Memory layout: C / F, R (last axis contiguous), S (strided) or None."""
    a = st.heap[ref.id]
    lay = st.heap[a.buf].layout
    t = st.heap[a.buf].content
    for s in a.path:
        op = s[0]
        if lay is None:
            return None
        prev, t = t, apply_step(t, s)
        if isinstance(lay, tuple):          # a selection of fields
            if op != "unstruct":
                return None
            d = [y - x for x, y in zip(lay, lay[1:])]
            if len(set(d)) > 1 or d == [1] * len(d) and len(lay) == lay[-1] + 1:
                lay = "C"                   # copied, or all the fields in order
            else:
                lay = "S"
            continue
        if op == "reorder":
            if prev.op != "struct" or lay != "C" or not all(
                    n in prev.args[0] for n in s[1]):
                return None
            if s[1] != prev.args[0]:
                lay = tuple(prev.args[0].index(n) for n in s[1])
            continue
        if op == "T":
            lay = {"C": "F", "F": "C"}.get(lay, "S")
        elif op == "take":
            k = s[1]
            if k.op == "slice":
                step = k.args[2] if len(k.args) > 2 else NONE
                one = step is NONE or step is ONE
                if not one and not (step.op == "const"):
                    return None
                lay = {"C": "C" if one else "R", "R": "R"}.get(lay, "S")
            elif k.op == "ellipsis":
                pass
            else:
                return None
        elif op == "at":
            lay = {"C": "C", "R": "C", "F": "S"}.get(lay)
        elif op == "cols":
            lay = {"C": "R", "R": "R"}.get(lay, "S")
        elif op in ("col", "field", "re", "im", "diag"):
            lay = "S"
        elif op in ("struct", "unstruct", "cplx", "uncplx"):
            lay = lay if lay in ("C", "R") else None
        elif op == "ravel":
            lay = "C"
        elif op not in ("colvec", "rowvec", "id"):
            return None
    return lay if isinstance(lay, str) else None


def set_layout(I, st, ref, lay):
    a = st.heap[ref.id]
    if lay == "F":
        st.heap[a.buf] = st.heap[a.buf].replace(layout="F")
    return ref


def keep_order(I, st, src, new):
    """The copy ``new`` has the element order of ``src`` in memory."""
    if I.is_arr(st, new) and (rank(I.content(st, new)) or 0) > 1:
        set_layout(I, st, new, layout(I, st, src))
    return new


def wrap(I, st, t, dt=None):
    """Value for a freshly computed term: scalars stay terms."""
    if rank(t) == 0:
        return t
    return I.new_arr(st, t, dt)


def is_array(I, st, v):
    if isinstance(v, Ref):
        return isinstance(st.heap.get(v.id), Arr)
    return isinstance(v, T) and (rank(v) or 0) >= 1


# ------------------------------------------------------------- term of value
def val(I, st, x):
    """Content term of any array-like value."""
    x = I.norm(st, x)
    if isinstance(x, T):
        return x
    if isinstance(x, EnumV):
        return I.term(x, st)
    if isinstance(x, Phi):
        return mk("ite", x.cond, val(I, st, x.a), val(I, st, x.b))
    if isinstance(x, Tup):
        its = [val(I, st, y) for y in x.items]
        return _rowof(its)
    if isinstance(x, Ref):
        o = st.heap.get(x.id)
        if isinstance(o, Arr):
            return I.content(st, x)
        if isinstance(o, InstO):
            m = o.cls.lookup("__array__")
            if m is not None:
                r = I.call(BoundM(m, x), [], {}, st)
                return val(I, st, r)
            return I.term(x, st)
        if isinstance(o, ListO):
            if all(s.binder is None and s.guard is None for s in o.segs) and \
                    len(o.segs) <= 64:
                return _rowof([val(I, st, s.value) for s in o.segs])
            if len(o.segs) == 1 and o.segs[0].guard is None and \
                    isinstance(o.segs[0].space, T):
                s = o.segs[0]
                return rows_of_each(val(I, st, s.value), s.binder, s.space)
            return raw("listof", I.term(x, st))
        if isinstance(o, IterO):
            return unk("iterator")
        if isinstance(o, ExtO):
            return I.term(x, st)
        if isinstance(o, DictO):
            return I.term(x, st)
    if isinstance(x, (Ext, ClsV, DT, Fn, Slice)):
        return I.term(x, st)
    return unk(getattr(x, "reason", type(x).__name__))


def unk(r="?"):
    from .interp import unk_term
    return unk_term(r)


def _rowof(its):
    if its and all(t.op == "row" for t in its):
        return raw("mat", *its)
    if its and all((rank(t) == 1 and t.op != "row") for t in its):
        return raw("stackrows", *its)
    if its and all(rank(t) == 0 for t in its):
        return raw("row", *its)
    if not its:
        return raw("row")
    if its and all(rank(t) == 1 for t in its):
        return raw("mat", *its)
    if its and all(t.op in ("cols",) for t in its):
        return raw("listof", raw("tuple", *its))
    return raw("listof", raw("tuple", *its))


def rows_of_each(v, b, sp):
    """Array whose row at each b in sp is v."""
    if v.op == "row":
        return raw("cols", *[lam1(sp, b, x) for x in v.args])
    if v.op == "struct" and rank(v) == 0:
        return raw("struct", v.args[0], *[lam1(sp, b, x) for x in v.args[1:]])
    if v.op == "tuple":
        return raw("cols", *[lam1(sp, b, x) for x in v.args])
    if rank(v) == 0:
        return lam1(sp, b, v)
    return raw("stackeach", sp, b, v)


def lam1(sp, b, v):
    """Rank-1 array with element v(b) for b in sp, in element-wise form."""
    if b not in tm.tvars(v):
        return raw("full", sp, v, 1)
    w = unat(v, b)
    if w is not None and rank(w) == 1 and covers(sp, w):
        return w
    return raw("lam1", sp, b, v)


def covers(sp, w):
    """The space runs over all the positions of the array in order."""
    s = tm.space(w)
    if s is None:
        return sp.op == "rowsof" and sp.args[0] is w
    if sp is s:
        return True
    if sp.op == "rowsof":
        return sp.args[0] is w or tm.space(sp.args[0]) is s
    if sp.op == "range" and sp.args[0] is const(0) and sp.args[2] is const(1):
        n = sp.args[1]
        return n.op == "rows_n" and n.args[0] is s or n.op == "len" and (
            n.args[0] is w or tm.space(n.args[0]) is s)
    return False


def unat(v, b):
    if v.op == "at" and v.args[1] is b and rank(v.args[0]) == 1 and \
            b not in tm.tvars(v.args[0]):
        return v.args[0]
    if b not in tm.tvars(v):
        return v if rank(v) == 0 else None
    if v.op in tm.ELEMENTWISE:
        new = []
        for a in v.args:
            if isinstance(a, T):
                x = unat(a, b)
                if x is None:
                    return None
                new.append(x)
            else:
                new.append(a)
        return mk(v.op, *new)
    return None


# ----------------------------------------------------------------- operators
WARN = [None]       # conditions under which numpy warns, while collected


def warn_cond(op, ts):
    x = ts[-1]
    if rank(x) != 0:
        return tm.unk_term("array warning") if hasattr(tm, "unk_term") else None
    z = const(0.0)
    if op == "sqrt":
        return mk("lt", x, z)
    if op in ("log", "log10", "log2"):
        return mk("le", x, z)
    if op == "div":
        return mk("eq", x, z)
    if op == "arctanh":
        return mk("ge", mk("abs", x), const(1.0))
    return mk("gt", mk("abs", x), const(1.0))


def ew(op, *ts):
    if WARN[0] is not None and op in ("sqrt", "log", "log10", "log2", "div", "arctanh", "arcsin",
                                      "arccos"):
        WARN[0].append(warn_cond(op, ts))
    if op == "l_and":
        return mk("and", *[tob(t) for t in ts])
    if op == "l_or":
        return mk("or", *[tob(t) for t in ts])
    if op == "l_xor":
        return mk("xor", *[tob(t) for t in ts])
    if op == "l_not":
        return mk("not", tob(ts[0]))
    if op == "square":
        return mk("mul", ts[0], ts[0])
    if op == "reciprocal":
        return mk("div", const(1.0), ts[0])
    if op == "deg2rad":
        import math
        return mk("mul", ts[0], const(math.pi / 180.0))
    if op == "pow" and ts[1].op == "const" and ts[1].args[0] in (2, 2.0) and \
            not isinstance(ts[1].args[0], bool):
        return mk("mul", ts[0], ts[0])
    if op == "pos":
        return ts[0]
    # static list against array
    ts = [colify(t, ts) for t in ts]
    if op in CMP_SWAP and any(t.op == "struct" for t in ts):
        return struct_cmp(op, *ts)
    if op == "div":
        ts = [_flt(t) for t in ts]
    if op in ("hypot", "sqrt", "arctan2"):
        ts = [_flt(t) for t in ts]
    return mk(op, *ts)


def _flt(t):
    if t.op == "const" and isinstance(t.args[0], int) and \
            not isinstance(t.args[0], bool):
        return const(float(t.args[0]))
    return t


def colify(t, ts):
    return t


def struct_cmp(op, a, b):
    if a.op == "struct" and b.op == "row":
        b = raw("struct", a.args[0], *b.args)
    if b.op == "struct" and a.op == "row":
        a = raw("struct", b.args[0], *a.args)
    if b.op == "tuple" and a.op == "struct":
        b = raw("struct", a.args[0], *b.args)
    if a.op == "struct" and b.op == "struct" and len(a.args) == len(b.args) \
            and op in ("eq", "ne"):
        c = TRUE
        for x, y in zip(a.args[1:], b.args[1:]):
            c = mk("and", c, mk("eq", x, y))
        return c if op == "eq" else mk("not", c)
    return raw("cmpstruct", op, a, b)


def tob(t):
    return t if kind(t) == "b1" else mk("cast_b1", t)


def inst_of(I, st, v):
    if isinstance(v, Ref):
        o = st.heap.get(v.id)
        if isinstance(o, InstO):
            return o
    return None


def is_ufunc_inst(I, o):
    return o.cls.lookup("__array_ufunc__") is not None or any(
        e.endswith("NDArrayOperatorsMixin") for e in o.cls.all_ext())


def binop(I, st, op, a, b):
    a, b = I.norm(st, a), I.norm(st, b)
    if isinstance(a, Phi):
        return I.on_phi(a, st, lambda x, s: binop(I, s, op, x, b))
    if isinstance(b, Phi):
        return I.on_phi(b, st, lambda x, s: binop(I, s, op, a, x))
    ia, ib = inst_of(I, st, a), inst_of(I, st, b)
    if ia is not None:
        m = ia.cls.lookup("__%s__" % DUNDER[op])
        if m is not None:
            return I.call(BoundM(m, a), [b], {}, st)
        if is_ufunc_inst(I, ia):
            return ufunc_call(I, st, OP_UFUNC[op], [a, b], {})
    if ib is not None:
        if is_array(I, st, a) and is_ufunc_inst(I, ib):
            return ufunc_call(I, st, OP_UFUNC[op], [a, b], {})
        m = ib.cls.lookup("__r%s__" % DUNDER[op])
        if m is not None:
            return I.call(BoundM(m, b), [a], {}, st)
        if is_ufunc_inst(I, ib) or is_array(I, st, a) and \
                ib.cls.lookup("__array__") is not None:
            return ufunc_call(I, st, OP_UFUNC[op], [a, b], {})
        I.event("bad-call", set(), "unsupported operand for " + op, st)
        return I.unknown("operator on instance")
    oa = st.heap.get(a.id) if isinstance(a, Ref) else None
    ob = st.heap.get(b.id) if isinstance(b, Ref) else None
    if op == "add":
        if isinstance(a, Tup) and isinstance(b, Tup):
            return Tup(a.items + b.items)
        if isinstance(oa, ListO) and (isinstance(ob, ListO) or
                                      isinstance(b, Tup)):
            return I.alloc(st, ListO(oa.segs + tuple(to_segs(I, st, b)),
                                     kind=oa.kind))
        if isinstance(a, Tup) and isinstance(ob, ListO):
            return I.alloc(st, ListO(tuple(to_segs(I, st, a)) + ob.segs,
                                     kind="tuple"))
        if isinstance(a, T) and isinstance(b, T) and (
                kind(a) == "str" or kind(b) == "str"):
            if a.op == "const" and b.op == "const":
                return const(a.args[0] + b.args[0])
            return strcat([a, b])
        if isinstance(a, T) and a.op == "str" or isinstance(b, T) and b.op == "str":
            return strcat([a, b])
    if op == "mul":
        for x, y in ((a, b), (b, a)):
            ox = st.heap.get(x.id) if isinstance(x, Ref) else None
            if isinstance(x, Tup) and isinstance(y, T) and y.op == "const":
                return Tup(x.items * y.args[0])
            if isinstance(ox, ListO) and isinstance(y, T) and y.op == "const" and isinstance(
                    y.args[0], int) and not any(z.binder for z in ox.segs):
                return I.alloc(st, ListO(ox.segs * int(y.args[0]), kind=ox.kind))
            its = list(x.items) if isinstance(x, Tup) else I.static_items(x, st) if isinstance(
                ox, ListO) and ox.kind != "set" else None
            if its is not None and isinstance(y, T) and rank(y) == 0:
                if not its:
                    return x
                n = y if len(its) == 1 else mk("mul", y, const(len(its)))
                sp = I.len_space(n) if y.op in ("len", "rows_n") and len(its) == 1 else raw(
                    "range", const(0), n, const(1))
                bb = tm.fresh_binder(sp)
                v = its[0] if len(its) == 1 else I.unknown("repeated items")
                return I.alloc(st, ListO([Seg(v, None, bb, sp)], kind=ox.kind if ox else "tuple"))
            if isinstance(ox, ListO):
                return I.unknown("repetition", I.reach(st, x))
            if isinstance(x, T) and x.op == "const" and isinstance(
                    x.args[0], str):
                if isinstance(y, T) and y.op == "const":
                    return const(x.args[0] * y.args[0])
                return raw("strm", "*", x, I.term(y, st))
    if isinstance(oa, ListO) and oa.kind == "set" or (
            isinstance(ob, ListO) and ob.kind == "set"):
        nm = {"sub": "difference", "bitand": "intersection",
              "bitor": "union", "bitxor": "symmetric_difference"}.get(op)
        if nm and isinstance(oa, ListO):
            return method(I, st, a, nm, [b], {})
    if isinstance(oa, DictO) and isinstance(ob, DictO) and op == "bitor":
        n = I.alloc(st, oa.replace(origin=frozenset()))
        dict_update(I, st, n, b)
        return n
    if op == "mod" and isinstance(a, T) and kind(a) == "str":
        return raw("strm", "%", a, I.term(b, st))
    if isinstance(a, Unk) or isinstance(b, Unk):
        return I.unknown("operand " + repr(a if isinstance(a, Unk) else b),
                         I.reach(st, a, b))
    ta, tb = val(I, st, a), val(I, st, b)
    if op == "matmul":
        return wrap(I, st, matmul(ta, tb))
    r = ew(op, ta, tb)
    return wrap(I, st, r, res_dt(I, st, op, a, b))


def res_dt(I, st, op, *vs):
    if op in tm.BOOL_OPS or op in ("l_and", "l_or", "l_not", "l_xor"):
        return DT("b1")
    return None


def unop(I, st, op, v):
    v = I.norm(st, v)
    if isinstance(v, Phi):
        return I.on_phi(v, st, lambda x, s: unop(I, s, op, x))
    o = inst_of(I, st, v)
    if o is not None:
        m = o.cls.lookup({"neg": "__neg__", "invert": "__invert__",
                          "pos": "__pos__"}[op])
        if m is not None:
            return I.call(BoundM(m, v), [], {}, st)
        if is_ufunc_inst(I, o):
            return ufunc_call(I, st, OP_UFUNC[op], [v], {})
    if isinstance(v, Unk):
        return I.unknown("operand", v.roots)
    t = val(I, st, v)
    if op == "pos":
        return v
    return wrap(I, st, ew(op, t))


def matmul(a, b):
    if a.op == "row" and b.op == "row" and len(a.args) == len(b.args):
        s = const(0.0)
        for x, y in zip(a.args, b.args):
            s = mk("add", s, mk("mul", x, y))
        return s
    if a.op == "mat":
        if b.op == "mat":
            bt = transpose(b)
            return raw("mat", *[raw("row", *[matmul(r, c) for c in bt.args])
                                for r in a.args])
        if b.op == "row":
            return raw("row", *[matmul(r, b) for r in a.args])
    if a.op == "row" and b.op == "mat":
        bt = transpose(b)
        return raw("row", *[matmul(a, c) for c in bt.args])
    if a.op == "cols":
        if b.op == "row" and len(b.args) == len(a.args):
            s = const(0.0)
            for x, y in zip(a.args, b.args):
                s = mk("add", s, mk("mul", x, y))
            return s
        if b.op == "mat":
            bt = transpose(b)
            return raw("cols", *[matmul(a, c) for c in bt.args])
    if rank(a) == 1 and rank(b) == 1:
        return tm.reduce_rows("bsum", mk("mul", a, b))
    return raw("matmul", a, b)


def compare(I, st, opname, a, b):
    a, b = I.norm(st, a), I.norm(st, b)
    if opname in ("Is", "IsNot"):
        r = is_(I, st, a, b)
        return mk("not", r) if opname == "IsNot" else r
    if opname in ("In", "NotIn"):
        r = I.truth(contains(I, st, b, a), st)
        return mk("not", r) if opname == "NotIn" else r
    if isinstance(a, Phi):
        return I.on_phi(a, st, lambda x, s: compare(I, s, opname, x, b))
    if isinstance(b, Phi):
        return I.on_phi(b, st, lambda x, s: compare(I, s, opname, a, x))
    op = CMP[opname]
    ia, ib = inst_of(I, st, a), inst_of(I, st, b)
    if ia is None and ib is not None and is_array(I, st, a) and (
            is_ufunc_inst(I, ib) or ib.cls.lookup("__array__") is not None):
        return ufunc_call(I, st, OP_UFUNC[op], [a, b], {})
    for x, y, o, other_op in ((a, b, ia, op), (b, a, ib, CMP_SWAP[op])):
        if o is None:
            continue
        m = o.cls.lookup("__%s__" % other_op)
        if m is not None:
            return I.call(BoundM(m, x), [y], {}, st)
        if o.cls.kind == "attrs" and o.cls.attrs_eq and op in ("eq", "ne"):
            r = attrs_eq(I, st, x, y, o)
            return mk("not", I.truth(r, st)) if op == "ne" else r
        if is_ufunc_inst(I, o):
            return ufunc_call(I, st, OP_UFUNC[op], [a, b], {})
        return is_(I, st, a, b) if op == "eq" else mk("not", is_(I, st, a, b))
    if isinstance(a, DT) or isinstance(b, DT) or isinstance(a, Ext) and \
            isinstance(b, Ext):
        da, db = as_dtype(I, a, st), as_dtype(I, b, st)
        if da is not None and db is not None:
            r = da == db
            if da.struct and db.struct:
                r = [n for n, _ in da.struct] == [n for n, _ in db.struct]
            return const(r if op == "eq" else not r)
        if isinstance(a, Ext) and isinstance(b, Ext):
            return const((a == b) == (op == "eq"))
        if isinstance(a, Unk) or isinstance(b, Unk):
            return unk("dtype comparison")
        return const(op == "ne")
    for x in (a, b):
        if isinstance(x, Unk):
            return I.unknown("comparison", I.reach(st, a, b))
    oa = st.heap.get(a.id) if isinstance(a, Ref) else None
    ob = st.heap.get(b.id) if isinstance(b, Ref) else None
    # sequences compare element-wise to a single truth value
    if op in ("eq", "ne") and not is_array(I, st, a) and not is_array(I, st, b):
        r = seq_eq(I, st, a, b, oa, ob)
        if r is not None:
            return mk("not", r) if op == "ne" else r
    if isinstance(a, (EnumV, ClsV, ModV, Fn)) or isinstance(
            b, (EnumV, ClsV, ModV, Fn)):
        return const((a == b) == (op == "eq"))
    if isinstance(oa, ListO) and oa.kind == "set" and isinstance(ob, ListO) \
            and op in ("le", "lt", "ge", "gt"):
        xs, ys = I.static_items(a, st), I.static_items(b, st)
        if xs is not None and ys is not None and all(
                isinstance(x, T) and x.op == "const" for x in xs + ys):
            xs, ys = {x.args for x in xs}, {y.args for y in ys}
            return const({"le": xs <= ys, "lt": xs < ys, "ge": xs >= ys,
                          "gt": xs > ys}[op])
        return raw("setcmp", const(op), setterm(I, st, a), setterm(I, st, b))
    ta, tb = val(I, st, a), val(I, st, b)
    if isinstance(a, T) and isinstance(b, T) and a.op == "const" and \
            b.op == "const" and op in ("eq", "ne") and (
                isinstance(a.args[0], str) or isinstance(b.args[0], str)
                or a.args[0] is None or b.args[0] is None):
        return const((a.args[0] == b.args[0]) == (op == "eq"))
    return wrap(I, st, ew(op, ta, tb), DT("b1"))


def seq_eq(I, st, a, b, oa, ob):
    def items(v, o):
        if isinstance(v, Tup):
            return list(v.items), "tuple"
        if isinstance(o, ListO):
            return (I.static_items(v, st), o.kind)
        return None, None
    xa, ka = items(a, oa)
    xb, kb = items(b, ob)
    if ka is None and kb is None:
        if isinstance(oa, DictO) and isinstance(ob, DictO):
            return eqterm("dicteq", I.term(a, st), I.term(b, st))
        return None
    if ka is None or kb is None:
        if isinstance(a, T) or isinstance(b, T):
            t = a if isinstance(a, T) else b
            if t.op in ("tuple", "row"):
                return None
            if t.op == "const":
                return FALSE
            return eqterm("seqeq", I.term(a, st), I.term(b, st))
        return None
    if (ka == "set") != (kb == "set"):
        return FALSE
    if ka == "set":
        return eqterm("seteq", setterm(I, st, a), setterm(I, st, b))
    if ka != kb:
        return FALSE
    if xa is not None and xb is not None:
        if len(xa) != len(xb):
            return FALSE
        c = TRUE
        for x, y in zip(xa, xb):
            c = mk("and", c, I.truth(compare(I, st, "Eq", x, y), st))
        return c
    return eqterm("seqeq", I.term(a, st), I.term(b, st))


def eqterm(op, a, b):
    if a is b:
        return TRUE
    if b.hid < a.hid:
        a, b = b, a
    return raw(op, a, b)


def setterm(I, st, v):
    o = st.heap[v.id]
    return raw("set", tuple(sorted({I.seg_term(s, st) for s in o.segs},
                                   key=lambda t: t.hid)))


def attrs_eq(I, st, x, y, o):
    oy = inst_of(I, st, y)
    if oy is None or oy.cls is not o.cls:
        return FALSE if oy is not None or not isinstance(y, (Unk, Phi)) else unk("eq")
    c = TRUE
    for f in I.attrs_fields(o.cls):
        e = f.kw.get("eq")
        if e is FALSE:
            continue
        fx, fy = o.fields.get(f.name), oy.fields.get(f.name)
        if fx is None or fy is None:
            continue
        if isinstance(e, Ref) and isinstance(st.heap.get(e.id), ExtO) and \
                st.heap[e.id].kind == "cmp_using":
            fn = st.heap[e.id].fields["eq"]
            r = I.call(fn, [fx, fy], {}, st)
        elif isinstance(e, Ref) and isinstance(I.base.heap.get(e.id), ExtO) and \
                I.base.heap[e.id].kind == "cmp_using":
            r = I.call(I.base.heap[e.id].fields["eq"], [fx, fy], {}, st)
        else:
            r = compare(I, st, "Eq", fx, fy)
        c = mk("and", c, I.truth(r, st))
    return c


def is_(I, st, a, b):
    a, b = I.norm(st, a), I.norm(st, b)
    for x, y in ((a, b), (b, a)):
        if isinstance(x, Phi):
            return I.on_phi(x, st, lambda v, s: is_(I, s, v, y))
    if isinstance(a, T) and isinstance(b, T):
        if a is b:
            return TRUE
        for x, y in ((a, b), (b, a)):
            if y is NONE:
                return mk("isnone", x)
            if y.op == "const" and isinstance(y.args[0], bool):
                if x.op == "const":
                    return const(x.args[0] is y.args[0])
                if kind(x) == "b1" and rank(x) == 0:
                    return x if y is TRUE else mk("not", x)
                return raw("is", x, y)
        if a.op == "const" and b.op == "const":
            return const(tm._ckey(a.args[0]) == tm._ckey(b.args[0]))
        return raw("is", a, b)
    if isinstance(a, (Unk,)) or isinstance(b, Unk):
        return unk("identity")
    for x, y in ((a, b), (b, a)):
        if y is NONE or (isinstance(y, T) and y.op == "const"):
            return FALSE
    if isinstance(a, Ref) and isinstance(b, Ref):
        if a.id == b.id:
            return TRUE
        oa, ob = st.heap.get(a.id), st.heap.get(b.id)
        if type(oa) is not type(ob):
            return FALSE
        if isinstance(oa, Arr) and oa.buf == ob.buf:
            return unk("same view")
        if getattr(oa, "origin", None) and getattr(ob, "origin", None):
            return raw("samearg", a.id, b.id)
        if isinstance(oa, Arr):
            ba, bb = st.heap[oa.buf], st.heap[ob.buf]
            if ba.origin and bb.origin:
                return raw("samearg", a.id, b.id)
        return FALSE
    if isinstance(a, (EnumV, ClsV, Ext, ModV, Fn, DT, Tup)) or isinstance(
            b, (EnumV, ClsV, Ext, ModV, Fn, DT, Tup)):
        if type(a) is type(b):
            return const(a == b)
        if isinstance(a, T) and (a.op == "typeof") or isinstance(b, T) and \
                b.op == "typeof":
            for x, y in ((a, b), (b, a)):
                if isinstance(x, T) and x.op == "typeof" and isinstance(y, Ext) and y.name in (
                        "builtins.tuple", "builtins.list", "builtins.dict", "builtins.set",
                        "builtins.str", "numpy.ndarray") and isinstance(
                            x.args[0], T) and rank(x.args[0]) == 0 and tm.kind(
                                x.args[0]) in ("b1", "int", "f8", "c16"):
                    return FALSE
            return eqterm("is", I.term(a, st), I.term(b, st))
        return FALSE
    return unk("identity")


def contains(I, st, seq, x):
    seq = I.norm(st, seq)
    if isinstance(seq, Phi):
        return I.on_phi(seq, st, lambda v, s: contains(I, s, v, x))
    o = st.heap.get(seq.id) if isinstance(seq, Ref) else None
    if isinstance(o, InstO):
        m = o.cls.lookup("__contains__")
        if m is not None:
            return I.call(BoundM(m, seq), [x], {}, st)
        if any("Mapping" in e for e in o.cls.all_ext()):
            it = o.cls.lookup("__iter__")
            if it is not None:
                seq = I.call(BoundM(it, seq), [], {}, st)
                o = st.heap.get(seq.id) if isinstance(seq, Ref) else None
    if isinstance(seq, T) and seq.op == "const" and isinstance(
            seq.args[0], str) and isinstance(x, T) and x.op == "const":
        return const(x.args[0] in seq.args[0])
    if isinstance(o, Arr) or (isinstance(seq, T) and (rank(seq) or 0) >= 1):
        t = val(I, st, seq)
        tx = val(I, st, x)
        if rank(t) == 1:
            return tm.reduce_rows("bany", mk("eq", t, tx))
        return raw("in", tx, t)
    if isinstance(seq, Unk) or isinstance(x, Unk):
        return unk("membership")
    if isinstance(seq, Tup) or isinstance(o, (ListO, DictO, IterO)):
        segs = None
        if isinstance(o, DictO):
            segs = [(s.key, s) for s in o.segs]
        elif isinstance(o, ListO):
            segs = [(s.value, s) for s in o.segs]
        elif isinstance(seq, Tup):
            segs = [(v, Seg(v)) for v in seq.items]
        if segs is not None:
            c = FALSE
            for k, s in segs:
                e = I.truth(compare(I, st, "Eq", k, x), st) if isinstance(
                    k, (V, T)) else FALSE
                if s.guard is not None:
                    e = mk("and", s.guard, e)
                if s.binder is not None:
                    e = tm.bind("bany", s.space if isinstance(s.space, T)
                                else raw("nospace"), s.binder, e)
                c = mk("or", c, e)
            return c
        q = I.flat_static(I.seq(seq, st))
        if q is not None:
            c = FALSE
            for v in q:
                c = mk("or", c, I.truth(compare(I, st, "Eq", v, x), st))
            return c
    return raw("in", I.term(x, st), I.term(seq, st))


# ------------------------------------------------------------------- writing
def rename_fields(I, st, base, v):
    """array.dtype.names = names"""
    base = I.norm(st, base)
    names = I.static_items(v, st) if isinstance(v, (Tup, Ref)) else None
    if not isinstance(base, Ref) or names is None or not all(
            isinstance(n, T) and n.op == "const" for n in names):
        return
    a = st.heap.get(base.id)
    if isinstance(a, Arr):
        b = st.heap[a.buf]
        nm = tuple(n.args[0] for n in names)
        if b.content.op == "struct" and not a.path:
            st.heap[a.buf] = b.replace(content=raw(
                "struct", nm, *b.content.args[1:]))
        else:
            st.heap[base.id] = a.replace(path=a.path + (("struct", nm),))
        st.heap[base.id] = st.heap[base.id].replace(dt=None)


# ---------------------------------------------------------------- containers
def to_segs(I, st, v):
    v = I.norm(st, v)
    if isinstance(v, Ref):
        o = st.heap.get(v.id)
        if isinstance(o, ListO):
            return list(I.in_order(o, st))
        if isinstance(o, DictO):
            return dict_keys(I, st, o)
    q = I.seq(v, st)
    return seq_segs(I, st, q)


def first_each(I, st, segs, keys=False, isset=False):
    """The segments without repetitions: of elements with the same key (the
    same value in a set) only the first is left."""
    key = (lambda s: s.key) if keys else (lambda s: s.value)
    if len(segs) < 2 and all(s.binder is None for s in segs):
        return list(segs)
    out = []
    for j, s in enumerate(segs):
        k = key(s)
        c = TRUE
        for e in segs[:j]:
            if s.binder is None and e.binder is None and same_key(key(e), k) is False:
                continue
            h = I.truth(compare(I, st, "Eq", key(e), k), st) if isinstance(
                key(e), (V, T)) and isinstance(k, (V, T)) else unk("key")
            if e.binder is not None:
                if s.binder is e.binder:
                    h = unk("key")
                h = tm.bind("bany", guarded_space(e), e.binder, h)
            elif e.guard is not None:
                h = mk("and", e.guard, h)
            c = mk("and", c, mk("not", h))
        d = I.decide(st, c)
        if d is False:
            continue
        if s.binder is None:
            g = s.guard if d else c if s.guard is None else mk("and", s.guard, c)
            out.append(Seg(s.value, g, None, s.space, s.key))
            continue
        sp = guarded_space(s)
        t = I.term(k, st) if isinstance(k, (V, T)) else unk("key")
        if not apart(t, s.binder, sp):
            sp = raw("uniq", sp, tm.bind("lam", raw("nospace"), s.binder, t), const(isset)) \
                if sp.op != "nested" else raw("nospace")
        if not d:
            sp = raw("filt", sp, tm.bind("lam", raw("nospace"), s.binder, c)) \
                if sp.op != "nested" else raw("nospace")
        if sp is guarded_space(s):
            out.append(s)
            continue
        out.append(Seg(s.value, None, s.binder, sp, s.key))
    return out


def apart(t, b, sp):
    """The values a term takes over a space differ from each other."""
    if sp.op == "uniq" and sp.args[1] is tm.bind("lam", raw("nospace"), b, t):
        return True
    if t is b:
        return sp.op != "nested"
    if distinct(t):
        return True
    if t.op == "tuple":
        return any(isinstance(x, T) and apart(x, b, sp) for x in t.args)
    return t.op == "at" and t.args[1] is b and isinstance(t.args[0], T) and \
        t.args[0].op == "unique" and sp.op != "nested"


def dict_keys(I, st, o):
    return [Seg(s.key, s.guard, s.binder, s.space) for s in first_each(I, st, o.segs, True)]


def dict_items(I, st, ref, o, pick):
    """Seg for every item of a dictionary, with the value last set."""
    segs = first_each(I, st, o.segs, True)
    if len(segs) == len(o.segs) and all(x is y or (
            x.binder is None and x.guard is y.guard) for x, y in zip(segs, o.segs)):
        return [Seg(pick(s.key, s.value), s.guard, s.binder, s.space) for s in o.segs]
    out = []
    for s in segs:
        if s.binder is not None:
            I.active_binders.append(s.binder)
            interp().SPACES.setdefault(s.binder, s.space)
        try:
            v = dict_get(I, st, ref, s.key)
        finally:
            if s.binder is not None:
                I.active_binders.pop()
        out.append(Seg(pick(s.key, v), s.guard, s.binder, s.space))
    return out


def seq_segs(I, st, q):
    if isinstance(q, SStatic):
        return [Seg(x) for x in q.items]
    if isinstance(q, SCat):
        out = []
        for p in q.parts:
            out += seq_segs(I, st, p)
        return out
    if isinstance(q, SGen):
        b = I.pick_binder(q)
        sp = q.space if isinstance(q.space, T) else raw("nospace")
        I.active_binders.append(b)
        interp().SPACES.setdefault(b, sp)
        pre = dict(st.heap)
        try:
            v = q.get(b, st)
            I.effects(pre, st, b, "a lazy sequence")
        finally:
            I.active_binders.pop()
        if sp.op == "maybe":
            return [Seg(v, sp.args[0])]
        return [Seg(v, None, b, sp)]
    if isinstance(q, SInf):
        b = tm.fresh_binder()
        return [Seg(q.get(b, st), None, b, raw("infinite"))]
    roots = getattr(q, "roots", frozenset())
    b = tm.fresh_binder()
    return [Seg(Unk("element", roots), None, b, raw("nospace"))]


def from_segs(I, st, segs, kind="list"):
    return I.alloc(st, ListO(segs, kind=kind))


def list_extend(I, st, ref, v):
    o = st.heap[ref.id]
    segs = to_segs(I, st, v)
    o = st.heap[ref.id]
    note_mut(I, st, ref, o, "extend")
    st.heap[ref.id] = o.replace(segs=o.segs + tuple(segs))


def jumbled(I, st, segs):
    """Elements of which neither the number nor the order is known."""
    return [Seg(s.value, I.conj(unk("kept"), s.guard), s.binder, s.space, s.key) for s in segs]


def note_mut(I, st, ref, o, what):
    if ref.id in interp().VIA:
        I.unknown("change of an element of a generic container")
    if o.origin:
        I.event("write", o.origin, "container." + what, st, ref.id)


def same_key(a, b):
    if isinstance(a, T) and isinstance(b, T):
        if a is b:
            return True
        if a.op == "const" and b.op == "const":
            return a.args[0] == b.args[0]
        return None
    if isinstance(a, V) and isinstance(b, V):
        if type(a) is type(b) and a == b:
            return True
        return None
    return None


def dict_set(I, st, ref, k, v):
    o = st.heap[ref.id]
    note_mut(I, st, ref, o, "setitem")
    segs = list(o.segs)
    kt = I.term(k, st) if isinstance(k, V) and not isinstance(k, (Ref, Tup)) \
        else k
    for i, s in enumerate(segs):
        if s.binder is None and same_key(s.key, kt) is True:
            segs[i] = Seg(v, None, None, None, s.key)
            st.heap[ref.id] = o.replace(segs=tuple(segs))
            sync_owner(I, st, ref)
            return
    segs.append(Seg(v, None, None, None, kt))
    st.heap[ref.id] = o.replace(segs=tuple(segs))
    sync_owner(I, st, ref)


def sync_owner(I, st, ref):
    """Carries changes of obj.__dict__ over to the object."""
    o = st.heap[ref.id]
    if o.owner is None:
        return
    inst, seen = o.owner
    h = st.heap[inst.id]
    fields, cache = {}, {}
    cur = {}
    for s in o.segs:
        if s.binder is not None or not (isinstance(s.key, T) and s.key.op == "const"):
            I.event("unknown-write", set(), "__dict__", st, {inst.id})
            I.unknown("writing to __dict__")
            return
        cur[s.key.args[0]] = (s.value, s.guard)
    for k, v in h.fields.items():
        if k in cur and cur[k][1] is None:
            fields[k] = cur[k][0]
        elif k in cur or k not in seen:
            fields[k] = v
    for k, (v, ver) in h.cache.items():
        if k in cur and cur[k] == seen.get(k):
            cache[k] = (v, ver)
    for k, (v, g) in cur.items():
        if k in fields or k in cache:
            continue
        a = h.cls.lookup(k)
        if getattr(a, "cached", False):
            cache[k] = (v if g is None else I.absent(g, v), I.data_version(inst, st))
        elif a is None or k in ("_data",):
            fields[k] = v
    n = h.replace(fields=fields)
    n.cache = cache
    if h.origin and any(fields.get(k) is not h.fields.get(k) for k in {**fields, **h.fields}):
        I.event("setattr", h.origin, "%s.__dict__" % h.cls.name, st, (inst.id, "__dict__"))
    st.heap[inst.id] = n
    st.heap[ref.id] = o.replace(owner=(inst, cur))


def missing_key(I, st, o, k):
    """A key which is definitely absent: record it and raise."""
    I.event("missing-key", (), str(getattr(k, "args", (k,))[0]), st, extra=(k, tuple(
        s.key.args[0] for s in o.segs
        if s.binder is None and isinstance(s.key, T) and s.key.op == "const")))
    I.raise_now("KeyError", st)


def may_miss(I, st, ref, o, k):
    """A lookup whose failure is caught: record it under its condition."""
    c = I.truth(contains(I, st, ref, k), st)
    d = I.decide(st, c)
    if d is True:
        return
    if any(x.op == "unk" for x in tm.subterms(c)):
        I.inexact += 1
        return
    if d is None:
        other = st.copy()
        I.assume(other, c, False)
        I.do_raise("KeyError", other)
        I.assume(st, c, True)


def dict_get(I, st, ref, k, default=None):
    """Value for key k, which is taken to be present; None if it is
    definitely absent."""
    o = st.heap[ref.id]
    kt = k
    segs = o.segs
    res = default
    for s in segs:
        v = s.value
        if s.binder is None:
            r = same_key(s.key, kt)
            if r is False:
                continue
            c = TRUE if r else I.truth(compare(I, st, "Eq", s.key, kt), st) if isinstance(
                s.key, (V, T)) else unk("key")
            if s.guard is not None:
                c = mk("and", s.guard, c)
        else:
            m = None
            if isinstance(s.key, T) and isinstance(kt, T):
                m = match_binder(s.key, kt, s.binder)
                if m is not None and not (s.key is s.binder or distinct(s.key) or by_key(s)):
                    m = None
            v = I.rename(v, s.binder, last_match(I, st, s, kt) if m is None else m, st)
            c = None
            if res is not None:
                c = I.truth(compare(I, st, "Eq", s.key, kt), st) if isinstance(
                    s.key, (V, T)) else unk("key")
                c = tm.bind("bany", guarded_space(s), s.binder, c)
        if c is FALSE:
            continue
        if res is None or c is TRUE:
            res = v
        else:
            d = I.decide(st, c)
            res = v if d else res if d is False else I.merge(c, v, res)
    return res


def distinct(key):
    """The keys of a generic segment are known to differ from each other."""
    return any(x.op in ("occ", "unk") for x in tm.subterms(key))


def last_match(I, st, s, kt):
    """Binder value of the last element of a segment with the key."""
    if not isinstance(s.key, (V, T)):
        return raw("idxof", raw("nokey"))
    d = tm.fresh_binder(s.space)
    c = I.truth(compare(I, st, "Eq", I.rename(s.key, s.binder, d, st), kt), st)
    return raw("lastof", guarded_space(s), tm.bind("lam", raw("nospace"), d, c))


def by_key(s):
    """The value of a generic segment is a function of its key."""
    if not (isinstance(s.key, T) and isinstance(s.value, T)):
        return False
    v = tm.subst(s.value, {s.key: tm.sym("%key", kind=None, rank=0)})
    return s.binder not in tm.tvars(v)


def match_binder(pat, t, b):
    """i with pat[b := i] == t, for simple patterns."""
    if pat is b:
        return t
    if pat.op == t.op and len(pat.args) == len(t.args):
        got = None
        for x, y in zip(pat.args, t.args):
            if isinstance(x, T) and isinstance(y, T):
                if b in tm.tvars(x):
                    m = match_binder(x, y, b)
                    if m is None or (got is not None and got is not m):
                        return None
                    got = m
                elif x is not y:
                    return None
            elif x != y:
                return None
        return got
    return None


def dict_update(I, st, ref, v):
    v = I.norm(st, v)
    o = st.heap.get(v.id) if isinstance(v, Ref) else None
    if isinstance(o, InstO):
        v = method_items(I, st, v)
        o = st.heap.get(v.id) if isinstance(v, Ref) else None
    if isinstance(o, DictO):
        for s in o.segs:
            if s.binder is None and s.guard is None:
                dict_set(I, st, ref, s.key, s.value)
            else:
                d = st.heap[ref.id]
                note_mut(I, st, ref, d, "update")
                st.heap[ref.id] = d.replace(segs=d.segs + (s,))
                sync_owner(I, st, ref)
        return
    for s in to_segs(I, st, v):
        pr = s.value
        k = x = None
        if isinstance(pr, Tup) and len(pr.items) == 2:
            k, x = pr.items
        elif isinstance(pr, T):
            k, x = mk("at", pr, const(0)), mk("at", pr, const(1))
        else:
            its = I.static_items(pr, st) if isinstance(pr, Ref) else None
            if its is not None and len(its) == 2:
                k, x = its
            else:
                k = x = I.unknown("dict item", I.reach(st, pr))
        if s.binder is None and s.guard is None:
            dict_set(I, st, ref, k, x)
        else:
            d = st.heap[ref.id]
            note_mut(I, st, ref, d, "update")
            st.heap[ref.id] = d.replace(segs=d.segs + (Seg(
                x, s.guard, s.binder, s.space, k),))


def method_items(I, st, v):
    return I.call(I.getattr(v, "items", st), [], {}, st)


def strcat(parts):
    out = []
    for p in parts:
        if isinstance(p, T):
            out.append(p)
        else:
            out.append(unk("str"))
    t = raw("str", *out)
    return t


# ------------------------------------------------------------------ indexing
def meth_as_attr(I, st, m):
    """The attribute of an external object which ``m`` may turn out to be."""
    r = m.recv
    if isinstance(r, Meth):
        r = meth_as_attr(I, st, r)
    h = st.heap.get(r.id) if isinstance(r, Ref) else None
    if isinstance(h, ExtO) and h.kind == "ext":
        return I.alloc(st, ExtO("ext", raw("attr", h.term, m.name), {},
                                h.origin))
    return None


def index_arr(I, st, ref, i):
    """ref[i] for a scalar index term: scalars stay terms, rows are views."""
    t = I.content(st, ref)
    if t.op in ("row",) or rank(t) == 1 and t.op != "struct":
        return I.npscalar(at(t, i))
    if t.op == "struct" and rank(t) == 1:
        return view(I, st, ref, ("at", i))
    return view(I, st, ref, ("at", i))


def keyterm(I, st, k):
    if isinstance(k, Slice):
        return raw("slice", *[val(I, st, x) for x in (k.a, k.b, k.c)])
    return val(I, st, k)


def getitem(I, st, o, k):
    if isinstance(o, Tup):
        if isinstance(k, T) and k.op == "const" and isinstance(k.args[0], int):
            if -len(o.items) <= k.args[0] < len(o.items):
                return o.items[k.args[0]]
            I.raise_now("IndexError", st)
        if isinstance(k, Slice):
            ix = static_slice(keyterm(I, st, k), len(o.items))
            if ix is not None:
                return Tup([o.items[i] for i in ix])
        return I.unknown("tuple index", I.reach(st, o))
    if isinstance(o, Ref):
        h = st.heap.get(o.id)
        if isinstance(h, Arr):
            return arr_getitem(I, st, o, k)
        if isinstance(h, DictO):
            if h.kind not in ("defaultdict", "Counter") and any(I.catching):
                may_miss(I, st, o, h, k)
            v = dict_get(I, st, o, k, const(0) if h.kind == "Counter" else None)
            if v is None:
                if h.kind == "defaultdict" and h.default is not None:
                    v = I.call(h.default, [], {}, st)
                    w = st.heap.get(v.id) if isinstance(v, Ref) else None
                    if isinstance(w, IterO) and isinstance(w.seq, SInf) and isinstance(
                            k, T) and tm.tvars(k):
                        if h.segs:
                            return I.unknown("default iterators", I.reach(st, o))
                        st.heap[v.id] = w.replace(seq=SOcc(k, w.seq))
                        return v
                    dict_set(I, st, o, k, v)
                    return v
                if h.kind == "Counter":
                    return const(0)
                missing_key(I, st, h, k)
            if h.kind == "defaultdict" and h.default is not None and not any(
                    same_key(s.key, k) and s.binder is None and s.guard is None
                    for s in h.segs):
                c = I.truth(contains(I, st, o, k), st)
                d = I.decide(st, c)
                if d:
                    return v
                w = I.call(h.default, [], {}, st)
                if isinstance(w, Ref) and isinstance(st.heap.get(w.id), IterO):
                    return I.unknown("default iterators", I.reach(st, o))
                v = w if d is False else I.merge(c, v, w)
                dict_set(I, st, o, k, v)
            return v
        if isinstance(h, ListO):
            its = I.static_items(o, st)
            if isinstance(k, T) and k.op == "const" and its is not None and \
                    isinstance(k.args[0], int):
                if -len(its) <= k.args[0] < len(its):
                    return its[k.args[0]]
                I.raise_now("IndexError", st)
            if isinstance(k, Slice):
                kt = keyterm(I, st, k)
                if its is not None:
                    ix = static_slice(kt, len(its))
                    if ix is not None:
                        return from_segs(I, st, [Seg(its[i]) for i in ix],
                                         h.kind)
                if all(x is NONE for x in kt.args):
                    return from_segs(I, st, h.segs, h.kind)
                if len(h.segs) == 1 and h.segs[0].binder is not None:
                    s = h.segs[0]
                    return from_segs(I, st, [Seg(s.value, None, s.binder, raw(
                        "part", guarded_space(s), kt), s.key)], h.kind)
                return I.unknown("list slice", I.reach(st, o))
            if len(h.segs) == 1 and h.segs[0].binder is not None and \
                    isinstance(k, T):
                s = h.segs[0]
                return I.rename(s.value, s.binder, nth(guarded_space(s), k), st)
            if isinstance(k, T) and k.op == "const" and isinstance(k.args[0], int):
                n = k.args[0]
                run = h.segs[:n + 1] if n >= 0 else h.segs[n:]
                if len(run) == (n + 1 if n >= 0 else -n) and all(
                        s.binder is None and s.guard is None for s in run):
                    return run[-1 if n >= 0 else 0].value
            if its:
                r = its[-1]
                kt = val(I, st, k)
                for j in range(len(its) - 2, -1, -1):
                    r = I.merge(mk("eq", kt, const(j)), its[j], r)
                return r
            return I.unknown("list index", I.reach(st, o))
        if isinstance(h, IterO):
            return I.unknown("subscript of iterator", I.reach(st, o))
        if isinstance(h, ExtO):
            if isinstance(k, T) and ("item", k) in h.fields:
                return h.fields[("item", k)]
            if h.kind.startswith("ext") or h.kind in ("pandas", "ak"):
                kt = keyterm(I, st, k) if not isinstance(k, Tup) else I.term(k, st)
                return I.alloc(st, ExtO(h.kind, raw("getitem", h.term, kt)))
            return I.unknown("subscript of " + h.kind, I.reach(st, o))
    if isinstance(o, T):
        if o.op == "const" and isinstance(o.args[0], str):
            if isinstance(k, T) and k.op == "const":
                try:
                    return const(o.args[0][k.args[0]])
                except IndexError:
                    I.raise_now("IndexError", st)
            return unk("char")
        return tget(I, st, o, k)
    if isinstance(o, Unk):
        return Unk(o.reason + "[]", o.roots | I.reach(st, k))
    if isinstance(o, Ext) and o.name.startswith("numpy."):
        if o.name in ("numpy.s_", "numpy.index_exp"):
            return k if o.name == "numpy.s_" or isinstance(k, Tup) else Tup([k])
        parts = split_key(I, st, k)
        parts = [k] if parts is None else parts
        if o.name in ("numpy.r_", "numpy.c_") and not any(
                isinstance(x, Slice) or isinstance(x, T) and kind(x) in ("str", None) and rank(x) == 0
                for x in parts):
            if o.name == "numpy.c_":
                return I.call(Ext("numpy.column_stack"), [Tup(parts)], {}, st)
            parts = [I.new_list(st, [x]) if isinstance(x, T) and rank(x) == 0 else x
                     for x in parts]
            return I.call(Ext("numpy.hstack"), [Tup(parts)], {}, st)
        if o.name.split(".")[-1].endswith("_") or o.name in ("numpy.mgrid", "numpy.ogrid"):
            return I.unknown("subscript of " + o.name, I.reach(st, k))
    if isinstance(o, (ClsV, Ext)):
        return o
    if isinstance(o, DT) and o.struct and isinstance(k, T) and k.op == "const":
        by = dict(o.struct)
        f = by.get(k.args[0]) if isinstance(k.args[0], str) else \
            o.struct[k.args[0]][1] if isinstance(k.args[0], int) and -len(o.struct) <= k.args[
                0] < len(o.struct) else None
        if isinstance(f, str):
            n = DTYPES.get(f)
            if n:
                return DT(n)
        elif isinstance(f, DT):
            return f
    if isinstance(o, Meth):
        x = meth_as_attr(I, st, o)
        if x is not None:
            return getitem(I, st, x, k)
    return I.unknown("subscript of %r" % (o,), I.reach(st, o))


def guarded_space(s):
    """Index set of a segment of which only guarded elements exist."""
    sp = s.space if isinstance(s.space, T) else raw("nospace")
    if s.guard is None:
        return sp
    return raw("filt", sp, tm.bind("lam", raw("nospace"), s.binder, s.guard))


def direct(sp):
    """The values of a binder over the space are the positions 0, 1, ..."""
    if sp.op == "range":
        return sp.args[0] is const(0) and sp.args[2] is const(1)
    if sp.op == "tailspace":
        return direct(sp.args[0])
    return sp.op not in ("filt", "rev", "uniq", "part", "sortedspace", "prefix", "nested", "nospace",
                         "prodspace", "unk", "alts")


def nth(sp, k):
    """Value a binder over the space takes for its element number k."""
    if direct(sp) and (k.op == "bvar" or k.op == "const" and isinstance(k.args[0], int) and k.args[0] >= 0):
        return k
    return raw("nth", sp, k)


def split_key(I, st, k):
    """Tuple key -> list of components."""
    if isinstance(k, Tup):
        return list(k.items)
    if isinstance(k, Ref):
        o = st.heap.get(k.id)
        if isinstance(o, ListO) and o.kind == "tuple":
            return I.static_items(k, st)
    return None


def is_full(c):
    return isinstance(c, Slice) and c.a is NONE and c.b is NONE and c.c is NONE


def from_ellipsis():
    from .interp import ELLIPSIS
    return ELLIPSIS


def norm_key(I, st, comps, rk):
    """Drop ellipsis/newaxis bookkeeping: components for each axis."""
    E = from_ellipsis()
    if rk is None and E in comps:
        return None
    n_real = sum(1 for c in comps if c is not NONE and c is not E)
    out = []
    for c in comps:
        if c is E:
            out += [Slice(NONE, NONE, NONE)] * max((rk or 0) - n_real, 0)
        else:
            out.append(c)
    return out


def const_int(x):
    if isinstance(x, T) and x.op == "const" and isinstance(
            x.args[0], int) and not isinstance(x.args[0], bool):
        return x.args[0]
    return None


def arr_getitem(I, st, o, k):
    t = I.content(st, o)
    a = st.heap[o.id]
    E = from_ellipsis()
    if isinstance(k, T) and k.op == "const" and isinstance(k.args[0], str):
        if t.op == "struct" and rank(t) == 0 and k.args[0] in t.args[0]:
            # field of one record: a scalar, not a view
            return I.npscalar(t.args[1 + t.args[0].index(k.args[0])])
        return view(I, st, o, ("field", k.args[0]), dt=None, keep=False)
    if isinstance(k, T) and kind(k) == "str" and rank(k) == 0:
        return I.unknown("symbolic field name", I.reach(st, o))
    if isinstance(k, Ref) and isinstance(st.heap.get(k.id), ListO) and \
            st.heap[k.id].kind == "list":
        its = I.static_items(k, st)
        if its and all(isinstance(x, T) and x.op == "const" and isinstance(
                x.args[0], str) for x in its):
            names = tuple(x.args[0] for x in its)
            if t.op == "struct":
                return view(I, st, o, ("reorder", names), keep=False)
            return view(I, st, o, ("reorder", names), keep=False)
    if k is NONE:
        return view(I, st, o, ("rowvec",))
    if k is E or is_full(k):
        return view(I, st, o)
    comps = split_key(I, st, k)
    if comps is not None:
        return tuple_getitem(I, st, o, t, comps)
    if isinstance(k, Slice):
        kt = keyterm(I, st, k)
        return view(I, st, o, ("take", kt))
    if isinstance(k, Unk):
        return I.unknown("array index", I.reach(st, o))
    kt = val(I, st, k)
    r = rank(kt)
    if r == 0 and kind(kt) != "b1":
        if rank(t) == 1 and t.op != "struct":
            return I.npscalar(at(t, kt))
        if rank(t) is None and t.op not in ("struct", "cols"):
            return I.new_arr(st, at(t, kt))
        return index_arr(I, st, o, kt)
    # advanced indexing copies
    nt = take(t, kt)
    return I.new_arr(st, nt, a.dt if nt.op != "struct" else a.dt)


def tuple_getitem(I, st, o, t, comps):
    rk = rank(t)
    comps = norm_key(I, st, comps, rk)
    if comps is None:
        return I.unknown("ellipsis in an array of unknown rank", I.reach(st, o))
    while comps and is_full(comps[-1]) and len(comps) > 1:
        comps = comps[:-1]
    if len(comps) == 1:
        return arr_getitem(I, st, o, comps[0])
    if len(comps) == 2:
        a, b = comps
        if b is NONE:
            if is_full(a):
                return view(I, st, o, ("colvec",))
            return I.new_arr(st, raw("colvec", I.content(st, arr_getitem(
                I, st, o, a))))
        if a is NONE:
            return view(I, st, o, ("rowvec",))
        ci = const_int(b)
        if is_full(a) and ci is not None:
            return view(I, st, o, ("col", ci))
        if is_full(a) and isinstance(b, Slice):
            lo, hi = const_int(b.a), const_int(b.b)
            if b.c is NONE and (lo is not None or b.a is NONE) and (
                    hi is not None or b.b is NONE):
                n = len(t.args) if t.op == "cols" else None
                lo = 0 if lo is None else lo
                if hi is None or hi < 0 or (n is not None and hi > n):
                    hi = n if hi is None or (n and hi > n) else (
                        n + hi if n is not None else None)
                if hi is not None or t.op == "cols":
                    return view(I, st, o, ("cols", lo, hi))
            return view(I, st, o, ("T",), ("take", keyterm(I, st, b)), ("T",))
        if not isinstance(a, Slice) and not isinstance(b, Slice):
            ta, tb = val(I, st, a), val(I, st, b)
            if rank(ta) == 0 and rank(tb) == 0:
                return I.npscalar(at(at(t, ta), tb))
            m = static_pairs(t, ta, tb)
            if m is not None:
                return I.new_arr(st, raw("row", *[at(at(t, x), y)
                                                  for x, y in m]))
            return I.new_arr(st, raw("take2", t, ta, tb))
        if isinstance(b, Slice):
            ta = val(I, st, a) if not isinstance(a, Slice) else None
            if a.__class__ is Slice:
                x = view(I, st, o, ("take", keyterm(I, st, a)))
                return tuple_getitem(I, st, x, I.content(st, x),
                                     [Slice(NONE, NONE, NONE), b])
            if rank(ta) == 0:
                row = view(I, st, o, ("at", ta))
                return arr_getitem(I, st, row, b)
            x = I.new_arr(st, take(t, ta))
            return tuple_getitem(I, st, x, I.content(st, x),
                                 [Slice(NONE, NONE, NONE), b])
        # slice, index
        x = o
        if not is_full(a):
            x = view(I, st, o, ("take", keyterm(I, st, a)))
        tb = val(I, st, b)
        if ci is not None:
            return view(I, st, x, ("col", ci))
        if rank(tb) == 0:
            return view(I, st, x, ("T",), ("at", tb))
        return I.new_arr(st, raw("takecols", I.content(st, x), tb))
    if len(comps) > 2 and comps[0] is NONE or len(comps) > 2 and NONE in [
            c for c in comps if isinstance(c, T)]:
        return I.new_arr(st, raw("newaxes", t, tuple(
            I.term(c, st) for c in comps)))
    return I.new_arr(st, unk("index"))


def static_pairs(t, ta, tb):
    if t.op == "mat" and ta.op == "row" and tb.op == "row" and \
            len(ta.args) == len(tb.args) and all(
                x.op == "const" for x in ta.args + tb.args):
        return list(zip(ta.args, tb.args))
    return None


def tget(I, st, t, k):
    """Subscript of a pure term."""
    if isinstance(k, T) and k.op == "const" and isinstance(k.args[0], str):
        return field(t, k.args[0])
    comps = split_key(I, st, k)
    if comps is not None and len(comps) == 2 and not any(
            isinstance(c, Slice) for c in comps) and NONE not in [
                c for c in comps if isinstance(c, T)]:
        return at(at(t, val(I, st, comps[0])), val(I, st, comps[1]))
    if rank(t) is not None and rank(t) >= 1 or t.op in ("cols", "row", "mat"):
        r = arr_getitem(I, st, I.new_arr(st, t), k)
        return r
    if isinstance(k, Slice):
        return mk("take", t, keyterm(I, st, k))
    if isinstance(k, Unk):
        return I.unknown("subscript")
    kt = val(I, st, k) if comps is None else I.term(k, st)
    if rank(kt) == 0:
        return at(t, kt)
    return mk("take", t, kt)


_old_apply = apply_step


def apply_step(t, s):  # noqa: F811
    if s[0] == "reorder":
        if t.op == "struct" and all(n in t.args[0] for n in s[1]):
            return raw("struct", s[1], *[field(t, n) for n in s[1]])
        return raw("struct", s[1], *[field(t, n) for n in s[1]])
    return _old_apply(t, s)


_old_back = back


def back(t, s, v):  # noqa: F811
    if s[0] == "reorder":
        if v.op == "struct" and t.op == "struct":
            a = list(t.args)
            for n, x in zip(v.args[0], v.args[1:]):
                if n in t.args[0]:
                    a[1 + t.args[0].index(n)] = x
            return raw("struct", *a)
        return raw("updview", t, repr(s), v)
    return _old_back(t, s, v)


def setitem(I, st, o, k, v):
    o = I.norm(st, o)
    if isinstance(o, Ref):
        h = st.heap.get(o.id)
        if isinstance(h, Arr):
            return arr_setitem(I, st, o, k, v)
        if isinstance(h, DictO):
            dict_set(I, st, o, k, v)
            return NONE
        if isinstance(h, ListO):
            note_mut(I, st, o, h, "setitem")
            its = I.static_items(o, st)
            ci = const_int(k)
            if its is not None and ci is not None and -len(its) <= ci < len(its):
                segs = list(h.segs)
                segs[ci] = Seg(v)
                st.heap[o.id] = h.replace(segs=tuple(segs))
            elif its is not None and isinstance(k, T) and rank(k) == 0 and its:
                n = len(its)
                segs = [Seg(I.merge(mk("or", mk("eq", k, const(i)), mk("eq", k, const(i - n))),
                                    v, x)) for i, x in enumerate(its)]
                st.heap[o.id] = h.replace(segs=tuple(segs))
            else:
                st.heap[o.id] = h.replace(segs=tuple(jumbled(I, st, h.segs + (Seg(v),))))
            return NONE
        if isinstance(h, ExtO):
            if h.origin:
                I.event("write", h.origin, "item of opaque object", st, o.id)
            f = dict(h.fields)
            f[("item", I.term(k, st) if not isinstance(k, T) else k)] = v
            st.heap[o.id] = h.replace(fields=f, term=raw(
                "setitem", h.term, I.term(k, st), val(I, st, v)
                if not isinstance(v, Unk) else unk("v")))
            return NONE
    if isinstance(o, Unk):
        I.event("unknown-write", set(), "item", st, o.roots)
    return NONE


def arr_setitem(I, st, o, k, v):
    v = I.norm(st, v)
    if isinstance(v, Unk) or isinstance(k, Unk):
        a = st.heap[o.id]
        buf_write(I, st, a.buf, unk("setitem"))
        return NONE
    vt = val(I, st, v)
    t = I.content(st, o)
    E = from_ellipsis()
    if isinstance(k, T) and k.op == "const" and isinstance(k.args[0], str):
        write(I, st, view(I, st, o, ("field", k.args[0]), keep=False), vt)
        return NONE
    if k is E or is_full(k):
        write(I, st, o, vt)
        return NONE
    comps = split_key(I, st, k)
    if comps is not None:
        comps = norm_key(I, st, comps, rank(t))
        if comps is None:
            buf_write(I, st, st.heap[o.id].buf, unk("setitem"))
            return NONE
        while len(comps) > 1 and is_full(comps[-1]):
            comps = comps[:-1]
        if len(comps) == 1:
            return arr_setitem(I, st, o, comps[0], v)
        if len(comps) == 2:
            a, b = comps
            if not isinstance(a, Slice) and not isinstance(b, Slice):
                ta, tb = val(I, st, a), val(I, st, b)
                m = static_pairs(t, ta, tb)
                if m is not None:
                    rows = t
                    for q, (x, y) in enumerate(m):
                        e = vt.args[q] if vt.op == "row" else vt
                        rows = mk("upd", rows, raw("key2", x, y), e)
                    write(I, st, o, rows)
                    return NONE
                dtn = st.heap[o.id].dt
                if dtn is not None:
                    vt = cast(vt, dtn)
                write(I, st, o, mk("upd", t, raw("key2", ta, tb), vt))
                return NONE
            tgt = tuple_getitem(I, st, o, t, comps)
            if isinstance(tgt, Ref) and st.heap[tgt.id].buf == \
                    st.heap[o.id].buf:
                write(I, st, tgt, vt)
                return NONE
            write(I, st, o, raw("upd", t, raw("keyn", tuple(
                keyterm(I, st, c) for c in comps)), vt))
            return NONE
        write(I, st, o, raw("upd", t, raw("keyn", tuple(
            keyterm(I, st, c) for c in comps)), vt))
        return NONE
    if isinstance(k, Slice):
        write(I, st, view(I, st, o, ("take", keyterm(I, st, k))), vt)
        return NONE
    kt = val(I, st, k)
    if rank(kt) == 0 and kind(kt) != "b1":
        write(I, st, view(I, st, o, ("at", kt)), vt)
        return NONE
    if t.op == "struct":
        if vt.op == "row":
            vt = raw("struct", t.args[0], *vt.args)
        if vt.op == "struct":
            nt = raw("struct", t.args[0], *[mk("upd", x, kt, y) for x, y in
                                            zip(t.args[1:], vt.args[1:])])
        else:
            nt = raw("struct", t.args[0], *[mk("upd", x, kt, vt)
                                            for x in t.args[1:]])
        write(I, st, o, nt)
        return NONE
    dtn = st.heap[o.id].dt
    if dtn is not None:
        vt = cast(vt, dtn)
    write(I, st, o, mk("upd", t, kt, vt))
    return NONE


def delitem(I, st, o, k):
    if isinstance(o, Ref):
        h = st.heap.get(o.id)
        if isinstance(h, DictO):
            return dict_pop(I, st, o, k)
        if isinstance(h, ListO):
            note_mut(I, st, o, h, "delitem")
            its = I.static_items(o, st)
            ci = const_int(k)
            if its is not None and ci is not None and -len(its) <= ci < len(its):
                segs = list(h.segs)
                del segs[ci]
                st.heap[o.id] = h.replace(segs=tuple(segs))
            else:
                st.heap[o.id] = h.replace(segs=tuple(jumbled(I, st, h.segs)))
    elif isinstance(o, Unk):
        I.event("unknown-write", set(), "delete", st, o.roots)
    return NONE


def dict_pop(I, st, ref, k, default=None):
    o = st.heap[ref.id]
    note_mut(I, st, ref, o, "pop")
    out, got, keep = None, False, []
    for s in o.segs:
        r = same_key(s.key, k) if s.binder is None else None
        if r is True:
            got = True
            out = s.value if out is None or s.guard is None else I.merge(
                s.guard, s.value, out)
        elif r is None and not (isinstance(s.key, T) and isinstance(k, T)
                                and s.key.op == "const" and k.op == "const"):
            keep.append(Seg(s.value, I.conj(mk("not", I.truth(compare(
                I, st, "Eq", s.key, k), st)), s.guard) if isinstance(
                    s.key, (V, T)) else s.guard, s.binder, s.space, s.key))
        else:
            keep.append(s)
    st.heap[ref.id] = o.replace(segs=tuple(keep))
    sync_owner(I, st, ref)
    if not got and len(keep) == len(o.segs) and all(
            x is y for x, y in zip(keep, o.segs)):
        if default is not None:
            return default
        missing_key(I, st, o, k)
    return out if out is not None else I.unknown("popped", I.reach(st, ref))


# ------------------------------------------------------------ loop contents
def writes_of(new, c):
    """Ordered writes turning content c into new, or None.

    Each write is (key, value, guard, binders)."""
    if new is c:
        return []
    if new.op == "upd":
        w = writes_of(new.args[0], c)
        return None if w is None else w + [(new.args[1], new.args[2], TRUE, ())]
    if new.op == "fill":
        w = writes_of(new.args[0], c)
        return None if w is None else w + list(new.args[1])
    if new.op == "ite" and rank(new.args[0]) == 0:
        g = new.args[0]
        a, b = writes_of(new.args[1], c), writes_of(new.args[2], c)
        if a is None or b is None:
            return None
        n = 0
        while n < len(a) and n < len(b) and a[n] == b[n]:
            n += 1
        out = a[:n]
        a, b = a[n:], b[n:]
        if len(a) == len(b) == 1 and a[0][0] is b[0][0] and \
                a[0][2] is b[0][2] and a[0][3] == b[0][3]:
            return out + [(a[0][0], mk("ite", g, a[0][1], b[0][1]),
                           a[0][2], a[0][3])]
        out += [(k, v, mk("and", g, h), bs) for k, v, h, bs in a]
        ng = mk("not", g)
        out += [(k, v, mk("and", ng, h), bs) for k, v, h, bs in b]
        return out
    return None


def loop_content(I, st, old, carried, new, b, sp, allc):
    if new.op == "cols" and old.op == "cols" and len(new.args) == len(old.args):
        # independent columns written separately
        return unk("loop content")
    ws = writes_of(new, carried)
    if ws is None:
        if not I.mentions(new, allc) and b not in tm.tvars(new):
            return new
        d = I.delta(new, carried, allc)
        if d is not None:
            return mk("add", old, tm.bind("bsum", sp, b, d))
        return unk("loop content")
    out = []
    for k, v, g, bs in ws:
        # reads of the array inside its own loop: only the element written
        for piece in (v, g, k) + tuple(y for _, y in bs):
            if carried in tm.tvars(piece):
                if not reads_only(piece, carried, k, b):
                    return unk("loop content")
        sub = {carried: old}
        v, g = tm.subst(v, sub), tm.subst(g, sub)
        bs = tuple((x, tm.subst(y, sub)) for x, y in bs)
        if any(I.mentions(x, allc) for x in (v, g, k)):
            return unk("loop content")
        out.append((k, v, g, ((b, sp),) + tuple(bs)))
    if len(out) == 1 and rank(old) == 1:
        k, v, g, bs = out[0]
        if len(bs) == 1 and k is b and g is TRUE and covers(sp, old):
            return lam1(space(old) or sp, b, v)
        if len(bs) == 1 and k is b and covers(sp, old):
            return lam1(space(old) or sp, b, mk("ite", g, v, at(old, b)))
    return raw("fill", old, tuple(out))


def covers(sp, old):
    s = space(old)
    if s is None:
        return old.op == "uninit" or old.op == "full"
    if s is sp:
        return True
    if sp.op == "range" and sp.args[0] is const(0) and sp.args[2] is const(1):
        n = sp.args[1]
        if n.op == "rows_n" and n.args[0] is s:
            return True
        if s.op == "range" and s.args[1] is n and s.args[0] is const(0):
            return True
    return False


def injective(q, b):
    """Different values of b give different values of q."""
    if q is b:
        return True
    if q.op in ("add", "sub"):
        x, y = q.args
        return injective(x, b) and b not in tm.tvars(y) or \
            injective(y, b) and b not in tm.tvars(x)
    if q.op == "neg":
        return injective(q.args[0], b)
    return False


def reads_only(t, c, key, b):
    """All occurrences of content c in t read elements which no iteration of
    the loop over b other than the current one writes at key."""
    ks = key.args if key.op == "key2" else (key,)
    ok = [j for j, q in enumerate(ks) if isinstance(q, T) and injective(q, b)]
    if not ok:
        return False

    def here(u):
        if u.op != "at":
            return False
        if u.args[0] is c:
            return 0 in ok and u.args[1] is ks[0]
        v = u.args[0]
        return v.op == "at" and v.args[0] is c and c not in tm.tvars(v.args[1]) and \
            1 in ok and u.args[1] is ks[1]

    def go(u):
        if u is c:
            return False
        if here(u):
            return True
        if c not in tm.tvars(u):
            return True
        return all(go(x) for x in u.args if isinstance(x, T)) and all(
            go(y) for x in u.args if isinstance(x, tuple) for y in tm.flat_terms(x))
    return go(t)


def at_fill(t, idx):
    """Element of a 'fill' content at generic index terms idx."""
    base, writes = t.args
    r = base
    for i in idx:
        r = resolve_at(r, i) if len(idx) == 1 else at(r, i)
    if len(idx) == 2:
        r = read2(base, *idx)
    for k, v, g, bs in writes:
        ks = k.args if k.op == "key2" else (k,)
        if len(ks) != len(idx):
            if len(ks) == 1 and len(idx) == 2 and (rank(v) or 0) >= 1:
                ks = (k, None)
            elif len(ks) == 1 and len(idx) == 2 and rank(v) == 0:
                ks = (k, None)
            else:
                return unk("fill")
        sub, cond = {}, TRUE
        binders = {b for b, _ in bs}
        rest = []
        for q, i in zip(ks, idx):
            if q is None:
                continue
            if q in binders and q not in sub:
                sub[q] = i
            else:
                rest.append((q, i))
        if len(sub) != len(binders):
            return unk("fill")
        for q, i in rest:
            cond = mk("and", cond, mk("eq", tm.subst(q, sub), i))
        for b, sp in bs:
            cond = mk("and", cond, member(sub[b], tm.subst(sp, {
                x: y for x, y in sub.items() if x is not b})))
        cond = mk("and", cond, tm.subst(g, sub))
        vv = tm.subst(v, sub)
        if ks[-1] is None and (rank(vv) or 0) >= 1:
            vv = at(vv, idx[1])
        r = mk("ite", cond, vv, r)
    return r


def member(i, sp):
    if sp.op == "range" and sp.args[2] is const(1):
        a, b, _ = sp.args
        return mk("and", mk("ge", i, a), mk("lt", i, b))
    if sp.op == "range" and sp.args[2] is const(-1):
        a, b, _ = sp.args
        return mk("and", mk("le", i, a), mk("gt", i, b))
    return raw("member", i, sp)


def resolve_at(t, i):
    if t.op == "fill":
        return at_fill(t, (i,))
    if t.op in tm.ELEMENTWISE:
        return mk(t.op, *[resolve_at(a, i) if rank(a) == 1 else a
                          for a in t.args])
    return at(t, i)


def read2(t, i, j):
    """Element (i, j) of a rank-2 content, resolving fills."""
    if t.op == "fill":
        return at_fill(t, (i, j))
    if t.op == "colvec":
        return at(t.args[0], i)
    if t.op == "rowvec":
        return at(t.args[0], j)
    if t.op == "T":
        return read2(t.args[0], j, i)
    if t.op == "full":
        return t.args[1]
    if t.op == "filldiag":
        v = t.args[1]
        v = at(v, i) if (rank(v) or 0) >= 1 else v
        return mk("ite", mk("eq", i, j), v, read2(t.args[0], i, j))
    if t.op == "upd" and t.args[1].op == "key2":
        k1, k2 = t.args[1].args
        return mk("ite", mk("and", mk("eq", k1, i), mk("eq", k2, j)),
                  t.args[2], read2(t.args[0], i, j))
    if t.op in tm.ELEMENTWISE:
        new = []
        for a in t.args:
            if rank(a) == 2:
                new.append(read2(a, i, j))
            elif rank(a) == 1:
                new.append(at(a, j))
            else:
                new.append(a)
        return mk(t.op, *new)
    if t.op == "ite":
        return mk("ite", t.args[0], read2(t.args[1], i, j),
                  read2(t.args[2], i, j))
    return at(at(t, i), j)


from .npfuncs import *  # noqa: E402,F401,F403
from .npfuncs import (ufunc_call, method, getter_call, ext_call, opaque_call,  # noqa
                      callback, dtype_call, vectorized, numba_arg,
                      context_manager, yield_segs, conv_array, ext_attr,
                      arr_attr, arr_setattr, extobj_attr, extobj_setattr,
                      term_attr, dtype_attr, mixin_attr, isinstance_)


def is_empty(I, st, v):
    """The array without elements that is the default of a field."""
    if not I.is_arr(st, v):
        return False
    t = I.content(st, v)
    return t.op == "row" and not t.args or t.op == "const" and t.args[0] == ()
