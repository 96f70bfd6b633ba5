"""scipy.sparse arrays in coordinate (and row) form.

A sparse array is an ExtO of kind "coo" whose fields row, col and data are
ordinary array references, so that aliasing with the caller's arrays (scipy
does not copy them) and in-place writes are seen; its value is the term
coo(row, col, data, n, m).
"""
from . import terms as tm
from .terms import T, raw, const, mk, TRUE, FALSE, NONE, rank, kind
from .values import Ref, Tup, DT, ExtO, Arr, Unk, Phi

ZERO, ONE = const(0), const(1)
FMT = ("coo_array", "csr_array", "coo_matrix", "csr_matrix", "csc_array", "csc_matrix")


def _N():
    from . import npmodel
    return npmodel


def _nf():
    from . import npfuncs
    return npfuncs


def np_(I, st, name, *a, **k):
    from . import extlib
    return extlib.NPF[name](I, st, list(a), k)


def full(o):
    return o.kind == "coo" and "row" in o.fields


def term(I, o, st):
    f = o.fields
    N = _N()
    return raw("coo", N.val(I, st, f["row"]), N.val(I, st, f["col"]),
               N.val(I, st, f["data"]), N.val(I, st, f["n"]), N.val(I, st, f["m"]))


def make(I, st, row, col, data, n, m, fmt):
    return I.alloc(st, ExtO("coo", raw("coo"), {
        "row": row, "col": col, "data": data, "n": n, "m": m, "fmt": const(fmt)}))


def fresh(I, st, ref):
    return I.new_arr(st, _N().val(I, st, ref), _N().dt_of(I, st, ref))


def parts(I, st, o, to):
    """New row, col and data of a conversion: compressed forms are sorted, without duplicates."""
    f = o.fields
    if to == "coo" or f["fmt"].args[0] == to:
        return [fresh(I, st, f[k]) for k in ("row", "col", "data")]
    t = term(I, o, st)
    major = const("row" if to == "csr" else "col")
    return [I.new_arr(st, raw("coosum", t, const(k), major), DT("i4") if k != "data" else
                      _N().dt_of(I, st, f["data"])) for k in ("row", "col", "data")]


def to_arr(I, st, v, dt=None):
    """np.array(v, dtype=dt, copy=None): the same array where possible."""
    N = _N()
    if I.is_arr(st, v):
        if dt is None or N.dt_of(I, st, v) == dt:
            return v
        return I.new_arr(st, N.cast(N.val(I, st, v), dt), dt)
    t = N.val(I, st, v)
    return I.new_arr(st, t if dt is None else N.cast(t, dt), dt)


def construct(I, st, tail, args, kwargs):
    """The constructor of a sparse array, or None where it is not modelled."""
    N = _N()
    fmt = tail[:3]
    if not args or any(k not in ("shape", "dtype", "copy") for k in kwargs):
        return None
    a = args[0]
    dt = kwargs.get("dtype")
    if dt is NONE:
        dt = None
    if dt is not None:
        dt = N.as_dtype(I, dt, st)
    copy = kwargs.get("copy") is TRUE
    h = st.heap.get(a.id) if isinstance(a, Ref) else None
    if isinstance(h, ExtO):
        if not full(h):
            return None
        f = h.fields
        if fmt == f["fmt"].args[0] == "coo" and not copy:
            r, c, d = f["row"], f["col"], f["data"]
        else:
            r, c, d = parts(I, st, h, fmt)
        if dt is not None:
            d = to_arr(I, st, d, dt)
        return make(I, st, r, c, d, f["n"], f["m"], fmt)
    if isinstance(a, Tup) and len(a.items) == 2:
        x, y = a.items
        sh = kwargs.get("shape")
        if isinstance(y, Tup) and len(y.items) == 2 and I.is_arr(st, y.items[0]):
            if not (isinstance(sh, Tup) and len(sh.items) == 2):
                return None
            r, c = y.items
            d = x
            if not I.is_arr(st, x) and not isinstance(x, T):
                return None
            d = to_arr(I, st, d, dt)
            if copy:
                r, c, d = fresh(I, st, r), fresh(I, st, c), fresh(I, st, d)
            if fmt != "coo":
                r, c, d = parts(I, st, ExtO("coo", raw("coo"), {
                    "row": r, "col": c, "data": d, "n": sh.items[0], "m": sh.items[1],
                    "fmt": const("coo")}), fmt)
            return make(I, st, r, c, d, sh.items[0], sh.items[1], fmt)
        return None
    if I.is_arr(st, a) or I.is_inst(st, a) or isinstance(a, T):
        t = N.val(I, st, a)
        if rank(t) != 2 or "shape" in kwargs:
            return None
        b = N.tob(t)
        r = I.new_arr(st, raw("nonzero", b, ZERO), DT("i4"))
        c = I.new_arr(st, raw("nonzero", b, ONE), DT("i4"))
        d = I.new_arr(st, raw("nzvals", t, b), N.dt_of(I, st, a))
        if dt is not None:
            d = to_arr(I, st, d, dt)
        s = _nf().shape_of(I, st, t, a if isinstance(a, Ref) else None)
        if s is None or len(s) != 2:
            return None
        return make(I, st, r, c, d, s[0], s[1], fmt)
    return None


def attr(I, st, ref, o, name):
    f = o.fields
    N = _N()
    if name in ("row", "col", "data") and not (
            name != "data" and f["fmt"].args[0] != "coo"):
        return f[name]
    if name == "indices" and f["fmt"].args[0] == "csr":
        return I.new_arr(st, raw("csrindices", term(I, o, st)), DT("i4"))
    if name == "shape":
        return Tup([f["n"], f["m"]])
    if name in ("nnz", "size"):
        return I.length(f["data"], st)
    if name == "ndim":
        return const(2)
    if name == "dtype":
        return _nf().arr_attr(I, st, f["data"], "dtype")
    if name == "T":
        return make(I, st, f["col"], f["row"], f["data"], f["m"], f["n"],
                    {"coo": "coo", "csr": "csc", "csc": "csr"}[f["fmt"].args[0]])
    return None


def setattr_(I, st, ref, o, name, v):
    f = dict(o.fields)
    if name in ("row", "col", "data"):
        f[name] = v
        st.heap[ref.id] = o.replace(fields=f)
        return True
    return False


def method(I, st, ref, o, name, args, kwargs):
    """Result of a method, or None where it is not modelled."""
    for k in ("row", "col", "data"):
        v = I.norm(st, o.fields[k])
        if isinstance(v, Phi):         # (assigned on one path only)
            def side(x, k=k):
                def go(s):
                    n = s.heap[ref.id]
                    s.heap[ref.id] = n = n.replace(fields={**n.fields, k: x})
                    return method(I, s, ref, n, name, args, kwargs)
                return go
            return I.branch(v.cond, st, side(v.a), side(v.b))
        if v is not o.fields[k]:
            o = o.replace(fields={**o.fields, k: v})
    f = o.fields
    N = _N()
    fmt = f["fmt"].args[0]

    def rebind(**kw):
        st.heap[ref.id] = o.replace(fields={**f, **kw})
        if o.origin:
            I.event("write", o.origin, "sparse." + name, st, ref.id)
        return NONE
    if name == "copy":
        return make(I, st, fresh(I, st, f["row"]), fresh(I, st, f["col"]),
                    fresh(I, st, f["data"]), f["n"], f["m"], fmt)
    if name in ("tocsr", "tocoo", "tocsc", "asformat"):
        to = name[2:] if name != "asformat" else (
            args[0].args[0] if args and isinstance(args[0], T) and args[0].op == "const" else None)
        if to not in ("csr", "coo", "csc"):
            return None
        if to == fmt and kwargs.get("copy", FALSE) is FALSE:
            return ref
        return make(I, st, *parts(I, st, o, to), f["n"], f["m"], to)
    if name == "transpose":
        return attr(I, st, ref, o, "T")
    if name == "astype":
        d = N.as_dtype(I, args[0] if args else kwargs["dtype"], st)
        if d is None:
            return None
        return make(I, st, fresh(I, st, f["row"]), fresh(I, st, f["col"]),
                    I.new_arr(st, N.cast(N.val(I, st, f["data"]), d), d),
                    f["n"], f["m"], fmt)
    if fmt != "coo" and name in ("sum_duplicates", "setdiag", "eliminate_zeros"):
        return None
    if name in ("todense", "toarray"):
        return I.new_arr(st, raw("coodense", *term(I, o, st).args),
                         N.dt_of(I, st, f["data"]))
    if name == "sum_duplicates":
        t = term(I, o, st)
        return rebind(row=I.new_arr(st, raw("coosum", t, const("row"), const("col")), DT("i4")),
                      col=I.new_arr(st, raw("coosum", t, const("col"), const("col")), DT("i4")),
                      data=I.new_arr(st, raw("coosum", t, const("data"), const("col")),
                                     N.dt_of(I, st, f["data"])))
    if name == "eliminate_zeros":
        k = I.new_arr(st, N.tob(N.val(I, st, f["data"])), DT("b1"))
        return rebind(**{q: I.getitem(f[q], k, st) for q in ("row", "col", "data")})
    if name == "setdiag" and len(args) == 1 and not kwargs:
        v = N.val(I, st, args[0])
        if rank(v) != 0:
            return None
        r, c, d = (N.val(I, st, f[q]) for q in ("row", "col", "data"))
        keep = I.new_arr(st, N.ew("ne", r, c), DT("b1"))
        n, m = N.val(I, st, f["n"]), N.val(I, st, f["m"])
        if n is not m:
            n = mk("minimum", n, m)
        diag = np_(I, st, "arange", n)
        dt = N.dt_of(I, st, f["data"])
        fill = np_(I, st, "full", Tup([n]), v)
        if dt is not None:
            fill = to_arr(I, st, fill, dt)
        return rebind(**{q: np_(I, st, "concatenate", Tup([I.getitem(f[q], keep, st), z]))
                         for q, z in (("row", diag), ("col", diag), ("data", fill))})
    if name == "sum":
        ax = args[0] if args else kwargs.get("axis", NONE)
        d = raw("coodense", *term(I, o, st).args)
        dt = N.dt_of(I, st, f["data"])
        if dt == DT("b1"):
            d = N.cast(d, DT("i8"))
        return _nf().do_reduce(I, st, "bsum", I.new_arr(st, d), ax)
    if name == "diagonal":
        return I.new_arr(st, N.diag(raw("coodense", *term(I, o, st).args)))
    return None


def bfs_tree(I, st, args, kwargs):
    a = args[0]
    h = st.heap.get(a.id) if isinstance(a, Ref) else None
    if not (isinstance(h, ExtO) and full(h)) or len(args) != 2 or \
            kwargs.get("directed", TRUE) not in (TRUE, FALSE):
        return None
    t = raw("bftree", term(I, h, st), _N().val(I, st, args[1]), kwargs.get("directed", TRUE))
    return I.alloc(st, ExtO("coo", raw("coo"), {
        "row": I.new_arr(st, raw("coopart", t, const("row")), DT("i4")),
        "col": I.new_arr(st, raw("coopart", t, const("col")), DT("i4")),
        "data": I.new_arr(st, raw("coopart", t, const("data"))),
        "n": h.fields["n"], "m": h.fields["m"], "fmt": const("csr")}))
