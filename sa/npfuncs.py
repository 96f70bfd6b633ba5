"""Models of library functions: numpy, the standard library and friends.

An external function without a model is treated as pure: its result is an
uninterpreted term over its arguments.
"""
import math

from . import terms as tm, sparse
from .terms import T, const, mk, raw, NONE, TRUE, FALSE, rank, kind, space
from .values import (V, Ref, Tup, Phi, Fn, BoundM, Meth, Part, Getter, ClsV,
                     ModV, Ext, DT, Slice, Unk, AttrsField, FactoryV, EnumV,
                     Buf, Arr, InstO, Seg, ListO, DictO, IterO, ExtO, SStatic, KEYS,
                     SGen, SCat, SInf, SOcc, SUnk, SPhi)

__all__ = []


def _N():
    from . import npmodel
    return npmodel


def _I():
    from . import interp
    return interp


FULL = Slice(NONE, NONE, NONE)
ZERO, ONE = const(0), const(1)
F0 = const(0.0)


def _arg(args, kw, i, name, default=None):
    if i < len(args):
        return args[i]
    return kw.get(name, default)


def _cint(v):
    if isinstance(v, T) and v.op == "const" and isinstance(v.args[0], int) \
            and not isinstance(v.args[0], bool):
        return v.args[0]
    return None


def _unk(r="?"):
    return _I().unk_term(r)


def _rng(n):
    return raw("range", ZERO, n, ONE)


def _isref(I, st, v, cls):
    return isinstance(v, Ref) and isinstance(st.heap.get(v.id), cls)


def _any_unk(vals):
    return any(isinstance(v, Unk) for v in vals)


# ------------------------------------------------------------ reductions
RED_BIN = {"bsum": "add", "bprod": "mul", "bany": "or", "ball": "and",
           "bmax": "maximum", "bmin": "minimum", "bor": "bitor",
           "band": "bitand"}


def red_elem(op, t):
    N = _N()
    if op in ("bany", "ball"):
        return N.tob(t)
    if op in ("bsum", "bprod") and kind(t) == "b1":
        return mk("ite", t, ONE, ZERO)
    return t


def reduce_term(op, t, axis=0):
    """Reduce content t; axis None means all."""
    N = _N()
    r = rank(t)
    if op in ("bor", "band") and kind(t) == "b1":
        op = "bany" if op == "bor" else "ball"
    if t.op == "ite" and r is not None and rank(t.args[0]) == 0:
        return mk("ite", t.args[0], reduce_term(op, t.args[1], axis),
                  reduce_term(op, t.args[2], axis))
    if r == 0:
        return red_elem(op, t)
    if r == 1 and t.op == "row":
        out = None
        for x in t.args:
            x = red_elem(op, x)
            out = x if out is None else mk(RED_BIN[op], out, x)
        if out is None:
            return const({"bsum": 0.0, "bprod": 1.0, "bany": False,
                          "ball": True}.get(op, math.nan))
        return out
    if r == 1 and axis in (0, -1, None):
        return tm.reduce_rows(op, red_elem(op, t))
    if r == 2 and t.op in ("cols", "mat", "stackrows"):
        if axis is None:
            if t.op == "mat":
                return reduce_term(op, raw("row", *[reduce_term(op, x)
                                                    for x in t.args]))
            return reduce_term(op, raw("row", *[reduce_term(op, x)
                                                for x in t.args]))
        along_args = (t.op == "cols" and axis in (1, -1)) or (
            t.op in ("mat", "stackrows") and axis in (0, -2))
        if along_args:
            out = None
            for x in t.args:
                x = red_elem(op, x)
                out = x if out is None else mk(RED_BIN[op], out, x)
            return out
        return raw("row", *[reduce_term(op, x) for x in t.args])
    if r == 2 and axis in (1, -1):
        return raw("red1", op, t)
    if r == 2 and axis in (0, -2):
        return raw("red0", op, t)
    if r == 2 and axis is None:
        return raw("redall", op, t)
    return raw("redn", op, t, const(axis))


def axis_of(v):
    """(known, value)"""
    if v is None:
        return True, None
    if isinstance(v, T) and v.op == "const":
        return True, v.args[0]
    return False, None


def do_reduce(I, st, op, x, axis, kw=None):
    N = _N()
    t = N.val(I, st, x)
    if isinstance(axis, Tup) and all(isinstance(i, T) and i.op == "const" for i in axis.items):
        r = rank(t)
        if len(axis.items) == 1:
            axis = axis.items[0]
        elif r is not None and {i.args[0] % r for i in axis.items} == set(range(r)):
            axis = NONE
    ok, ax = axis_of(axis)
    wh = (kw or {}).get("where")
    if wh is not None and wh is not TRUE:
        return I.new_arr(st, _unk("where argument of a reduction"))
    if not ok:
        if isinstance(axis, Unk):
            return I.new_arr(st, _unk("axis"))
        return I.new_arr(st, raw("redaxis", op, t, N.val(I, st, axis)))
    kw = kw or {}
    if isinstance(kw.get("keepdims"), T) and kw["keepdims"] is TRUE:
        r = reduce_term(op, t, ax)
        if rank(t) == 2 and ax in (1, -1):
            return I.new_arr(st, raw("colvec", r))
        if rank(t) == 2 and ax in (0, -2):
            return I.new_arr(st, raw("stackrows", r))
        if rank(t) == 1:
            return I.new_arr(st, raw("row", r))
        return I.new_arr(st, raw("keepdims", r, const(ax)))
    ini = kw.get("initial")
    r = reduce_term(op, t, ax)
    if isinstance(ini, T):
        r = mk(RED_BIN[op], r, ini)
    w = N.wrap(I, st, r, DT("b1") if op in ("bany", "ball") else None)
    out = kw.get("out")
    if isinstance(out, Tup) and len(out.items) == 1:
        out = out.items[0]
    if isinstance(out, Ref) and I.is_arr(st, out):
        N.write(I, st, out, r)
        return out
    return w


# ---------------------------------------------------------------- ufuncs
def uinst(I, st, vals):
    for v in vals:
        if isinstance(v, Ref):
            o = st.heap.get(v.id)
            if isinstance(o, InstO) and o.cls.lookup("__array_ufunc__") is not None:
                return v
    return None


def uinsts(I, st, vals):
    """Operands overriding ufuncs, one per class, in order."""
    out, seen = [], set()
    for v in vals:
        o = st.heap.get(v.id) if isinstance(v, Ref) else None
        if isinstance(o, InstO) and o.cls.name not in seen and \
                o.cls.lookup("__array_ufunc__") is not None:
            seen.add(o.cls.name)
            out.append(v)
    return out


REDARGS = ("axis", "dtype", "out", "keepdims", "initial", "where")


def np_ufunc(name):
    """The ufunc of that name in the numpy of the analysis, or None."""
    from .model import np
    f = getattr(np, name[6:], None) if name.startswith("numpy.") else None
    return f if isinstance(f, np.ufunc) else None


def uf_kind(f, i, ts):
    """Element kind of output i of ufunc f."""
    outs = {x.split("->")[1][i] for x in f.types if "O" not in x}
    if outs <= set("?"):
        return "b1"
    if outs and outs <= set("bBhHiIlLqQ"):
        return "int"
    if outs and outs <= set("efdg"):
        return "f8"
    ks = {tm.kind(t) for t in ts}
    if None in ks:
        return None
    return "f8" if "f8" in ks else "int" if ks <= {"int", "b1"} and "int" in ks else None


def ufunc_call(I, st, name, args, kwargs, how="__call__"):
    N = _N()
    args = [I.norm(st, a) for a in args]
    kwargs = {k: I.norm(st, v) for k, v in kwargs.items()}
    for i, a in enumerate(args):
        if isinstance(a, Phi):
            def go(x, s, i=i):
                b = list(args)
                b[i] = x
                return ufunc_call(I, s, name, b, kwargs, how)
            return I.on_phi(a, st, go)
    out = kwargs.get("out")
    outs = []
    if how in ("reduce", "accumulate") and len(args) > 1:
        for n, a in zip(REDARGS, args[1:]):
            kwargs.setdefault(n, a)
        args = args[:1]
        out = kwargs.get("out")
    if how in ("reduce", "accumulate"):
        kwargs = {k: v for k, v in kwargs.items() if not (k in ("out", "dtype") and v is NONE)}
        out = kwargs.get("out")
    if isinstance(out, Tup):
        outs = [x for x in out.items if x is not NONE]
    elif out is not None and out is not NONE:
        outs = [out]
    if how == "__call__" and name not in ("numpy.matmul",):
        f = np_ufunc(name)
        nin = f.nin if f is not None else 1 if N.UFUNC_OP.get(name) in tm.UNARY else 2
        if len(args) > nin and not outs and (f is None or f.nout == 1):
            outs = [args[nin]]
            args = args[:nin]
            kwargs = dict(kwargs, out=Tup(outs))
    insts = uinsts(I, st, args + outs)
    if insts:
        kw = {k: v for k, v in kwargs.items() if not (k == "out" and v is NONE)}
        if "out" in kw and not isinstance(kw["out"], Tup):
            kw["out"] = Tup([kw["out"]])

        def override(i, s):
            if i == len(insts):
                I.raise_now("TypeError", s)
            m = I.getattr(insts[i], "__array_ufunc__", s)
            r = I.call(m, [Ext(name), const(how)] + args, kw, s)
            return I.on_phi(r, s, lambda x, s2: override(i + 1, s2) if x == Ext(
                "builtins.NotImplemented") else x)
        return override(0, st)
    if _any_unk(args):
        return I.unknown("ufunc operand", I.reach(st, *args))
    if any(isinstance(a, _I().StarV) for a in args):
        return I.unknown("ufunc star", I.reach(
            st, *[a.v if isinstance(a, _I().StarV) else a for a in args]))
    if how == "reduce":
        red = N.REDUCE.get(name)
        ax = _arg(args, kwargs, 1, "axis", ZERO)
        if red is None:
            return I.new_arr(st, raw("ureduce", name, N.val(I, st, args[0])))
        return do_reduce(I, st, red, args[0], ax, kwargs)
    if how == "at":
        a = I.norm(st, args[0])
        if I.is_arr(st, a):
            t = I.content(st, a)
            if any(isinstance(x, Ref) and isinstance(st.heap.get(x.id), InstO) for x in args[1:2]):
                args[1] = ext_call(I, st, "numpy.asarray", [args[1]], {})
            N.write(I, st, a, raw("npat", name, t, *[
                N.keyterm(I, st, x) for x in args[1:]]))
        return NONE
    if how == "outer":
        a, b = [N.val(I, st, x) for x in args[:2]]
        return I.new_arr(st, N.ew(N.UFUNC_OP.get(name, "mul"),
                                  raw("colvec", a), raw("rowvec", b)))
    if how != "__call__":
        return I.new_arr(st, raw("umeth", name, how, *[
            N.val(I, st, a) for a in args]))
    ts = [N.val(I, st, a) for a in args]
    if name == "numpy.matmul":
        r = N.matmul(*ts[:2])
    elif name == "numpy.positive":
        r = ts[0]
    elif name == "numpy.hypot":
        r = N.ew("hypot", *ts)
    elif name in N.UFUNC_OP:
        r = N.ew(N.UFUNC_OP[name], *ts)
    else:
        f = np_ufunc(name)
        if f is not None and f.nout > 1 and f.signature is None:
            if len(ts) != f.nin or kwargs.get("where", TRUE) is not TRUE:
                return I.unknown("ufunc with several outputs")
            rs = [raw("npuf", name, i, uf_kind(f, i, ts), *ts) for i in range(f.nout)]
            oi = list(out.items) if isinstance(out, Tup) else [NONE] * f.nout
            if len(oi) != f.nout:
                I.raise_now("ValueError", st)
            res = []
            for r, o in zip(rs, oi):
                if o is NONE:
                    res.append(N.wrap(I, st, r, None))
                elif I.is_arr(st, o):
                    N.write(I, st, o, r)
                    res.append(o)
                else:
                    return I.unknown("ufunc out", I.reach(st, o))
            return Tup(res)
        if f is not None and f.signature is None:
            if len(ts) == f.nin + 1 and not outs:
                outs, ts = [args[f.nin]], ts[:f.nin]
            r = raw("npuf", name, 0, uf_kind(f, 0, ts), *ts)
        else:
            r = raw("ufunc:" + name, *ts)
    dt = None
    op = N.UFUNC_OP.get(name)
    if op in tm.BOOL_OPS or op in ("l_and", "l_or", "l_not", "l_xor"):
        dt = DT("b1")
    d = kwargs.get("dtype")
    if d is not None and d is not NONE:
        dt = N.as_dtype(I, d, st) or dt
        r = N.cast(r, dt)
    wh = kwargs.get("where")
    if outs:
        o = outs[0]
        if I.is_arr(st, o):
            if wh is not None and wh is not TRUE:
                w = N.val(I, st, wh)
                r = mk("ite", w, r, I.content(st, o))
            N.write(I, st, o, r)
            return o
        return I.unknown("ufunc out", I.reach(st, o))
    if wh is not None and wh is not TRUE:
        r = mk("ite", N.val(I, st, wh), r, raw("sym", "%uninit"))
    return N.wrap(I, st, r, dt)


# --------------------------------------------------------------- sequences
def smap(q, f):
    """Map f(x, st) over a sequence description."""
    if isinstance(q, SGen):
        return SGen(q.space, lambda i, s: f(q.get(i, s), s), q.binder)
    if isinstance(q, SInf):
        return SInf(lambda i, s: f(q.get(i, s), s))
    if isinstance(q, SPhi):
        return SPhi(q.cond, smap(q.a, f), smap(q.b, f),
                    [smap(p, f) for p in q.parts])
    if isinstance(q, SCat):
        return SCat([smap(p, f) for p in q.parts])
    return q


def smap_now(I, st, q, f):
    if isinstance(q, SStatic):
        return SStatic([f(x, st) for x in q.items])
    if isinstance(q, SPhi):
        a, b = smap_now(I, st, q.a, f), smap_now(I, st, q.b, f)
        return I.seq_phi(q.cond, a, b)
    if isinstance(q, SCat):
        return SCat([smap_now(I, st, p, f) for p in q.parts])
    if isinstance(q, SUnk):
        roots = q.roots
        return SGen(raw("nospace"), lambda i, s: f(Unk("element", roots), s))
    return smap(q, f)


def szip(I, st, qs):
    if not qs:
        return SStatic([])
    for k, q in enumerate(qs):
        if isinstance(q, SPhi):
            rest = [isinstance(x, (SStatic, SGen, SInf)) for x in qs]
            same = [isinstance(x, SPhi) and x.cond is q.cond for x in qs]
            if all(r or s for r, s in zip(rest, same)):
                za = [x.a if s else x for x, s in zip(qs, same)]
                zb = [x.b if s else x for x, s in zip(qs, same)]
                return I.seq_phi(q.cond, szip(I, st, za), szip(I, st, zb))
    cats = [q for q in qs if isinstance(q, SCat)]
    if cats and len(cats) == len(qs) and len(qs) > 1 and \
            len({len(q.parts) for q in cats}) == 1:
        ok = True
        for ps in zip(*[q.parts for q in cats]):
            if all(isinstance(p, SStatic) for p in ps):
                ok = ok and len({len(p.items) for p in ps}) == 1
            elif all(isinstance(p, SGen) for p in ps):
                ok = ok and len({p.space for p in ps}) == 1
            else:
                ok = False
        if ok:
            return SCat([szip(I, st, list(ps))
                         for ps in zip(*[q.parts for q in cats])])
    qs = [SStatic(I.flat_static(q)) if I.flat_static(q) is not None else q
          for q in qs]
    if any(isinstance(q, SStatic) for q in qs) and not any(
            isinstance(q, (SUnk, SCat)) for q in qs):
        n = min(len(q.items) for q in qs if isinstance(q, SStatic))

        def el(q, k):
            if isinstance(q, SStatic):
                return q.items[k]
            if isinstance(q, SGen):
                return q.get(_N().nth(q.space, const(k)), st)
            return q.get(const(k), st)
        return SStatic([Tup([el(q, k) for q in qs]) for k in range(n)])
    if all(isinstance(q, (SGen, SInf)) for q in qs):
        gens = [q for q in qs if isinstance(q, SGen)]
        if not gens:
            return SInf(lambda i, s: Tup([q.get(i, s) for q in qs]))
        g = next((q for q in gens if q.space.op not in ("nospace",)), gens[0])
        spaces = []
        for q in gens:
            if q.space not in spaces and q.space.op != "nospace":
                spaces.append(q.space)
        N = _N()
        if len(spaces) <= 1:
            def el(q, i, s):
                if isinstance(q, SInf) and spaces and not N.direct(g.space):
                    i = raw("posn", g.space, i)
                return q.get(i, s)
            return SGen(g.space, lambda i, s: Tup([el(q, i, s) for q in qs]), g.binder)
        if any(x.op in ("nested", "infinite", "while") for x in spaces):
            return SUnk(set(), "zip")
        # positions common to all of the sequences
        if len({I.space_len(x) for x in spaces}) == 1 and any(N.direct(x) for x in spaces):
            h = next(q for q in gens if N.direct(q.space))
            sp, b = h.space, h.binder
        else:
            sp, b = raw("zipspace", *spaces), None
        return SGen(sp, lambda i, s: Tup([q.get(
            N.nth(q.space, i) if isinstance(q, SGen) and not N.direct(q.space) and
            q.space.op != "nospace" else i, s) for q in qs]), b)
    if len(qs) > 1 and sum(isinstance(q, SCat) for q in qs) >= 1 and all(
            isinstance(q, (SCat, SInf)) for q in qs):
        cats = [q for q in qs if isinstance(q, SCat)]
        if len(cats) == 1 and all(isinstance(q, (SInf, SCat)) for q in qs):
            offs = offsets(I, cats[0].parts)
            if offs is not None:
                return SCat([szip(I, st, [p if q is cats[0] else later(q, off) for q in qs])
                             for p, off in zip(cats[0].parts, offs)])
    if len(qs) == 1:
        return smap_now(I, st, qs[0], lambda x, s: Tup([x]))
    roots = set()
    for q in qs:
        roots |= getattr(q, "roots", frozenset())
    return SUnk(roots, "zip")


def offsets(I, parts):
    """Number of elements before each of the parts."""
    out, n = [], ZERO
    for p in parts:
        out.append(n)
        if isinstance(p, SStatic):
            k = const(len(p.items))
        elif isinstance(p, SGen) and p.space.op not in ("nospace", "infinite", "while"):
            k = I.space_len(p.space)
        else:
            return None
        n = k if n is ZERO else mk("add", n, k)
    return out


def later(q, off):
    """An infinite sequence without its first elements."""
    if off is ZERO:
        return q
    return SInf(lambda i, s: q.get(mk("add", off, i), s))


def siter(I, st, q):
    return I.alloc(st, IterO(q))


def gsegs(I, segs):
    return I.segs_seq(tuple(segs), lambda s: s.value)


def s_filter(I, st, q, pred):
    segs = _N().seq_segs(I, st, q)
    out = []
    for s in segs:
        c = pred(s.value, st)
        d = I.decide(st, c)
        if d is False:
            continue
        g = s.guard if d is True else I.conj(c, s.guard)
        out.append(Seg(s.value, g, s.binder, s.space, s.key))
    return gsegs(I, out)


ONLY = raw("range", ZERO, ONE, ONE)


def flatten_segs(I, st, segs):
    """One level of chain.from_iterable."""
    N = _N()
    out = []
    for s in segs:
        if s.binder is not None:
            I.active_binders.append(s.binder)
        try:
            inner = N.to_segs(I, st, s.value)
        finally:
            if s.binder is not None:
                I.active_binders.pop()
        inner = [Seg(I.rename(x.value, x.binder, ZERO, st), x.guard if x.guard is None else
                     tm.subst(x.guard, {x.binder: ZERO}))
                 if x.binder is not None and x.space is ONLY else x for x in inner]
        if s.binder is not None and len(inner) > 1:
            # keep the order: position within the inner sequence as a binder
            if all(x.binder is None and x.guard is None and isinstance(x.value, T) and
                   rank(x.value) == 0 for x in inner):
                b = tm.fresh_binder()
                sp = s.space if isinstance(s.space, T) else raw("nospace")
                out.append(Seg(raw("at", mk("row", *[x.value for x in inner]), b), s.guard, b,
                               raw("nested", sp, s.binder, raw(
                                   "range", ZERO, const(len(inner)), ONE))))
                continue
            if not I.suppress:
                I.unknowns.append(("order of flattened sequences", I.here()))
        for x in inner:
            g = x.guard
            if s.guard is not None:
                g = I.conj(s.guard, g)
            if s.binder is None:
                out.append(Seg(x.value, g, x.binder, x.space))
            elif x.binder is None:
                out.append(Seg(x.value, g, s.binder, s.space))
            else:
                sp = x.space if isinstance(x.space, T) else raw("nospace")
                sp2 = s.space if isinstance(s.space, T) else raw("nospace")
                out.append(Seg(x.value, g, x.binder,
                               raw("nested", sp2, s.binder, sp)))
    return out


def seg_fold(I, st, segs, red, zero, conv=None):
    """Fold scalar terms of segments with a reduction."""
    N = _N()
    total = None
    binop = RED_BIN[red]
    for s in segs:
        t = N.val(I, st, s.value)
        if conv:
            t = conv(t)
        if s.guard is not None:
            if zero is None:
                t = raw("guarded", s.guard, t)
            else:
                t = mk("ite", s.guard, t, zero)
        if s.binder is not None:
            t = tm.bind(red, s.space if isinstance(s.space, T)
                        else raw("nospace"), s.binder, t)
        total = t if total is None else mk(binop, total, t)
    return total


# ------------------------------------------------------------- getters
def getter_call(I, st, g, args):
    o = args[0]
    if g.kind == "attrgetter":
        out = []
        for a in g.args:
            v = o
            if not (isinstance(a, T) and a.op == "const"):
                out.append(I.unknown("attrgetter", I.reach(st, o)))
                continue
            for part in a.args[0].split("."):
                v = I.getattr(v, part, st)
            out.append(v)
        return out[0] if len(out) == 1 else Tup(out)
    if g.kind == "itemgetter" and any(
            isinstance(k, _I().StarV) for k in g.args):
        ks = [k.v if isinstance(k, _I().StarV) else Tup([k]) for k in g.args]
        if len(ks) != 1:
            return I.unknown("itemgetter(*)", I.reach(st, o, *ks))
        segs = [Seg(I.getitem(o, s.value, st), s.guard, s.binder, s.space,
                    s.key) for s in _N().to_segs(I, st, ks[0])]
        many = I.alloc(st, ListO(segs, kind="tuple"))
        n = I.length(ks[0], st)
        one = I.getitem(ks[0], const(0), st)
        return I.branch(mk("eq", n, const(1)), st,
                        lambda s: I.getitem(o, one, s), lambda s: many)
    if g.kind == "itemgetter":
        out = [I.getitem(o, k, st) for k in g.args]
        return out[0] if len(out) == 1 else Tup(out)
    nm = g.args[0]
    if isinstance(nm, T) and nm.op == "const":
        f = I.getattr(o, nm.args[0], st)
        return I.call(f, list(g.args[1:]), dict(g.kwargs), st)
    return I.unknown("methodcaller", I.reach(st, o))


# ------------------------------------------------------------- opaque calls
def opaque_term(I, st, name, args, kwargs):
    N = _N()
    SV = _I().StarV
    ts = []
    for a in args:
        if isinstance(a, SV):
            a = a.v
        ts.append(I.term(a, st))
    for k in sorted(kwargs):
        ts.append(raw("kw", k, I.term(kwargs[k], st)))
    if name.startswith("numpy.") and name[6:] in PURE and "out" not in kwargs:
        r, kd = PURE[name[6:]](ts)
        return raw("npcall", name, r, kd, *ts)
    return raw("call", name, *ts)


def _first(kd=None):
    def f(ts):
        t = [x for x in ts if x.op != "kw"][:1]
        return (rank(t[0]) if t else None), kd or (kind(t[0]) if t else None)
    return f


def _fixed(r, kd=None):
    def f(ts):
        return r, kd or (kind(ts[0]) if ts else None)
    return f


def _along(pos, keep, kd=None):
    """Result along an axis argument; without one the result is flat."""
    def f(ts):
        p = [x for x in ts if x.op != "kw"]
        ax = p[pos] if len(p) > pos else None
        for x in ts:
            if x.op == "kw":
                if x.args[0] == "axis":
                    ax = x.args[1]
                elif x.args[0] in ("keepdims", "return_counts", "return_index", "return_inverse"):
                    return None, None
        k = kd or kind(p[0]) if p else None
        if ax is None or ax is NONE:
            return (1 if keep else 0), k
        if ax.op != "const" or not isinstance(ax.args[0], int) or rank(p[0]) is None:
            return None, k
        return (rank(p[0]) if keep else rank(p[0]) - 1), k
    return f


def _einsum(ts):
    s = ts[0].args[0] if ts and ts[0].op == "const" else None
    ks = {kind(x) for x in ts[1:] if x.op != "kw"}
    kd = ks.pop() if len(ks) == 1 else "f8" if ks <= {"f8", "int"} else None
    if not isinstance(s, str) or "->" not in s or "." in s:
        return None, kd
    return len(s.split("->")[1].strip()), kd


PURE = {"einsum": _einsum, "delete": _along(2, True), "insert": _along(3, True), "roll": _first(),
        "triu": _first(), "tril": _first(), "median": _along(1, False, "f8"),
        "nanmedian": _along(1, False, "f8"), "nanmean": _along(1, False, "f8"),
        "nansum": _along(1, False), "nanmax": _along(1, False), "nanmin": _along(1, False),
        "nanstd": _along(1, False, "f8"), "nanvar": _along(1, False, "f8"),
        "nanprod": _along(1, False), "nanargmax": _along(1, False, "int"),
        "nanargmin": _along(1, False, "int"), "mean": _along(1, False, "f8"),
        "var": _along(1, False, "f8"), "std": _along(1, False, "f8"),
        "average": _along(1, False, "f8"), "union1d": _fixed(1), "intersect1d": _fixed(1),
        "setdiff1d": _fixed(1), "setxor1d": _fixed(1), "in1d": _fixed(1, "b1"),
        "kron": _first(), "ediff1d": _fixed(1), "bincount": _fixed(1, "int"),
        "digitize": _first("int"), "lexsort": _fixed(1, "int"), "interp": _first("f8"),
        "convolve": _fixed(1), "correlate": _fixed(1), "unwrap": _first("f8"),
        "cumprod": _along(1, True), "nancumsum": _along(1, True), "tensordot": _fixed(None),
        "cov": _fixed(None, "f8"), "corrcoef": _fixed(None, "f8"), "diagflat": _fixed(2),
        "dstack": _fixed(3), "stack": _fixed(None), "vstack": _fixed(2), "hstack": _fixed(None),
        "column_stack": _fixed(2), "concatenate": _fixed(None), "cross": _first(),
        "compress": _fixed(None), "take": _fixed(None), "repeat": _along(2, True),
        "tile": _fixed(None), "array_equiv": _fixed(0, "b1"), "linalg.norm": _fixed(None, "f8"),
        "linalg.inv": _fixed(2, "f8"), "linalg.det": _fixed(0, "f8"),
        "linalg.solve": _fixed(None, "f8"), "linalg.matrix_power": _fixed(2),
        "trapezoid": _fixed(None, "f8"), "percentile": _fixed(None, "f8"),
        "quantile": _fixed(None, "f8"), "nanpercentile": _fixed(None, "f8"),
        "nanquantile": _fixed(None, "f8"), "polyval": _fixed(None), "tri": _fixed(2, "f8"),
        "ravel_multi_index": _fixed(None, "int"), "select": _fixed(None), "choose": _fixed(None),
        "vander": _fixed(2), "gradient": _first("f8"), "logspace": _fixed(1, "f8"),
        "geomspace": _fixed(1, "f8"), "fix": _first("f8"), "trim_zeros": _fixed(1)}


def opaque_call(I, st, name, args, kwargs):
    return I.alloc(st, ExtO("ext", opaque_term(I, st, name, args, kwargs)))


def callback(I, st, f, args, kwargs):
    N = _N()
    p = tm.props(f)
    ts = [N.val(I, st, a) for a in args]
    r = raw("call", f.args[0], *ts, *[raw("kw", k, N.val(I, st, v))
                                      for k, v in sorted(kwargs.items())])
    if p.get("elementwise"):
        return N.wrap(I, st, r)
    I.event("callback", set(), f.args[0], st, (args, kwargs))
    if p.get("ret") == "array":
        return I.new_arr(st, r)
    return r


def np_scalar(name):
    """numpy's scalar class of a plain dtype name."""
    if name in ("b1", "f2", "f4", "f8", "c8", "c16", "i1", "i2", "i4", "i8", "u1", "u2", "u4",
                "u8"):
        return np_dt(name).type
    return None


def native():
    from .model import np
    return np


def np_dt(x):
    return native().dtype(x)


def np_class(v):
    """numpy's own class for a symbolic class, or None."""
    if isinstance(v, Ext) and v.name.startswith("numpy."):
        c = getattr(native(), v.name[6:], None)
        if isinstance(c, type) and issubclass(c, native().generic):
            return c
    return None


def dtype_call(I, st, d, args):
    if not args:
        return const({"f8": 0.0, "b1": False}.get(d.name, 0))
    N = _N()
    v = N.val(I, st, args[0])
    c = np_scalar(d.name)
    if c is not None and isinstance(v, T) and v.op == "const" and isinstance(
            v.args[0], (int, float)):
        try:
            return const(c(v.args[0]))
        except (OverflowError, ValueError):
            pass
    return N.wrap(I, st, N.cast(v, d))


def vectorized(I, st, fn, args, kwargs):
    N = _N()
    out = kwargs.get("out")
    kwargs = {k: v for k, v in kwargs.items() if k != "out"}
    args = [I.norm(st, a) for a in args]
    inst = uinst(I, st, args)
    if inst is not None:
        m = I.getattr(inst, "__array_ufunc__", st)
        return I.call(m, [fn, const("__call__")] + args, kwargs, st)
    for i, a in enumerate(args):
        if isinstance(a, Phi):
            def go(x, s, i=i):
                b = list(args)
                b[i] = x
                return vectorized(I, s, fn, b, kwargs)
            return I.on_phi(a, st, go)
    f2 = Fn(fn.node, fn.mod, fn.name, fn.closure, fn.cls)
    f2.defaults, f2.kw_defaults = fn.defaults, fn.kw_defaults
    f2.tags = {k: v for k, v in fn.tags.items() if k != "vectorize"}
    f2.tags["kernel"] = True
    back = {}

    def scal(a):
        t = N.val(I, st, a)
        if rank(t) == 0:
            return t
        z = tm.sym("%%el%d" % t.hid, kind(t), 0)
        back[z] = t
        return z
    r = I.call_fn(f2, [scal(a) for a in args],
                  {k: scal(v) for k, v in kwargs.items()}, st)
    t = N.val(I, st, r)
    if back:
        t = tm.subst(t, back)
    if isinstance(out, Tup) and out.items:
        out = out.items[0]
    if out is not None and I.is_arr(st, out):
        N.write(I, st, out, t)
        return out
    return N.wrap(I, st, t)


def numba_arg(I, st, v):
    return v


def context_manager(I, st, fn, fr):
    alive = I.exec_block(fn.node.body, fr, st)
    if not alive and I.with_body:
        raise _I().AbsDead()
    val = fr.yields[0].value if fr.yields else NONE
    return I.alloc(st, ExtO("ctx", raw("ctx", fn.name),
                            {"value": val, "name": const(fn.name)}))


def yield_segs(I, yields, entry):
    out = []
    for y in yields:
        g = y.guard
        for c, v in y.guard_assume.items():
            if c not in entry:
                lit = c if v else mk("not", c)
                g = I.conj(lit, g)
        out.append(Seg(y.value, g, y.binder, y.space))
    return out


# ---------------------------------------------------------- field converter
STRUCT_ORDER = {4: ("x", "y", "z", "e"), 2: None}


def conv_array(I, st, x, dt, ncols):
    N = _N()
    x = I.norm(st, x)
    if isinstance(x, Phi):
        return I.on_phi(x, st, lambda v, s: conv_array(I, s, v, dt, ncols))
    if isinstance(x, Unk):
        return I.new_arr(st, _unk("field"), dt)
    if x is NONE:
        return I.new_arr(st, _unk("field"), dt)
    if I.is_arr(st, x):
        t = I.content(st, x)
        a = st.heap[x.id]
        if ncols > 1:
            if t.op == "struct":
                names = t.args[0]
                want = None
                for w in (("x", "y", "z", "e"), ("src", "dst"), ("in", "out"),
                          ("color", "anticolor")):
                    if set(w) == set(names):
                        want = w
                if want is not None and want != names:
                    return N.view(I, st, x, ("reorder", want), ("unstruct",),
                                  dt=dt)
                return N.view(I, st, x, ("unstruct",), dt=dt)
            if t.op == "row" and len(t.args) == ncols:
                one = _rng(ONE)
                return I.new_arr(st, raw("cols", *[
                    raw("full", one, v, 1) for v in t.args]), dt)
            if t.op == "row" and not t.args:
                return I.new_arr(st, raw("cols", *[
                    raw("row") for _ in range(ncols)]), dt)
            return x
        if dt is not None and a.dt is not None and a.dt != dt and dt.name in (
                "b1", "i4", "i2"):
            return I.new_arr(st, N.cast(t, dt), dt)
        if rank(t) == 0:
            return I.new_arr(st, raw("full", _rng(ONE), t, 1), dt)
        return x
    t = N.val(I, st, x)
    if ncols > 1:
        if t.op == "struct":
            names = t.args[0]
            for w in (("x", "y", "z", "e"), ("src", "dst"), ("in", "out"),
                      ("color", "anticolor")):
                if set(w) == set(names):
                    t = raw("struct", w, *[N.field(t, n) for n in w])
            t = raw("cols", *t.args[1:]) if rank(t) == 1 else raw(
                "cols", *[raw("full", _rng(ONE), v, 1) for v in t.args[1:]])
        elif t.op == "row" and len(t.args) == ncols:
            t = raw("cols", *[raw("full", _rng(ONE), v, 1) for v in t.args])
        elif t.op == "row" and not t.args:
            t = raw("cols", *[raw("row") for _ in range(ncols)])
    else:
        if rank(t) == 0:
            t = raw("full", _rng(ONE), t, 1)
        if dt is not None and t.op == "row":
            t = raw("row", *[N.cast(v, dt) for v in t.args])
        elif dt is not None:
            t = N.cast(t, dt)
    return I.new_arr(st, t, dt)


# ------------------------------------------------------------- attributes
EXT_CONST = {
    "numpy.pi": const(math.pi), "numpy.nan": const(math.nan),
    "numpy.inf": const(math.inf), "numpy.e": const(math.e),
    "math.pi": const(math.pi), "math.inf": const(math.inf),
    "math.nan": const(math.nan), "math.e": const(math.e),
    "math.tau": const(2 * math.pi), "cmath.pi": const(math.pi),
    "cmath.inf": const(math.inf), "numpy.newaxis": NONE,
    "numpy.NaN": const(math.nan), "numpy.Inf": const(math.inf),
    "numpy.infty": const(math.inf), "typing.TYPE_CHECKING": FALSE,
    "numpy.True_": TRUE, "numpy.False_": FALSE,
}


def ext_attr(I, st, o, name):
    full = o.name + "." + name
    if full in EXT_CONST:
        return EXT_CONST[full]
    if name == "__name__":
        return const(o.name.split(".")[-1])
    if name == "__module__":
        return const(o.name.rsplit(".", 1)[0])
    return Ext(full)


def shape_of(I, st, t, ref=None):
    if t.op == "row":
        return [const(len(t.args))]
    if t.op == "mat":
        n = len(t.args)
        c = len(t.args[0].args) if n and t.args[0].op == "row" else None
        return [const(n), const(c) if c is not None else raw("dim", t, 1)]
    if t.op == "struct" and len(t.args) > 1:
        return shape_of(I, st, t.args[1])
    r = rank(t)
    if r == 0:
        return []
    sp = space(t)
    n0 = I.space_len(sp) if sp is not None else raw("dim", t, 0)
    if r == 1:
        return [n0]
    if t.op == "cols":
        return [n0, const(len(t.args))]
    if t.op in ("colvec",):
        sp = space(t.args[0])
        return [I.space_len(sp) if sp is not None else raw("dim", t, 0), ONE]
    if t.op == "full" and r == 2 and t.args[0].op == "prodspace":
        return [I.space_len(x) for x in t.args[0].args]
    if t.op in ("upd", "fill", "updcol", "filldiag"):
        return shape_of(I, st, t.args[0])
    if r is not None:
        return [n0] + [raw("dim", t, k) for k in range(1, r)]
    return None


def arr_attr(I, st, o, name):
    N = _N()
    a = st.heap[o.id]
    t = I.content(st, o)
    if name == "shape":
        s = shape_of(I, st, t)
        if s is None:
            return raw("shape", t)
        return Tup(s)
    if name == "ndim":
        r = rank(t)
        return const(r) if r is not None else raw("ndim", t)
    if name == "size":
        s = shape_of(I, st, t)
        if s is None:
            return raw("size", t)
        n = ONE
        for x in s:
            n = x if n is ONE else mk("mul", n, x)
        return n
    if name == "T":
        if rank(t) == 1:
            return o
        return N.view(I, st, o, ("T",))
    if name in ("real", "imag"):
        if kind(t) == "c16" or (a.dt is not None and a.dt.name == "c16") or \
                kind(t) is None:
            return N.view(I, st, o, ("re" if name == "real" else "im",),
                          dt=DT("f8"))
        if name == "real":
            return o
        return I.new_arr(st, tm.bcast_to(t, F0))
    if name == "dtype":
        d = N.dt_of(I, st, o)
        return d if d is not None else raw("dtypeof", t)
    if name == "flat":
        return N.view(I, st, o, ("ravel",))
    if name == "base":
        return _unk("base")
    if name == "__array_interface__":
        return I.alloc(st, ExtO("arrayif", raw("attr", t, name), {"of": o}))
    if name in ("nbytes", "itemsize", "strides", "flags", "ctypes", "data"):
        return I.alloc(st, ExtO("ext", raw("attr", t, name)))
    if name == "__class__":
        return Ext("numpy.ndarray")
    return Meth(o, name)


def arr_setattr(I, st, o, name, v):
    N = _N()
    if name == "real":
        N.write(I, st, N.view(I, st, o, ("re",)), N.val(I, st, v))
    elif name == "imag":
        N.write(I, st, N.view(I, st, o, ("im",)), N.val(I, st, v))
    elif name == "shape":
        a = st.heap[o.id]
        N.buf_write(I, st, a.buf, raw("reshape", st.heap[a.buf].content,
                                      I.term(v, st)))
    elif name == "flat":
        N.write(I, st, o, N.val(I, st, v))


def extobj_attr(I, st, o, h, name):
    if sparse.full(h):
        r = sparse.attr(I, st, o, h, name)
        return r if r is not None else Meth(o, name)
    if name in h.fields:
        return h.fields[name]
    if "%closed" in h.fields:    # a record with these attributes only
        I.raise_now("AttributeError", st)
    if h.kind == "event":        # caller supplied record
        return I.unknown("attribute %s of caller object" % name)
    return Meth(o, name)


def extobj_setattr(I, st, o, h, name, v):
    if sparse.full(h) and sparse.setattr_(I, st, o, h, name, v):
        return
    f = dict(h.fields)
    f[name] = v
    st.heap[o.id] = h.replace(fields=f)


def term_attr(I, st, t, name):
    N = _N()
    r = rank(t)
    if r is not None and r >= 1 or t.op in ("row", "cols", "mat"):
        return arr_attr(I, st, I.new_arr(st, t), name)
    if name == "real":
        return mk("re", t)
    if name == "imag":
        return mk("im", t) if kind(t) == "c16" or kind(t) is None else F0
    if name == "dtype":
        k = N._k2dt(kind(t))
        return DT(k) if k else raw("dtypeof", t)
    if name == "shape":
        return Tup([]) if r == 0 else raw("shape", t)
    if name == "ndim":
        return ZERO if r == 0 else raw("ndim", t)
    if name == "size":
        return ONE if r == 0 else raw("size", t)
    if name == "T":
        return t if r == 0 else N.transpose(t)
    if name == "__class__":
        return type_of(I, st, t)
    if t.op == "struct":
        return N.field(t, name)
    return Meth(t, name)


def dtype_attr(I, st, d, name):
    if name == "names":
        if d.struct:
            return Tup([const(n) for n, _ in d.struct])
        return NONE
    if name == "type":
        t = np_scalar(d.name)
        if t is None and d.name not in ("struct", "void", "str", "obj"):
            return _unk("dtype.type")
        return Ext("numpy." + (t.__name__ if t else {"str": "str_", "obj": "object_"}.get(
            d.name, "void")))
    if name == "kind":
        t = np_scalar(d.name)
        return const(np_dt(t).kind if t else {"struct": "V"}.get(d.name, "O"))
    if name == "descr":
        if d.struct:
            return Tup([Tup([const(n), const(f)]) for n, f in d.struct])
    if name == "fields":
        return NONE if not d.struct else _unk("fields")
    if name == "itemsize":
        return raw("itemsize", repr(d))
    if name == "name":
        return const(d.name)
    if name == "str":
        return const("<" + d.name)
    if name == "newbyteorder":
        return Meth(d, name)
    return I.unknown("dtype attribute " + name)


# --------------------------------------------------------------- mixins
_OPS = {"add": "add", "sub": "sub", "mul": "mul", "truediv": "div",
        "floordiv": "floordiv", "mod": "mod", "pow": "pow",
        "matmul": "matmul", "and": "bitand", "or": "bitor", "xor": "bitxor",
        "lshift": "lshift", "rshift": "rshift", "lt": "lt", "le": "le",
        "gt": "gt", "ge": "ge", "eq": "eq", "ne": "ne"}
_UN = {"neg": "neg", "pos": "pos", "abs": "abs", "invert": "invert"}


def mixin_attr(I, st, ref, h, name, ext):
    N = _N()
    if name.startswith("__") and name.endswith("__"):
        core = name[2:-2]
        if any(e.endswith("NDArrayOperatorsMixin") for e in ext):
            if core in _OPS:
                return Part(Ext("@ufunc:" + N.OP_UFUNC[_OPS[core]]), [ref], {})
            if core in _UN:
                return Part(Ext("@ufunc:" + N.OP_UFUNC[_UN[core]]), [ref], {})
            if core[:1] == "r" and core[1:] in _OPS:
                return Part(Ext("@rufunc:" + N.OP_UFUNC[_OPS[core[1:]]]),
                            [ref], {})
            if core[:1] == "i" and core[1:] in _OPS:
                return Part(Ext("@iufunc:" + N.OP_UFUNC[_OPS[core[1:]]]),
                            [ref], {})
    if any("Mapping" in e for e in ext) and name in (
            "keys", "values", "items", "get", "update", "pop", "setdefault",
            "popitem", "clear", "__contains__"):
        return Part(Ext("@map:" + name), [ref], {})
    if any("Sequence" in e for e in ext) and name in (
            "index", "count", "__contains__", "__reversed__", "__iter__"):
        return Part(Ext("@seq:" + name), [ref], {})
    if name in ("__repr__", "__str__", "__hash__", "__eq__", "__ne__",
                "__init__", "__sizeof__", "__reduce__", "__doc__",
                "__module__", "__attrs_init__", "__setattr__",
                "__getattribute__", "__delattr__", "_repr_html_",
                "__getstate__", "__setstate__", "__reduce_ex__"):
        return Meth(ref, name)
    return None


def map_method(I, st, name, ref, args, kwargs):
    N = _N()
    h = st.heap[ref.id]
    it = lambda s: I.call(I.getattr(ref, "__iter__", s), [], {}, s)  # noqa
    get = lambda k, s: I.getitem(ref, k, s)  # noqa
    if name == "keys":
        return N.from_segs(I, st, N.to_segs(I, st, it(st)), KEYS)
    if name in ("values", "items"):
        out = []
        for s in N.to_segs(I, st, it(st)):
            v = get(s.value, st)
            out.append(Seg(v if name == "values" else Tup([s.value, v]),
                           s.guard, s.binder, s.space))
        return N.from_segs(I, st, out)
    if name == "__contains__":
        return I.truth(N.contains(I, st, it(st), args[0]), st)
    if name in ("get", "pop", "setdefault"):
        k = args[0]
        d = _arg(args, kwargs, 1, "default", NONE if name != "pop" else None)
        c = I.truth(N.contains(I, st, it(st), k), st)

        def hit(s):
            v = get(k, s)
            if name == "pop":
                I.delitem(ref, k, s)
            return v

        def miss(s):
            if name == "setdefault":
                I.setitem(ref, k, d, s)
                return d
            if d is None:
                I.raise_now("KeyError", s)
            return d
        return I.branch(c, st, hit, miss)
    if name == "update":
        if args:
            v = I.norm(st, args[0])
            pairs = None
            o = st.heap.get(v.id) if isinstance(v, Ref) else None
            if isinstance(o, DictO):
                pairs = [(s.key, s.value, s) for s in o.segs]
            elif isinstance(o, InstO):
                segs = N.to_segs(I, st, map_method(I, st, "items", v, [], {}))
                pairs = [(s.value.items[0], s.value.items[1], s) for s in segs]
            else:
                pairs = []
                for s in N.to_segs(I, st, v):
                    its = s.value.items if isinstance(s.value, Tup) else \
                        I.static_items(s.value, st)
                    if its and len(its) == 2:
                        pairs.append((its[0], its[1], s))
                    else:
                        u = I.unknown("update", I.reach(st, v))
                        pairs.append((u, u, s))
            for k, x, s in pairs:
                I.setitem(ref, k, x, st)
        for k, x in kwargs.items():
            I.setitem(ref, const(k), x, st)
        return NONE
    if name in ("clear", "popitem"):
        for s in N.to_segs(I, st, it(st)):
            I.delitem(ref, s.value, st)
        return NONE
    return I.unknown("mapping method " + name)


def seq_method(I, st, name, ref, args, kwargs):
    N = _N()
    if name == "__contains__":
        q = I.alloc(st, IterO(I.seq(ref, st)))
        return N.contains(I, st, q, args[0])
    if name == "__iter__":
        return siter(I, st, I.seq(ref, st))
    if name == "__reversed__":
        return bi_reversed(I, st, [ref], {})
    t = I.term(ref, st)
    return raw("seq" + name, t, *[I.term(a, st) for a in args])


# ------------------------------------------------------------ isinstance
ABC_OF = {
    "list": {"Sequence", "MutableSequence", "Iterable", "Sized", "Collection",
             "Container", "Reversible", "list", "object"},
    "tuple": {"Sequence", "Iterable", "Sized", "Collection", "Container",
              "Reversible", "Hashable", "tuple", "object"},
    "set": {"Set", "MutableSet", "Iterable", "Sized", "Collection",
            "Container", "set", "object"},
    "dict": {"Mapping", "MutableMapping", "Iterable", "Sized", "Collection",
             "Container", "dict", "object"},
    "str": {"Sequence", "Iterable", "Sized", "Collection", "Container",
            "Hashable", "str", "object"},
    "ndarray": {"Iterable", "Sized", "Container", "Collection", "ndarray",
                "object"},
    "iter": {"Iterable", "Iterator", "Generator", "object"},
}


def isinstance_(I, st, v, cls):
    N = _N()
    v, cls = I.norm(st, v), I.norm(st, cls)
    if isinstance(v, Phi):
        return I.on_phi(v, st, lambda x, s: isinstance_(I, s, x, cls))
    its = None
    if isinstance(cls, Tup):
        its = cls.items
    elif _isref(I, st, cls, ListO):
        its = I.static_items(cls, st)
    if its is not None:
        c = FALSE
        for x in its:
            c = mk("or", c, isinstance_(I, st, v, x))
        return c
    if isinstance(cls, ClsV):
        if isinstance(v, Ref):
            o = st.heap.get(v.id)
            if isinstance(o, InstO):
                if o.cls.is_sub(cls.info):
                    return TRUE
                if cls.info.kind == "protocol":
                    names = [k for k, x in cls.info.attrs.items()
                             if isinstance(x, (Fn, PropV_()))
                             and (not k.startswith("_") or k in (
                                 "__array__", "__len__", "__iter__"))]
                    names += [n for n, _ in cls.info.annotations]
                    return const(all(
                        o.cls.lookup(n) is not None or n in o.fields
                        for n in names))
                return FALSE
            if isinstance(o, ExtO) and o.kind == "event":
                return _unk("isinstance")
            return FALSE
        if isinstance(v, Tup):
            return const(v.cls is not None and v.cls.is_sub(cls.info))
        if isinstance(v, EnumV):
            return const(v.cls is cls.info)
        if isinstance(v, Unk):
            return _unk("isinstance")
        return FALSE
    name = cls.name if isinstance(cls, Ext) else None
    if name is None:
        return _unk("isinstance")
    tail = name.split(".")[-1]
    if isinstance(v, Unk):
        return _unk("isinstance")
    if isinstance(v, Ref):
        o = st.heap.get(v.id)
        if isinstance(o, InstO):
            bases = {e.split(".")[-1] for e in o.cls.all_ext()}
            if tail in bases or tail == "object":
                return TRUE
            if tail in ("Sequence", "Iterable", "Sized", "Collection",
                        "Container", "Reversible"):
                if "Sequence" in bases:
                    return TRUE
                if tail == "Sequence":
                    return FALSE
                if "MutableMapping" in bases or "Mapping" in bases:
                    return const(tail != "Reversible")
                need = {"Iterable": ["__iter__"], "Sized": ["__len__"],
                        "Container": ["__contains__"],
                        "Collection": ["__iter__", "__len__",
                                       "__contains__"],
                        "Reversible": ["__reversed__"]}[tail]
                return const(all(o.cls.lookup(m) is not None for m in need))
            if tail == "Mapping" and "MutableMapping" in bases:
                return TRUE
            return FALSE
        k = {ListO: None, DictO: "dict", Arr: "ndarray", IterO: "iter"}.get(
            type(o))
        if isinstance(o, ListO):
            k = o.kind
        if k is not None:
            if tail in ABC_OF.get(k, ()):
                return TRUE
            if k == "dict" and tail in ("OrderedDict", "defaultdict",
                                        "Counter"):
                return const(o.kind == tail)
            return FALSE
        if isinstance(o, ExtO):
            if o.kind == "coo" and tail in ("coo_array", "csr_array"):
                return const(o.fields.get("fmt") is const(tail[:3]))
            return _unk("isinstance")
        return _unk("isinstance")
    if isinstance(v, Tup):
        return const(tail in ABC_OF["tuple"])
    if isinstance(v, T):
        if v.op == "const":
            x = v.args[0]
            if isinstance(x, native().generic):
                c = np_class(cls)
                if c is not None:
                    return const(isinstance(x, c))
                c = {"float": float, "int": int, "bool": bool, "complex": complex, "str": str,
                     "object": object, "list": list, "tuple": tuple, "dict": dict}.get(tail)
                if c is not None and name.startswith("builtins."):
                    return const(isinstance(x, c))
                import numbers
                if name.startswith("numbers.") and hasattr(numbers, tail):
                    return const(isinstance(x, getattr(numbers, tail)))
                return raw("isinstance", v, tail)
            if isinstance(x, str):
                return const(tail in ABC_OF["str"])
            if x is None:
                return const(tail in ("NoneType", "object"))
            if isinstance(x, bool):
                return const(tail in ("bool", "int", "Number", "Integral",
                                      "Real", "Complex", "object", "Hashable")
                             and not name.startswith("numpy."))
            if isinstance(x, int):
                return const(tail in ("int", "Number", "Integral", "Real",
                                      "Rational", "Complex", "object",
                                      "Hashable"))
            if isinstance(x, float):
                return const(tail in ("float", "Number", "Real", "Complex",
                                      "object", "Hashable"))
            return const(tail in ("complex", "Number", "Complex", "object"))
        k, r = kind(v), rank(v)
        p = tm.props(v) if v.op == "sym" else {}
        if p.get("pytype"):
            table = {"str": ABC_OF["str"],
                     "int": {"int", "Number", "Integral", "Real", "Rational",
                             "Complex", "object", "Hashable"},
                     "float": {"float", "Number", "Real", "Complex", "object",
                               "Hashable"},
                     "complex": {"complex", "Number", "Complex", "object"},
                     "bool": {"bool", "int", "Number", "Integral", "object"}}
            if p["pytype"] in table:
                return const(tail in table[p["pytype"]])
        if k == "str" and r == 0:
            return const(tail in ABC_OF["str"])
        if r is not None and r >= 1:
            return const(tail in ABC_OF["ndarray"])
        if r == 0 and k in ("f8", "int", "c16", "b1"):
            if tail in ("ndarray", "Sequence", "Iterable", "Mapping", "str",
                        "list", "tuple", "dict", "Sized", "Collection",
                        "set", "MutableMapping", "slice", "range"):
                return FALSE
            if tail == "Number":
                return TRUE if k != "b1" else raw("isinstance", v, tail)
            if tail == "object":
                return TRUE
            if tail in ("float", "Real", "floating") and k == "f8":
                return TRUE if tail != "floating" else raw("isinstance", v, tail)
            if k == "f8" and tail in ("int", "Integral", "integer", "bool",
                                      "complex"):
                return FALSE
            if k == "int" and tail == "int" and any(
                    x.op in ("at", "take") for x in tm.subterms(v)):
                return raw("isinstance", v, tail)   # an int or a numpy integer
            if k == "int" and tail in ("int", "Integral"):
                return TRUE
            if k == "int" and tail in ("float", "floating", "complex", "bool"):
                return FALSE
            if k == "c16" and tail == "complex":
                return TRUE
        return raw("isinstance", v, tail)
    if isinstance(v, (Fn, BoundM, Part, Getter, Meth, ClsV)):
        return const(tail in ("Callable", "object", "type") and not (
            tail == "type" and not isinstance(v, ClsV)))
    if isinstance(v, Ext):
        if tail == "ufunc":
            return const(v.name in _N().UFUNC_OP or v.name == "numpy.matmul")
        return raw("isinstance", raw("glob", v.name), tail)
    if isinstance(v, Slice):
        return const(tail == "slice")
    if isinstance(v, DT):
        return const(tail == "dtype")
    return _unk("isinstance")


def PropV_():
    return _I().PropV


def type_of(I, st, v):
    v = I.norm(st, v)
    if isinstance(v, Phi):
        return I.on_phi(v, st, lambda x, s: type_of(I, s, x))
    if isinstance(v, Ref):
        o = st.heap.get(v.id)
        if isinstance(o, InstO):
            return ClsV(o.cls)
        if isinstance(o, Arr):
            return Ext("numpy.ndarray")
        if isinstance(o, ListO):
            return Ext("builtins." + (o.kind if o.kind in (
                "list", "tuple", "set") else "list"))
        if isinstance(o, DictO):
            return Ext("builtins.dict")
        if isinstance(o, ExtO):
            return raw("typeof", o.term)
        return Ext("builtins.generator")
    if isinstance(v, Tup):
        return ClsV(v.cls) if v.cls is not None else Ext("builtins.tuple")
    if isinstance(v, T):
        if v.op == "const":
            return Ext("builtins." + type(v.args[0]).__name__)
        p = tm.props(v) if v.op == "sym" else {}
        if p.get("pytype"):
            return Ext("builtins." + p["pytype"])
        if (rank(v) or 0) >= 1:
            return Ext("numpy.ndarray")
        return raw("typeof", v)
    if isinstance(v, EnumV):
        return ClsV(v.cls)
    if isinstance(v, Slice):
        return Ext("builtins.slice")
    if isinstance(v, (Fn, BoundM)):
        return Ext("types.FunctionType")
    if isinstance(v, Unk):
        return Unk("type", v.roots)
    return raw("typeof", I.term(v, st))


# ---------------------------------------------------------------- methods
def method(I, st, recv, name, args, kwargs):
    recv = I.norm(st, recv)
    if isinstance(recv, Phi):
        return I.on_phi(recv, st,
                        lambda x, s: method(I, s, x, name, args, kwargs))
    args = [I.norm(st, a) for a in args]
    if isinstance(recv, Ref):
        o = st.heap.get(recv.id)
        if isinstance(o, Arr):
            return arr_method(I, st, recv, name, args, kwargs)
        if isinstance(o, ListO):
            if o.kind == "set":
                return set_method(I, st, recv, o, name, args, kwargs)
            return list_method(I, st, recv, o, name, args, kwargs)
        if isinstance(o, DictO):
            return dict_method(I, st, recv, o, name, args, kwargs)
        if isinstance(o, IterO):
            if name == "__next__":
                return bi_next(I, st, [recv], {})
            if name == "__iter__":
                return recv
            return I.unknown("iterator method " + name, I.reach(st, recv))
        if isinstance(o, ExtO):
            return ext_method(I, st, recv, o, name, args, kwargs)
        if isinstance(o, InstO):
            return inst_method(I, st, recv, o, name, args, kwargs)
    if isinstance(recv, Tup):
        return tup_method(I, st, recv, name, args, kwargs)
    if isinstance(recv, T):
        return term_method(I, st, recv, name, args, kwargs)
    if isinstance(recv, Ext):
        return ext_call(I, st, recv.name + "." + name, args, kwargs)
    roots = set(I.reach(st, recv, *args))
    I.event("unknown-call", set(), name, st, roots)
    return I.unknown("method %s of %r" % (name, recv), roots)


def inst_method(I, st, recv, o, name, args, kwargs):
    N = _N()
    if name in ("__eq__", "__ne__"):
        return N.compare(I, st, "Eq" if name == "__eq__" else "NotEq", recv,
                         args[0])
    if name == "__attrs_init__":
        n = I.construct_attrs(o.cls, args, kwargs, st)
        st.heap[recv.id] = st.heap[recv.id].replace(
            fields=dict(st.heap[n.id].fields))
        return NONE
    if name == "__setattr__":
        return I.setattr(recv, args[0].args[0], args[1], st, direct=True)
    if name == "__delattr__":
        return I.delattr(recv, args[0].args[0], st)
    if name == "__getattribute__":
        return I.getattr(recv, args[0].args[0], st)
    if name in ("__repr__", "__str__"):
        return raw("str", const(o.cls.name))
    return raw("call", "obj." + name, I.term(recv, st))


ARR_PURE_EW = {"conj": "conj", "conjugate": "conj"}
ARR_RED = {"sum": "bsum", "prod": "bprod", "any": "bany", "all": "ball",
           "max": "bmax", "min": "bmin"}


def arr_method(I, st, o, name, args, kwargs):
    N = _N()
    t = I.content(st, o)
    a = st.heap[o.id]
    if name in ARR_RED:
        return do_reduce(I, st, ARR_RED[name], o, _arg(args, kwargs, 0,
                                                       "axis"), kwargs)
    if name in ("copy", "__copy__", "__deepcopy__", "flatten", "newbyteorder",
                "byteswap"):
        r = mk("ravel", t) if name == "flatten" else t
        return I.new_arr(st, r, a.dt)
    if name in ("conj", "conjugate"):
        if kind(t) in ("f8", "int"):
            return o
        return N.wrap(I, st, mk("conj", t), a.dt)
    if name == "astype":
        d = N.as_dtype(I, _arg(args, kwargs, 0, "dtype"), st)
        cp = kwargs.get("copy")
        if cp is FALSE and d is not None and d == N.dt_of(I, st, o):
            return o
        if d is None:
            return I.new_arr(st, t)
        return N.keep_order(I, st, o, I.new_arr(st, N.cast(t, d), d))
    if name == "view":
        return arr_view(I, st, o, _arg(args, kwargs, 0, "dtype"))
    if name in ("reshape", "ravel", "squeeze", "swapaxes", "transpose"):
        return np_shape_op(I, st, name, o, args, kwargs)
    if name == "tolist" or name == "to_list" and any(
            x.op == "fj_cons" for x in tm.subterms(t)):
        return np_tolist(I, st, t)
    if name == "item":
        if args:
            return N.at(t, N.val(I, st, args[0]))
        return mk("item", t)
    if name == "fill":
        N.write(I, st, o, N.val(I, st, args[0]))
        return NONE
    if name == "sort":
        N.write(I, st, o, raw("sorted", t))
        return NONE
    if name == "partition":
        N.write(I, st, o, raw("partition", t))
        return NONE
    if name in ("put", "itemset"):
        N.arr_setitem(I, st, o, args[0], args[1])
        return NONE
    if name == "resize":
        N.buf_write(I, st, a.buf, _unk("resize"))
        return NONE
    if name in ("argmin", "argmax", "argsort", "mean", "var", "std",
                "nonzero", "dot", "round", "clip", "take", "compress",
                "repeat", "diagonal", "trace", "cumsum", "searchsorted",
                "argpartition", "ptp", "cumprod", "choose"):
        return ext_call(I, st, "numpy." + name, [o] + list(args), kwargs)
    if name in ("__len__",):
        return I.length(o, st)
    if name == "__iter__":
        return siter(I, st, I.seq(o, st))
    if name == "__getitem__":
        return I.getitem(o, args[0], st)
    if name == "__setitem__":
        return I.setitem(o, args[0], args[1], st)
    if name == "__array__":
        return o
    if name in ("setflags",):
        return NONE
    if name in ("tobytes", "tostring", "dumps", "__repr__", "__str__"):
        return raw("call", name, t)
    if name.startswith("__"):
        core = name[2:-2]
        if core in _OPS:
            op = _OPS[core]
            return N.wrap(I, st, N.ew(op, t, N.val(I, st, args[0])))
        if core[:1] == "r" and core[1:] in _OPS:
            return N.wrap(I, st, N.ew(_OPS[core[1:]], N.val(I, st, args[0]), t))
        if core == "contains":
            return N.contains(I, st, o, args[0])
        if core in _UN:
            return N.wrap(I, st, N.ew(_UN[core], t))
    return I.new_arr(st, raw("call", "ndarray." + name, t, *[
        I.term(x, st) for x in args]))


def arr_view(I, st, o, d):
    N = _N()
    t = I.content(st, o)
    if d is None:
        return N.view(I, st, o)
    d = I.norm(st, d)
    if isinstance(d, Ext) and (d.name.endswith(("ndarray", "recarray"))):
        return N.view(I, st, o)
    dt = N.as_dtype(I, d, st)
    if isinstance(d, Ext) and d.name.endswith("complex128"):
        dt = DT("c16")
    if dt is None:
        return I.new_arr(st, raw("view", t, I.term(d, st)))
    cur = N.dt_of(I, st, o)
    if dt.struct and t.op != "struct" or dt.name == "c16" and kind(t) == "f8":
        lay = N.layout(I, st, o)
        if rank(t) == 2 and lay in ("F", "S") or rank(t) == 1 and lay in ("R", "S"):
            I.raise_now("ValueError", st)       # the last axis must be contiguous
    if dt.struct:
        names = tuple(n for n, _ in dt.struct)
        return N.view(I, st, o, ("struct", names), dt=dt)
    if dt.name == "c16" and (cur is None or cur.name != "c16"):
        return N.view(I, st, o, ("cplx",), dt=dt)
    if dt.name == "f8" and (kind(t) == "c16" or cur is not None and
                            cur.name == "c16"):
        return N.view(I, st, o, ("uncplx",), dt=dt)
    if t.op == "struct":
        return N.view(I, st, o, ("unstruct",), dt=dt)
    if cur == dt:
        return N.view(I, st, o)
    return N.view(I, st, o, ("bitview", dt.name), dt=dt)


def np_tolist(I, st, t):
    N = _N()
    if t.op == "row":
        return I.new_list(st, list(t.args))
    if t.op == "mat":
        return I.new_list(st, [np_tolist(I, st, r) for r in t.args])
    r = rank(t)
    if r == 0 and t.op != "struct":
        return t
    if t.op == "struct" and r == 0:
        return Tup(t.args[1:])
    b = tm.fresh_binder()
    sp = space(t) or raw("rowsof", t)
    if t.op == "struct":
        el = Tup([N.at(x, b) for x in t.args[1:]])
    else:
        el = N.at(t, b)
        if el.op == "row":
            el = I.new_list(st, list(el.args))
    return I.alloc(st, ListO([Seg(el, None, b, sp)]))


def np_shape_op(I, st, name, o, args, kwargs):
    N = _N()
    t = N.val(I, st, o) if not I.is_arr(st, o) else I.content(st, o)
    mkview = (lambda *s: N.view(I, st, o, *s)) if I.is_arr(st, o) else (
        lambda *s: I.new_arr(st, t))
    if name == "ravel":
        if t.op == "colvec":
            return I.new_arr(st, t.args[0], st.heap[o.id].dt if I.is_arr(st, o) else None)
        if t.op == "mat":
            return I.new_arr(st, raw("row", *[x for r in t.args
                                              for x in r.args]))
        if I.is_arr(st, o) and (rank(t) or 0) > 1 and N.layout(I, st, o) in ("F", "S", "R"):
            return I.new_arr(st, mk("ravel", t))
        return mkview(("ravel",))
    if name == "transpose":
        if args and len(args) > 1 or isinstance(args[0] if args else None, Tup):
            ax = [_cint(x) for x in (args[0].items if isinstance(
                args[0], Tup) else args)]
            if ax == list(range(len(ax))):
                return mkview()
        return mkview(("T",)) if rank(t) != 1 else o
    if name == "swapaxes":
        return mkview(("T",))
    if name == "squeeze":
        if t.op == "colvec":
            return I.new_arr(st, t.args[0])
        if t.op == "mat" and len(t.args) == 1:
            return I.new_arr(st, t.args[0])
        if rank(t) in (0, 1):
            return mkview()
        return I.new_arr(st, raw("squeeze", t))
    shp = args if len(args) != 1 else (
        list(args[0].items) if isinstance(args[0], Tup) else (
            I.static_items(args[0], st) if _isref(I, st, args[0], ListO)
            else args))
    if not args and "shape" in kwargs:
        s0 = kwargs["shape"]
        shp = list(s0.items) if isinstance(s0, Tup) else [s0]
    dims = [_cint(x) for x in shp] if shp is not None else None
    if dims is not None:
        if dims == [-1]:
            return np_shape_op(I, st, "ravel", o, [], {})
        if len(dims) == 2 and dims[1] == 1 and rank(t) == 1:
            return mkview(("colvec",))
        if len(dims) == 2 and dims[0] == 1 and rank(t) == 1:
            return mkview(("rowvec",))
        if t.op == "cols" and len(dims) == 2 and dims[1] == len(t.args):
            return mkview()
        if t.op in ("row",) and len(dims) == 2 and None not in dims:
            n = len(t.args)
            r, c = dims
            if r == -1 and c:
                r = n // c
            if c == -1 and r:
                c = n // r
            if r * c == n:
                return I.new_arr(st, raw("mat", *[
                    raw("row", *t.args[k * c:(k + 1) * c]) for k in range(r)]))
        if t.op == "row" and len(dims) == 2 and dims[1] == len(t.args):
            return I.new_arr(st, raw("mat", t))
        if t.op == "stackrows" and len(dims) == 2 and dims[0] == len(t.args):
            return mkview()
    sh = [N.val(I, st, x) for x in shp] if shp is not None else []
    if len(sh) == 1 and rank(t) == 1:
        return mkview()
    if len(sh) == 2 and rank(t) == 1 and sh[1] is ONE:
        return mkview(("colvec",))
    return I.new_arr(st, raw("reshape", t, *sh), N.dt_of(I, st, o) if I.is_arr(
        st, o) else None)


def term_method(I, st, t, name, args, kwargs):
    N = _N()
    if t.op == "const" and isinstance(t.args[0], str) or kind(t) == "str":
        return str_method(I, st, t, name, args, kwargs)
    if t.op == "unk":
        return I.unknown("method " + name, I.reach(st, *args))
    if (rank(t) or 0) >= 1 or t.op in ("row", "cols", "mat"):
        return arr_method(I, st, I.new_arr(st, t), name, args, kwargs)
    if name in ("item", "copy", "__copy__", "tolist", "squeeze", "ravel",
                "flatten"):
        return t.args[0] if t.op == "np_" and name in ("item", "tolist") else t
    if name in ("conjugate", "conj"):
        return mk("conj", t) if kind(t) not in ("f8", "int") else t
    if name == "astype":
        d = N.as_dtype(I, _arg(args, kwargs, 0, "dtype"), st)
        return N.cast(t, d)
    if name in ARR_RED:
        if rank(t) == 0:
            return red_elem(ARR_RED[name], t)
        return do_reduce(I, st, ARR_RED[name], t, _arg(args, kwargs, 0, "axis"),
                         kwargs)
    if name == "is_integer":
        return raw("is_integer", t)
    if name == "keys" and t.op == "dict":
        return raw("keys", t)
    if name.startswith("__"):
        core = name[2:-2]
        if core in _OPS:
            return N.binop(I, st, _OPS[core], t, args[0]) if core not in (
                "lt", "le", "gt", "ge", "eq", "ne") else N.wrap(
                    I, st, N.ew(core, t, N.val(I, st, args[0])))
    if name == "reshape" and rank(t) == 0:
        return I.new_arr(st, raw("full", _rng(ONE), t, 1))
    if name in ("dot",):
        return N.binop(I, st, "mul", t, args[0])
    r = raw("call", "." + name, t, *[I.term(x, st) for x in args],
            *[raw("kw", k, I.term(v, st)) for k, v in sorted(kwargs.items())])
    return r


def str_method(I, st, t, name, args, kwargs):
    N = _N()
    ca = [a.args[0] for a in args if isinstance(a, T) and a.op == "const"]
    if t.op == "const" and name in (
            "lower", "upper", "strip", "lstrip", "rstrip", "startswith",
            "endswith", "replace", "title", "capitalize", "isdigit", "find",
            "isidentifier", "count", "center", "ljust", "rjust", "zfill",
            "removeprefix", "removesuffix", "split", "rsplit", "partition",
            "splitlines") and len(ca) == len(args) and not kwargs:
        r = getattr(t.args[0], name)(*ca)
        if isinstance(r, list):
            return I.new_list(st, [const(x) for x in r])
        if isinstance(r, tuple):
            return Tup([const(x) for x in r])
        return const(r)
    if name == "join":
        x = args[0] if args else NONE
        segs = N.to_segs(I, st, x)
        if t.op == "const" and all(
                s.binder is None and s.guard is None and isinstance(s.value, T)
                and s.value.op == "const" for s in segs):
            return const(t.args[0].join(str(s.value.args[0]) for s in segs))
        return raw("strjoin", t, *[I.seg_term(s, st) for s in segs])
    if name in ("split", "rsplit", "splitlines"):
        b = tm.fresh_binder()
        sp = raw("elems", raw("call", "str." + name, t, *[
            I.term(a, st) for a in args]))
        return I.alloc(st, ListO([Seg(raw("str", raw("at", sp, b)), None, b,
                                      sp)]))
    if name in ("startswith", "endswith", "isdigit"):
        return raw("truth", raw("call", "str." + name, t, *[
            I.term(a, st) for a in args]))
    if name == "format" or name == "format_map":
        return raw("strm", "format", t, *[I.term(a, st) for a in args]) if not kwargs \
            else _unk("str.format")
    if name == "__contains__":
        return N.contains(I, st, t, args[0])
    return raw("strm", name, t, *[I.term(a, st) for a in args])


def tup_method(I, st, recv, name, args, kwargs):
    N = _N()
    if name == "_asdict":
        return I.alloc(st, DictO([Seg(v, key=const(f.name)) for f, v in zip(
            recv.cls.fields, recv.items)]))
    if name == "_replace":
        its = list(recv.items)
        for k, v in kwargs.items():
            for i, f in enumerate(recv.cls.fields):
                if f.name == k:
                    its[i] = v
        return Tup(its, recv.cls)
    if name == "_fields":
        return Tup([const(f.name) for f in recv.cls.fields])
    if name == "__len__":
        return const(len(recv.items))
    if name == "__getitem__":
        return I.getitem(recv, args[0], st)
    if name == "__iter__":
        return siter(I, st, SStatic(recv.items))
    if name in ("index", "count"):
        return raw("call", "tuple." + name, I.term(recv, st),
                   *[I.term(a, st) for a in args])
    return I.unknown("tuple method " + name, I.reach(st, recv))


def list_method(I, st, recv, o, name, args, kwargs):
    N = _N()
    if name == "popleft" and not args:
        return list_method(I, st, recv, o, "pop", [ZERO], kwargs)
    if name == "appendleft" and len(args) == 1:
        return list_method(I, st, recv, o, "insert", [ZERO] + list(args), kwargs)
    if name == "append":
        N.note_mut(I, st, recv, o, name)
        st.heap[recv.id] = o.replace(segs=o.segs + (Seg(args[0]),))
        return NONE
    if name in ("extend", "__iadd__"):
        N.list_extend(I, st, recv, args[0])
        return NONE if name == "extend" else recv
    if name == "insert":
        N.note_mut(I, st, recv, o, name)
        k = _cint(args[0])
        segs = list(o.segs)
        plain = [x.binder is None and x.guard is None for x in segs]
        if k is None and args[0] is I.length(recv, st):
            k = len(segs)
        elif k is None or not (all(plain) or all(plain[:k] if k >= 0 else plain[k:]) and (
                -len(segs) <= k <= len(segs))):
            st.heap[recv.id] = o.replace(segs=tuple(N.jumbled(I, st, segs + [Seg(args[1])])))
            return NONE
        segs.insert(k, Seg(args[1]))
        st.heap[recv.id] = o.replace(segs=tuple(segs))
        return NONE
    if name == "pop":
        N.note_mut(I, st, recv, o, name)
        k = _cint(args[0]) if args else -1
        its = I.static_items(recv, st)
        if its is not None and k is not None and -len(its) <= k < len(its):
            segs = list(o.segs)
            v = segs.pop(k).value
            st.heap[recv.id] = o.replace(segs=tuple(segs))
            return v
        if its is not None and not its:
            I.raise_now("IndexError", st)
        if its is None and k in (0, -1):
            segs = list(o.segs)
            s = segs[0] if k == 0 else segs[-1]
            if s.binder is None and s.guard is None:
                segs.pop(k)
                st.heap[recv.id] = o.replace(segs=tuple(segs))
                return s.value
            if len(segs) == 1 and s.binder is not None and isinstance(s.space, T) and not (
                    s.guard is None and N.direct(s.space)) and s.space.op != "nested":
                sp = N.guarded_space(s)
                v = I.rename(s.value, s.binder, raw("nth", sp, const(k)), st)
                st.heap[recv.id] = o.replace(segs=(Seg(s.value, None, s.binder, raw(
                    "part", sp, raw("slice", ONE, NONE, NONE) if k == 0 else raw(
                        "slice", NONE, const(-1), NONE))),))
                return v
            if len(segs) == 1 and isinstance(s.space, T) and s.guard is None and \
                    N.direct(s.space):
                last = mk("sub", I.space_len(s.space), ONE)
                i = ZERO if k == 0 else last
                v = I.rename(s.value, s.binder, i, st)
                if k == 0:
                    nv = I.rename(s.value, s.binder,
                                  mk("add", s.binder, ONE), st)
                else:
                    nv = s.value
                st.heap[recv.id] = o.replace(segs=(Seg(
                    nv, None, s.binder, raw("range", ZERO, last, ONE)),))
                return v
        st.heap[recv.id] = o.replace(segs=tuple(N.jumbled(I, st, o.segs)))
        return I.unknown("list pop", I.reach(st, recv))
    if name in ("remove", "clear", "reverse", "sort"):
        N.note_mut(I, st, recv, o, name)
        if name == "clear":
            st.heap[recv.id] = o.replace(segs=())
        elif name == "reverse" and I.static_items(recv, st) is not None:
            st.heap[recv.id] = o.replace(segs=tuple(reversed(o.segs)))
        elif name == "reverse" and all(s.binder is not None for s in o.segs):
            st.heap[recv.id] = o.replace(segs=tuple(
                Seg(s.value, s.guard, s.binder, raw("rev", s.space), s.key)
                for s in reversed(o.segs)))
        elif name == "sort":
            n = bi_sorted(I, st, [recv], kwargs)
            st.heap[recv.id] = o.replace(segs=st.heap[n.id].segs)
        else:
            its = I.static_items(recv, st) if name == "remove" else None
            for i, x in enumerate(its or ()):
                c = I.decide(st, I.truth(N.compare(I, st, "Eq", x, args[0]), st))
                if c is True:
                    st.heap[recv.id] = o.replace(segs=o.segs[:i] + o.segs[i + 1:])
                    return NONE
                if c is None:
                    break
            else:
                if its is not None:
                    I.raise_now("ValueError", st)
            st.heap[recv.id] = o.replace(segs=tuple(N.jumbled(I, st, o.segs)))
        return NONE
    if name == "count":
        c = ZERO
        for s in o.segs:
            e = I.truth(N.compare(I, st, "Eq", s.value, args[0]), st)
            if s.guard is not None:
                e = mk("and", s.guard, e)
            c = mk("add", c, mk("ite", e, ONE, ZERO) if s.binder is None else tm.bind(
                "bsum", s.space if isinstance(s.space, T) else raw("nospace"), s.binder,
                mk("ite", e, ONE, ZERO)))
        return c
    if name == "index" and len(args) == 1 and len(o.segs) == 1 and o.segs[0].binder is not None:
        s = o.segs[0]
        sp = N.guarded_space(s)
        e = I.truth(N.compare(I, st, "Eq", s.value, args[0]), st)
        if N.direct(sp):
            return raw("firstof", raw("filt", sp, tm.bind("lam", raw("nospace"), s.binder, e)))
    if name in ("copy", "__copy__"):
        return N.from_segs(I, st, o.segs, o.kind)
    if name == "__iter__":
        return siter(I, st, I.seq(recv, st))
    if name == "__len__":
        return I.length(recv, st)
    if name == "__getitem__":
        return I.getitem(recv, args[0], st)
    if name == "__setitem__":
        return I.setitem(recv, args[0], args[1], st)
    if name == "__contains__":
        return N.contains(I, st, recv, args[0])
    return raw("call", "list." + name, I.term(recv, st), *[
        I.term(a, st) for a in args])


def seg_key(I, st, s):
    return I.seg_term(Seg(s.value, s.guard, s.binder, s.space), st)


def dedupe(I, st, segs):
    """Without static elements which are there already.  Other repetitions
    stay, and are left out wherever a set is read."""
    out = []
    for s in segs:
        if s.binder is None and any(e.binder is None and e.guard is None and _N().same_key(
                e.value, s.value) is True for e in out):
            continue
        out.append(s)
    return out


def set_method(I, st, recv, o, name, args, kwargs):
    N = _N()
    if name in ("add", "update", "discard", "remove", "pop", "clear",
                "intersection_update", "difference_update",
                "symmetric_difference_update"):
        N.note_mut(I, st, recv, o, name)
    if name == "add":
        st.heap[recv.id] = o.replace(segs=tuple(dedupe(
            I, st, o.segs + (Seg(args[0]),))))
        return NONE
    if name in ("update", "union"):
        segs = list(o.segs)
        for a in args:
            segs += N.to_segs(I, st, a)
        segs = tuple(dedupe(I, st, segs))
        if name == "update":
            st.heap[recv.id] = st.heap[recv.id].replace(segs=segs)
            return NONE
        return N.from_segs(I, st, segs, "set")
    if name in ("intersection", "difference", "intersection_update",
                "difference_update"):
        out = list(o.segs)
        for a in args:
            nxt = []
            if not _isref(I, st, a, ListO) and not isinstance(a, Tup):
                a = N.from_segs(I, st, N.to_segs(I, st, a), "set")
            for s in out:
                c = I.truth(N.contains(I, st, a, s.value), st)
                if name.startswith("difference"):
                    c = mk("not", c)
                d = I.decide(st, c)
                if d is False:
                    continue
                nxt.append(Seg(s.value, s.guard if d else I.conj(c, s.guard),
                               s.binder, s.space))
            out = nxt
        if name.endswith("_update"):
            st.heap[recv.id] = o.replace(segs=tuple(out))
            return NONE
        return N.from_segs(I, st, out, "set")
    if name in ("issubset", "issuperset", "isdisjoint"):
        a, b = recv, args[0]
        if name == "issuperset":
            a, b = b, a
        if not _isref(I, st, b, ListO) and not isinstance(b, Tup):
            b = N.from_segs(I, st, N.to_segs(I, st, b), "set")
        c = TRUE
        for s in N.to_segs(I, st, a):
            m = I.truth(N.contains(I, st, b, s.value), st)
            if name == "isdisjoint":
                m = mk("not", m)
            if s.guard is not None:
                m = mk("or", mk("not", s.guard), m)
            if s.binder is not None:
                m = tm.bind("ball", s.space if isinstance(s.space, T)
                            else raw("nospace"), s.binder, m)
            c = mk("and", c, m)
        return c
    if name in ("discard", "remove"):
        segs = []
        for s in o.segs:
            r = N.same_key(s.value, args[0]) if s.binder is None else None
            if r is True:
                continue
            if r is False:
                segs.append(s)
            else:
                c = mk("not", I.truth(N.compare(I, st, "Eq", s.value, args[0]),
                                      st))
                segs.append(Seg(s.value, I.conj(c, s.guard), s.binder, s.space))
        st.heap[recv.id] = o.replace(segs=tuple(segs))
        return NONE
    if name == "clear":
        st.heap[recv.id] = o.replace(segs=())
        return NONE
    if name in ("copy", "__copy__"):
        return N.from_segs(I, st, o.segs, "set")
    if name == "pop":
        its = I.static_items(recv, st)
        if its is not None and len(its) == 1:
            st.heap[recv.id] = o.replace(segs=())
            return its[0]
        return I.unknown("set pop", I.reach(st, recv))
    if name == "__contains__":
        return N.contains(I, st, recv, args[0])
    if name == "__iter__":
        return siter(I, st, I.seq(recv, st))
    if name == "__len__":
        return I.length(recv, st)
    return raw("call", "set." + name, I.term(recv, st), *[
        I.term(a, st) for a in args])


def dict_method(I, st, recv, o, name, args, kwargs):
    N = _N()
    if name == "keys":
        return N.from_segs(I, st, N.dict_keys(I, st, o), KEYS)
    if name == "values":
        return N.from_segs(I, st, N.dict_items(I, st, recv, o, lambda k, v: v))
    if name == "items":
        return N.from_segs(I, st, N.dict_items(I, st, recv, o, lambda k, v: Tup([k, v])))
    if name in ("get", "setdefault"):
        d = _arg(args, kwargs, 1, "default", NONE)
        k = args[0]
        v = N.dict_get(I, st, recv, k)
        exact = any(s.binder is None and s.guard is None and
                    N.same_key(s.key, k) is True for s in o.segs)
        if v is None:
            if name == "setdefault":
                N.dict_set(I, st, recv, k, d)
            return d
        if exact:
            return v
        c = I.truth(N.contains(I, st, recv, k), st)
        if name == "setdefault":
            N.dict_set(I, st, recv, k, I.merge(c, v, d))
        return I.merge(c, v, d)
    if name == "pop":
        d = _arg(args, kwargs, 1, "default")
        return N.dict_pop(I, st, recv, args[0], d)
    if name == "update":
        if args:
            N.dict_update(I, st, recv, args[0])
        for k, v in kwargs.items():
            if k != "**":
                N.dict_set(I, st, recv, const(k), v)
        return NONE
    if name in ("copy", "__copy__"):
        return I.alloc(st, o.replace(origin=frozenset(), owner=None))
    if name == "clear":
        N.note_mut(I, st, recv, o, name)
        st.heap[recv.id] = o.replace(segs=())
        N.sync_owner(I, st, recv)
        return NONE
    if name == "popitem" and o.owner is not None:
        return I.unknown("popitem of __dict__", I.reach(st, recv))
    if name == "popitem":
        N.note_mut(I, st, recv, o, name)
        its = list(o.segs)
        last = _arg(args, kwargs, 0, "last", TRUE)
        if its and all(s.binder is None and s.guard is None for s in its):
            s = its.pop(-1 if last is TRUE else 0)
            st.heap[recv.id] = o.replace(segs=tuple(its))
            return Tup([s.key, s.value])
        if not its:
            I.raise_now("KeyError", st)
        return I.unknown("popitem", I.reach(st, recv))
    if name == "move_to_end":
        N.note_mut(I, st, recv, o, name)
        last = _arg(args, kwargs, 1, "last", TRUE)
        hit = [s for s in o.segs if s.binder is None and N.same_key(s.key, args[0]) is True]
        if last not in (TRUE, FALSE) or len(hit) != 1 or any(
                s.binder is not None or N.same_key(s.key, args[0]) is None for s in o.segs):
            return I.unknown("move_to_end", I.reach(st, recv))
        rest = tuple(s for s in o.segs if s is not hit[0])
        st.heap[recv.id] = o.replace(segs=rest + tuple(hit) if last is TRUE else
                                     tuple(hit) + rest)
        return NONE
    if name == "__contains__":
        return N.contains(I, st, recv, args[0])
    if name == "__iter__":
        return siter(I, st, I.seq(recv, st))
    if name == "__len__":
        return I.length(recv, st)
    if name == "__getitem__":
        return I.getitem(recv, args[0], st)
    if name == "__setitem__":
        return I.setitem(recv, args[0], args[1], st)
    if name == "__delitem__":
        return I.delitem(recv, args[0], st)
    return raw("call", "dict." + name, I.term(recv, st), *[
        I.term(a, st) for a in args])


def fastjet_method(I, st, t, name, args, kwargs):
    """The jets of a fastjet.ClusterSequence and their constituents."""
    if t.op != "call" or kwargs.keys() - {"min_pt"}:
        return None
    if t.args[0] == "fastjet.ClusterSequence" and len(args) + len(kwargs) < 2:
        pt = I.term(args[0] if args else kwargs.get("min_pt", ZERO), st)
        if name == "inclusive_jets":
            return I.alloc(st, ExtO("ext", raw("call", "fastjet.jets", t, pt), {}))
        if name == "constituent_index":
            return I.new_arr(st, raw("fj_cons", t, pt))
    if t.args[0] == "fastjet.jets" and name == "to_numpy" and not args:
        f = ("px", "py", "pz", "E")
        return I.new_arr(st, raw("struct", f, *[raw(
            "fj_col", t.args[1], t.args[2], const(q)) for q in f]), DT(
                "struct", tuple((q, "f8") for q in f)))
    return None


def ext_method(I, st, recv, o, name, args, kwargs):
    N = _N()
    if o.kind == "rng":
        return rng_method(I, st, recv, o, name, args, kwargs)
    if o.kind == "coo":
        return coo_method(I, st, recv, o, name, args, kwargs)
    if o.kind == "counter":
        n = o.fields["n"]
    if o.kind == "ext" and name == "properties" and o.term.op == "call" and \
            o.term.args[0] == "mcpid.lookup.PdgRecords":
        r = pdg_properties(I, st, args, kwargs)
        if r is not None:
            return r
    if o.kind == "ext":
        r = fastjet_method(I, st, o.term, name, args, kwargs)
        if r is not None:
            return r
    roots = I.reach(st, *args)
    if o.origin and name in MUT_METHODS:
        I.event("write", o.origin, "opaque." + name, st, recv.id)
    ts = [I.term(a, st) for a in args]
    t = raw("call", "." + name, o.term, *ts, *[
        raw("kw", k, I.term(v, st)) for k, v in sorted(kwargs.items())])
    if name in ("to_numpy", "todense", "toarray"):
        return I.new_arr(st, t)
    return I.alloc(st, ExtO("ext", t, {}))


PDG_FIELDS = {"name": "str", "latex": "str", "quarks": "str"}


def pdg_properties(I, st, args, kwargs):
    """mcpid: a fresh record array, one record per code, in order."""
    N = _N()
    names = I.static_items(_arg(args, kwargs, 1, "props"), st)
    if names is None or not all(isinstance(n, T) and n.op == "const" and
                                isinstance(n.args[0], str) for n in names):
        return None
    names = tuple(n.args[0] for n in names)
    ids = N.val(I, st, _arg(args, kwargs, 0, "pdgs"))
    return I.new_arr(st, raw("struct", names, *[
        mk("prop", n, ids) for n in names]), DT("struct", tuple(
            (n, PDG_FIELDS.get(n, "f8")) for n in names)))


MUT_METHODS = {"append", "extend", "update", "pop", "clear", "insert",
               "remove", "sort", "reverse", "add", "setdefault", "popitem"}


def rng_method(I, st, recv, o, name, args, kwargs):
    N = _N()
    n = o.fields.get("count", ZERO)
    f = dict(o.fields)
    f["count"] = const(_cint(n) + 1 if _cint(n) is not None else -1)
    st.heap[recv.id] = o.replace(fields=f)
    size = None
    lo, hi = None, None
    if name == "random":
        size = _arg(args, kwargs, 0, "size")
    elif name == "uniform":
        lo, hi = _arg(args, kwargs, 0, "low", F0), _arg(args, kwargs, 1,
                                                        "high", const(1.0))
        size = _arg(args, kwargs, 2, "size")
    else:
        return I.new_arr(st, raw("call", "rng." + name, o.term, n, *[
            I.term(a, st) for a in args]))
    r = None
    if (size is None or size is NONE) and lo is not None:
        for v in (lo, hi):              # one draw for each element of the bounds
            t = N.val(I, st, v)
            if isinstance(t, T) and tm.rank(t) == 1:
                sp = tm.space(t)
                size = I.space_len(sp) if sp is not None else raw("dim", t, ZERO)
    if size is None or size is NONE:
        r = raw("rand0", o.term, n)
        base = [r]
    elif isinstance(size, Tup) and len(size.items) == 2 and _cint(
            size.items[1]) is not None:
        k = _cint(size.items[1])
        r = raw("cols", *[raw("rand1", o.term, n, const(j),
                              N.val(I, st, size.items[0])) for j in range(k)])
    elif isinstance(size, Tup) and len(size.items) == 2 and _cint(
            size.items[0]) is not None:
        k = _cint(size.items[0])
        r = raw("stackrows", *[raw("rand1", o.term, n, const(j),
                                   N.val(I, st, size.items[1]))
                               for j in range(k)])
    else:
        s = size.items[0] if isinstance(size, Tup) and len(
            size.items) == 1 else size
        r = raw("rand1", o.term, n, ZERO, N.val(I, st, s))
    if lo is not None:
        lo, hi = N.val(I, st, lo), N.val(I, st, hi)
        r = N.ew("add", lo, N.ew("mul", N.ew("sub", hi, lo), r))
    return N.wrap(I, st, r)


def coo_method(I, st, recv, o, name, args, kwargs):
    f = o.fields
    if sparse.full(o):
        r = sparse.method(I, st, recv, o, name, args, kwargs)
        if r is not None:
            return r
        return I.unknown("sparse method %s" % name, I.reach(st, recv))
    if name == "setdiag":
        f = dict(f)
        f["diag"] = args[0]
        st.heap[recv.id] = o.replace(fields=f, term=raw(
            "setdiag", o.term, I.term(args[0], st)))
        if o.origin:
            I.event("write", o.origin, "sparse.setdiag", st, recv.id)
        return NONE
    if name == "sum_duplicates":
        if o.origin:
            I.event("write", o.origin, "sparse.sum_duplicates", st, recv.id)
        st.heap[recv.id] = o.replace(term=raw("sumdup", o.term))
        return NONE
    if name in ("todense", "toarray"):
        return I.new_arr(st, raw("dense", o.term))
    if name == "copy":
        return I.alloc(st, o.replace(origin=frozenset()))
    if name in ("tocsr", "tocoo", "tocsc"):
        g = dict(f)
        g["fmt"] = const(name[2:])
        return I.alloc(st, ExtO("coo", raw("call", "." + name, o.term), g))
    t = raw("call", "." + name, o.term, *[I.term(a, st) for a in args])
    if name in ("sum", "diagonal", "max", "min"):
        return I.new_arr(st, t)
    return I.alloc(st, ExtO("coo", t, dict(f)))


# ---------------------------------------------------------------- builtins
def bi_len(I, st, a, k):
    return I.length(a[0], st)


def bi_range(I, st, a, k):
    N = _N()
    ts = [N.val(I, st, x) for x in a]
    if len(ts) == 1:
        lo, hi, step = ZERO, ts[0], ONE
    elif len(ts) == 2:
        lo, hi, step = ts[0], ts[1], ONE
    else:
        lo, hi, step = ts
    c = [_cint(x) for x in (lo, hi, step)]
    if None not in c and len(range(*c)) <= 512:
        return I.alloc(st, ListO([Seg(const(i)) for i in range(*c)],
                                 kind="range"))
    b = tm.fresh_binder()
    if lo is ZERO and step is ONE and hi.op == "rows_n":
        return I.alloc(st, ListO([Seg(b, None, b, hi.args[0])], kind="range"))
    return I.alloc(st, ListO([Seg(b, None, b, raw("range", lo, hi, step))],
                             kind="range"))


def bi_map(I, st, a, k):
    qs = [I.seq(x, st) for x in a[1:]]
    f = a[0]
    if len(qs) == 1:
        q = qs[0]
        return siter(I, st, smap_now(I, st, q,
                                     lambda x, s: I.call(f, [x], {}, s)))
    z = szip(I, st, qs)
    return siter(I, st, smap_now(
        I, st, z, lambda x, s: I.call(
            f, list(x.items) if isinstance(x, Tup) else [x] * len(qs), {}, s)))


def bi_starmap(I, st, a, k):
    f = a[0]

    def one(x, s):
        if isinstance(x, Tup):
            return I.call(f, list(x.items), {}, s)
        its = None
        if isinstance(x, Ref):
            its = I.static_items(x, s)
        if isinstance(x, T) and x.op in ("row", "tuple"):
            its = list(x.args)
        if its is not None:
            return I.call(f, its, {}, s)
        return I.call(f, [_I().StarV(x)], {}, s)
    return siter(I, st, smap_now(I, st, I.seq(a[1], st), one))


def bi_filter(I, st, a, k):
    f = a[0]
    if f is NONE:
        pred = lambda x, s: I.truth(x, s)  # noqa
    else:
        pred = lambda x, s: I.truth(I.call(f, [x], {}, s), s)  # noqa
    return siter(I, st, s_filter(I, st, I.seq(a[1], st), pred))


def bi_filterfalse(I, st, a, k):
    f = a[0]
    if f is NONE:
        pred = lambda x, s: mk("not", I.truth(x, s))  # noqa
    else:
        pred = lambda x, s: mk("not", I.truth(I.call(f, [x], {}, s), s))  # noqa
    return siter(I, st, s_filter(I, st, I.seq(a[1], st), pred))


def bi_zip(I, st, a, k):
    SV = _I().StarV
    if len(a) == 1 and isinstance(a[0], SV):
        # transposition
        segs = _N().to_segs(I, st, a[0].v)
        if len(segs) == 1 and isinstance(segs[0].value, Tup):
            s = segs[0]
            return siter(I, st, SStatic([
                _N().from_segs(I, st, [Seg(x, s.guard, s.binder, s.space)],
                               "tuple") for x in s.value.items]))
        return I.unknown("zip(*)", I.reach(st, a[0].v))
    return siter(I, st, szip(I, st, [I.seq(x, st) for x in a]))


def bi_enumerate(I, st, a, k):
    start = _arg(a, k, 1, "start", ZERO)
    q = I.seq(a[0], st)
    N = _N()
    its = I.flat_static(q)
    if its is not None:
        return siter(I, st, SStatic([
            Tup([N.binop(I, st, "add", const(i), start) if start is not ZERO
                 else const(i), x]) for i, x in enumerate(its)]))
    if isinstance(q, SGen):
        def get(i, s):
            p = i
            if not N.direct(q.space):
                p = raw("posn", q.space, i)
            return Tup([p if start is ZERO else mk("add", p, N.val(I, s, start)),
                        q.get(i, s)])
        return siter(I, st, SGen(q.space, get, q.binder))
    if isinstance(q, (SCat, SPhi)):
        return siter(I, st, szip(I, st, [SInf(
            lambda i, s: i if start is ZERO else mk("add", i, N.val(I, s, start))), q]))
    return siter(I, st, SUnk(getattr(q, "roots", frozenset()), "enumerate"))


def bi_reversed(I, st, a, k):
    o = st.heap.get(a[0].id) if isinstance(a[0], Ref) else None
    if isinstance(o, InstO):
        m = o.cls.lookup("__reversed__")
        if m is not None:
            return I.call(BoundM(m, a[0]), [], {}, st)
    q = I.seq(a[0], st)
    its = I.flat_static(q)
    if its is not None:
        return siter(I, st, SStatic(list(reversed(its))))
    if isinstance(q, SGen):
        sp = q.space
        if sp.op == "range" and sp.args[2] is ONE:
            lo, hi, _ = sp.args
            return siter(I, st, SGen(raw(
                "range", mk("sub", hi, ONE), mk("sub", lo, ONE), const(-1)),
                q.get, q.binder))
        return siter(I, st, SGen(raw("rev", sp), q.get, q.binder))
    return siter(I, st, SUnk(getattr(q, "roots", frozenset()), "reversed"))


def bi_sorted(I, st, a, k):
    N = _N()
    segs = N.to_segs(I, st, a[0])
    vals = [s.value for s in segs]
    key = k.get("key", NONE)
    rev = k.get("reverse", FALSE)
    if all(s.binder is None and s.guard is None for s in segs):
        ks = [v if key is NONE else I.call(key, [v], {}, st) for v in vals]
        if all(isinstance(x, T) and x.op == "const" for x in ks) and isinstance(
                rev, T) and rev.op == "const":
            try:
                order = sorted(range(len(vals)), key=lambda i: ks[i].args[0],
                               reverse=bool(rev.args[0]))
                return I.new_list(st, [vals[i] for i in order])
            except TypeError:
                pass
        if len(vals) <= 1:
            return I.new_list(st, vals)
        pre = [x.items[0] if isinstance(x, Tup) and x.items else None for x in ks]
        if all(isinstance(x, T) and x.op == "const" for x in pre) and isinstance(
                rev, T) and rev.op == "const":
            cs = [x.args[0] for x in pre]
            try:
                if len(set(cs)) == len(cs):     # decided by the first components
                    order = sorted(range(len(vals)), key=lambda i: cs[i],
                                   reverse=bool(rev.args[0]))
                    return I.new_list(st, [vals[i] for i in order])
            except TypeError:
                pass
    if len(segs) == 1 and segs[0].binder is not None:
        s = segs[0]
        I.active_binders.append(s.binder)
        try:
            v = s.value if key is NONE else I.call(key, [s.value], {}, st)
            kt = I.term(v, st)
        finally:
            I.active_binders.pop()
        return N.from_segs(I, st, [Seg(s.value, None, s.binder, raw(
            "sortedspace", N.guarded_space(s), tm.bind("lam", raw("nospace"), s.binder, kt),
            I.truth(rev, st) if isinstance(rev, T) else raw("nospace")), s.key)])
    out = [Seg(s.value, s.guard, s.binder or tm.fresh_binder(),
               raw("sortedspace", s.space if isinstance(s.space, T)
                   else raw("one"), I.term(key, st), I.term(rev, st)), s.key)
           for s in segs]
    return N.from_segs(I, st, out)


def bi_set(I, st, a, k):
    N = _N()
    segs = N.to_segs(I, st, a[0]) if a else []
    return N.from_segs(I, st, dedupe(I, st, segs), "set")


def bi_list(I, st, a, k):
    N = _N()
    return N.from_segs(I, st, N.to_segs(I, st, a[0]) if a else [])


def bi_tuple(I, st, a, k):
    N = _N()
    if not a:
        return Tup([])
    if isinstance(a[0], Tup) and a[0].cls is None:
        return a[0]
    if isinstance(a[0], T) and a[0].op == "tuple":
        return a[0]
    if isinstance(a[0], T) and a[0].op == "sym" and tm.props(a[0]).get("tuple"):
        return a[0]
    segs = N.to_segs(I, st, a[0])
    if all(s.binder is None and s.guard is None for s in segs):
        return Tup([s.value for s in segs])
    return N.from_segs(I, st, segs, "tuple")


def bi_dict(I, st, a, k):
    N = _N()
    d = I.alloc(st, DictO([]))
    if a:
        N.dict_update(I, st, d, a[0])
    for n, v in k.items():
        if n == "**":
            N.dict_update(I, st, d, v)
        else:
            N.dict_set(I, st, d, const(n), v)
    return d


def bi_sum(I, st, a, k):
    N = _N()
    start = _arg(a, k, 1, "start", ZERO)
    segs = N.to_segs(I, st, a[0])
    total = start
    for s in segs:
        if s.binder is None and s.guard is None:
            total = s.value if total is ZERO else N.binop(
                I, st, "add", total, s.value)
            continue
        if isinstance(s.value, Unk):
            return I.unknown("sum", I.reach(st, s.value))
        t = N.val(I, st, s.value)
        if rank(t) == 0:
            if kind(t) == "b1":
                t = mk("ite", t, ONE, ZERO)
            if s.guard is not None:
                t = mk("ite", s.guard, t, ZERO)
            if s.binder is not None:
                t = tm.bind("bsum", s.space if isinstance(s.space, T)
                            else raw("nospace"), s.binder, t)
            total = t if total is ZERO else N.binop(I, st, "add", total, t)
        else:
            return I.unknown("sum of arrays", I.reach(st, s.value))
    return total


def _quant(red, zero):
    def f(I, st, a, k):
        N = _N()
        if I.is_arr(st, a[0]) or isinstance(a[0], T):
            t = N.val(I, st, a[0])
            if rank(t) == 1:
                return reduce_term(red, t)
        segs = N.to_segs(I, st, a[0])
        total = zero
        for s in segs:
            t = I.truth(s.value, st)
            if s.guard is not None:
                t = mk("and", s.guard, t) if red == "bany" else mk(
                    "or", mk("not", s.guard), t)
            if s.binder is not None:
                t = tm.bind(red, s.space if isinstance(s.space, T)
                            else raw("nospace"), s.binder, t)
            total = mk(RED_BIN[red], total, t)
        return total
    return f


def _extremum(red):
    def f(I, st, a, k):
        N = _N()
        key = k.get("key", NONE)
        segs = [Seg(x) for x in a] if len(a) > 1 else N.to_segs(I, st, a[0])
        if any(isinstance(s.value, Unk) for s in segs):
            return I.unknown("extremum")
        if key is not NONE:
            ks = []
            for s in segs:
                ks.append(Seg(I.call(key, [s.value], {}, st), s.guard,
                              s.binder, s.space))
            if all(s.binder is None and s.guard is None for s in segs) and segs:
                best, bk = segs[0].value, N.val(I, st, ks[0].value)
                for s, q in zip(segs[1:], ks[1:]):
                    qv = N.val(I, st, q.value)
                    c = mk("gt" if red == "bmax" else "lt", qv, bk)
                    best = I.merge(c, s.value, best)
                    bk = mk("ite", c, qv, bk)
                return best
            if len(segs) == 1 and segs[0].guard is None and isinstance(
                    segs[0].space, T):
                s = segs[0]
                kt = N.lam1(s.space, s.binder, N.val(I, st, ks[0].value))
                idx = raw("argmax0" if red == "bmax" else "argmin0", kt)
                return I.rename(s.value, s.binder, idx, st)
            return I.unknown("extremum by key", I.reach(
                st, *[s.value for s in segs]))
        d = k.get("default")
        if not segs:
            if d is not None:
                return d
            I.raise_now("ValueError", st)
        ts = [N.val(I, st, s.value) for s in segs]
        if any((rank(t) or 0) > 0 for t in ts):
            return I.unknown("extremum of arrays")
        r = seg_fold(I, st, segs, red, None)
        if d is not None and isinstance(d, T) and all(
                s.binder is not None or s.guard is not None for s in segs):
            n = I.list_len(ListO(segs), st)
            r = mk("ite", mk("gt", n, ZERO), r, d)
        return r
    return f


def N_made(i):
    return _N().interp().MADE.get(i, ())


def occurrence(I, key):
    """How many earlier elements of the current enumeration have the key."""
    sps = _N().interp().SPACES
    bs = [b for b in I.active_binders if b in sps and sps[b].op != "nospace"]
    if bs and bs[-1] in tm.tvars(key):
        return raw("occ", key, tm.bind("lam", raw("nospace"), bs[-1], key), sps[bs[-1]], bs[-1])
    return raw("occ", key)


def bi_next(I, st, a, k):
    it = I.norm(st, a[0])
    d = a[1] if len(a) > 1 else None
    o = st.heap.get(it.id) if isinstance(it, Ref) else None
    if isinstance(o, ExtO) and o.kind == "counter":
        n = o.fields["n"]
        f = dict(o.fields)
        f["n"] = _N().binop(I, st, "add", n, f["step"])
        st.heap[it.id] = o.replace(fields=f)
        return n
    if not isinstance(o, IterO):
        return I.unknown("next", I.reach(st, it))
    if I.active_binders and I.active_binders[-1] not in N_made(it.id):
        return I.unknown("next element in a generic iteration", I.reach(st, it))
    q = o.seq
    if o.consumed:
        if d is not None:
            return d
        I.raise_now("StopIteration", st)
    if isinstance(q, SStatic):
        if q.items:
            v = q.items[0]
            st.heap[it.id] = o.replace(seq=SStatic(q.items[1:]))
            return v
        if d is not None:
            return d
        I.raise_now("StopIteration", st)
    if isinstance(q, SCat) and q.parts:
        p = q.parts[0]
        if isinstance(p, SStatic):
            if not p.items:
                st.heap[it.id] = o.replace(seq=SCat(q.parts[1:]))
                return bi_next(I, st, a, k)
            v = p.items[0]
            st.heap[it.id] = o.replace(seq=SCat([SStatic(p.items[1:])] +
                                                q.parts[1:]))
            return v
    if isinstance(q, SGen):
        # first element
        sp = q.space
        if sp.op == "maybe":
            if d is not None:
                return I.merge(sp.args[0], q.get(ZERO, st), d)
            return q.get(ZERO, st)
        first = ZERO if _N().direct(sp) else raw("firstof", sp)
        v = q.get(first, st)
        if first is ZERO:
            nsp = raw("tailspace", sp)
            q2 = SGen(nsp, lambda i, s: q.get(mk("add", i, ONE), s))
        else:
            q2 = SGen(raw("part", sp, raw("slice", ONE, NONE, NONE)), q.get)
        st.heap[it.id] = o.replace(seq=q2)
        if d is not None:
            n = I.space_len(sp) if sp.op not in ("filt",) else raw("rows_n", sp)
            return I.merge(mk("gt", n, ZERO), v, d)
        return v
    if isinstance(q, SOcc):
        return q.q.get(occurrence(I, q.key), st)
    if isinstance(q, SInf):
        v = q.get(ZERO, st)
        st.heap[it.id] = o.replace(seq=SInf(
            lambda i, s: q.get(mk("add", i, ONE), s)))
        return v
    if d is not None:
        segs = _N().seq_segs(I, st, q)
        if segs and all(s.binder is None for s in segs):
            v = d
            for s in reversed(segs):
                v = s.value if s.guard is None else I.merge(s.guard, s.value, v)
            st.heap[it.id] = o.replace(seq=SUnk(frozenset(), "rest of a filtered sequence"))
            return v
    return I.unknown("next", getattr(q, "roots", frozenset()))


def bi_iter(I, st, a, k):
    v = I.norm(st, a[0])
    if _isref(I, st, v, IterO):
        return v
    o = st.heap.get(v.id) if isinstance(v, Ref) else None
    if isinstance(o, InstO):
        m = o.cls.lookup("__iter__")
        if m is not None:
            return I.call(BoundM(m, v), [], {}, st)
    return siter(I, st, I.seq(v, st))


def bi_getattr(I, st, a, k):
    nm = a[1]
    if not (isinstance(nm, T) and nm.op == "const" and isinstance(
            nm.args[0], str)):
        o = I.norm(st, a[0])
        return I.unknown("dynamic attribute", I.reach(st, o))
    name = nm.args[0]
    o = I.norm(st, a[0])
    if len(a) > 2:
        h = has_attr(I, st, o, name)
        if h is FALSE:
            return a[2]
    return I.getattr(o, name, st)


def has_attr(I, st, o, name):
    o = I.norm(st, o)
    if isinstance(o, Ref):
        h = st.heap.get(o.id)
        if isinstance(h, InstO):
            if name in h.cache or name in h.fields:
                return TRUE
            if h.cls.lookup(name) is not None:
                return TRUE
            if _N().mixin_attr(I, st, o, h, name, h.cls.all_ext()) is not None:
                return TRUE
            return FALSE
        if isinstance(h, Arr):
            return const(hasattr_nd(name))
        if isinstance(h, (ListO, DictO)):
            base = {"set": set, "tuple": tuple}.get(
                getattr(h, "kind", ""), list) if isinstance(h, ListO) else dict
            return const(hasattr(base, name))
        if isinstance(h, ExtO):
            if name in h.fields:
                return TRUE
            if "%closed" in h.fields:
                return FALSE
        return _unk("hasattr")
    if isinstance(o, Tup):
        if o.cls is not None and any(f.name == name for f in o.cls.fields):
            return TRUE
        return const(hasattr(tuple, name))
    if isinstance(o, T):
        if o.op == "const":
            return const(hasattr(o.args[0], name))
        if kind(o) == "str":
            return const(hasattr("", name))
        if (rank(o) or 0) >= 1:
            return const(hasattr_nd(name))
        return raw("isinstance", o, "hasattr:" + name)
    if isinstance(o, ClsV):
        return const(o.info.lookup(name) is not None)
    return _unk("hasattr")


ND_ATTRS = set("""T all any argmax argmin argpartition argsort astype base
byteswap choose clip compress conj conjugate copy ctypes cumprod cumsum data
diagonal dot dtype dump dumps fill flags flat flatten getfield imag item
itemsize max mean min nbytes ndim nonzero partition prod put ravel real repeat
reshape resize round searchsorted setfield setflags shape size sort squeeze
std strides sum swapaxes take tobytes tofile tolist trace transpose var view
__array__ __len__ __iter__ __getitem__ __array_ufunc__""".split())


def hasattr_nd(name):
    return name in ND_ATTRS


def bi_hasattr(I, st, a, k):
    nm = a[1]
    if isinstance(nm, T) and nm.op == "const":
        o = I.norm(st, a[0])
        if isinstance(o, Phi):
            return I.on_phi(o, st, lambda x, s: bi_hasattr(I, s, [x, nm], k))
        r = has_attr(I, st, o, nm.args[0])
        if r is TRUE and I.is_inst(st, o):
            p = st.heap[o.id].cls.lookup(nm.args[0])
            if isinstance(p, PropV_()):
                I.getattr(o, nm.args[0], st)
        return r
    return _unk("hasattr")


def bi_setattr(I, st, a, k):
    nm = a[1]
    if isinstance(nm, T) and nm.op == "const":
        I.setattr(a[0], nm.args[0], a[2], st)
    else:
        I.event("unknown-write", set(), "setattr", st, I.reach(st, a[0]))
    return NONE


def bi_delattr(I, st, a, k):
    nm = a[1]
    if isinstance(nm, T) and nm.op == "const":
        I.delattr(a[0], nm.args[0], st)
    else:
        I.event("unknown-write", set(), "delattr", st, I.reach(st, a[0]))
    return NONE


def bi_vars(I, st, a, k):
    if a and I.is_inst(st, a[0]):
        return I.getattr(a[0], "__dict__", st)
    return I.unknown("vars")


def bi_isinstance(I, st, a, k):
    return isinstance_(I, st, a[0], a[1])


def bi_issubclass(I, st, a, k):
    if isinstance(a[0], ClsV) and isinstance(a[1], ClsV):
        return const(a[0].info.is_sub(a[1].info))
    x, y = np_class(a[0]), np_class(a[1])
    if x is not None and y is not None:
        return const(issubclass(x, y))
    return _unk("issubclass")


def bi_type(I, st, a, k):
    return type_of(I, st, a[0])


def bi_callable(I, st, a, k):
    v = I.norm(st, a[0])
    if isinstance(v, (Fn, BoundM, Part, Getter, ClsV, Ext, Meth)):
        return TRUE
    if isinstance(v, T) and v.op == "sym" and tm.props(v).get("callback"):
        return TRUE
    if isinstance(v, T):
        return FALSE
    return _unk("callable")


def bi_int(I, st, a, k):
    if not a:
        return ZERO
    t = _num1(I, st, a[0])
    if t.op == "const" and isinstance(t.args[0], (int, float, str)):
        try:
            return const(int(t.args[0]))
        except (ValueError, OverflowError):
            return _unk("int")
    if kind(t) == "int":
        return t
    if kind(t) == "b1":
        return mk("ite", t, ONE, ZERO)
    return mk("cast_int", t)


def _num1(I, st, v):
    N = _N()
    v = I.norm(st, v)
    t = N.val(I, st, v)
    if t.op == "np_":
        t = t.args[0]
    if (rank(t) or 0) > 0:
        t = mk("item", t)
    return t


def bi_float(I, st, a, k):
    if not a:
        return F0
    t = _num1(I, st, a[0])
    if t.op == "const" and isinstance(t.args[0], (int, float, str)):
        try:
            return const(float(t.args[0]))
        except ValueError:
            return _unk("float")
    if kind(t) in ("f8",):
        return t
    if kind(t) == "b1":
        return mk("ite", t, const(1.0), F0)
    return mk("f8", t)


def bi_complex(I, st, a, k):
    x = _num1(I, st, _arg(a, k, 0, "real", F0))
    y = _arg(a, k, 1, "imag")
    if y is None:
        return x if kind(x) == "c16" else mk("complex", x, F0)
    y = _num1(I, st, y)
    return mk("complex", x, y)


def bi_bool(I, st, a, k):
    return I.truth(a[0], st) if a else FALSE


def bi_str(I, st, a, k):
    if not a:
        return const("")
    v = I.norm(st, a[0])
    if isinstance(v, T) and v.op == "const" and isinstance(
            v.args[0], (str, int, bool)):
        return const(str(v.args[0]))
    if isinstance(v, T) and kind(v) == "str" and rank(v) == 0:
        return v
    if isinstance(v, Unk):
        return raw("fmt", _unk("str"))
    return raw("fmt", I.term(v, st))


def bi_abs(I, st, a, k):
    N = _N()
    v = I.norm(st, a[0])
    if uinst(I, st, [v]) is not None:
        return ufunc_call(I, st, "numpy.absolute", [v], {})
    if isinstance(v, Unk):
        return I.unknown("abs")
    return N.wrap(I, st, N.ew("abs", N.val(I, st, v)))


def bi_round(I, st, a, k):
    N = _N()
    return N.wrap(I, st, raw("round", *[N.val(I, st, x) for x in a]))


def bi_pow(I, st, a, k):
    return _N().binop(I, st, "pow", a[0], a[1])


def bi_divmod(I, st, a, k):
    N = _N()
    return Tup([N.binop(I, st, "floordiv", a[0], a[1]),
                N.binop(I, st, "mod", a[0], a[1])])


def bi_slice(I, st, a, k):
    a = list(a)
    if len(a) == 1:
        return Slice(NONE, a[0], NONE)
    return Slice(*(a + [NONE] * (3 - len(a))))


def bi_super(I, st, a, k):
    return I.unknown("super")


def bi_print(I, st, a, k):
    return NONE


def bi_id(I, st, a, k):
    return raw("id", I.term(a[0], st))


def bi_hash(I, st, a, k):
    return raw("hash", I.term(a[0], st))


BUILTIN = {
    "len": bi_len, "range": bi_range, "map": bi_map, "filter": bi_filter,
    "zip": bi_zip, "enumerate": bi_enumerate, "reversed": bi_reversed,
    "sorted": bi_sorted, "set": bi_set, "frozenset": bi_set, "list": bi_list,
    "tuple": bi_tuple, "dict": bi_dict, "sum": bi_sum,
    "any": _quant("bany", FALSE), "all": _quant("ball", TRUE),
    "max": _extremum("bmax"), "min": _extremum("bmin"), "next": bi_next,
    "iter": bi_iter, "getattr": bi_getattr, "hasattr": bi_hasattr,
    "setattr": bi_setattr, "delattr": bi_delattr, "vars": bi_vars,
    "isinstance": bi_isinstance, "issubclass": bi_issubclass,
    "type": bi_type, "callable": bi_callable, "int": bi_int,
    "float": bi_float, "complex": bi_complex, "bool": bi_bool, "str": bi_str,
    "repr": bi_str, "abs": bi_abs, "round": bi_round, "pow": bi_pow,
    "divmod": bi_divmod, "slice": bi_slice, "super": bi_super,
    "print": bi_print, "id": bi_id, "hash": bi_hash,
}


from .extlib import ext_call  # noqa: E402,F401
