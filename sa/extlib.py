"""Calls of external functions: numpy, math, itertools, attrs and others."""
import math

from . import terms as tm, sparse
from . import npfuncs as nf
from .npfuncs import (ufunc_call, do_reduce, reduce_term, BUILTIN, ARR_RED,
                      ZERO, ONE, F0, _arg, _cint, _unk, _rng, _isref, siter,
                      smap_now, szip, gsegs, flatten_segs, s_filter, method,
                      np_shape_op, map_method, seq_method, opaque_call,
                      opaque_term, shape_of, uinst)
from .terms import T, const, mk, raw, NONE, TRUE, FALSE, rank, kind, space
from .values import (V, Ref, Tup, Phi, Fn, BoundM, Meth, Part, Getter, ClsV,
                     ModV, Ext, DT, Slice, Unk, AttrsField, FactoryV, EnumV,
                     Buf, Arr, InstO, Seg, ListO, DictO, IterO, ExtO, SStatic,
                     SGen, SCat, SInf, SUnk)


def _N():
    from . import npmodel
    return npmodel


def _I():
    from . import interp
    return interp


UNINIT = raw("sym", "%uninit")

EXC = {"Exception", "ValueError", "TypeError", "KeyError", "IndexError",
       "AttributeError", "RuntimeError", "NotImplementedError",
       "ZeroDivisionError", "StopIteration", "AssertionError",
       "ImportError", "ModuleNotFoundError", "OverflowError",
       "ArithmeticError", "LookupError", "BaseException", "NameError",
       "UserWarning", "RuntimeWarning", "DeprecationWarning",
       "FutureWarning", "Warning", "FloatingPointError", "OSError",
       "UnboundLocalError"}

MATH_EW = {
    "sqrt": "sqrt", "exp": "exp", "log": "log", "sin": "sin", "cos": "cos",
    "tan": "tan", "asin": "arcsin", "acos": "arccos", "atan": "arctan",
    "atan2": "arctan2", "sinh": "sinh", "cosh": "cosh", "tanh": "tanh",
    "asinh": "arcsinh", "acosh": "arccosh", "atanh": "arctanh",
    "expm1": "expm1", "log1p": "log1p", "log10": "log10", "log2": "log2",
    "fabs": "abs", "hypot": "hypot", "copysign": "copysign", "pow": "pow",
    "isnan": "isnan", "isinf": "isinf", "isfinite": "isfinite",
    "fmod": "mod", "cbrt": "cbrt", "radians": "deg2rad",
}

OPERATOR = {
    "add": "add", "sub": "sub", "mul": "mul", "truediv": "div",
    "floordiv": "floordiv", "mod": "mod", "pow": "pow", "and_": "bitand",
    "or_": "bitor", "xor": "bitxor", "matmul": "matmul", "lshift": "lshift",
    "rshift": "rshift", "concat": "add",
}
OPCMP = {"lt": "Lt", "le": "LtE", "gt": "Gt", "ge": "GtE", "eq": "Eq",
         "ne": "NotEq"}


def ext_call(I, st, name, args, kwargs):
    if name[:1] == "@":
        return at_call(I, st, name, args, kwargs)
    N = _N()
    head, _, rest = name.partition(".")
    if any(isinstance(a, Unk) for a in args) and head in (
            "numpy", "math", "cmath"):
        return I.unknown("argument of " + name, I.reach(st, *args))
    if head == "builtins":
        return bi_call(I, st, rest, args, kwargs)
    args = [I.norm(st, a) for a in args]
    kwargs = {k: I.norm(st, v) for k, v in kwargs.items()}
    if head == "numpy":
        return np_call(I, st, name, args, kwargs)
    if head in ("math", "cmath"):
        return math_call(I, st, name, rest, args, kwargs)
    f = TABLE.get(name)
    if f is not None:
        return f(I, st, args, kwargs)
    if head == "operator":
        return op_call(I, st, rest, args, kwargs)
    if head == "numba":
        return nb_call(I, st, name, args, kwargs)
    if head in ("attr", "attrs"):
        return attr_call(I, st, rest, args, kwargs)
    if head == "warnings" and rest in ("filterwarnings", "simplefilter") and args:
        a0 = args[0]
        I.warn_mode = a0.args[0] if isinstance(a0, T) and a0.op == "const" else "other"
        return NONE
    if head == "warnings" and rest == "resetwarnings":
        I.warn_mode = None
        return NONE
    if head == "warnings" or head == "contextlib":
        return I.alloc(st, ExtO("ctx", raw("ctx", name), {
            "value": NONE, "name": const(name)})) if rest in (
                "catch_warnings", "suppress", "nullcontext") else NONE
    if head == "scipy":
        r = sp_call(I, st, name, args, kwargs)
        if r is not None:
            return r
    if rest in EXC or name.split(".")[-1] in EXC:
        return I.alloc(st, ExtO("exc:" + name.split(".")[-1],
                                raw("exc", name.split(".")[-1])))
    if head in ("typing", "typing_extensions", "ty"):
        t = name.split(".")[-1]
        if t == "cast":
            return args[1]
        return Ext(name)
    if name.startswith("typicle"):
        return Ext("typicle.Types")
    # a pure function of its arguments
    roots = I.reach(st, *args) | I.reach(st, *kwargs.values())
    I.event("ext-call", set(), name, st, (args, kwargs))
    return opaque_call(I, st, name, args, kwargs)


def at_call(I, st, name, args, kwargs):
    k, _, f = name.partition(":")
    if k == "@ufunc":
        if f == "numpy.equal" or f == "numpy.not_equal":
            pass
        return ufunc_call(I, st, f, args, kwargs)
    if k == "@rufunc":
        return ufunc_call(I, st, f, [args[1], args[0]] + list(args[2:]), kwargs)
    if k == "@iufunc":
        return ufunc_call(I, st, f, args, dict(kwargs, out=Tup([args[0]])))
    if k == "@map":
        return map_method(I, st, f, args[0], list(args[1:]), kwargs)
    return seq_method(I, st, f, args[0], list(args[1:]), kwargs)


def bi_call(I, st, rest, args, kwargs):
    N = _N()
    f = BUILTIN.get(rest)
    if f is not None:
        return f(I, st, [I.norm(st, a) if not isinstance(
            a, _I().StarV) else a for a in args], kwargs)
    if rest in EXC:
        return I.alloc(st, ExtO("exc:" + rest, raw("exc", rest)))
    if rest == "object":
        return I.alloc(st, ExtO("object", raw("object", const(len(st.heap)))))
    if rest == "dict.fromkeys":
        d = I.alloc(st, DictO([]))
        v = args[1] if len(args) > 1 else NONE
        for s in N.to_segs(I, st, args[0]):
            if s.binder is None and s.guard is None:
                N.dict_set(I, st, d, s.value, v)
            else:
                o = st.heap[d.id]
                st.heap[d.id] = o.replace(segs=o.segs + (Seg(
                    v, s.guard, s.binder, s.space, s.value),))
        return d
    if "." in rest:
        t, m = rest.split(".", 1)
        if t in ("str", "list", "dict", "set", "tuple", "int", "float",
                 "object"):
            if t == "object" and m == "__setattr__":
                return I.setattr(args[0], args[1].args[0], args[2], st, direct=True)
            if t == "object" and m == "__new__":
                return I.unknown("object.__new__")
            return I.call(I.getattr(args[0], m, st), list(args[1:]), kwargs, st)
    if rest in ("staticmethod", "classmethod", "property"):
        return args[0]
    if rest in ("hash", "id"):
        return raw("id", I.term(args[0], st))
    if rest in ("globals", "locals", "exec", "eval", "__import__", "open",
                "compile", "input"):
        I.event("dynamic", set(), rest, st)
        return I.unknown("dynamic " + rest)
    if rest in ("ord", "chr", "hex", "bin", "oct", "format", "ascii"):
        return raw("call", rest, *[I.term(a, st) for a in args])
    if rest in ("bytes", "bytearray", "memoryview"):
        return raw("call", rest, *[I.term(a, st) for a in args])
    return I.unknown("builtin " + rest, I.reach(st, *args))


# ------------------------------------------------------------------- math
def _scal(I, st, v):
    N = _N()
    t = N.val(I, st, v)
    if (rank(t) or 0) >= 1:
        t = mk("item", t)
    return t


def math_call(I, st, name, rest, args, kwargs):
    N = _N()
    for i, a in enumerate(args):
        if isinstance(a, Phi):
            def go(x, s, i=i):
                b = list(args)
                b[i] = x
                return math_call(I, s, name, rest, b, kwargs)
            return I.on_phi(a, st, go)
    if rest in ("prod", "fsum"):
        segs = N.to_segs(I, st, args[0])
        return nf.seg_fold(I, st, segs, "bsum" if rest == "fsum" else "bprod",
                           F0 if rest == "fsum" else ONE)
    if rest == "dist" or rest == "sumprod" or rest == "gcd":
        return raw("call", name, *[I.term(a, st) for a in args])
    ts = [_scal(I, st, a) for a in args]
    if name.startswith("cmath."):
        if rest == "phase":
            return mk("angle", ts[0])
        if rest == "polar":
            return Tup([mk("abs", ts[0]), mk("angle", ts[0])])
        if rest == "rect":
            return mk("complex", mk("mul", ts[0], mk("cos", ts[1])),
                      mk("mul", ts[0], mk("sin", ts[1])))
        if rest in ("exp", "sqrt", "log", "sin", "cos") and len(ts) == 1:
            z = ts[0]
            if rest == "exp" and z.op in ("complex",):
                m = mk("exp", z.args[0])
                return mk("complex", mk("mul", m, mk("cos", z.args[1])),
                          mk("mul", m, mk("sin", z.args[1])))
            return mk(rest, mk("add", ts[0], const(0j))
                      if kind(ts[0]) != "c16" else ts[0])
    if rest == "isclose":
        rt = N.val(I, st, kwargs.get("rel_tol", const(1e-9)))
        at_ = N.val(I, st, kwargs.get("abs_tol", F0))
        d = mk("abs", mk("sub", ts[0], ts[1]))
        return mk("le", d, mk("maximum", mk("mul", rt, mk(
            "maximum", mk("abs", ts[0]), mk("abs", ts[1]))), at_))
    if rest == "log" and len(ts) == 2:
        return mk("div", mk("log", ts[0]), mk("log", ts[1]))
    if rest == "degrees":
        return mk("mul", ts[0], const(180.0 / math.pi))
    if rest == "fma":
        return mk("add", mk("mul", ts[0], ts[1]), ts[2])
    if rest in ("floor", "ceil", "trunc"):
        return mk("cast_int", mk(rest, ts[0]))
    if rest == "hypot" and len(ts) != 2:
        s = None
        for t in ts:
            s = mk("mul", t, t) if s is None else mk("add", s, mk("mul", t, t))
        return mk("sqrt", s if s is not None else F0)
    if rest in MATH_EW:
        return N.ew(MATH_EW[rest], *ts)
    return raw("call", name, *ts)


# --------------------------------------------------------------- operator
def op_call(I, st, rest, args, kwargs):
    N = _N()
    rest = rest.strip("_") if rest.startswith("__") else rest
    if rest in ("attrgetter", "itemgetter", "methodcaller"):
        return Getter(rest, list(args), dict(kwargs))
    if rest in OPERATOR:
        return N.binop(I, st, OPERATOR[rest], args[0], args[1])
    if rest in OPCMP:
        return N.compare(I, st, OPCMP[rest], args[0], args[1])
    if rest in ("iadd", "isub", "imul", "iand", "ior", "ixor", "itruediv"):
        return I.inplace({"iadd": "Add", "isub": "Sub", "imul": "Mult",
                          "iand": "BitAnd", "ior": "BitOr", "ixor": "BitXor",
                          "itruediv": "Div"}[rest], args[0], args[1], st)
    if rest == "getitem":
        return I.getitem(args[0], args[1], st)
    if rest == "setitem":
        I.setitem(args[0], args[1], args[2], st)
        return NONE
    if rest == "delitem":
        I.delitem(args[0], args[1], st)
        return NONE
    if rest in ("not_", "not"):
        return mk("not", I.truth(args[0], st))
    if rest == "truth":
        return I.truth(args[0], st)
    if rest in ("is_", "is"):
        return N.is_(I, st, args[0], args[1])
    if rest == "is_not":
        r = N.is_(I, st, args[0], args[1])
        return mk("not", r) if isinstance(r, T) else r
    if rest == "contains":
        return N.contains(I, st, args[0], args[1])
    if rest in ("neg", "invert", "inv", "pos"):
        return N.unop(I, st, "invert" if rest == "inv" else rest, args[0])
    if rest == "abs":
        return nf.bi_abs(I, st, args, {})
    if rest == "index":
        return args[0]
    if rest == "length_hint":
        return I.length(args[0], st)
    return I.unknown("operator." + rest, I.reach(st, *args))


# ------------------------------------------------------------- itertools
def it_repeat(I, st, a, k):
    x = a[0]
    n = _arg(a, k, 1, "times")
    if n is None:
        return siter(I, st, SInf(lambda i, s: x))
    c = _cint(n)
    if c is not None and c <= 512:
        return siter(I, st, SStatic([x] * max(c, 0)))
    N = _N()
    return siter(I, st, SGen(I.len_space(N.val(I, st, n)), lambda i, s: x))


def it_tee(I, st, a, k):
    n = _cint(_arg(a, k, 1, "n", const(2)))
    q = I.seq(a[0], st)
    if n is None:
        return I.unknown("tee")
    if not isinstance(q, (SStatic,)) and not isinstance(q, SInf):
        segs = _N().seq_segs(I, st, q)
        q = gsegs(I, segs)
    return Tup([siter(I, st, q) for _ in range(n)])


def it_compress(I, st, a, k):
    N = _N()
    data, sel = a[0], _arg(a, k, 1, "selectors")
    z = szip(I, st, [I.seq(data, st), I.seq(sel, st)])
    if isinstance(z, SUnk):
        return siter(I, st, z)
    segs = N.seq_segs(I, st, z)
    out = []
    for s in segs:
        if not isinstance(s.value, Tup):
            return siter(I, st, SUnk(frozenset(), "compress"))
        v, c = s.value.items
        c = I.truth(c, st)
        d = I.decide(st, c)
        if d is False:
            continue
        g = s.guard if d is True else I.conj(c, s.guard)
        out.append(Seg(v, g, s.binder, s.space))
    return siter(I, st, gsegs(I, out))


def it_chain(I, st, a, k):
    N = _N()
    segs = []
    for x in a:
        if isinstance(x, _I().StarV):
            segs.extend(flatten_segs(I, st, N.to_segs(I, st, x.v)))
        else:
            q = I.seq(x, st)
            if isinstance(q, SInf):
                if not segs:
                    return siter(I, st, q)
                return siter(I, st, SUnk(frozenset(), "infinite chain"))
            segs.extend(N.seq_segs(I, st, q))
    return siter(I, st, gsegs(I, segs))


def it_chain_from(I, st, a, k):
    N = _N()
    segs = N.to_segs(I, st, a[0])
    return siter(I, st, gsegs(I, flatten_segs(I, st, segs)))


def it_combinations(I, st, a, k):
    its = I.static_items(a[0], st)
    r = _cint(a[1]) if len(a) > 1 else None
    if its is not None and r is not None and len(its) <= 16:
        import itertools
        return siter(I, st, SStatic([Tup(c) for c in
                                     itertools.combinations(its, r)]))
    N = _N()
    segs = N.to_segs(I, st, a[0])
    if len(segs) == 1 and r == 2 and isinstance(segs[0].space, T) and \
            segs[0].binder is not None:
        s = segs[0]
        sp = raw("pairs", s.space if s.guard is None else raw(
            "filt", s.space, tm.bind("lam", raw("nospace"), s.binder,
                                     s.guard)))

        def get(i, s2):
            return Tup([I.rename(s.value, s.binder, raw("fst", i), s2),
                        I.rename(s.value, s.binder, raw("snd", i), s2)])
        return siter(I, st, SGen(sp, get))
    return siter(I, st, SUnk(I.reach(st, a[0]), "combinations"))


def it_product(I, st, a, k):
    import itertools
    rep = _cint(k.get("repeat", ONE))
    lists = [I.static_items(x, st) for x in a]
    if all(x is not None for x in lists) and rep:
        lists = lists * rep
        n = 1
        for x in lists:
            n *= len(x)
        if n <= 512:
            return siter(I, st, SStatic([Tup(c) for c in
                                         itertools.product(*lists)]))
    N = _N()
    if rep == 1 and len(a) == 2:
        sa = N.to_segs(I, st, a[0])
        sb = N.to_segs(I, st, a[1])
        out = []
        for x in sa:
            for y in sb:
                b, sp = x.binder or y.binder, x.space if x.binder else y.space
                if x.binder is not None and y.binder is not None:
                    if y.binder is x.binder:
                        nb = tm.fresh_binder()
                        y = Seg(I.rename(y.value, y.binder, nb, st),
                                None if y.guard is None else tm.subst(
                                    y.guard, {y.binder: nb}), nb, y.space)
                    sx = x.space if isinstance(x.space, T) else raw("nospace")
                    sy = y.space if isinstance(y.space, T) else raw("nospace")
                    b, sp = y.binder, raw("nested", sx, x.binder, sy)
                g = x.guard
                if y.guard is not None:
                    g = I.conj(y.guard, g)
                out.append(Seg(Tup([x.value, y.value]), g, b, sp))
        return siter(I, st, gsegs(I, out))
    return siter(I, st, SUnk(I.reach(st, *a), "product"))


def it_count(I, st, a, k):
    N = _N()
    start = N.val(I, st, _arg(a, k, 0, "start", ZERO))
    step = N.val(I, st, _arg(a, k, 1, "step", ONE))
    return siter(I, st, SInf(lambda i, s: N.ew("add", start, N.ew(
        "mul", step, i)) if i.op != "const" else N.ew(
            "add", start, N.ew("mul", step, i))))


def it_islice(I, st, a, k):
    its = I.static_items(a[0], st) if not isinstance(
        I.norm(st, a[0]), Ref) or not _isref(I, st, a[0], IterO) or isinstance(
            st.heap[a[0].id].seq, SStatic) else None
    c = [None if x is NONE else _cint(x) for x in a[1:]]
    if its is not None:
        try:
            if len(c) == 1:
                return siter(I, st, SStatic(its[:c[0]]))
            return siter(I, st, SStatic(its[slice(*c)]))
        except TypeError:
            pass
    q = I.seq(a[0], st)
    if isinstance(q, SInf) and len(c) == 1 and c[0] is not None:
        return siter(I, st, SStatic([q.get(const(i), st)
                                     for i in range(c[0])]))
    if isinstance(q, SGen) and len(a) == 2 and c[0] is None and a[1] is NONE:
        return siter(I, st, q)
    return siter(I, st, SUnk(I.reach(st, a[0]), "islice"))


def it_accumulate(I, st, a, k):
    its = I.static_items(a[0], st)
    if its is None:
        return siter(I, st, SUnk(frozenset(), "accumulate"))
    f = a[1] if len(a) > 1 else None
    out = []
    for x in its:
        if not out:
            out.append(x)
        elif f is None:
            out.append(_N().binop(I, st, "add", out[-1], x))
        else:
            out.append(I.call(f, [out[-1], x], {}, st))
    return siter(I, st, SStatic(out))


def it_zip_longest(I, st, a, k):
    lists = [I.static_items(x, st) for x in a]
    if any(x is None for x in lists):
        return siter(I, st, SUnk(frozenset(), "zip_longest"))
    n = max(map(len, lists), default=0)
    fv = k.get("fillvalue", NONE)
    return siter(I, st, SStatic([Tup([x[i] if i < len(x) else fv
                                      for x in lists]) for i in range(n)]))


def it_pairwise(I, st, a, k):
    its = I.static_items(a[0], st)
    if its is None:
        return siter(I, st, SUnk(frozenset(), "pairwise"))
    return siter(I, st, SStatic([Tup(p) for p in zip(its, its[1:])]))


def it_opaque(nm):
    def f(I, st, a, k):
        return siter(I, st, SUnk(I.reach(st, *a), nm))
    return f


# -------------------------------------------------------------- functools
def fn_partial(I, st, a, k):
    return Part(a[0], list(a[1:]), dict(k))


def fn_reduce(I, st, a, k):
    N = _N()
    f = a[0]
    its = I.static_items(a[1], st)
    init = a[2] if len(a) > 2 else None
    if its is not None:
        acc = init
        for x in its:
            acc = x if acc is None else I.call(f, [acc, x], {}, st)
        if acc is None:
            I.raise_now("TypeError", st)
        return acc
    return I.unknown("functools.reduce", I.reach(st, a[1]))


def fn_deco(name):
    def f(I, st, a, k):
        return I.alloc(st, ExtO("decorator", raw("deco", name),
                                {"name": name, "args": Tup(a)}))
    return f


# ------------------------------------------------------------- containers
def c_dict(kind_):
    def f(I, st, a, k):
        d = nf.bi_dict(I, st, a, k)
        st.heap[d.id] = st.heap[d.id].replace(kind=kind_)
        return d
    return f


def c_defaultdict(I, st, a, k):
    d = nf.bi_dict(I, st, a[1:], k)
    st.heap[d.id] = st.heap[d.id].replace(
        kind="defaultdict", default=a[0] if a else None)
    return d


def c_counter(I, st, a, k):
    N = _N()
    d = I.alloc(st, DictO([], kind="Counter"))
    if a:
        segs = N.to_segs(I, st, a[0])
        every = raw("list", tuple(I.seg_term(s, st) for s in segs))
        st.heap[d.id] = st.heap[d.id].replace(segs=tuple(
            Seg(raw("countof", I.term(s.value, st), every), s.guard, s.binder, s.space,
                s.value) for s in nf.dedupe(I, st, segs)))
    return d


def c_deque(I, st, a, k):
    if len(a) > 1 and a[1] is not NONE or k.get("maxlen", NONE) is not NONE:
        return I.unknown("bounded deque", I.reach(st, a[0]) if a else ())
    if not a and "iterable" in k:
        a = [k["iterable"]]
    return nf.bi_list(I, st, a[:1], {})


def mit_take(I, st, a, k):
    return nf.bi_list(I, st, [it_islice(I, st, [a[1], a[0]], {})], {})


def mit_tail(I, st, a, k):
    n = _cint(a[0])
    its = I.static_items(a[1], st)
    if its is not None and n is not None:
        return siter(I, st, SStatic(its[-n:] if n else []))
    return siter(I, st, SUnk(I.reach(st, a[1]), "tail"))


def mit_collapse(I, st, a, k):
    """Flatten nested lists and tuples (not arrays or strings)."""
    N = _N()
    st_ = st

    def go(v):
        v = I.norm(st_, v)
        if isinstance(v, Tup):
            return [y for x in v.items for y in go(x)]
        if isinstance(v, Ref):
            o = st_.heap.get(v.id)
            if isinstance(o, (ListO, IterO, DictO)):
                out = []
                for s in N.to_segs(I, st_, v):
                    for y in go(s.value):
                        if isinstance(y, Seg):
                            return [Seg(_unk("collapse"))]
                        out.append(y if s.binder is None and s.guard is None
                                   else Seg(y, s.guard, s.binder, s.space))
                return out
        return [v]
    segs = [x if isinstance(x, Seg) else Seg(x) for x in go(a[0])]
    return siter(I, st, gsegs(I, segs))


def mit_consume(I, st, a, k):
    I.seq(a[0], st)
    return NONE


# ------------------------------------------------------------------ attrs
def attr_call(I, st, rest, args, kwargs):
    tail = rest.split(".")[-1]
    if tail in ("field", "ib", "attrib"):
        kw = dict(kwargs)
        if args:
            kw.setdefault("default", args[0])
        return AttrsField(kw)
    if tail == "Factory":
        return FactoryV(args[0] if args else kwargs.get("factory"))
    if tail == "cmp_using":
        kw = dict(zip(("eq", "order", "ge", "gt", "le", "lt"), args))
        kw.update(kwargs)
        return I.alloc(st, ExtO("cmp_using", raw("cmp_using"), kw))
    if tail in ("define", "mutable", "frozen", "s", "attrs"):
        return I.alloc(st, ExtO("decorator", raw("deco", "attr." + tail),
                                {"name": "attr." + tail}))
    if tail == "asdict":
        return attr_asdict(I, st, args, kwargs)
    if tail == "evolve":
        o = args[0]
        if I.is_inst(st, o):
            h = st.heap[o.id]
            kw = {}
            for f in I.attrs_fields(h.cls):
                if f.init:
                    nm = f.name.lstrip("_")
                    kw[nm] = kwargs.get(nm, h.fields.get(f.name))
            return I.construct(h.cls, [], kw, st)
    if tail == "fields":
        return I.unknown("attr.fields")
    return opaque_call(I, st, "attr." + rest, args, kwargs)


def attr_asdict(I, st, args, kwargs):
    N = _N()
    o = args[0]
    if not I.is_inst(st, o):
        return I.unknown("asdict")
    h = st.heap[o.id]
    rec = kwargs.get("recurse", args[1] if len(args) > 1 else TRUE)
    flt = kwargs.get("filter")
    d = I.alloc(st, DictO([]))
    for f in I.attrs_fields(h.cls):
        if flt is not None and flt is not NONE:
            return I.unknown("asdict filter", I.reach(st, o))
        v = h.fields.get(f.name)
        if v is None:
            continue
        if rec is not FALSE:
            v = asdict_value(I, st, v)
        N.dict_set(I, st, d, const(f.name), v)
    return d


def asdict_value(I, st, v):
    v = I.norm(st, v)
    if isinstance(v, Phi):
        return I.on_phi(v, st, lambda x, s: asdict_value(I, s, x))
    if I.is_inst(st, v) and I.attrs_fields(st.heap[v.id].cls):
        return attr_asdict(I, st, [v], {})
    if isinstance(v, Ref):
        o = st.heap.get(v.id)
        if isinstance(o, DictO):
            d = I.alloc(st, DictO([Seg(asdict_value(I, st, s.value), s.guard,
                                       s.binder, s.space, s.key)
                                   for s in o.segs], kind=o.kind))
            return d
    return v


# ------------------------------------------------------------------ numba
def nb_call(I, st, name, args, kwargs):
    tail = name.split(".")[-1]
    if tail in ("njit", "jit", "vectorize", "guvectorize", "cfunc"):
        if args and isinstance(args[0], Fn):
            fn = args[0]
            fn.tags["numba"] = tail
            return fn
        f = {"name": "numba." + tail, "args": Tup(args)}
        f.update(kwargs)
        return I.alloc(st, ExtO("decorator", raw("deco", tail), f))
    if tail == "prange":
        return nf.bi_range(I, st, args, {})
    if tail == "get_num_threads":
        I.event("threads-get", set(), name, st)
        return tm.sym("%threads", "int")
    if tail == "set_num_threads":
        I.event("threads-set", set(), name, st, args[0] if args else None)
        return NONE
    if name.startswith("numba.types") or tail in (
            "typeof", "float64", "float32", "int64", "int32", "boolean",
            "void", "complex128", "Tuple", "UniTuple"):
        if len(args) == 1 and isinstance(args[0], T) and tail in (
                "float64", "int64", "int32", "complex128", "float32"):
            d = {"float64": "f8", "int64": "i8", "int32": "i4",
                 "complex128": "c16", "float32": "f4"}[tail]
            return nf.dtype_call(I, st, DT(d), args)
        return I.alloc(st, ExtO("nbtype", raw("nbtype", name)))
    return opaque_call(I, st, name, args, kwargs)


# ------------------------------------------------------------------ scipy
def sp_call(I, st, name, args, kwargs):
    N = _N()
    tail = name.split(".")[-1]
    if tail in ("coo_array", "csr_array", "coo_matrix", "csr_matrix",
                "csc_array", "csc_matrix"):
        r = sparse.construct(I, st, tail, args, kwargs)
        if r is not None:
            return r
        return I.alloc(st, ExtO("coo", opaque_term(I, st, name, args, kwargs), {
            "fmt": const(tail[:3]), "args": Tup(args),
            **{"kw_" + k: v for k, v in kwargs.items()}}))
    if tail == "linear_sum_assignment":
        t = N.val(I, st, args[0])
        kw = [raw("kw", k, N.val(I, st, v)) for k, v in sorted(kwargs.items())
              if v is not FALSE]
        return Tup([I.new_arr(st, raw("assign_rows", t, *kw), DT("i8")),
                    I.new_arr(st, raw("assign_cols", t, *kw), DT("i8"))])
    if tail == "minimize":
        f = _arg(args, kwargs, 0, "fun")
        x0 = N.val(I, st, _arg(args, kwargs, 1, "x0"))
        extra = _arg(args, kwargs, 2, "args")
        mth = kwargs.get("method", NONE)
        z = tm.sym("%min_x", "f8", 0)
        # objective as a function of its free variable
        ex = list(extra.items) if isinstance(extra, Tup) else (
            [extra] if extra is not None else [])
        n = None
        if x0.op == "row":
            n = len(x0.args)
        elif rank(x0) == 0:
            n = 1
        else:
            for v in (kwargs.get("bounds"), _arg(args, kwargs, 1, "x0")):
                its = I.static_items(v, st) if isinstance(v, (Tup, Ref)) else None
                if its is not None and n is None:
                    n = len(its)
            r1 = [u for u in tm.subterms(x0) if u.op == "rand1"]
            if n is None and len(r1) == 1 and _cint(r1[0].args[3]) is not None:
                n = _cint(r1[0].args[3])
        if n is None:
            return I.unknown("number of variables of minimize", I.reach(st, f, *ex))
        zs = raw("row", *[tm.sym("%%min_x%d" % j, "f8") for j in range(n)])
        st2 = st.copy()
        obj = I.call(f, [I.new_arr(st2, zs)] + ex, {}, st2)
        jac = _arg(args, kwargs, 4, "jac")
        g = NONE
        its = I.static_items(obj, st2) if isinstance(obj, (Tup, Ref)) else None
        if jac is TRUE:
            if its is None or len(its) != 2:
                return I.unknown("objective with gradient", I.reach(st, f, *ex))
            obj, g = its[0], N.val(I, st2, its[1])
        elif jac is not None and jac is not NONE and jac is not FALSE:
            if isinstance(jac, T):
                g = raw("fd", I.term(jac, st))       # finite differences
            else:
                g = N.val(I, st2, I.call(jac, [I.new_arr(st2, zs)] + ex, {}, st2))
        ot = N.val(I, st2, obj)
        bt = I.term(kwargs["bounds"], st) if "bounds" in kwargs else NONE
        base = raw("minimize", zs, ot, g, x0, I.term(mth, st), bt)
        return I.alloc(st, ExtO("optres", base, {
            "x": I.new_arr(st, raw("row", *[raw("argminof", base, const(j))
                                            for j in range(n)])),
            "fun": raw("minof", base), "success": raw("minok", base)}))
    if tail == "breadth_first_tree":
        r = sparse.bfs_tree(I, st, args, kwargs)
        if r is not None:
            return r
        return I.alloc(st, ExtO("coo", opaque_term(I, st, name, args, kwargs), {
            "fmt": const("csr")}))
    return None


# ------------------------------------------------------------------- misc
def cp_deep(I, st, a, k):
    return I.clone(a[0], st)


def cp_shallow(I, st, a, k):
    v = a[0]
    if isinstance(v, Ref):
        o = st.heap.get(v.id)
        if isinstance(o, InstO):
            m = o.cls.lookup("__copy__")
            if m is not None:
                return I.call(BoundM(m, v), [], {}, st)
        if isinstance(o, Arr):
            return I.new_arr(st, I.content(st, v), o.dt)
        if isinstance(o, (ListO, DictO, InstO)):
            r = I.alloc(st, o.replace(origin=frozenset()))
            if isinstance(o, InstO):
                st.heap[r.id].cache = dict(o.cache)
            return r
    return v


TABLE = {
    "itertools.repeat": it_repeat, "itertools.tee": it_tee,
    "itertools.compress": it_compress, "itertools.chain": it_chain,
    "itertools.chain.from_iterable": it_chain_from,
    "itertools.starmap": nf.bi_starmap,
    "itertools.combinations": it_combinations,
    "itertools.product": it_product, "itertools.filterfalse": nf.bi_filterfalse,
    "itertools.count": it_count, "itertools.islice": it_islice,
    "itertools.accumulate": it_accumulate,
    "itertools.zip_longest": it_zip_longest,
    "itertools.pairwise": it_pairwise,
    "itertools.cycle": it_opaque("cycle"),
    "itertools.groupby": it_opaque("groupby"),
    "itertools.takewhile": it_opaque("takewhile"),
    "itertools.dropwhile": it_opaque("dropwhile"),
    "itertools.permutations": it_opaque("permutations"),
    "functools.partial": fn_partial, "functools.reduce": fn_reduce,
    "functools.wraps": fn_deco("functools.wraps"),
    "functools.lru_cache": fn_deco("functools.lru_cache"),
    "functools.cache": fn_deco("functools.cache"),
    "functools.update_wrapper": lambda I, st, a, k: a[0],
    "deprecation.deprecated": fn_deco("deprecation.deprecated"),
    "contextlib.contextmanager": lambda I, st, a, k: a[0],
    "collections.OrderedDict": c_dict("OrderedDict"),
    "collections.ChainMap": c_dict("dict"),
    "collections.defaultdict": c_defaultdict,
    "collections.Counter": c_counter, "collections.deque": c_deque,
    "more_itertools.take": mit_take, "more_itertools.tail": mit_tail,
    "more_itertools.collapse": mit_collapse,
    "more_itertools.consume": mit_consume,
    "more_itertools.flatten": it_chain_from,
    "copy.deepcopy": cp_deep, "copy.copy": cp_shallow,
    "typing.cast": lambda I, st, a, k: a[1],
    "typing.TypeVar": lambda I, st, a, k: Ext("typing.Any"),
    "typing.NewType": lambda I, st, a, k: Ext("typing.Any"),
    "typing.overload": lambda I, st, a, k: a[0],
    "abc.abstractmethod": lambda I, st, a, k: a[0],
}

# ------------------------------------------------------------------ numpy
UF_SUFFIX = ("reduce", "at", "outer", "__call__", "accumulate", "reduceat")
NP_RED = {"sum": "bsum", "prod": "bprod", "any": "bany", "all": "ball",
          "max": "bmax", "min": "bmin", "amax": "bmax", "amin": "bmin",
          "nansum": None, "nanmax": None, "nanmin": None, "product": "bprod",
          "sometrue": "bany", "alltrue": "ball"}
RED_UF = {"bsum": "numpy.add", "bprod": "numpy.multiply",
          "bany": "numpy.logical_or", "ball": "numpy.logical_and",
          "bmax": "numpy.maximum", "bmin": "numpy.minimum"}
SCALARS = {"float64": "f8", "float32": "f4", "float_": "f8", "int32": "i4",
           "int64": "i8", "int16": "i2", "int8": "i1", "uint8": "u1",
           "intp": "i8", "int_": "i8", "bool_": "b1", "bool": "b1",
           "complex128": "c16", "double": "f8", "longlong": "i8", "float16": "f2", "half": "f2",
           "single": "f4", "complex64": "c8", "uint16": "u2", "uint32": "u4", "uint64": "u8"}


def np_call(I, st, name, args, kwargs):
    N = _N()
    rest = name[6:]
    parts = rest.split(".")
    tail = parts[-1]
    SV = _I().StarV
    if any(isinstance(a, SV) for a in args):
        return I.unknown("star argument of " + name, I.reach(
            st, *[a.v if isinstance(a, SV) else a for a in args]))
    if len(parts) == 2 and tail in UF_SUFFIX:
        return ufunc_call(I, st, "numpy." + parts[0], args, kwargs, tail)
    if parts[0] in ("random",):
        return np_random(I, st, tail, args, kwargs)
    if tail in ("structured_to_unstructured", "unstructured_to_structured"):
        return np_struct(I, st, tail, args, kwargs)
    if len(parts) > 1 and parts[0] in ("linalg", "lib", "fft", "ma", "testing"):
        if tail == "norm":
            return np_norm(I, st, args, kwargs)
        return I.new_arr(st, opaque_term(I, st, name, args, kwargs))
    for i, a in enumerate(args):
        if isinstance(a, Phi) and rest not in ("dtype", "finfo"):
            def go(x, s, i=i):
                b = list(args)
                b[i] = x
                return np_call(I, s, name, b, kwargs)
            return I.on_phi(a, st, go)
    if name in N.UFUNC_OP or name in (
            "numpy.matmul", "numpy.positive", "numpy.isnat") or (
                rest not in NPF and nf.np_ufunc(name) is not None):
        return ufunc_call(I, st, name, args, kwargs)
    f = NPF.get(rest)
    if f is not None:
        return f(I, st, args, kwargs)
    if rest in NP_RED and NP_RED[rest]:
        return np_reduce(I, st, rest, args, kwargs)
    if rest in SCALARS:
        return nf.dtype_call(I, st, DT(SCALARS[rest]), args)
    if rest == "str_":
        return raw("fmt", I.term(args[0], st)) if args else const("")
    if rest in ("errstate", "printoptions", "testing.suppress_warnings"):
        return I.alloc(st, ExtO("ctx", raw("ctx", name), {
            "value": NONE, "name": const(name)}))
    if rest in ("seterr", "set_printoptions"):
        I.event("global-write", set(), name, st)
        return NONE
    if any(isinstance(a, Ref) and a.id in st.heap and isinstance(
            st.heap[a.id], InstO) and N.is_ufunc_inst(I, st.heap[a.id])
            for a in args):
        pass
    out = kwargs.get("out")
    t = opaque_term(I, st, name, args, {k: v for k, v in kwargs.items()
                                        if k != "out"})
    if isinstance(out, Ref) and I.is_arr(st, out):
        N.write(I, st, out, t)
        return out
    return I.new_arr(st, t)


def np_reduce(I, st, rest, args, kwargs):
    N = _N()
    op = NP_RED[rest]
    a = args[0] if args else kwargs.get("a")
    axis = _arg(args, kwargs, 1, "axis", NONE)
    inst = uinst(I, st, [a])
    if inst is not None:
        h = st.heap[inst.id]
        m = h.cls.lookup({"amax": "max", "amin": "min"}.get(rest, rest))
        if m is not None and not isinstance(m, tuple):
            kw = {k: v for k, v in kwargs.items() if k not in ("a",)}
            kw.setdefault("axis", axis)
            kw.setdefault("out", NONE)
            return I.call(BoundM(m, inst), [], kw, st)
        kw = {k: v for k, v in kwargs.items() if k not in ("a", "axis")
              and v is not NONE}
        return ufunc_call(I, st, RED_UF[op], [inst], dict(kw, axis=axis),
                          "reduce")
    out = kwargs.get("out")
    if out is NONE:
        kwargs = {k: v for k, v in kwargs.items() if k != "out"}
    wh = kwargs.get("where")
    if wh is not None and wh is not TRUE and op in ("bsum", "bany", "ball"):
        w = N.val(I, st, wh)
        t = N.val(I, st, a)
        z = {"bsum": ZERO, "bany": FALSE, "ball": TRUE}[op]
        a = I.new_arr(st, mk("ite", w, nf.red_elem(op, t), z))
    return do_reduce(I, st, op, a, axis if axis is not NONE else None, kwargs)


def np_random(I, st, tail, args, kwargs):
    if tail == "default_rng" or tail in ("Generator", "RandomState"):
        seed = _arg(args, kwargs, 0, "seed", NONE)
        if I.is_inst(st, seed):
            return seed
        if isinstance(seed, Ref) and isinstance(st.heap.get(seed.id), ExtO) \
                and st.heap[seed.id].kind == "rng":
            return seed
        I.event("rng", set(), tail, st, seed)
        return I.alloc(st, ExtO("rng", raw("rng", I.term(seed, st)), {
            "count": ZERO, "seed": seed}))
    if tail in ("seed",):
        I.event("global-write", set(), "numpy.random.seed", st)
        return NONE
    I.event("global-rng", set(), "numpy.random." + tail, st)
    return I.new_arr(st, raw("globalrng", tail, _unk("global rng")))


def np_struct(I, st, tail, args, kwargs):
    N = _N()
    a = args[0]
    dt = N.as_dtype(I, _arg(args, kwargs, 1, "dtype"), st)
    if tail == "structured_to_unstructured":
        if I.is_arr(st, a):
            cp = kwargs.get("copy", FALSE)
            t = I.content(st, a)
            if cp is TRUE or t.op not in ("struct",):
                return I.new_arr(st, N.apply_step(t, ("unstruct",)), dt)
            if dt is not None and t.op == "struct" and any(
                    kind(x) not in ("f8", None) for x in t.args[1:]) and \
                    dt.name == "f8":
                return I.new_arr(st, N.apply_step(t, ("unstruct",)), dt)
            return N.view(I, st, a, ("unstruct",), dt=dt, keep=False)
        return I.new_arr(st, N.apply_step(N.val(I, st, a), ("unstruct",)), dt)
    if dt is not None and dt.struct:
        names = tuple(n for n, _ in dt.struct)
        if I.is_arr(st, a) and kwargs.get("copy", FALSE) is not TRUE:
            return N.view(I, st, a, ("struct", names), dt=dt)
        return I.new_arr(st, N.apply_step(N.val(I, st, a), ("struct", names)),
                         dt)
    return I.new_arr(st, raw("call", tail, N.val(I, st, a)))


def np_norm(I, st, args, kwargs):
    N = _N()
    t = N.val(I, st, args[0])
    ax = _arg(args, kwargs, 2, "axis")
    if len(args) > 1 and args[1] is not NONE or kwargs.get("ord", NONE) is not NONE:
        return I.new_arr(st, opaque_term(I, st, "numpy.linalg.norm", args,
                                         kwargs))
    sq = mk("mul", mk("abs", t), mk("abs", t)) if kind(t) == "c16" else mk(
        "mul", t, t)
    ok, a = nf.axis_of(ax)
    r = reduce_term("bsum", sq, a if ok else None)
    r = mk("sqrt", r)
    if kwargs.get("keepdims") is TRUE:
        return I.new_arr(st, raw("colvec", r))
    return N.wrap(I, st, r)


def np_array(I, st, a, k):
    return _conv(I, st, a, k, True)


def np_asarray(I, st, a, k):
    return _conv(I, st, a, k, k.get("copy") is TRUE)


def _conv(I, st, a, k, copy):
    N = _N()
    x = a[0] if a else k.get("object", k.get("a"))
    dt = N.as_dtype(I, _arg(a, k, 1, "dtype"), st)
    if k.get("copy") is FALSE:
        copy = False
    if isinstance(x, Unk):
        return I.unknown("array of unknown", I.reach(st, x))
    if I.is_inst(st, x):
        p = st.heap[x.id].cls.lookup("__array_interface__")
        if p is not None:           # takes precedence over __array__
            r = I.norm(st, I.getattr(x, "__array_interface__", st))
            h = st.heap.get(r.id) if isinstance(r, Ref) else None
            if isinstance(h, ExtO) and h.kind == "arrayif":
                return _conv(I, st, [h.fields["of"]] + list(a[1:]), k, copy)
        m = st.heap[x.id].cls.lookup("__array__")
        if m is not None:
            x = I.norm(st, I.call(BoundM(m, x), [], {}, st))
            if isinstance(x, Phi):
                return I.on_phi(x, st, lambda v, s: _conv(
                    I, s, [v] + list(a[1:]), k, copy))
    if I.is_arr(st, x):
        t = I.content(st, x)
        cur = N.dt_of(I, st, x)
        if not copy and (dt is None or cur is None or cur == dt):
            return x
        nd = dt
        if dt is not None and dt.struct and t.op != "struct":
            return I.new_arr(st, N.apply_step(t, ("struct", tuple(
                n for n, _ in dt.struct))), dt)
        return N.keep_order(I, st, x, I.new_arr(
            st, N.cast(t, dt) if dt is not None else t,
            nd if nd is not None else st.heap[x.id].dt))
    # a sequence of arrays
    t = N.val(I, st, x)
    if dt is not None and dt.struct:
        names = tuple(n for n, _ in dt.struct)
        t = N.apply_step(t, ("struct", names)) if t.op in (
            "cols", "row", "mat") and not (t.op == "row" and all(
                y.op == "row" for y in t.args)) else t
        if t.op == "row" and not t.args:
            t = raw("struct", names, *[raw("row") for _ in names])
        return I.new_arr(st, t, dt)
    if t.op == "tuple":
        t = N._rowof(list(t.args))
    if t.op == "row":
        ks = {kind(y) for y in t.args}
        if dt is None and "f8" in ks and ks <= {"f8", "int", "b1"}:
            t = raw("row", *[const(float(y.args[0])) if y.op == "const"
                             else y for y in t.args])
        if dt is not None:
            t = raw("row", *[N.cast(y, dt) for y in t.args])
    elif t.op == "mat":
        ks = {kind(y) for r in t.args for y in getattr(r, "args", ())
              if isinstance(y, T)}
        if dt is not None and dt.name == "f8" or "f8" in ks:
            t = raw("mat", *[raw("row", *[
                const(float(y.args[0])) if isinstance(y, T) and y.op == "const"
                and isinstance(y.args[0], int) else y for y in r.args])
                if r.op == "row" else r for r in t.args])
    elif dt is not None:
        t = N.cast(t, dt)
    if rank(t) == 0:
        # 0-d array behaves as a scalar except for identity
        return t
    return I.new_arr(st, t, dt)


def _copyf(I, st, a, k):
    N = _N()
    x = a[0]
    if I.is_arr(st, x):
        return N.keep_order(I, st, x, I.new_arr(st, I.content(st, x), st.heap[x.id].dt))
    return _conv(I, st, a, k, True)


def _contig(I, st, a, k):
    # may or may not copy: treat as the same memory (aliasing is worst case)
    r = _conv(I, st, a, k, False)
    N = _N()
    if I.is_arr(st, r) and (rank(I.content(st, r)) or 0) >= 1:
        lay = N.layout(I, st, r)
        if lay in ("R", "S") or lay == "F" and rank(I.content(st, r)) > 1:
            return I.new_arr(st, I.content(st, r), st.heap[r.id].dt)
    return r


def _fortran(I, st, a, k):
    r = _conv(I, st, a, k, False)
    N = _N()
    if I.is_arr(st, r) and (rank(I.content(st, r)) or 0) > 1 and N.layout(
            I, st, r) in ("R", "S", "C"):
        return N.set_layout(I, st, I.new_arr(st, I.content(st, r), st.heap[r.id].dt), "F")
    return r


def _require(I, st, a, k):
    req = k.get("requirements", a[2] if len(a) > 2 else NONE)
    w = repr(I.term(req, st))
    if "'C'" in w or "C_CONTIGUOUS" in w:
        return _contig(I, st, a[:2], {x: v for x, v in k.items() if x == "dtype"})
    if req is not NONE:
        return I.unknown("numpy.require", I.reach(st, *a))
    return _conv(I, st, a, k, False)


def make_full(I, st, shape, v, dt):
    """Array of value v with the given shape value."""
    N = _N()
    if isinstance(shape, Unk):
        return I.new_arr(st, _unk("shape"), dt)
    if isinstance(shape, Phi):
        return I.on_phi(shape, st, lambda x, s: make_full(I, s, x, v, dt))
    dims = None
    if isinstance(shape, Tup):
        dims = [N.val(I, st, x) for x in shape.items]
    elif _isref(I, st, shape, ListO):
        its = I.static_items(shape, st)
        if its is not None:
            dims = [N.val(I, st, x) for x in its]
    else:
        t = N.val(I, st, shape)
        if t.op in ("row", "tuple"):
            dims = list(t.args)
        elif t.op == "shape":
            r = rank(t.args[0])
            sp = space(t.args[0])
            if r is not None and sp is not None:
                return I.new_arr(st, tm.bcast_to(t.args[0], v), dt)
            return I.new_arr(st, raw("fullshape", t, v), dt)
        elif rank(t) == 0:
            dims = [t]
    if dims is None:
        return I.new_arr(st, raw("fullshape", I.term(shape, st), v), dt)
    return I.new_arr(st, full_dims(I, dims, v, dt), dt)


def full_dims(I, dims, v, dt):
    if dt is not None and dt.struct:
        return raw("struct", tuple(n for n, _ in dt.struct), *[
            full_dims(I, dims, v, None) for _ in dt.struct])
    cs = [_cint(d) for d in dims]
    if not dims:
        return v
    if len(dims) == 1:
        if cs[0] is not None and cs[0] <= 64:
            return raw("row", *[v] * cs[0])
        return raw("full", I.len_space(dims[0]), v, 1)
    if len(dims) == 2:
        if None not in cs and max(cs) <= 16:
            if cs[0] == 0:
                return raw("cols", *[raw("row") for _ in range(cs[1])])
            return raw("mat", *[raw("row", *[v] * cs[1])
                                for _ in range(cs[0])])
        if cs[1] is not None and cs[1] <= 16:
            if cs[1] == 1:
                return raw("colvec", raw("full", I.len_space(dims[0]), v, 1))
            return raw("cols", *[raw("full", I.len_space(dims[0]), v, 1)
                                 for _ in range(cs[1])])
        if cs[0] is not None and cs[0] <= 16:
            return raw("stackrows", *[raw("full", I.len_space(dims[1]), v, 1)
                                      for _ in range(cs[0])])
        return raw("full", raw("prodspace", *[I.len_space(d) for d in dims]),
                   v, 2)
    return raw("full", raw("prodspace", *[I.len_space(d) for d in dims]), v,
               len(dims))


def _zero_of(dt, base):
    if dt is None or dt.name == "f8":
        return const(float(base))
    if dt.name == "b1":
        return const(bool(base))
    if dt.name == "c16":
        return const(complex(base))
    if dt.struct:
        return const(base)
    return const(int(base))


def _creator(base):
    def f(I, st, a, k):
        N = _N()
        i = 2 if base == "full" else 1
        d = _arg(a, k, i, "dtype")
        dt = N.as_dtype(I, d, st) if d is not None and d is not NONE else (
            DT("f8") if base != "full" else None)
        sh = _arg(a, k, 0, "shape")
        if base == "full":
            v = N.val(I, st, _arg(a, k, 1, "fill_value"))
            if dt is not None:
                v = N.cast(v, dt)
        elif base == "empty":
            v = UNINIT
        else:
            v = _zero_of(dt, base)
        return make_full(I, st, sh, v, dt)
    return f


def _like(base):
    def f(I, st, a, k):
        N = _N()
        x = a[0]
        i = 2 if base == "full" else 1
        d = _arg(a, k, i, "dtype")
        dt = N.as_dtype(I, d, st) if d is not None and d is not NONE else None
        t = N.val(I, st, x)
        if dt is None and I.is_arr(st, x):
            dt = N.dt_of(I, st, x)
        if dt is None:
            kk = N._k2dt(kind(t))
            dt = DT(kk) if kk else None
        if base == "full":
            v = N.val(I, st, _arg(a, k, 1, "fill_value"))
        elif base == "empty":
            v = UNINIT
        else:
            v = _zero_of(dt, base)
        if "shape" in k and k["shape"] is not NONE:
            return make_full(I, st, k["shape"], v, dt)
        if t.op == "struct":
            r = raw("struct", t.args[0], *[tm.bcast_to(y, v)
                                           for y in t.args[1:]])
        else:
            r = tm.bcast_to(t, v)
            if r is v and rank(t) != 0:
                r = raw("fulllike", t, v)
        return I.new_arr(st, r, dt)
    return f


def np_arange(I, st, a, k):
    N = _N()
    ts = [N.val(I, st, x) for x in a]
    dt = N.as_dtype(I, k.get("dtype"), st)
    if len(ts) == 1:
        ts = [ZERO, ts[0], ONE]
    elif len(ts) == 2:
        ts = ts + [ONE]
    cs = [_cint(t) for t in ts]
    if None not in cs and len(range(*cs)) <= 64:
        return I.new_arr(st, raw("row", *[const(i) for i in range(*cs)]), dt)
    return I.new_arr(st, raw("arange", *ts), dt)


def np_eye(I, st, a, k):
    return eye(I, st, _arg(a, k, 0, "N"), _arg(a, k, 1, "M"), _arg(a, k, 2, "k"),
               _arg(a, k, 3, "dtype"))


def np_ix(I, st, a, k):
    N = _N()
    if len(a) != 2:
        return I.unknown("numpy.ix_", I.reach(st, *a))
    ts = []
    for x in a:
        t = N.val(I, st, x)
        if rank(t) != 1 or kind(t) not in ("int", "b1"):
            return I.unknown("numpy.ix_", I.reach(st, *a))
        ts.append(raw("flatnonzero", t) if kind(t) == "b1" else t)
    return Tup([I.new_arr(st, raw("colvec", ts[0]), DT("i8")),
                I.new_arr(st, raw("rowvec", ts[1]), DT("i8"))])


def np_issubdtype(I, st, a, k):
    N = _N()
    d = I.norm(st, a[0])
    if isinstance(d, Phi):
        return I.on_phi(d, st, lambda x, s: np_issubdtype(I, s, [x] + list(a[1:]), k))
    dt = N.as_dtype(I, d, st)
    c = I.norm(st, a[1])
    if dt is None or dt.struct or not isinstance(c, Ext):
        return I.unknown("numpy.issubdtype")
    q = dt.name[:1]
    c = c.name.split(".")[-1]
    if q not in "fiucbUSO":
        return I.unknown("numpy.issubdtype")
    of = {"generic": "fiucbUSO", "number": "fiuc", "inexact": "fc", "floating": "f",
          "complexfloating": "c", "integer": "iu", "signedinteger": "i",
          "unsignedinteger": "u", "bool_": "b", "bool": "b", "character": "SU",
          "flexible": "SU", "str_": "U", "bytes_": "S", "object_": "O", "float": None,
          "int": None}.get(c)
    if of is None:
        other = SCALARS.get(c) or {"float": "f8", "int": "i8"}.get(c)
        if other is None:
            return I.unknown("numpy.issubdtype")
        return const(dt.name == other)
    return const(q in of)


def np_identity(I, st, a, k):
    return eye(I, st, _arg(a, k, 0, "n"), None, None, _arg(a, k, 1, "dtype"))


def eye(I, st, n, m, off, dtype):
    N = _N()
    n = N.val(I, st, n)
    c = _cint(n)
    d = 0 if off is None else _cint(N.val(I, st, off))
    w = c if m is None or m is NONE else _cint(N.val(I, st, m))
    dt = DT("f8") if dtype is None or dtype is NONE else N.as_dtype(I, dtype, st)
    if dt is None:
        return I.unknown("dtype of numpy.eye")
    kd = dt.name
    one, nil = ((const(True), FALSE) if kd in ("b1", "?", "bool") else
                (const(1), const(0)) if kd[:1] in "iu" else (const(1.0), F0))
    if c is not None and w is not None and d is not None and max(c, w) <= 16:
        return I.new_arr(st, raw("mat", *[raw("row", *[
            one if i + d == j else nil for j in range(w)])
            for i in range(c)]), dt)
    if d != 0 or not (m is None or m is NONE):
        return I.unknown("off-diagonal numpy.eye")
    return I.new_arr(st, N.filldiag(full_dims(I, [n, n], nil, None), one), dt)


def np_where(I, st, a, k):
    N = _N()
    c = N.val(I, st, a[0])
    if len(a) == 1:
        if rank(c) == 1:
            return Tup([I.new_arr(st, raw("flatnonzero", N.tob(c)), DT("i8"))])
        return Tup([I.new_arr(st, raw("nonzero", N.tob(c), const(j)), DT("i8"))
                    for j in range(rank(c) or 2)])
    x, y = N.val(I, st, a[1]), N.val(I, st, a[2])
    return N.wrap(I, st, mk("ite", N.tob(c), x, y))


def np_flatnonzero(I, st, a, k):
    N = _N()
    t = N.val(I, st, a[0])
    if t.op == "row" and all(x.op == "const" for x in t.args):
        return I.new_arr(st, raw("row", *[const(i) for i, x in enumerate(
            t.args) if x.args[0]]), DT("i8"))
    if rank(t) == 2:
        t = mk("ravel", t)
    return I.new_arr(st, raw("flatnonzero", N.tob(t)), DT("i8"))


def np_mean(I, st, a, k):
    N = _N()
    t = N.val(I, st, a[0])
    ok, ax = nf.axis_of(_arg(a, k, 1, "axis"))
    if not ok:
        return I.new_arr(st, opaque_term(I, st, "numpy.mean", a, k))
    s = reduce_term("bsum", t, ax)
    n = _axis_len(I, st, t, ax)
    r = mk("div", s, n)
    if k.get("keepdims") is TRUE and rank(t) == 2:
        return I.new_arr(st, raw("colvec", r))
    return N.wrap(I, st, r)


def _axis_len(I, st, t, ax):
    sh = shape_of(I, st, t)
    if sh is None:
        return raw("axlen", t, const(ax))
    if ax is None:
        n = ONE
        for x in sh:
            n = x if n is ONE else mk("mul", n, x)
        return n
    try:
        return sh[ax]
    except IndexError:
        return raw("axlen", t, const(ax))


def np_var(I, st, a, k):
    N = _N()
    t = N.val(I, st, a[0])
    ok, ax = nf.axis_of(_arg(a, k, 1, "axis"))
    if not ok or (rank(t) == 2 and ax is not None) or set(k) - {
            "axis", "ddof"}:
        return I.new_arr(st, opaque_term(I, st, "numpy.var", a, k))
    n = _axis_len(I, st, t, ax)
    m = mk("div", reduce_term("bsum", t, ax), n)
    d = mk("sub", t, m)
    dd = k.get("ddof")
    if dd is not None:
        n = mk("sub", n, N.val(I, st, dd))
    return N.wrap(I, st, mk("div", reduce_term("bsum", mk("mul", d, d), ax), n))


def np_std(I, st, a, k):
    N = _N()
    return N.wrap(I, st, mk("sqrt", N.val(I, st, np_var(I, st, a, k))))


def _arg0(op):
    def f(I, st, a, k):
        N = _N()
        t = N.val(I, st, a[0])
        ok, ax = nf.axis_of(_arg(a, k, 1, "axis"))
        if not ok or any(x not in ("a", "axis") for x in k):
            return I.unknown("numpy." + op[:-1], I.reach(st, *a))
        if ax is not None and rank(t) != 1:
            return I.new_arr(st, raw(op + "_ax", t, const(ax)), DT("i8"))
        return raw(op, t)
    return f


def _rawop(op, dt=None, view=False):
    def f(I, st, a, k):
        N = _N()
        t = N.val(I, st, a[0])
        ts = [N.val(I, st, x) for x in a[1:]]
        kw = [raw("kw", q, N.val(I, st, v)) for q, v in sorted(k.items())
              if v is not NONE]
        return I.new_arr(st, raw(op, t, *ts, *kw), DT(dt) if dt else None)
    return f


def np_argsort(I, st, a, k):
    N = _N()
    t = N.val(I, st, a[0])
    kw = {q: v for q, v in k.items() if v is not NONE and q not in (
        "axis", "kind", "stable")}
    return I.new_arr(st, raw("argsort", t, *[
        raw("kw", q, N.val(I, st, v)) for q, v in sorted(kw.items())]),
        DT("i8"))


def np_isin(I, st, a, k):
    N = _N()
    x = N.val(I, st, _arg(a, k, 0, "element"))
    y = N.val(I, st, _arg(a, k, 1, "test_elements"))
    inv = k.get("invert", FALSE)
    uniq = k.get("assume_unique", FALSE)
    r = isin_term(x, y) if uniq is FALSE or rank(x) == 0 else raw(
        "isin", x, y, uniq if isinstance(uniq, T) else I.term(uniq, st))
    if isinstance(inv, T) and inv is not FALSE:
        r = mk("not", r) if inv is TRUE else mk("xor", r, inv)
    return N.wrap(I, st, r, DT("b1"))


def isin_term(x, y):
    if y.op == "row" and len(y.args) <= 16:
        r = FALSE
        for q in y.args:
            r = mk("or", r, mk("eq", x, q))
        return r
    if rank(y) == 0:
        return mk("eq", x, y)
    return raw("isin", x, y)


def np_unique(I, st, a, k):
    N = _N()
    t = N.val(I, st, a[0])
    opts = [q for q in ("return_index", "return_inverse", "return_counts")
            if k.get(q) is TRUE]
    extra = [raw("kw", q, N.val(I, st, v)) for q, v in sorted(k.items())
             if q == "axis" and v is not NONE]
    outs = [I.new_arr(st, raw("unique", t, *extra))]
    for q in opts:
        outs.append(I.new_arr(st, raw("unique_" + q[7:], t, *extra), DT("i8")))
    return outs[0] if len(outs) == 1 else Tup(outs)


def np_searchsorted(I, st, a, k):
    N = _N()
    k = {q: v for q, v in k.items() if v is not NONE}
    a = list(a) + [k.pop("v")] if len(a) == 1 and "v" in k else list(a)
    ts = [N.val(I, st, x) for x in a]
    if len(ts) == 2 and not k and ts[0].op == "unique" and ts[0].args == (ts[1],):
        return I.new_arr(st, raw("unique_inverse", ts[1]), DT("i8"))
    kw = [raw("kw", q, N.val(I, st, v)) for q, v in sorted(k.items())]
    r = rank(ts[1]) if len(ts) > 1 else None
    return N.wrap(I, st, raw("npcall", "numpy.searchsorted", r, "int", *ts, *kw))


def np_dot(I, st, a, k):
    N = _N()
    x, y = N.val(I, st, a[0]), N.val(I, st, a[1])
    out = k.get("out")
    if len(a) > 2:
        out = a[2]
    if rank(x) == 0 or rank(y) == 0:
        r = mk("mul", x, y)
    elif rank(x) == 1 and rank(y) == 1:
        r = reduce_term("bsum", mk("mul", x, y))
    else:
        r = N.matmul(x, y)
    if isinstance(out, Ref) and I.is_arr(st, out):
        N.write(I, st, out, r)
        return out
    return N.wrap(I, st, r)


def np_cross(I, st, a, k):
    N = _N()
    x, y = N.val(I, st, a[0]), N.val(I, st, a[1])

    def comps(t):
        if t.op in ("row", "cols") and len(t.args) == 3:
            return list(t.args), t.op
        if t.op == "mat" and all(r.op == "row" and len(r.args) == 3
                                 for r in t.args):
            return None, "mat"
        return None, None

    def x3(p, q):
        return [mk("sub", mk("mul", p[1], q[2]), mk("mul", p[2], q[1])),
                mk("sub", mk("mul", p[2], q[0]), mk("mul", p[0], q[2])),
                mk("sub", mk("mul", p[0], q[1]), mk("mul", p[1], q[0]))]
    p, po = comps(x)
    q, qo = comps(y)
    if po == "mat" or qo == "mat":
        n = len(x.args) if po == "mat" else len(y.args)
        rows = []
        for i in range(n):
            r1 = x.args[i].args if po == "mat" else (p and p)
            r2 = y.args[i].args if qo == "mat" else (q and q)
            if r1 is None or r2 is None:
                break
            rows.append(raw("row", *x3(list(r1), list(r2))))
        else:
            return I.new_arr(st, raw("mat", *rows))
    if p is None and rank(x) == 2 and x.op != "mat":
        p = [N.col(x, j) for j in range(3)]
        po = "cols"
    if q is None and rank(y) == 2 and y.op != "mat":
        q = [N.col(y, j) for j in range(3)]
        qo = "cols"
    if p is None and rank(x) == 1:
        p, po = [N.at(x, const(j)) for j in range(3)], "row"
    if q is None and rank(y) == 1:
        q, qo = [N.at(y, const(j)) for j in range(3)], "row"
    if p is None or q is None:
        return I.new_arr(st, opaque_term(I, st, "numpy.cross", a, k))
    op = "cols" if "cols" in (po, qo) else "row"
    return I.new_arr(st, raw(op, *x3(p, q)))


def np_outer(I, st, a, k):
    N = _N()
    x, y = [N.val(I, st, v) for v in a[:2]]
    if x.op == "row" and y.op == "row":
        return I.new_arr(st, raw("mat", *[raw("row", *[mk("mul", p, q)
                                                       for q in y.args])
                                          for p in x.args]))
    return I.new_arr(st, mk("mul", raw("colvec", x), raw("rowvec", y)))


def _seq_terms(I, st, x):
    N = _N()
    if I.is_arr(st, x):
        t = I.content(st, x)
        if t.op in ("mat",):
            return list(t.args)
        if t.op == "cols":
            return None
        return None
    its = I.static_items(x, st) if isinstance(x, (Tup, Ref)) else None
    if its is None:
        return None
    return [N.val(I, st, y) for y in its]


def np_stack(I, st, a, k):
    N = _N()
    x = a[0]
    ts = _seq_terms(I, st, x)
    ok, ax = nf.axis_of(_arg(a, k, 1, "axis", ZERO))
    out = k.get("out")
    if ts is None or not ok:
        return I.new_arr(st, opaque_term(I, st, "numpy.stack", a, k))
    r = None
    if all(rank(t) == 1 and t.op != "row" for t in ts):
        r = raw("stackrows", *ts) if ax in (0, -2) else raw("cols", *ts)
    elif all(t.op == "row" for t in ts):
        r = raw("mat", *ts)
        if ax in (1, -1):
            r = N.transpose(r)
    elif all(rank(t) == 0 for t in ts):
        r = raw("row", *ts)
    if r is None:
        return I.new_arr(st, opaque_term(I, st, "numpy.stack", a, k))
    if isinstance(out, Ref) and I.is_arr(st, out):
        N.write(I, st, out, r)
        return out
    return I.new_arr(st, r)


def np_vstack(I, st, a, k):
    N = _N()
    ts = _seq_terms(I, st, a[0])
    if ts is not None:
        if all(t.op == "row" for t in ts):
            return I.new_arr(st, raw("mat", *ts))
        if all(rank(t) == 1 for t in ts) and ts:
            return I.new_arr(st, raw("stackrows", *ts))
        if all(rank(t) == 2 for t in ts) and len(ts) == 1:
            return I.new_arr(st, ts[0])
        if any(rank(t) is None for t in ts):
            return I.new_arr(st, raw("vstack", *ts))
        return I.new_arr(st, raw("concat", ZERO, *ts))
    x = a[0]
    return I.new_arr(st, raw("concat_seq", ZERO, I.term(x, st)
                             if not _isref(I, st, x, IterO) else
                             I.term(nf.bi_list(I, st, [x], {}), st)))


def np_hstack(I, st, a, k):
    N = _N()
    ts = _seq_terms(I, st, a[0])
    if ts is not None:
        if all(t.op == "row" for t in ts):
            return I.new_arr(st, raw("row", *[y for t in ts for y in t.args]))
        r = _hcols(ts)
        if r is not None:
            return I.new_arr(st, r)
        if len(ts) == 1:
            return I.new_arr(st, ts[0])
        return I.new_arr(st, raw("concat", const(
            0 if all(rank(t) == 1 for t in ts) else 1), *ts))
    return I.new_arr(st, raw("concat_seq", const(1), I.term(
        nf.bi_list(I, st, [a[0]], {}), st)))


def _hcols(ts):
    cols = []
    for t in ts:
        if t.op == "colvec":
            cols.append(t.args[0])
        elif t.op == "cols":
            cols.extend(t.args)
        else:
            return None
    return raw("cols", *cols)


def np_column_stack(I, st, a, k):
    ts = _seq_terms(I, st, a[0])
    if ts is None:
        return I.new_arr(st, opaque_term(I, st, "numpy.column_stack", a, k))
    if all(t.op == "row" for t in ts):
        return I.new_arr(st, _N().transpose(raw("mat", *ts)))
    cols = []
    for t in ts:
        if rank(t) == 1:
            cols.append(t)
        elif t.op == "colvec":
            cols.append(t.args[0])
        elif t.op == "cols":
            cols.extend(t.args)
        else:
            return I.new_arr(st, opaque_term(I, st, "numpy.column_stack", a, k))
    return I.new_arr(st, raw("cols", *cols))


def np_concatenate(I, st, a, k):
    N = _N()
    ok, ax = nf.axis_of(_arg(a, k, 1, "axis", ZERO))
    ts = _seq_terms(I, st, a[0])
    if ts is None or not ok:
        x = a[0]
        return I.new_arr(st, raw("concat_seq", const(ax if ok else -9), I.term(
            nf.bi_list(I, st, [x], {}), st)))
    if all(t.op == "row" for t in ts) and ax in (0, -1, None):
        return I.new_arr(st, raw("row", *[y for t in ts for y in t.args]))
    if ax in (1, -1):
        r = _hcols(ts)
        if r is not None:
            return I.new_arr(st, r)
    if len(ts) == 1:
        return I.new_arr(st, ts[0])
    return I.new_arr(st, raw("concat", const(ax), *ts))


def np_tile(I, st, a, k):
    N = _N()
    t = N.val(I, st, a[0])
    reps = _arg(a, k, 1, "reps")
    if isinstance(reps, Tup) and len(reps.items) == 2 and \
            _cint(reps.items[1]) == 1:
        n = _cint(reps.items[0])
        if t.op == "row":
            if n is not None and n <= 16:
                return I.new_arr(st, raw("mat", *[t] * n))
            sp = I.len_space(N.val(I, st, reps.items[0]))
            return I.new_arr(st, raw("cols", *[raw("full", sp, x, 1)
                                               for x in t.args]))
        if t.op == "mat" and n is not None and n <= 16:
            return I.new_arr(st, raw("mat", *(t.args * n)))
        if rank(t) == 1 and n is not None and n <= 16:
            return I.new_arr(st, raw("stackrows", *[t] * n))
    c = _cint(reps) if isinstance(reps, T) else None
    if c is not None and t.op == "row":
        return I.new_arr(st, raw("row", *(t.args * c)))
    return I.new_arr(st, raw("tile", t, I.term(reps, st)))


def _shapef(nm):
    def f(I, st, a, k):
        x = a[0]
        if isinstance(x, Unk):
            return I.unknown(nm, I.reach(st, x))
        if not I.is_arr(st, x):
            x = _conv(I, st, [x], {}, True)
            if not I.is_arr(st, x):
                if isinstance(x, T) and rank(x) == 0:
                    x = I.new_arr(st, raw("row", x))
                else:
                    return I.new_arr(st, opaque_term(I, st, "numpy." + nm, a, k))
        return np_shape_op(I, st, nm, x, list(a[1:]), k)
    return f


def np_atleast_1d(I, st, a, k):
    N = _N()
    t = N.val(I, st, a[0])
    if rank(t) == 0:
        return I.new_arr(st, raw("row", t))
    if I.is_arr(st, a[0]):
        return a[0]
    return I.new_arr(st, t)


def np_atleast_2d(I, st, a, k):
    N = _N()
    t = N.val(I, st, a[0])
    if rank(t) == 1:
        return I.new_arr(st, raw("mat", t) if t.op == "row" else
                         raw("rowvec", t))
    return a[0] if I.is_arr(st, a[0]) else I.new_arr(st, t)


def np_expand_dims(I, st, a, k):
    N = _N()
    ok, ax = nf.axis_of(_arg(a, k, 1, "axis"))
    x = a[0]
    t = N.val(I, st, x)
    if rank(t) == 1 and ok and I.is_arr(st, x):
        return N.view(I, st, x, ("colvec",) if ax in (1, -1) else ("rowvec",))
    return I.new_arr(st, raw("expand", t, const(ax if ok else -9)))


def np_fill_diagonal(I, st, a, k):
    N = _N()
    x = a[0]
    v = N.val(I, st, _arg(a, k, 1, "val"))
    if I.is_arr(st, x):
        N.write(I, st, x, N.filldiag(I.content(st, x), v))
    else:
        I.unknown("fill_diagonal", I.reach(st, x))
    return NONE


def np_put_along_axis(I, st, a, k):
    N = _N()
    x, idx, v = a[0], N.val(I, st, a[1]), N.val(I, st, a[2])
    ax = N.val(I, st, _arg(a, k, 3, "axis"))
    if I.is_arr(st, x):
        N.write(I, st, x, raw("putaxis", I.content(st, x), idx, v, ax))
    return NONE


def np_take_along_axis(I, st, a, k):
    N = _N()
    return I.new_arr(st, raw("takeaxis", N.val(I, st, a[0]), N.val(
        I, st, a[1]), N.val(I, st, _arg(a, k, 2, "axis"))))


def np_copyto(I, st, a, k):
    N = _N()
    x, v = a[0], N.val(I, st, a[1])
    w = k.get("where")
    if I.is_arr(st, x):
        t = I.content(st, x)
        if w is not None and w is not TRUE:
            v = mk("ite", N.val(I, st, w), v, t)
        N.write(I, st, x, v)
    return NONE


def np_putmask(I, st, a, k):
    N = _N()
    x, m, v = a[0], N.val(I, st, a[1]), N.val(I, st, a[2])
    if I.is_arr(st, x):
        t = I.content(st, x)
        if rank(v) == 0:
            N.write(I, st, x, mk("ite", m, v, t))
        else:
            N.write(I, st, x, raw("putmask", t, m, v))
    return NONE


def np_put(I, st, a, k):
    N = _N()
    if I.is_arr(st, a[0]):
        I.setitem(a[0], a[1], a[2], st)
    return NONE


def np_take(I, st, a, k):
    ok, ax = nf.axis_of(_arg(a, k, 2, "axis"))
    if ok and ax in (None, 0) and I.is_arr(st, a[0]):
        return I.getitem(a[0], a[1], st)
    return I.new_arr(st, opaque_term(I, st, "numpy.take", a, k))


def np_compress(I, st, a, k):
    ok, ax = nf.axis_of(_arg(a, k, 2, "axis"))
    if ok and ax in (None, 0) and I.is_arr(st, a[1]):
        c = I.norm(st, a[0])
        if isinstance(c, Slice) or isinstance(c, T) and rank(c) == 0:
            I.raise_now("ValueError", st)
        c = nf.ext_call(I, st, "numpy.asarray", [c], {"dtype": const("b1")})
        return I.getitem(a[1], c, st)
    return I.new_arr(st, opaque_term(I, st, "numpy.compress", a, k))


def _tri(lower):
    def f(I, st, a, k):
        n = _cint(a[0])
        kk = _cint(_arg(a, k, 1, "k", ZERO))
        if n is not None and kk is not None and n <= 16:
            ix = [(i, j) for i in range(n) for j in range(n)
                  if (j <= i + kk if lower else j >= i + kk)]
            return Tup([I.new_arr(st, raw("row", *[const(p[q]) for p in ix]),
                                  DT("i8")) for q in (0, 1)])
        N = _N()
        t = N.val(I, st, a[0])
        return Tup([I.new_arr(st, raw("tri", const(lower), t, const(
            kk if kk is not None else -99), const(q)), DT("i8"))
            for q in (0, 1)])
    return f


def np_diag(I, st, a, k):
    N = _N()
    x = a[0]
    t = N.val(I, st, x)
    if len(a) > 1 and a[1] is not ZERO or k:
        return I.new_arr(st, opaque_term(I, st, "numpy.diag", a, k))
    if rank(t) == 2:
        return N.view(I, st, x, ("diag",)) if I.is_arr(st, x) else I.new_arr(
            st, N.diag(t))
    if t.op == "row":
        n = len(t.args)
        return I.new_arr(st, raw("mat", *[raw("row", *[
            t.args[i] if i == j else F0 for j in range(n)])
            for i in range(n)]))
    return I.new_arr(st, raw("diagmat", t))


def _reim(op):
    def f(I, st, a, k):
        N = _N()
        if I.is_arr(st, a[0]):
            return nf.arr_attr(I, st, a[0], "real" if op == "re" else "imag")
        return N.wrap(I, st, mk(op, N.val(I, st, a[0])))
    return f


def np_angle(I, st, a, k):
    N = _N()
    t = N.val(I, st, a[0])
    r = mk("angle", t)
    deg = _arg(a, k, 1, "deg", FALSE)
    if deg is TRUE:
        r = mk("mul", r, const(180 / math.pi))
    return N.wrap(I, st, r)


def np_isclose(I, st, a, k):
    N = _N()
    x, y = N.val(I, st, a[0]), N.val(I, st, a[1])
    rt = N.val(I, st, _arg(a, k, 2, "rtol", const(1e-5)))
    at_ = N.val(I, st, _arg(a, k, 3, "atol", const(1e-8)))
    if y.op != "const" or k.get("equal_nan", FALSE) is not FALSE or len(a) > 4:
        r = mk("isclose", x, y, rt, at_, *[I.term(v, st) for v in a[4:5] or [
            k[q] for q in ("equal_nan",) if q in k]])
        return N.wrap(I, st, r, DT("b1"))
    r = mk("le", mk("abs", mk("sub", x, y)), mk("add", at_, mk(
        "mul", rt, mk("abs", y))))
    return N.wrap(I, st, r, DT("b1"))


def np_allclose(I, st, a, k):
    N = _N()
    d = (None, None, const(1e-5), const(1e-8), FALSE)
    return raw("allclose", *[N.val(I, st, _arg(a, k, i, n, d[i])) for i, n in enumerate(
        ("a", "b", "rtol", "atol", "equal_nan"))])


def np_array_equal(I, st, a, k):
    N = _N()
    x, y = a[0], a[1]
    tx, ty = N.val(I, st, x), N.val(I, st, y)
    nan = _arg(a, k, 2, "equal_nan", FALSE)
    if nan is not FALSE:
        return raw("arrayeq", tx, ty, I.term(nan, st))
    if tx is ty:
        return TRUE
    return raw("arrayeq", tx, ty)


def np_shape(I, st, a, k):
    N = _N()
    x = a[0]
    if isinstance(x, Unk):
        return I.unknown("shape", I.reach(st, x))
    if I.is_arr(st, x):
        return nf.arr_attr(I, st, x, "shape")
    if I.is_inst(st, x):
        h = st.heap[x.id]
        if h.cls.lookup("shape") is not None:
            return I.getattr(x, "shape", st)
    t = N.val(I, st, x)
    if rank(t) == 0 and t.op != "struct":
        return Tup([])
    s = shape_of(I, st, t)
    return Tup(s) if s is not None else raw("shape", t)


def _attrf(nm):
    def f(I, st, a, k):
        x = a[0]
        if I.is_arr(st, x) and len(a) == 1:
            return nf.arr_attr(I, st, x, nm)
        if len(a) == 2 and nm == "size":
            sh = np_shape(I, st, a[:1], {})
            if isinstance(sh, Tup) and _cint(a[1]) is not None:
                return sh.items[_cint(a[1])]
        N = _N()
        t = N.val(I, st, x)
        return nf.term_attr(I, st, t, nm)
    return f


def np_clip(I, st, a, k):
    N = _N()
    x = N.val(I, st, a[0])
    lo = _arg(a, k, 1, "a_min", k.get("min", NONE))
    hi = _arg(a, k, 2, "a_max", k.get("max", NONE))
    if lo is not NONE:
        x = mk("maximum", x, N.val(I, st, lo))
    if hi is not NONE:
        x = mk("minimum", x, N.val(I, st, hi))
    out = k.get("out")
    if isinstance(out, Ref) and I.is_arr(st, out):
        N.write(I, st, out, x)
        return out
    return N.wrap(I, st, x)


def np_round(I, st, a, k):
    N = _N()
    return N.wrap(I, st, raw("round", *[N.val(I, st, x) for x in a]))


def np_nan_to_num(I, st, a, k):
    N = _N()
    t = N.val(I, st, a[0])
    nanv = N.val(I, st, k.get("nan", F0))
    r = mk("ite", mk("isnan", t), nanv, raw("infclip", t)
           if k.get("posinf") is None else t)
    return N.wrap(I, st, r)


def np_finfo(I, st, a, k):
    return I.alloc(st, ExtO("finfo", raw("finfo"), {
        "eps": const(2.220446049250313e-16), "max": const(
            1.7976931348623157e308), "min": const(-1.7976931348623157e308),
        "tiny": const(2.2250738585072014e-308)}))


def np_isscalar(I, st, a, k):
    v = I.norm(st, a[0])
    if isinstance(v, Phi):
        return I.on_phi(v, st, lambda x, s: np_isscalar(I, s, [x], {}))
    if isinstance(v, (Ref, Tup, EnumV)) or v is NONE:
        return FALSE
    if isinstance(v, T) and (v.op == "const" or kind(v) is not None and rank(v) is not None):
        return const(v.op == "const" or rank(v) == 0)
    return nf._unk("isscalar")


def np_dtype(I, st, a, k):
    N = _N()
    x = a[0]
    d = N.as_dtype(I, x, st)
    if d is not None:
        return d
    return I.alloc(st, ExtO("dtype", raw("dtype", I.term(x, st))))


def np_count_nonzero(I, st, a, k):
    N = _N()
    t = N.tob(N.val(I, st, a[0]))
    ok, ax = nf.axis_of(_arg(a, k, 1, "axis"))
    return N.wrap(I, st, reduce_term("bsum", mk("ite", t, ONE, ZERO), ax
                                     if ok else None))


def np_repeat(I, st, a, k):
    N = _N()
    t = N.val(I, st, a[0])
    n = N.val(I, st, _arg(a, k, 1, "repeats"))
    if rank(t) == 0 and rank(n) == 0:
        c = _cint(n)
        if c is not None and c <= 64:
            return I.new_arr(st, raw("row", *[t] * c))
        return I.new_arr(st, raw("full", I.len_space(n), t, 1))
    return I.new_arr(st, opaque_term(I, st, "numpy.repeat", a, k))


def np_broadcast_to(I, st, a, k):
    N = _N()
    t = N.val(I, st, a[0])
    if rank(t) == 0:
        return make_full(I, st, a[1], t, None)
    return I.new_arr(st, opaque_term(I, st, "numpy.broadcast_to", a, k))


def np_cumsum(I, st, a, k):
    N = _N()
    return I.new_arr(st, raw("cumsum", N.val(I, st, a[0]), *[
        raw("kw", q, N.val(I, st, v)) for q, v in sorted(k.items())]))


def np_iscomplexobj(I, st, a, k):
    t = _N().val(I, st, a[0])
    return const(kind(t) == "c16") if kind(t) else _unk("iscomplex")


def np_nonzero(I, st, a, k):
    return np_where(I, st, a[:1], {})


def np_append(I, st, a, k):
    N = _N()
    x, y = N.val(I, st, a[0]), N.val(I, st, a[1])
    if x.op == "row" and y.op == "row":
        return I.new_arr(st, raw("row", *(x.args + y.args)))
    return I.new_arr(st, raw("concat", ZERO, x, y))


def np_linspace(I, st, a, k):
    N = _N()
    return I.new_arr(st, raw("linspace", *[N.val(I, st, x) for x in a], *[
        raw("kw", q, N.val(I, st, v)) for q, v in sorted(k.items())]))


def np_sort(I, st, a, k):
    N = _N()
    return I.new_arr(st, raw("sorted", N.val(I, st, a[0])))


def np_flip(I, st, a, k):
    N = _N()
    t = N.val(I, st, a[0])
    if rank(t) == 1 and I.is_arr(st, a[0]):
        return I.getitem(a[0], Slice(NONE, NONE, const(-1)), st)
    return I.new_arr(st, opaque_term(I, st, "numpy.flip", a, k))


def np_einsum(I, st, a, k):
    return I.new_arr(st, opaque_term(I, st, "numpy.einsum", a, k))


def np_ptp(I, st, a, k):
    N = _N()
    t = N.val(I, st, a[0])
    return N.wrap(I, st, mk("sub", reduce_term("bmax", t, None),
                            reduce_term("bmin", t, None)))


def np_average(I, st, a, k):
    N = _N()
    if "weights" not in k and len(a) < 3:
        return np_mean(I, st, a, k)
    w = N.val(I, st, _arg(a, k, 2, "weights"))
    t = N.val(I, st, a[0])
    if rank(t) == 1 and rank(w) == 1:
        return mk("div", reduce_term("bsum", mk("mul", t, w)),
                  reduce_term("bsum", w))
    return I.new_arr(st, opaque_term(I, st, "numpy.average", a, k))


NPF = {
    "array": np_array, "asarray": np_asarray, "asanyarray": np_asarray,
    "ascontiguousarray": _contig, "asfortranarray": _fortran, "copy": _copyf,
    "require": _require,
    "zeros": _creator(0), "ones": _creator(1), "empty": _creator("empty"),
    "full": _creator("full"), "zeros_like": _like(0), "ones_like": _like(1),
    "empty_like": _like("empty"), "full_like": _like("full"),
    "arange": np_arange, "eye": np_eye, "identity": np_identity,
    "ix_": np_ix, "issubdtype": np_issubdtype,
    "where": np_where, "flatnonzero": np_flatnonzero, "nonzero": np_nonzero,
    "argwhere": _rawop("argwhere"),
    "mean": np_mean, "var": np_var, "std": np_std, "average": np_average,
    "argmin": _arg0("argmin0"), "argmax": _arg0("argmax0"),
    "argsort": np_argsort, "sort": np_sort,
    "argpartition": _rawop("argpartition", "i8"),
    "partition": _rawop("partition"),
    "isin": np_isin, "unique": np_unique, "dot": np_dot, "vdot": np_dot,
    "inner": np_dot, "cross": np_cross, "outer": np_outer,
    "stack": np_stack, "vstack": np_vstack, "row_stack": np_vstack,
    "hstack": np_hstack, "column_stack": np_column_stack,
    "concatenate": np_concatenate, "append": np_append,
    "tile": np_tile, "repeat": np_repeat, "reshape": _shapef("reshape"),
    "ravel": _shapef("ravel"), "transpose": _shapef("transpose"),
    "squeeze": _shapef("squeeze"), "swapaxes": _shapef("swapaxes"),
    "atleast_1d": np_atleast_1d, "atleast_2d": np_atleast_2d,
    "expand_dims": np_expand_dims, "fill_diagonal": np_fill_diagonal,
    "put_along_axis": np_put_along_axis,
    "take_along_axis": np_take_along_axis, "copyto": np_copyto,
    "putmask": np_putmask, "place": np_putmask, "put": np_put,
    "take": np_take, "compress": np_compress, "triu_indices": _tri(False),
    "tril_indices": _tri(True), "diag": np_diag, "diagonal": np_diag,
    "real": _reim("re"), "imag": _reim("im"), "angle": np_angle,
    "isclose": np_isclose, "allclose": np_allclose,
    "array_equal": np_array_equal, "shape": np_shape, "ndim": _attrf("ndim"),
    "size": _attrf("size"), "cumsum": np_cumsum, "clip": np_clip,
    "round": np_round, "around": np_round, "nan_to_num": np_nan_to_num,
    "finfo": np_finfo, "dtype": np_dtype, "isscalar": np_isscalar, "count_nonzero": np_count_nonzero,
    "broadcast_to": np_broadcast_to, "iscomplexobj": np_iscomplexobj,
    "linspace": np_linspace, "flip": np_flip, "einsum": np_einsum,
    "ptp": np_ptp, "diff": _rawop("diff"), "searchsorted": np_searchsorted, "trace": _rawop("trace"),
}
