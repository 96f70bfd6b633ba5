"""Pure terms: the value-graph language of the analyser.

A term is a hash-consed node ``T(op, args)``.  Array contents are described
row-generically: an operation which numpy applies element-wise is applied to
the content terms directly, so ``x * x + y * y`` over arrays is the same term
as over scalars, and all other operations are uninterpreted constructors.

Equality of terms is decided by global value numbering with random
interpretation (Gulwani and Necula, POPL 2004): interpreted arithmetic is
evaluated on random valuations of the leaves, uninterpreted constructors get a
pseudo-random value determined by the value numbers of their arguments.
"""
import cmath
import hashlib
import math
import struct

_TABLE = {}


class T:
    __slots__ = ("op", "args", "hid", "_vars", "__weakref__")

    def __repr__(self):
        return show(self)


def _ckey(v):
    if isinstance(v, float) and v != v:
        return ("float", "nan")
    if isinstance(v, (float, complex, int, bool)):
        return (type(v).__name__, repr(v))
    return (type(v).__name__, v)


_COUNT = [0]


def raw(op, *args):
    if op == "const":
        key = ("const", _ckey(args[0]))
    else:
        key = (op, args)
    t = _TABLE.get(key)
    if t is None:
        t = T()
        t.op, t.args = op, args
        _COUNT[0] += 1
        t.hid = _COUNT[0]
        t._vars = None
        _TABLE[key] = t
    return t


def const(v):
    return raw("const", v)


TRUE, FALSE, NONE = const(True), const(False), const(None)


def is_const(t):
    return isinstance(t, T) and t.op == "const"


def cval(t):
    return t.args[0]


# ---------------------------------------------------------------- symbols
SYM = {}  # name -> properties


def sym(name, kind="f8", rank=0, **props):
    """A leaf.  kind: f8 c16 i4 i2 i8 b1 str obj; rank: number of axes."""
    d = dict(kind=kind, rank=rank)
    d.update(props)
    base, n = name, 1
    while name in SYM and any(SYM[name].get(k) != d.get(k)
                              for k in ("kind", "rank", "space", "space1")):
        n += 1
        name = "%s~%d" % (base, n)      # the same name used for another thing
    if name not in SYM:
        SYM[name] = d
    return raw("sym", name)


def props(t):
    return SYM.get(t.args[0], {})


def tvars(t):
    """All symbol / bvar / unk leaves of a term."""
    if t._vars is not None:
        return t._vars
    if t.op in ("sym", "bvar", "unk", "carried"):
        r = frozenset((t,))
    else:
        r = frozenset()
        for a in t.args:
            r |= _avars(a)
        if t.op == "fold":
            r -= frozenset(t.args[4].args)
            r |= _avars(t.args[5])
    t._vars = r
    return r


def _avars(a):
    if isinstance(a, T):
        return tvars(a)
    r = frozenset()
    if isinstance(a, tuple):
        for b in a:
            r |= _avars(b)
    return r


def has_unknown(t):
    return any(v.op in ("unk", "carried") for v in tvars(t))


def subst(t, mapping):
    """Replace leaves (or any sub-terms) by mapping, re-simplifying."""
    memo = {}

    def go(u):
        if u in mapping:
            return mapping[u]
        r = memo.get(u)
        if r is not None:
            return r
        if u.op in ("const", "sym", "unk"):
            r = u
        elif u.op == "fold" and any(c in mapping for c in u.args[4].args):
            # the variables of the loop itself are bound
            own = set(u.args[4].args)
            body = subst(u.args[1], {k: v for k, v in mapping.items() if k not in own})
            r = raw("fold", go(u.args[0]), body, *u.args[2:5], go(u.args[5]))
        else:
            new = tuple(arg(a) for a in u.args)
            r = u if new == u.args else mk(u.op, *new)
        memo[u] = r
        return r

    def arg(a):
        if isinstance(a, T):
            return go(a)
        return tuple(arg(b) for b in a) if isinstance(a, tuple) else a

    return go(t)


def contains(t, pred):
    seen = set()
    stack = [t]
    while stack:
        u = stack.pop()
        if u in seen:
            continue
        seen.add(u)
        if pred(u):
            return u
        args = list(u.args)
        while args:
            a = args.pop()
            if isinstance(a, T):
                stack.append(a)
            elif isinstance(a, tuple):
                args.extend(a)
    return None


def subterms(t):
    seen = set()
    stack = [t]
    while stack:
        u = stack.pop()
        if u in seen:
            continue
        seen.add(u)
        yield u
        for a in u.args:
            if isinstance(a, T):
                stack.append(a)
            elif isinstance(a, tuple):
                stack.extend(flat_terms(a))


def flat_terms(a):
    for b in a:
        if isinstance(b, T):
            yield b
        elif isinstance(b, tuple):
            yield from flat_terms(b)


# ------------------------------------------------------------ op classes
BOOL_OPS = {"ixeq", "member", "lt", "le", "gt", "ge", "eq", "ne", "not", "and", "or", "xor",
            "isnan", "isinf", "isfinite", "isclose", "isin", "is",
            "isinstance", "truth", "in", "logical_any", "logical_all",
            "isnone", "nonempty", "arrayeq", "allclose", "callable", "raises", "cast_b1",
            "signbit"}
UNARY = {"neg", "abs", "sqrt", "exp", "log", "sin", "cos", "tan", "arcsin",
         "arccos", "arctan", "sinh", "cosh", "tanh", "arcsinh", "arccosh",
         "arctanh", "sign", "expm1", "log1p", "conj", "re", "im", "angle",
         "isnan", "isinf", "isfinite", "not", "floor", "ceil", "rint",
         "trunc", "log10", "log2", "invert", "signbit", "cbrt", "f4",
         "cast_b1", "cast_int", "f8"}
BINARY = {"add", "sub", "mul", "div", "floordiv", "mod", "pow", "hypot",
          "arctan2", "copysign", "complex", "maximum", "minimum", "lt", "le",
          "gt", "ge", "eq", "ne", "and", "or", "xor", "bitand", "bitor",
          "bitxor", "fmax", "fmin", "lshift", "rshift"}
ELEMENTWISE = UNARY | BINARY | {"ite", "isclose", "clip", "round",
                                "nan_to_num", "prop"}


def rank(t):
    """Number of axes, or None when not known."""
    r = _RANK.get(t)
    if r is None and t not in _RANK:
        r = _rank(t)
        _RANK[t] = r
    return r


_RANK = {}


def _rank(t):
    op = t.op
    if op == "const":
        return 0
    if op == "sym":
        return props(t).get("rank", 0)
    if op in ("bvar", "carried0", "np_"):
        return 0
    if op in ("unk", "carried"):
        return None
    if op in ELEMENTWISE:
        rs = [rank(a) for a in t.args if isinstance(a, T)]
        if any(r is None for r in rs):
            return None
        return max(rs, default=0)
    if op == "npcall":
        return t.args[1]
    if op == "npuf":
        rs = [rank(a) for a in t.args if isinstance(a, T)]
        return None if any(r is None for r in rs) else max(rs, default=0)
    if op == "npat":
        return rank(t.args[1])
    if op == "cols":
        rs = [rank(a) for a in t.args]
        if any(r is None for r in rs):
            return None
        return max(rs) + 1 if rs else 2
    if op == "col":
        r = rank(t.args[0])
        return None if r is None else r - 1
    if op == "field":
        return rank(t.args[0])
    if op == "at":
        r = rank(t.args[0])
        return None if r is None else max(r - 1, 0)
    if op == "take":
        r, k = rank(t.args[0]), t.args[1]
        if r is None:
            return None
        kr = key_rank(k)
        return None if kr is None else r - 1 + kr
    if op == "full":
        return t.args[2]
    if op == "row":
        return 1
    if op in ("mat", "colvec", "rowvec", "lam2"):
        return 2
    if op == "stackrows":
        rs = [rank(a) for a in t.args]
        return None if not rs or any(r is None for r in rs) else max(rs) + 1
    if op in ("red0", "red1"):
        return 1
    if op == "struct":
        rs = [rank(a) for a in t.args[1:]]
        return None if any(r is None for r in rs) else max(rs, default=1)
    if op in ("fill", "filldiag"):
        return rank(t.args[0])
    if op == "reshape" and all(isinstance(a, T) and rank(a) == 0 for a in t.args[1:]):
        return len(t.args) - 1 or None
    if op == "isin":
        return rank(t.args[0])
    if op in ("bsum", "bprod", "bany", "ball", "len", "rows_n", "argmin0",
              "argmax0", "bmin", "bmax", "truth", "isinstance",
              "isnone", "nonempty", "in", "is", "arrayeq", "allclose", "item", "raises",
              "var0", "std0"):
        return 0
    if op == "redall" or op == "redn" and t.args[2].op == "const" and t.args[2].args[0] is None:
        return 0
    if op == "takecols" and key_rank(t.args[1]) == 1:
        return rank(t.args[0])
    if op == "upd":
        return rank(t.args[0])
    if op == "lam1":
        r = rank(t.args[2])
        return None if r is None else r + 1
    if op in ("isin", "maskput", "sorted", "reverse"):
        return rank(t.args[0]) if t.args and isinstance(t.args[0], T) else 1
    if op in ("arange", "flatnonzero", "argsort", "ravel", "unique", "filt",
              "linspace", "rand1", "nonzero", "nzvals", "coosum", "coopart",
              "csrindices", "fj_col", "seqof", "snoc"):
        return 1
    if op in ("coodense", "fj_cons"):
        return 2
    if op == "concat":
        if t.args[0].args[0] is None:
            return 1
        rs = {rank(a) for a in t.args[1:]}
        return rs.pop() if len(rs) == 1 else None
    if op in ("str", "fmt", "strjoin", "strm", "countof", "occ", "ixeq", "nth", "member",
              "lastof", "firstof"):
        return 0
    if op in ("outer2", "matsym"):
        return 2
    if op == "fold":
        return rank(t.args[3])
    return None


def key_rank(k):
    """Rank of an index key: 0 for an integer, 1 for mask/array/slice."""
    if k.op == "slice" or k.op == "ellipsis":
        return 1
    if kind(k) == "b1" and rank(k) in (1, None):
        return 1 if rank(k) == 1 else None
    return rank(k)


_KIND, _SPACE = {}, {}


def kind(t):
    """Element kind: 'b1', 'f8', 'c16', 'int', 'str' or None."""
    try:
        return _KIND[t]
    except KeyError:
        r = _KIND[t] = _kind(t)
        return r


def _kind(t):
    op = t.op
    if op == "const":
        v = t.args[0]
        if isinstance(v, bool):
            return "b1"
        if isinstance(v, int):
            return "int"
        if isinstance(v, float):
            return "f8"
        if isinstance(v, complex):
            return "c16"
        if isinstance(v, str):
            return "str"
        return None
    if op == "sym":
        return props(t).get("kind")
    if op in BOOL_OPS or op in ("bany", "ball"):
        return "b1"
    if op == "np_":
        return kind(t.args[0])
    if op in ("complex", "conj"):
        return "c16"
    if op in ("re", "im", "angle", "hypot", "arctan2", "f8"):
        return "f8"
    if op == "abs":
        k = kind(t.args[0])
        return "f8" if k == "c16" else k
    if op in ("sqrt", "exp", "sin", "cos", "div", "log", "sinh", "cosh",
              "arctanh", "arccos", "tanh", "tan", "copysign", "arctan", "arcsin",
              "arcsinh", "arccosh", "expm1", "log1p", "log2", "log10", "cbrt"):
        ks = [kind(a) for a in t.args]
        if "c16" in ks:
            return "c16"
        if any(k is None for k in ks):
            return None
        return "f8"
    if op in ("len", "bvar", "argmin0", "argmax0", "flatnonzero", "argsort",
              "arange", "rows_n", "nonzero", "csrindices", "fj_cons", "countof", "occ", "nth",
              "lastof", "firstof"):
        return "int"
    if op == "fj_col":
        return "f8"
    if op == "fold":
        return kind(t.args[3])
    if op == "seqof":
        return t.args[0]
    if op == "snoc":
        return kind(t.args[0])
    if op in ("coosum", "coopart"):
        if t.args[1].args[0] != "data":
            return "int"
        return kind(t.args[0].args[2]) if t.args[0].op == "coo" else None
    if op == "nzvals":
        return kind(t.args[0])
    if op == "coodense":
        return kind(t.args[2])
    if op in ("bitand", "bitor", "bitxor", "invert"):
        ks = {kind(a) for a in t.args}
        if ks == {"b1"}:
            return "b1"
        return "int" if ks <= {"b1", "int"} and "int" in ks else None
    if op == "sign":
        return kind(t.args[0])
    if op in ("add", "sub", "mul", "neg", "pow", "maximum", "minimum",
              "mod", "floordiv", "fmax", "fmin", "cols", "row", "mat",
              "stackrows", "bprod"):
        ks = [kind(a) for a in t.args if isinstance(a, T)]
        if op == "bprod":
            ks = [kind(t.args[1])]
        if set(ks) == {"b1"} and op in ("cols", "row", "mat", "stackrows"):
            return "b1"
        if set(ks) == {"str"}:
            return "str"
        if any(k is None for k in ks) or not ks:
            return None
        if "c16" in ks:
            return "c16"
        if "f8" in ks:
            return "f8"
        return "int"
    if op == "ite":
        a, b = kind(t.args[1]), kind(t.args[2])
        if a == b:
            return a
        if set((a, b)) <= {"f8", "int", "c16"}:
            return "c16" if "c16" in (a, b) else "f8"
        return None
    if op in ("col", "at", "take", "upd", "ravel", "field", "maskput", "bsum",
              "bmax", "bmin", "full", "item", "sorted", "reverse", "diag",
              "transpose", "ascontig", "colvec", "rowvec"):
        j = 1 if op == "full" else 0
        if op in ("bsum", "bmax", "bmin"):
            j = 1
        a = t.args[j]
        return kind(a) if isinstance(a, T) else None
    if op in ("cast_int", "trunc"):
        return "int"
    if op in ("str", "fmt", "strjoin", "strm"):
        return "str"
    if op in ("red0", "red1"):
        if t.args[0] in ("bany", "ball"):
            return "b1"
        k = kind(t.args[1])
        return "int" if k == "b1" else k
    if op == "npcall":
        return t.args[2]
    if op == "npuf":
        return t.args[2]
    if op == "npat":
        return kind(t.args[1])
    if op == "lam1":
        return kind(t.args[2])
    if op == "prop":
        return "str" if t.args[0] in ("name", "latex", "quarks") else "f8"
    return None


def space(t):
    """The index set of the first axis, as a term (None if unknown)."""
    try:
        return _SPACE[t]
    except KeyError:
        r = _SPACE[t] = _space(t)
        return r


def _space(t):
    op = t.op
    if op == "sym":
        s = props(t).get("space")
        if s is None and (props(t).get("rank") or 0) >= 1:
            return raw("rowsof", t)
        return s
    if op in ELEMENTWISE or op in ("cols", "isin", "maskput", "npuf", "npat"):
        for a in t.args:
            if isinstance(a, T) and (rank(a) or 0) >= 1:
                s = space(a)
                if s is not None:
                    return s
        return None
    if op in ("col", "upd", "field", "ascontig", "filldiag"):
        return space(t.args[0])
    if op in ("argsort", "fill"):
        return space(t.args[0])
    if op == "red1":
        return space(t.args[1])
    if op == "reshape" and len(t.args) == 3 and is_const(t.args[2]) and t.args[
            0].op == "unique_inverse" and t.args[0].args[0].op == "cols" and len(
                t.args[0].args[0].args) == cval(t.args[2]):
        return space(t.args[0].args[0])
    if op == "take":
        k = t.args[1]
        if k.op == "ellipsis":
            return space(t.args[0])
        if k.op == "slice":
            return raw("subspace", space(t.args[0]) or raw("nospace"), k)
        if kind(k) == "b1":
            return raw("subspace", space(t.args[0]) or raw("nospace"), k)
        return space(k)
    if op == "full":
        if t.args[0].op == "rowsof":
            return space(t.args[0].args[0]) or t.args[0]
        if t.args[0].op == "prodspace" and t.args[0].args:
            return t.args[0].args[0]
        return t.args[0]
    if op == "arange":
        return raw("range", t.args[0], t.args[1], t.args[2])
    if op == "nonzero":
        return raw("nzspace", t.args[0])
    if op == "nzvals":
        return raw("nzspace", t.args[1])
    if op == "coosum":
        return raw("coospace", t.args[0])
    if op == "flatnonzero":
        return raw("subspace", space(t.args[0]) or raw("nospace"), t.args[0])
    if op == "lam1":
        return t.args[0]
    if op in ("fj_col", "fj_cons"):
        return raw("fjspace", t.args[0], t.args[1])
    if op == "at" and (rank(t) or 0) >= 1 and t.args[0].op in ("fill", "full", "sym"):
        return space1(t.args[0]) or raw("rowsof", t)
    return None


def space1(t):
    """The index set of the second axis, if known."""
    if t.op == "fill":
        return space1(t.args[0])
    if t.op == "sym":
        return props(t).get("space1")
    if t.op == "full" and t.args[0].op == "prodspace" and len(t.args[0].args) == 2:
        return t.args[0].args[1]
    return None


# ------------------------------------------------------ smart constructor
_NEGCMP = {"lt": "ge", "ge": "lt", "gt": "le", "le": "gt", "eq": "ne",
           "ne": "eq"}


def _num(v):
    return isinstance(v, (int, float, complex)) and not isinstance(v, bool)


def _broadcast(op, args):
    """Element-wise application over static rows, columns and fills."""
    ops = [a.op if isinstance(a, T) else None for a in args]
    if not any(o in ("row", "mat", "cols", "full", "colvec") for o in ops):
        return None
    if op == "ite" and rank(args[0]) == 0 and "full" in ops:
        return None
    if any(a is None for a in ops):
        return None
    for shape in ("mat", "cols"):
        if shape in ops:
            n = {len(a.args) for a in args if a.op == shape}
            if len(n) != 1:
                return None
            (n,) = n
            new = []
            for k in range(n):
                row = []
                for a in args:
                    if a.op == shape:
                        row.append(a.args[k])
                    elif rank(a) == 0:
                        row.append(a)
                    elif shape == "mat" and a.op == "row":
                        row.append(a)
                    elif shape == "cols" and a.op == "row" and len(a.args) == n:
                        row.append(a.args[k])
                    elif shape == "cols" and a.op == "colvec":
                        row.append(a.args[0])
                    elif a.op == "full" and a.args[2] == 2:
                        row.append(a.args[1])
                    else:
                        return None
                new.append(mk(op, *row))
            return raw(shape, *new)
    if "row" in ops:
        n = {len(a.args) for a in args if a.op == "row"}
        if len(n) != 1:
            return None
        (n,) = n
        if not all(a.op == "row" or rank(a) == 0 or a.op == "full"
                   for a in args):
            return None
        pick = lambda a, k: (a.args[k] if a.op == "row" else  # noqa: E731
                             a.args[1] if a.op == "full" else a)
        return raw("row", *[mk(op, *[pick(a, k) for a in args])
                            for k in range(n)])
    if "full" in ops:
        fulls = [a for a in args if a.op == "full"]
        rest = [a for a in args if a.op != "full"]
        if all(rank(a) == 0 for a in rest):
            if len({a.args[2] for a in fulls}) == 1:
                return raw("full", fulls[0].args[0],
                           mk(op, *[a.args[1] if a.op == "full" else a
                                    for a in args]), fulls[0].args[2])
        elif any((rank(a) or 0) >= fulls[0].args[2] for a in rest):
            if all(f.args[2] == 1 or f.args[2] == max(rank(a) or 0 for a in rest)
                   for f in fulls):
                return mk(op, *[a.args[1] if a.op == "full" else a
                                for a in args])
    return None


_PUSHED = {}


def mk(op, *args):
    if op in ("at", "take", "col"):     # pushed down into shared operands
        key = (op,) + tuple(a if isinstance(a, T) else (type(a), a) for a in args)
        r = _PUSHED.get(key)
        if r is None:
            if len(_PUSHED) > 200000:
                _PUSHED.clear()
            r = _PUSHED[key] = _mk(op, *args)
        return r
    return _mk(op, *args)


def _mk(op, *args):
    f = _SIMP.get(op)
    if f is not None:
        r = f(*args)
        if r is not None:
            return r
    if op in ELEMENTWISE:
        r = _broadcast(op, args)
        if r is not None:
            return r
    if op in ELEMENTWISE and args and all(
            isinstance(a, T) and a.op == "const" for a in args):
        vals = [a.args[0] for a in args]
        if all(isinstance(v, (int, float, complex, bool)) for v in vals):
            try:
                v = INTERP[op](*vals)
                if v is not None:
                    return const(v)
            except Exception:
                pass
    return raw(op, *args)


_SIMP = {}


def simp(*names):
    def deco(f):
        for n in names:
            _SIMP[n] = f
        return f
    return deco


@simp("not")
def _s_not(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == "not":
        return a.args[0]
    if a.op == "eq":
        return raw("ne", *a.args)
    if a.op == "ne":
        return raw("eq", *a.args)
    return None


@simp("invert")
def _s_inv(a):
    if kind(a) == "b1":
        return mk("not", a)
    return None


@simp("and", "bitand_b")
def _s_and(a, b):
    if a is TRUE:
        return b
    if b is TRUE:
        return a
    if a is FALSE and not (rank(b) or 0) or b is FALSE and not (rank(a) or 0):
        return FALSE
    if a is b:
        return a
    return None


@simp("or")
def _s_or(a, b):
    if a is FALSE:
        return b
    if b is FALSE:
        return a
    if a is TRUE and not (rank(b) or 0) or b is TRUE and not (rank(a) or 0):
        return TRUE
    if a is b:
        return a
    return None


@simp("bitand")
def _s_bitand(a, b):
    if kind(a) == "b1" and kind(b) == "b1":
        return mk("and", a, b)
    return None


@simp("bitor")
def _s_bitor(a, b):
    if kind(a) == "b1" and kind(b) == "b1":
        return mk("or", a, b)
    return None


@simp("bitxor")
def _s_bitxor(a, b):
    if kind(a) == "b1" and kind(b) == "b1":
        return mk("xor", a, b)
    return None


@simp("ite")
def _s_ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == "not":
        return mk("ite", c.args[0], b, a)
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return mk("not", c)
    if a.op == "ite" and a.args[0] is c:
        return mk("ite", c, a.args[1], b)
    if b.op == "ite" and b.args[0] is c:
        return mk("ite", c, a, b.args[2])
    if c.op == "bany" and a.op == "ite" and a.args[2] is b and \
            rank(a.args[0]) == 1 and reduce_rows("bany", a.args[0]) is c:
        return a
    return None


@simp("ixeq")
def _s_ixeq(b, i):
    if b is i:
        return TRUE
    if b.op == "const" and i.op == "const" and all(
            isinstance(x.args[0], int) and x.args[0] >= 0 for x in (b, i)):
        return const(b.args[0] == i.args[0])
    return None


@simp("add")
def _s_add(a, b):
    if a.op == "const" and a.args[0] == 0 and _num(a.args[0]) and b.op != "const":
        return b
    if b.op == "const" and b.args[0] == 0 and _num(b.args[0]) and a.op != "const":
        return a
    return None


@simp("mul")
def _s_mul(a, b):
    if a.op == "const" and a.args[0] == 1 and _num(a.args[0]) and b.op != "const":
        return b
    if b.op == "const" and b.args[0] == 1 and _num(b.args[0]) and a.op != "const":
        return a
    return None


@simp("col")
def _s_col(a, k):
    if a.op == "cols":
        if k < len(a.args):
            return a.args[k]
    if a.op == "take" and _rowkey(a.args[1]) and rank(a.args[0]) in (2, None):
        return mk("take", mk("col", a.args[0], k), a.args[1])
    if a.op == "at" and rank(a.args[0]) == 2:
        return mk("at", mk("col", a.args[0], k), a.args[1])
    if a.op == "ite":
        return mk("ite", a.args[0], mk("col", a.args[1], k),
                  mk("col", a.args[2], k))
    if a.op == "full":
        return mk("full", a.args[0], a.args[1], 1)
    if a.op in ELEMENTWISE and rank(a) == 2:
        # element-wise over columns: push the projection inside
        new = []
        for x in a.args:
            if not isinstance(x, T):
                new.append(x)
            elif rank(x) == 0:
                new.append(x)
            elif rank(x) == 2:
                new.append(x.args[0] if x.op == "colvec" or x.op == "cols" and len(
                    x.args) == 1 else mk("col", x, k))
            else:
                return None
        return mk(a.op, *new)
    if a.op == "rowvec" and rank(a.args[0]) == 1:
        return mk("row", mk("at", a.args[0], const(k)))
    return None


def by_term(f):
    """Remembers f of a term; terms are shared within the graphs of others."""
    known = {}

    def get(x):
        if x not in known:
            if len(known) > 200000:
                known.clear()
            known[x] = f(x)
        return known[x]
    return get


@by_term
def unit0(x):
    """The first axis has length one."""
    if x.op == "rowvec":
        return True
    if x.op in ("row", "mat", "stackrows"):
        return len(x.args) == 1
    if x.op in ELEMENTWISE:
        rs = [y for y in x.args if isinstance(y, T) and rank(y) == rank(x)]
        return bool(rs) and all(unit0(y) for y in rs)
    return False


@by_term
def cut0(x):
    """The first axis may have length one although others are longer."""
    if x.op == "take":
        return x.args[1] if x.args[1].op == "slice" else None
    if x.op in ELEMENTWISE:
        for y in x.args:
            c = cut0(y) if isinstance(y, T) and rank(y) == rank(x) else None
            if c is not None:
                return c
    return None


def rows_of(a, f):
    """An element-wise operation with f, a selection of rows, applied to its
    operands; None if these may be broadcast along the first axis."""
    r = rank(a)
    if any(isinstance(x, T) and rank(x) not in (0, r) for x in a.args):
        return None
    full = [x for x in a.args if isinstance(x, T) and rank(x) == r and not unit0(x)]
    cuts = {cut0(x) for x in full}
    if not full or len(cuts) > 1:
        return None

    def only(x):
        if not isinstance(x, T) or rank(x) == 0:
            return x
        if x.op in ELEMENTWISE:
            return mk(x.op, *[only(y) for y in x.args])
        return x.args[0]
    new = []
    for x in a.args:
        if not isinstance(x, T) or rank(x) == 0:
            new.append(x)
        elif x in full:
            new.append(f(x))
        else:
            new.append(only(x))
    return mk(a.op, *new)


def _rowkey(k):
    return k.op in ("slice",) or (key_rank(k) in (0, 1))


@simp("take")
def _s_take(a, k):
    if k.op == "ellipsis":
        return a
    if k.op == "slice" and all(x is NONE for x in k.args):
        return a
    if a.op == "cols" and _rowkey(k):
        return mk("cols", *[mk("take", x, k) for x in a.args])
    if a.op == "full" and k.op == "slice":
        return None
    if key_rank(k) == 0 and not k.op == "slice":
        return mk("at", a, k)
    if a.op in ELEMENTWISE and rank(a) is not None and rank(a) >= 1 \
            and key_rank(k) == 1:
        if any(isinstance(x, T) and rank(x) == rank(a) and unit0(x) for x in a.args):
            return None
        return rows_of(a, lambda x: mk("take", x, k))
    return None


@simp("at")
def _s_at(a, i):
    if a.op == "cols":
        return mk("row", *[mk("at", x, i) for x in a.args]) \
            if rank(a) == 2 else None
    if a.op == "full":
        return a.args[1] if a.args[2] == 1 else None
    if a.op == "lam1":
        return subst(a.args[2], {a.args[1]: i})
    if a.op == "arange" and a.args[0] is const(0) and a.args[2] is const(1):
        return i
    if a.op == "upd":
        old, key, v = a.args
        if key is i:
            return v
        if rank(key) == 0:
            if is_const(key) and is_const(i):
                k1, k2 = cval(key), cval(i)
                if isinstance(k1, int) and isinstance(k2, int) and \
                        (k1 >= 0) == (k2 >= 0):
                    return v if k1 == k2 else mk("at", old, i)
        return None
    if a.op in ELEMENTWISE and rank(a) is not None and rank(a) >= 1:
        return rows_of(a, lambda x: mk("at", x, i))
    if a.op == "colvec" and rank(i) == 0:
        return mk("row", mk("at", a.args[0], i))
    if a.op == "rowvec" and is_const(i) and cval(i) in (0, -1):
        return a.args[0]
    if a.op == "row":
        if is_const(i) and isinstance(cval(i), int) and \
                -len(a.args) <= cval(i) < len(a.args):
            return a.args[cval(i)]
    if a.op in ("tuple", "rows") and is_const(i) and isinstance(cval(i), int):
        if -len(a.args) <= cval(i) < len(a.args):
            return a.args[cval(i)]
    return None


@simp("complex")
def _s_complex(a, b):
    if a.op == "re" and b.op == "im" and a.args[0] is b.args[0]:
        return a.args[0]
    return None


@simp("re")
def _s_re(a):
    if a.op == "full":
        return mk("full", a.args[0], mk("re", a.args[1]), a.args[2])
    if a.op == "take":
        return mk("take", mk("re", a.args[0]), a.args[1])
    if a.op == "cols":
        return raw("cols", *[mk("re", x) for x in a.args])
    if a.op == "complex":
        return a.args[0]
    if kind(a) in ("f8", "int"):
        return a
    return None


@simp("im")
def _s_im(a):
    if a.op == "full":
        return mk("full", a.args[0], mk("im", a.args[1]), a.args[2])
    if a.op == "take":
        return mk("take", mk("im", a.args[0]), a.args[1])
    if a.op == "cols":
        return raw("cols", *[mk("im", x) for x in a.args])
    if a.op == "complex":
        return a.args[1]
    return None


@simp("ravel")
def _s_ravel(a):
    if rank(a) == 1:
        return a
    return None


@simp("truth")
def _s_truth(a):
    if a.op == "const":
        return const(bool(a.args[0]))
    if kind(a) == "b1" and rank(a) == 0:
        return a
    return None


@simp("isnone")
def _s_isnone(a):
    if a.op == "const":
        return const(a.args[0] is None)
    if a.op == "sym":
        p = props(a)
        if p.get("none") is True:
            return None
        return FALSE
    if a.op in ELEMENTWISE or a.op in ("col", "at", "take", "tuple", "cols",
                                       "bsum", "len", "item", "row"):
        if a.op != "ite":
            return FALSE
        return mk("ite", a.args[0], mk("isnone", a.args[1]),
                  mk("isnone", a.args[2]))
    return None


@simp("item")
def _s_item(a):
    if rank(a) == 0:
        return a
    if a.op == "full":
        return a.args[1]
    if a.op == "row" and len(a.args) == 1:
        return a.args[0]
    if a.op == "ite" and rank(a.args[0]) == 0:
        return mk("ite", a.args[0], mk("item", a.args[1]),
                  mk("item", a.args[2]))
    return None


def untake(v, key):
    """w with v == take(w, key), or None."""
    if v.op == "take" and v.args[1] is key:
        return v.args[0]
    if rank(v) == 0:
        return v
    if v.op in ELEMENTWISE or v.op == "cols":
        new = []
        for x in v.args:
            if isinstance(x, T):
                y = untake(x, key)
                if y is None:
                    return None
                new.append(y)
            else:
                new.append(x)
        return mk(v.op, *new)
    return None


@simp("upd")
def _s_upd(t, key, v):
    if key.op == "ellipsis" or (key.op == "slice" and
                                all(x is NONE for x in key.args)):
        return bcast_to(t, v)
    if t.op == "row" and is_const(key) and isinstance(cval(key), int) and \
            -len(t.args) <= cval(key) < len(t.args):
        a = list(t.args)
        a[cval(key)] = v
        return raw("row", *a)
    if t.op == "mat" and key.op == "key2" and all(is_const(k) for k in key.args):
        i, j = cval(key.args[0]), cval(key.args[1])
        rows = list(t.args)
        rows[i] = mk("upd", rows[i], const(j), v)
        return raw("mat", *rows)
    if t.op == "mat" and is_const(key) and isinstance(cval(key), int):
        rows = list(t.args)
        rows[cval(key)] = bcast_to(rows[cval(key)], v)
        return raw("mat", *rows)
    if kind(key) == "b1" and (rank(key) or 0) >= 1:
        w = untake(v, key)
        if w is not None:
            if t.op == "cols" and rank(key) == 1:
                return raw("cols", *[mk("ite", key, mk("col", w, k) if
                                        rank(w) == 2 else w, c)
                                     for k, c in enumerate(t.args)])
            return mk("ite", key, w, t)
    if rank(key) == 0 and v.op == "upd" and v.args[0].op == "at" and \
            v.args[0].args[0] is t and v.args[0].args[1] is key and \
            rank(v.args[1]) == 0:
        return mk("upd", t, raw("key2", key, v.args[1]), v.args[2])
    if t.op == "cols" and rank(key) == 0 and v.op == "row" and \
            len(v.args) == len(t.args):
        return raw("cols", *[mk("upd", c, key, x)
                             for c, x in zip(t.args, v.args)])
    if t.op == "cols" and key.op == "slice" and v.op == "cols" and \
            len(v.args) == len(t.args):
        return raw("cols", *[mk("upd", c, key, x)
                             for c, x in zip(t.args, v.args)])
    return None


def bcast_to(t, v):
    """v as the content of an array shaped like t."""
    rv, rt = rank(v), rank(t)
    if t.op == "row" and rv == 0:
        return raw("row", *[v] * len(t.args))
    if t.op == "mat":
        if rv == 0:
            return raw("mat", *[bcast_to(r, v) for r in t.args])
        if v.op == "row":
            return raw("mat", *[v for r in t.args])
    if t.op == "cols":
        if rv == 0:
            return raw("cols", *[bcast_to(c, v) for c in t.args])
        if v.op == "row" and len(v.args) == len(t.args):
            return raw("cols", *[bcast_to(c, x)
                                 for c, x in zip(t.args, v.args)])
    if rv == 0 and rt is not None and rt >= 1:
        if rt >= 2:
            while t.op == "full" and t.args[0].op == "rowsof":
                t = t.args[0].args[0]
            if t.op == "full":
                return raw("full", t.args[0], v, rt)
            return raw("full", raw("rowsof", t), v, rt)
        return raw("full", space(t) or raw("rowsof", t), v, rt)
    return v


@simp("ascontig", "f8_cast")
def _s_id(a):
    return a


# ------------------------------------------------------------- reductions
_BV = [0]


def fresh_binder(spc=None):
    _BV[0] += 1
    return raw("bvar", "b%d" % _BV[0])


def _bdepth(t):
    d = 0
    for u in subterms(t):
        if u.op == "bvar" and isinstance(u.args[0], int):
            d = max(d, u.args[0])
    return d


def bind(op, spc, binder, body):
    """Canonical reduction of ``body`` over ``binder`` ranging over spc."""
    if op == "bsum":
        return _bind_sum(spc, binder, body)
    d = _bdepth(body) + 1
    body = subst(body, {binder: raw("bvar", d)})
    return raw(op, spc if spc is not None else raw("nospace"), body, d)


def fold(spc, binder, which, syms, inits, steps):
    """Value of variable ``which`` after running through spc: the variables
    syms start as inits and every iteration sets them to steps."""
    t = bind("fold", spc, binder, raw("steps", *steps))
    return raw("fold", t.args[0], t.args[1], t.args[2], which, raw("syms", *syms),
               raw("inits", *inits))


def _bind_sum(spc, binder, body):
    if body.op == "add":
        return mk("add", _bind_sum(spc, binder, body.args[0]),
                  _bind_sum(spc, binder, body.args[1]))
    if body.op == "sub":
        return mk("sub", _bind_sum(spc, binder, body.args[0]),
                  _bind_sum(spc, binder, body.args[1]))
    if body.op == "neg":
        return mk("neg", _bind_sum(spc, binder, body.args[0]))
    outs, ins = [], []

    def flat(u, inv):
        if u.op == "mul":
            flat(u.args[0], inv)
            flat(u.args[1], inv)
        elif u.op == "div":
            flat(u.args[0], inv)
            flat(u.args[1], not inv)
        elif u.op == "neg":
            outs.append((const(-1.0), False))
            flat(u.args[0], inv)
        elif binder in tvars(u):
            ins.append((u, inv))
        else:
            outs.append((u, inv))
    if body.op in ("mul", "div"):
        flat(body, False)
    else:
        ins.append((body, False))
        if binder not in tvars(body):
            ins = []
            outs.append((body, False))
    inner = const(1.0)
    for u, inv in ins:
        if inv:
            inner = mk("div", inner, u)
        else:
            inner = mk("mul", inner, u)
    d = _bdepth(inner) + 1
    b = subst(inner, {binder: raw("bvar", d)})
    r = raw("bsum", spc if spc is not None else raw("nospace"), b, d)
    for u, inv in outs:
        r = mk("div", r, u) if inv else mk("mul", r, u)
    return r


def reduce_rows(op, t):
    """Reduce a rank-1 term over its rows to a scalar."""
    b = fresh_binder()
    return bind(op, space(t), b, mk("at", t, b))


# ----------------------------------------------------------- valuation
def _h(*parts):
    m = hashlib.blake2b(digest_size=16)
    for p in parts:
        m.update(repr(p).encode())
        m.update(b"|")
    return m.digest()


def _unit(*parts):
    """Uniform number in (0, 1) determined by parts."""
    (n,) = struct.unpack("<Q", _h(*parts)[:8])
    return (n + 0.5) / 2.0 ** 64


def _sgn(x):
    return (x > 0) - (x < 0)


def _isclose(a, b, rtol=1e-05, atol=1e-08):
    return abs(a - b) <= atol + rtol * abs(b)


def _rdiv(a, b):
    if b == 0:
        if isinstance(a, complex) or isinstance(b, complex):
            return complex(math.nan, math.nan)
        if a == 0 or a != a:
            return math.nan
        return math.copysign(math.inf, a) * math.copysign(1.0, b)
    return a / b


def _pow(a, b):
    try:
        return a ** b
    except ZeroDivisionError:
        return math.inf
    except OverflowError:
        return math.inf


def _c(fr, fc):
    def f(a):
        if isinstance(a, complex):
            return fc(a)
        try:
            return fr(a)
        except ValueError:
            return math.nan
        except OverflowError:
            return math.inf
    return f


def _log(a):
    if a == 0:
        return -math.inf
    return math.log(a)


def _atanh(a):
    if a == 1:
        return math.inf
    if a == -1:
        return -math.inf
    return math.atanh(a)


def _b(f):
    return lambda *a: bool(f(*a))


INTERP = {
    "add": lambda a, b: a + b,
    "sub": lambda a, b: a - b,
    "mul": lambda a, b: a * b,
    "div": _rdiv,
    "floordiv": lambda a, b: a // b if b else math.nan,
    "mod": lambda a, b: a % b if b else math.nan,
    "pow": _pow,
    "neg": lambda a: -a,
    "abs": abs,
    "sqrt": _c(math.sqrt, cmath.sqrt),
    "cbrt": lambda a: math.copysign(abs(a) ** (1 / 3), a),
    "exp": _c(math.exp, cmath.exp),
    "log": _c(_log, cmath.log),
    "log10": _c(lambda a: _log(a) / math.log(10), cmath.log10),
    "log2": _c(lambda a: _log(a) / math.log(2), lambda a: cmath.log(a) / math.log(2)),
    "sin": _c(math.sin, cmath.sin),
    "cos": _c(math.cos, cmath.cos),
    "tan": _c(math.tan, cmath.tan),
    "arcsin": _c(math.asin, cmath.asin),
    "arccos": _c(math.acos, cmath.acos),
    "arctan": _c(math.atan, cmath.atan),
    "sinh": _c(math.sinh, cmath.sinh),
    "cosh": _c(math.cosh, cmath.cosh),
    "tanh": _c(math.tanh, cmath.tanh),
    "arcsinh": _c(math.asinh, cmath.asinh),
    "arccosh": _c(math.acosh, cmath.acosh),
    "arctanh": _c(_atanh, cmath.atanh),
    "hypot": lambda a, b: math.hypot(a, b),
    "arctan2": lambda a, b: math.atan2(a, b),
    "copysign": lambda a, b: math.copysign(a, b),
    "sign": lambda a: a if a != a else type(a)(_sgn(a)),
    "expm1": _c(math.expm1, lambda a: cmath.exp(a) - 1),
    "log1p": _c(lambda a: math.log1p(a) if a > -1 else (-math.inf if a == -1 else math.nan), lambda a: cmath.log(1 + a)),
    "conj": lambda a: a.conjugate(),
    "re": lambda a: a.real,
    "im": lambda a: a.imag,
    "angle": lambda a: cmath.phase(a),
    "complex": lambda a, b: complex(a, b) if not isinstance(b, complex) and not isinstance(a, complex) else a + 1j * b,
    "maximum": lambda a, b: a if a != a else (b if b != b else max(a, b)),
    "minimum": lambda a, b: a if a != a else (b if b != b else min(a, b)),
    "fmax": lambda a, b: b if a != a else (a if b != b else max(a, b)),
    "fmin": lambda a, b: b if a != a else (a if b != b else min(a, b)),
    "lt": _b(lambda a, b: a < b),
    "le": _b(lambda a, b: a <= b),
    "gt": _b(lambda a, b: a > b),
    "ge": _b(lambda a, b: a >= b),
    "eq": _b(lambda a, b: a == b),
    "ne": _b(lambda a, b: a != b),
    "and": _b(lambda a, b: a and b),
    "or": _b(lambda a, b: a or b),
    "xor": _b(lambda a, b: bool(a) != bool(b)),
    "not": _b(lambda a: not a),
    "bitand": lambda a, b: a & b,
    "bitor": lambda a, b: a | b,
    "bitxor": lambda a, b: a ^ b,
    "lshift": lambda a, b: a << b,
    "rshift": lambda a, b: a >> b,
    "invert": lambda a: ~a,
    "ite": lambda c, a, b: a if c else b,
    "isnan": _b(lambda a: a != a),
    "isinf": _b(lambda a: abs(a) == math.inf),
    "isfinite": _b(lambda a: a == a and abs(a) != math.inf),
    "isclose": _b(_isclose),
    "floor": lambda a: float(math.floor(a)),
    "ceil": lambda a: float(math.ceil(a)),
    "rint": lambda a: float(round(a)),
    "trunc": lambda a: int(a),
    "cast_int": lambda a: int(a),
    "signbit": _b(lambda a: math.copysign(1.0, a) < 0),
    "f8": lambda a: float(a),
    "clip": lambda a, lo, hi: a if a != a else min(max(a, lo), hi),
    "f4": lambda a: struct.unpack("f", struct.pack("f", a))[0],
    "truth": _b(lambda a: bool(a)),
    "item": lambda a: a,
    "cast_b1": _b(lambda a: bool(a)),
    "isnone": _b(lambda a: a is None),
}


class NoValue(Exception):
    pass


class Valuer:
    """Random interpretation of terms.

    leaf(t, v) may give the value of leaf ``t`` in valuation ``v`` (or None
    for the default).  Leaves are symbols, binder variables and uninterpreted
    terms alike.
    """

    def __init__(self, n=8, leaf=None, seed=1):
        self.n, self.leaf, self.seed = n, leaf, seed
        self.memo = {}
        self.classes = {}
        self.class_list = []

    # -- value of one term in all valuations
    def vec(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self._vec(t)
            self.memo[t] = r
        return r

    def _vec(self, t):
        if t.op == "const":
            v = t.args[0]
            if isinstance(v, (int, float, complex, bool)):
                return (v,) * self.n
            return tuple(("obj",) + (_ckey(v),) for _ in range(self.n))
        out = []
        if self.leaf is not None:
            got = [self.leaf(self, t, v) for v in range(self.n)]
            if all(g is not None for g in got):
                return tuple(got)
        if t.op in INTERP and all(isinstance(a, T) for a in t.args):
            vecs = [self.vec(a) for a in t.args]
            f = INTERP[t.op]
            ok = True
            for v in range(self.n):
                vals = [x[v] for x in vecs]
                if any(isinstance(x, tuple) for x in vals):
                    if t.op in ("eq", "ne"):
                        e = vals[0] == vals[1]
                        out.append(e if t.op == "eq" else not e)
                        continue
                    if t.op == "ite" and not isinstance(vals[0], tuple):
                        out.append(vals[1] if vals[0] else vals[2])
                        continue
                    ok = False
                    break
                try:
                    r = f(*vals)
                except (ValueError, ZeroDivisionError, TypeError):
                    r = math.nan
                except OverflowError:
                    r = math.inf
                out.append(r)
            if ok:
                return tuple(out)
        return self.opaque(t)

    def opaque(self, t):
        if t.op == "unk":
            key = ("unk", t.hid)
        elif t.op in ("sym", "bvar"):
            key = (t.op, t.args)
        else:
            key = (t.op,) + tuple(self._akey(a) for a in t.args)
        k = kind(t)
        out = []
        for v in range(self.n):
            u = _unit(self.seed, key, v)
            if k == "b1":
                out.append(u < 0.5)
            elif k == "int":
                out.append(int(u * 9) + 1)
            elif k == "c16":
                w = _unit(self.seed, key, v, "im")
                out.append(complex(4 * u - 2, 4 * w - 2))
            elif k == "str":
                out.append(("s", key))
            elif k == "pos":
                out.append(0.2 + 3 * u)
            else:
                out.append(4.0 * u - 2.0)
        return tuple(out)

    def _akey(self, a):
        if isinstance(a, T):
            if a.op == "const":
                v = a.args[0]
                if isinstance(v, (int, float)) and not isinstance(v, bool):
                    return ("n", float(v)) if v == v else ("n", "nan")
                return _ckey(v)
            return ("cls", self.cls(a))
        if isinstance(a, tuple):
            return tuple(self._akey(b) for b in a)
        return a

    def cls(self, t):
        """Value number of t."""
        c = self.classes.get(t)
        if c is None:
            v = self.vec(t)
            for i, w in enumerate(self.class_list):
                if same_vec(v, w):
                    c = i
                    break
            else:
                c = len(self.class_list)
                self.class_list.append(v)
            self.classes[t] = c
        # value numbers only distinguish; hash by a stable digest of the
        # values so that they do not depend on the order of queries
        return _stable(self.class_list[c])

    def equal(self, a, b):
        return a is b or same_vec(self.vec(a), self.vec(b))

    def witness(self, a, b):
        va, vb = self.vec(a), self.vec(b)
        for i, (x, y) in enumerate(zip(va, vb)):
            if not same(x, y):
                return i, x, y
        return None


def _stable(vec):
    out = []
    for x in vec:
        if isinstance(x, bool):
            out.append(int(x))
        elif isinstance(x, (int, float)):
            out.append("nan" if x != x else "%.6g" % (x + 0.0 if x else 0.0))
        elif isinstance(x, complex):
            out.append("%.6g,%.6g" % (x.real or 0.0, x.imag or 0.0))
        else:
            out.append(x)
    return tuple(out)


def same(x, y, tol=1e-7):
    if isinstance(x, tuple) or isinstance(y, tuple):
        return x == y
    if isinstance(x, bool) and isinstance(y, bool):
        return x == y
    if x != x or y != y:
        return (x != x) and (y != y)
    try:
        if abs(x) == math.inf or abs(y) == math.inf:
            return x == y
    except OverflowError:
        return False
    return abs(x - y) <= tol * (1.0 + abs(x) + abs(y))


def same_vec(v, w):
    return all(same(x, y) for x, y in zip(v, w))


# ------------------------------------------------------------- printing
_INFIX = {"add": "+", "sub": "-", "mul": "*", "div": "/", "lt": "<",
          "le": "<=", "gt": ">", "ge": ">=", "eq": "==", "ne": "!=",
          "and": "&", "or": "|", "pow": "**"}


def show(t, depth=7):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ", ".join(show(x, depth - 1) for x in t) + ")"
        return repr(t)
    if t.op == "const":
        return repr(t.args[0])
    if t.op in ("sym", "bvar"):
        return str(t.args[0])
    if t.op == "unk":
        return "?%s" % (t.args[0],)
    if depth <= 0:
        return "..."
    if t.op in _INFIX and len(t.args) == 2:
        return "(%s %s %s)" % (show(t.args[0], depth - 1), _INFIX[t.op],
                               show(t.args[1], depth - 1))
    return "%s(%s)" % (t.op, ", ".join(show(a, depth - 1) for a in t.args))
