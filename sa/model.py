"""Random interpretation of extracted terms in small finite models.

A model gives every index space a size and every leaf symbol a random array;
the value of a term is then computed structurally with numpy's semantics for
the array operators.  Two terms which differ in some model denote different
functions of the inputs; terms agreeing in all models are taken to be equal
(the randomised value numbering of Gulwani and Necula).  What is evaluated are
the terms extracted from the source, never code of the package.
"""
import itertools
import operator
import math
import sys

_VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _VT not in sys.path:
    sys.path.append(_VT)
import numpy as np          # noqa: E402

from . import terms as tm   # noqa: E402
from .terms import T        # noqa: E402


class NoModel(Exception):
    """The term has an operator without an interpretation."""


class Undef(Exception):
    """The term is undefined in this model (e.g. index out of range)."""


class Crash(Undef):
    """numpy raises here."""


class Rec:
    """Record / structured array: ordered fields."""

    def __init__(self, names, vals):
        self.names, self.vals = tuple(names), list(vals)

    def __repr__(self):
        return "Rec(%s)" % ", ".join("%s=%r" % x for x in zip(self.names, self.vals))


class Inst:
    def __init__(self, cls, fields):
        self.cls, self.fields = cls, fields

    def __repr__(self):
        return "%s(%s)" % (self.cls, ", ".join("%s=%r" % x for x in self.fields.items()))


class NpScalar:
    """A numpy scalar where a native python value could be."""

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return "numpy scalar %r" % (self.v,)


class Opq:
    """Opaque value, equal exactly to itself."""

    def __init__(self, key):
        self.key = key

    def __eq__(self, o):
        return isinstance(o, Opq) and self.key == o.key

    def __hash__(self):
        return hash(self.key)

    def __repr__(self):
        return "<%s>" % (self.key,)


def digest(v):
    """Stable hashable summary of a value."""
    if isinstance(v, np.ndarray):
        return ("arr", v.shape, tuple(digest(x) for x in v.ravel().tolist()))
    if isinstance(v, Rec):
        return ("rec",) + v.names + tuple(digest(x) for x in v.vals)
    if isinstance(v, Inst):
        return ("inst", v.cls) + tuple((k, digest(x)) for k, x in v.fields.items())
    if isinstance(v, (list, tuple)):
        return ("seq",) + tuple(digest(x) for x in v)
    if isinstance(v, dict):
        return ("dict",) + tuple((digest(k), digest(x)) for k, x in v.items())
    if isinstance(v, (set, frozenset)):
        return ("set",) + tuple(sorted(map(repr, map(digest, v))))
    if isinstance(v, (bool, np.bool_)):
        return int(v)
    if isinstance(v, (int, np.integer)):
        return float(v)
    if isinstance(v, (float, np.floating)):
        return "nan" if v != v else float("%.9g" % v) + 0.0
    if isinstance(v, (complex, np.complexfloating)):
        return ("c", digest(v.real), digest(v.imag))
    if isinstance(v, Opq):
        return v.key
    return v


def texts(v):
    return isinstance(v, str) or isinstance(v, Opq) and isinstance(
        v.key, tuple) and v.key[:1] and v.key[0] in ("str", "fmt", "join", "strm")


def same(a, b, tol=1e-6):
    """Equality of two values up to rounding; NaN equals NaN."""
    if isinstance(a, Inst) or isinstance(b, Inst):
        return isinstance(a, Inst) and isinstance(b, Inst) and a.cls == b.cls and \
            set(a.fields) == set(b.fields) and all(
                same(a.fields[k], b.fields[k], tol) for k in a.fields)
    if isinstance(a, NpScalar) or isinstance(b, NpScalar):
        return isinstance(a, NpScalar) and isinstance(b, NpScalar) and same(a.v, b.v, tol)
    if isinstance(a, Rec) or isinstance(b, Rec):
        return isinstance(a, Rec) and isinstance(b, Rec) and a.names == b.names and \
            all(same(x, y, tol) for x, y in zip(a.vals, b.vals))
    if isinstance(a, dict) or isinstance(b, dict):
        return isinstance(a, dict) and isinstance(b, dict) and \
            list(a) == list(b) and all(same(a[k], b[k], tol) for k in a)
    if isinstance(a, (set, frozenset)) or isinstance(b, (set, frozenset)):
        return isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)) \
            and a == b
    sa_, sb_ = isinstance(a, (list, tuple)), isinstance(b, (list, tuple))
    if sa_ or sb_:
        if not (sa_ and sb_):
            # python sequence against array of the same contents
            try:
                return len(a) == len(b) and all(same(x, y, tol) for x, y in zip(a, b))
            except TypeError:
                return False
        return len(a) == len(b) and all(same(x, y, tol) for x, y in zip(a, b))
    for x, y in ((a, b), (b, a)):
        # a library object is not modelled beyond its name
        if isinstance(x, Opq) and x.key[:1] == ("glob",) and not (
                isinstance(y, Opq) and y.key[:1] == ("glob",)):
            raise NoModel("comparison with a library object")
    if isinstance(a, (str, Opq)) or isinstance(b, (str, Opq)) or a is None or b is None:
        if texts(a) and texts(b) and not (type(a) is type(b) and a == b) and (
                isinstance(a, Opq) or isinstance(b, Opq)):
            x, y = getattr(a, "key", ()), getattr(b, "key", ())
            if x[:1] != y[:1] or len(x) != len(y):
                raise NoModel("comparison of texts")
        return type(a) is type(b) and a == b
    x, y = np.asarray(a), np.asarray(b)
    if x.dtype == object or y.dtype == object:
        return x.shape == y.shape and all(
            same(p, q, tol) if not (isinstance(p, np.ndarray)) else False
            for p, q in zip(x.ravel().tolist(), y.ravel().tolist()))
    if x.shape != y.shape:
        return False
    if x.dtype.kind in "US" or y.dtype.kind in "US":
        return x.dtype.kind == y.dtype.kind and bool((x == y).all())
    with np.errstate(all="ignore"):
        x, y = x.astype(complex), y.astype(complex)
        d = np.abs(x - y)
        ok = (np.isfinite(x) & np.isfinite(y) & (d <= tol * (1.0 + np.abs(x) + np.abs(y)))) \
            | (x == y)
        nan = (np.isnan(x.real) | np.isnan(x.imag)) & (np.isnan(y.real) | np.isnan(y.imag))
        inf = (np.isinf(x.real) & np.isinf(y.real) & (np.sign(x.real) == np.sign(y.real))
               & ((x.imag == y.imag) | (np.isnan(x.imag) == np.isnan(y.imag))))
    return bool((ok | nan | inf).all())


U1 = {
    "neg": lambda a: -a if getattr(np.asarray(a), "dtype", None) != bool else np.logical_not(a),
    "abs": np.abs, "exp": np.exp, "sin": np.sin, "cos": np.cos, "tan": np.tan,
    "arcsin": np.arcsin, "arccos": np.arccos, "arctan": np.arctan,
    "sinh": np.sinh, "cosh": np.cosh, "tanh": np.tanh, "arcsinh": np.arcsinh,
    "arccosh": np.arccosh, "arctanh": np.arctanh, "log": np.log,
    "log10": np.log10, "log2": np.log2, "log1p": np.log1p, "expm1": np.expm1,
    "sqrt": np.sqrt, "cbrt": np.cbrt, "sign": np.sign, "conj": np.conj,
    "re": np.real, "im": np.imag, "angle": np.angle, "not": np.logical_not,
    "invert": np.invert, "isnan": np.isnan, "isinf": np.isinf,
    "isfinite": np.isfinite, "floor": np.floor, "ceil": np.ceil,
    "rint": np.rint, "trunc": np.trunc, "signbit": np.signbit,
    "cast_int": lambda a: np.asarray(a).astype(np.int64),
    "cast_b1": lambda a: np.asarray(a).astype(bool),
    "f8": lambda a: np.asarray(a).astype(float),
    "f4": lambda a: single(a),
}
U2 = {
    "add": lambda a, b: a + b, "sub": lambda a, b: _sub(a, b),
    "mul": lambda a, b: a * b,
    "div": lambda a, b: np.true_divide(a, b), "floordiv": np.floor_divide,
    "mod": np.mod, "pow": lambda a, b: np.power(np.asarray(a).astype(float), b) if
    np.asarray(a).dtype.kind in "iub" and np.any(np.asarray(b) < 0) else np.power(a, b),
    "hypot": np.hypot, "arctan2": np.arctan2, "copysign": np.copysign,
    "complex": lambda a, b: np.asarray(a) + 1j * np.asarray(b),
    "maximum": np.maximum, "minimum": np.minimum, "fmax": np.fmax, "fmin": np.fmin,
    "lt": lambda a, b: np.less(a, b), "le": np.less_equal, "gt": np.greater,
    "ge": np.greater_equal, "and": np.logical_and,
    "or": np.logical_or, "xor": np.logical_xor,
    "bitand": np.bitwise_and, "bitor": np.bitwise_or, "bitxor": np.bitwise_xor,
    "lshift": np.left_shift, "rshift": np.right_shift,
}


def _sub(a, b):
    if np.asarray(a).dtype == bool and np.asarray(b).dtype == bool:
        raise Undef("boolean subtract")
    return a - b


def _num(v):
    if isinstance(v, (Rec, Inst, Opq, dict, str, set, frozenset)) or v is None:
        raise NoModel("number from %r" % type(v).__name__)
    return v


def numeric(v):
    """Argument of a numpy function, made of numbers."""
    if isinstance(v, (list, tuple)):
        return type(v)(numeric(x) for x in v)
    if isinstance(v, str) or v is None or isinstance(v, Rec):
        return v
    return _num(v)


class Model:
    def __init__(self, seed, size=4, leaf=None, sizes=None, mood="plain"):
        """leaf(model, name, props) may give the value of a symbol."""
        self.seed, self.size, self.leaf, self.mood = seed, size, leaf, mood
        self.rng = np.random.default_rng([seed, size, abs(hash_(mood)) % 997])
        self.sizes = dict(sizes or {})
        self.syms, self.memo, self.memo0, self.keep = {}, {}, {}, []
        self.steps = self.index = 0

    # --------------------------------------------------------------- leaves
    def nspace(self, name):
        if name not in self.sizes:
            r = np.random.default_rng([self.seed, abs(hash_(name)) % 9973])
            self.sizes[name] = self.size + (int(r.integers(0, 3)) if name != "E" else 0)
        return self.sizes[name]

    def symval(self, t):
        v = self.syms.get(t)
        if v is None:
            v = self.syms[t] = self._symval(t)
        return v

    def _symval(self, t):
        p = tm.props(t)
        name = str(t.args[0]).split("~")[0]
        if name[:2] in ("%c", "%b", "%l", "%f"):
            raise NoModel("value carried by a loop")
        if self.leaf is not None:
            v = self.leaf(self, name, p)
            if v is not None:
                return v
        k, r = p.get("kind", "f8"), p.get("rank", 0)
        shape = ()
        if r >= 1:
            sp = p.get("space")
            n = self.count(sp) if sp is not None else self.size
            shape = (n,)
            if r == 2:
                s1 = p.get("space1")
                shape = (n, self.count(s1) if s1 is not None else n)
        g = np.random.default_rng([self.seed, abs(hash_(str(name))) % 99991])
        if p.get("mom"):
            return self.momentum(p["mom"], p["comp"], shape[0])
        if k == "b1":
            return g.random(shape) < 0.5
        if k == "int":
            return g.integers(0, 5, shape) if shape else int(g.integers(0, 3))
        if k == "c16":
            return g.normal(size=shape) + 1j * g.normal(size=shape)
        if k == "pos":
            return g.random(shape) * 3 + 0.2
        if k == "f8":
            v = g.normal(size=shape) * 2
            return v if shape else float(v)
        if k == "str":
            return Opq(("sym", name))
        raise NoModel("symbol kind %s" % k)

    def momentum(self, mom, comp, n):
        key = ("mom", mom, n)
        if key not in self.syms:
            odd = self.index % 2
            # (in odd degenerate models all arrays hold the same momenta,
            # turned around the beam by an angle of their own)
            twin = self.mood == "degenerate" and self.index % 4 == 3
            g = np.random.default_rng([self.seed, 0 if twin else abs(hash_(mom)) % 9973, 7])
            p = g.normal(size=(n, 3)) * np.array([3.0, 3.0, 5.0])
            m = np.abs(g.normal(size=n))
            if twin:
                t = 1.0 + abs(hash_(mom)) % 97 / 31.0
                p[:, 0], p[:, 1] = (np.cos(t) * p[:, 0] - np.sin(t) * p[:, 1],
                                    np.sin(t) * p[:, 0] + np.cos(t) * p[:, 1])
            if self.mood == "degenerate":
                for i in range(n):
                    w = i % 6
                    if w == 0:
                        p[i] = 0.0
                    elif w == 1:
                        p[i, :2] = 0.0
                    elif w == 2:
                        p[i, 2] = 0.0
                    elif w == 3 and i:
                        p[i] = p[i - 1]
                    elif w == 4 and odd:
                        p[i, :2] *= 1e-3
                        m[i] = 0.0
                    elif w == 5 and odd:
                        p[i, :2] *= 1e-14
            e = np.sqrt((p ** 2).sum(axis=1) + m ** 2)
            if self.mood == "degenerate":
                e = np.where(np.arange(n) % 3 == 1, np.abs(p[:, 2]), e)
                if odd:
                    e[::6] = 0.0
            if self.mood == "spacelike":
                e = np.where(np.arange(n) % 2 == 0, 0.5 * np.abs(p[:, 2]), -e)
            self.syms[key] = np.column_stack([p, e])
        return self.syms[key][:, ("px", "py", "pz", "e").index(comp)]

    # --------------------------------------------------------------- spaces
    def indices(self, sp, env):
        """Index values a binder over sp takes."""
        op = sp.op
        if op == "space":
            return range(self.nspace(sp.args[0]))
        if op == "range":
            a, b, c = [int(self.ev(x, env)) for x in sp.args]
            if c == 0:
                raise Undef("range step")
            return range(a, b, c)
        if op == "filt":
            lam = sp.args[1]
            d = raw_bvar(lam.args[2] if len(lam.args) > 2 else lam.args[-1])
            body = lam.args[1]
            return [i for i in self.indices(sp.args[0], env)
                    if bool(self.ev(body, {**env, d: i}))]
        if op == "maybe":
            return [0] if bool(self.ev(sp.args[0], env)) else []
        if op == "statics":
            return range(int(self.ev(sp.args[0], env)) if isinstance(sp.args[0], T)
                         else int(sp.args[0]))
        if op == "rev":
            return list(reversed(list(self.indices(sp.args[0], env))))
        if op == "tailspace":
            return list(self.indices(sp.args[0], env))[:-1]
        if op == "part":
            return list(self.indices(sp.args[0], env))[self.slice(sp.args[1], env)]
        if op == "prefix":
            at = self.ev(sp.args[1], env)
            return list(itertools.takewhile(lambda i: i != at, self.indices(sp.args[0], env)))
        if op == "sortedspace" and len(sp.args) == 3:
            lam, rev = sp.args[1], sp.args[2]
            d = raw_bvar(lam.args[2] if len(lam.args) > 2 else lam.args[-1])
            try:
                return sorted(self.indices(sp.args[0], env), key=lambda i: self.ev(
                    lam.args[1], {**env, d: i}), reverse=bool(self.ev(rev, env)))
            except (TypeError, ValueError) as e:
                raise NoModel("sorting: %s" % e)
        if op == "prodspace":
            raise NoModel("iteration over product")
        if op in ("until", "whilst"):
            lam = sp.args[1]
            d = raw_bvar(lam.args[2] if len(lam.args) > 2 else lam.args[-1])
            out = []
            for i in self.indices(sp.args[0], env):
                if len(out) > 300:
                    raise NoModel("long loop")
                stop = bool(self.ev(lam.args[1], {**env, d: i}))
                if op == "whilst" and not stop:
                    return out
                out.append(i)
                if op == "until" and stop:
                    return out
            return out
        if op == "uniq":
            lam = sp.args[1]
            d = raw_bvar(lam.args[2] if len(lam.args) > 2 else lam.args[-1])
            seen = {}
            for i in self.indices(sp.args[0], env):
                k = self.hkey(self.ev(lam.args[1], {**env, d: i}))
                try:
                    seen.setdefault(k, i)
                except TypeError:
                    raise NoModel("hash of a key")
            if sp.args[2].args[0]:
                return [seen[k] for k in set(seen)]
            return list(seen.values())
        if op == "infinite":
            return range(5000)
        if op == "alts":
            return self.indices(sp.args[1 + int(env[raw_bvar(sp.args[0])])], env)
        if op == "zipspace":
            return range(min(self.count(x, env) for x in sp.args))
        return range(self.count(sp, env))

    def envs(self, sp, b, env):
        """Environments binding b to every index of sp (and the binders of
        the outer spaces of a nested space)."""
        if sp.op == "nested":
            for e in self.envs(sp.args[0], raw_bvar(sp.args[1]), env):
                if isinstance(sp.args[2], T) and sp.args[2].op == "nospace":
                    yield e
                else:
                    yield from self.envs(sp.args[2], b, e)
            return
        if b is None:
            for i in self.indices(sp, env):
                yield env
            return
        done = []
        for n, i in enumerate(self.indices(sp, env)):
            e = {**env, b: i, ("before", b): (done, n)}
            yield e
            done.append(e)

    def count(self, sp, env=None):
        env = env or {}
        op = sp.op
        if op == "nested":
            return sum(1 for _ in self.envs(sp, None, env))
        if op == "space":
            return self.nspace(sp.args[0])
        if op in ("range", "filt", "maybe", "statics", "rev", "tailspace", "part", "prefix",
                  "sortedspace", "zipspace", "alts", "until",
                  "whilst", "uniq"):
            return len(self.indices(sp, env))
        if op == "rowsof":
            return self.length(self.ev(sp.args[0], env))
        if op == "fjspace":
            return len(self.jets(sp, env)[0])
        if op == "elems":
            return self.length(self.ev(sp.args[0], env))
        if op == "subspace" and len(sp.args) == 2:
            k = sp.args[1]
            if k.op == "slice":
                n = self.count(sp.args[0], env)
                return len(range(n)[self.slice(k, env)])
            v = self.ev(k, env)
            if isinstance(v, np.ndarray) and v.dtype == bool:
                return int(v.sum())
            raise NoModel("subspace")
        if op == "subspace" and len(sp.args) == 3:
            return len([1 for i in self.indices(sp.args[0], env) if bool(
                self.ev(sp.args[2], {**env, sp.args[1]: i}))])
        if op == "nzspace":
            return int(np.count_nonzero(self.ev(sp.args[0], env)))
        if op == "coospace":
            return len(self.coosum(self.ev(sp.args[0], env)).vals[0])
        if op == "diagspace":
            return self.length(self.ev(sp.args[0], env))
        raise NoModel("space " + op)

    @staticmethod
    def length(v):
        if isinstance(v, Rec):
            return len(v.vals[0])
        if isinstance(v, Inst):
            if v.cls == "MaskGroup":
                return len(v.fields["_mask_arrays"] if "_mask_arrays" in v.fields
                           else v.fields.get("mask_arrays"))
            if "_data" in v.fields:
                return Model.length(v.fields["_data"])
            raise NoModel("len of %s" % v.cls)
        try:
            return len(v)
        except TypeError:
            raise NoModel("len")

    def slice(self, k, env):
        vs = [self.ev(x, env) for x in k.args]
        return slice(*[None if v is None else int(v) for v in vs])

    # ----------------------------------------------------------- evaluation
    def val(self, t):
        with np.errstate(all="ignore"):
            return self.ev(t, {})

    def ev(self, t, env):
        if not isinstance(t, T):
            return t
        fv = tm.tvars(t)
        loc = tuple((b, self.memokey(env[b])) for b in fv if b in env) if env else ()
        key = (t, frozenset(loc)) if loc else t
        if key in self.memo:
            return self.memo[key]
        self.steps += 1
        if self.steps > 400000:
            raise NoModel("budget")
        v = self._ev(t, env)
        self.memo[key] = v
        return v

    def memokey(self, v):
        """Key standing for a value of a loop variable in the memo."""
        if type(v) in (int, str):
            return v
        if type(v) in (float, bool, complex):
            return (type(v).__name__, str(v))
        if isinstance(v, np.generic):
            return (v.dtype.str, v.tobytes())
        if isinstance(v, np.ndarray) and v.dtype != object:
            return (v.dtype.str, v.shape, v.tobytes())
        self.keep.append(v)
        return ("id", id(v))

    def op_fold(self, t, a, env):
        sp, steps, d, which, syms, inits = a
        cs = syms.args
        cur = []
        for i in inits.args:
            try:
                cur.append(self.ev(i, env))
            except NoModel as e:
                cur.append(e)
        for e in self.envs(sp, raw_bvar(d), env):
            e = {**e, **dict(zip(cs, cur))}
            cur = []
            for s in steps.args:
                try:
                    cur.append(self.ev(s, e))
                except NoModel as err:
                    cur.append(err)
        v = cur[cs.index(which)]
        if isinstance(v, NoModel):
            raise v
        return v

    def _ev(self, t, env):
        op, a = t.op, t.args
        if op == "const":
            return a[0]
        if op == "sym":
            if t in env:
                v = env[t]
                if isinstance(v, NoModel):
                    raise v
                return v
            return self.symval(t)
        if op == "bvar":
            if t in env:
                return env[t]
            raise NoModel("free binder %s" % t)
        if op in ("unk", "carried"):
            raise NoModel("unknown %s" % (a[0] if a else "",))
        if op == "ite":
            c = self.ev(a[0], env)
            if not isinstance(c, np.ndarray) or c.ndim == 0:
                return self.ev(a[1] if bool(c) else a[2], env)
            return np.where(c if True else c, *self.pair_rank(
                c, self.ev(a[1], env), self.ev(a[2], env)))
        if op in ("and", "or") and len(a) == 2:
            x = self.ev(a[0], env)
            if not isinstance(x, np.ndarray) or x.ndim == 0:
                if tm.rank(a[1]) == 0:
                    if op == "and" and not bool(x):
                        return False
                    if op == "or" and bool(x):
                        return True
        if op in ("eq", "ne"):
            return self.equal(op, self.ev(a[0], env), self.ev(a[1], env))
        if op == "prop":
            return self.prop(t, env)
        f = U1.get(op)
        if f is not None and len(a) == 1:
            x = _num(self.ev(a[0], env))
            if op in ("log", "sqrt", "arcsin", "arccos") and np.asarray(x).dtype.kind == "O":
                raise NoModel(op)
            try:
                return f(x)
            except TypeError as e:
                raise Undef(str(e))
        f = U2.get(op)
        if f is not None and len(a) == 2:
            x, y = _num(self.ev(a[0], env)), _num(self.ev(a[1], env))
            try:
                if isinstance(x, (list, tuple)) or isinstance(y, (list, tuple)):
                    x, y = np.asarray(x), np.asarray(y)
                return f(x, y)
            except (TypeError, ValueError) as e:
                raise Undef(str(e))
            except (ZeroDivisionError, OverflowError):
                return math.nan
        m = getattr(self, "op_" + op, None)
        if m is None:
            return self.opaque(t, env)
        try:
            return m(t, a, env)
        except IndexError as e:
            raise Crash("%s: %s" % (op, e))
        except (ValueError, TypeError, KeyError) as e:
            raise Undef("%s: %s" % (op, e))

    @staticmethod
    def pair_rank(c, x, y):
        """Row selections: condition per row against 2-d values."""
        return x, y

    def equal(self, op, x, y):
        if isinstance(x, (Opq, str, Inst)) or isinstance(y, (Opq, str, Inst)) or \
                x is None or y is None:
            if isinstance(x, np.ndarray) or isinstance(y, np.ndarray):
                raise NoModel("comparison")
            e = same(x, y)
            return e if op == "eq" else not e
        if isinstance(x, (list, tuple)) and isinstance(y, (list, tuple)):
            e = same(x, y)
            return e if op == "eq" else not e
        if isinstance(x, Rec) or isinstance(y, Rec):
            if not (isinstance(x, Rec) and isinstance(y, Rec)):
                raise NoModel("comparison")
            if x.names != y.names:
                raise Undef("fields")
            r = True
            for p, q in zip(x.vals, y.vals):
                r = np.logical_and(r, np.equal(p, q))
            return r if op == "eq" else np.logical_not(r)
        if isinstance(x, (set, frozenset, dict)) or isinstance(y, (set, frozenset, dict)):
            e = x == y
            return e if op == "eq" else not e
        try:
            return np.equal(x, y) if op == "eq" else np.not_equal(x, y)
        except (TypeError, ValueError) as e:
            raise Undef(str(e))

    def opaque(self, t, env):
        raise NoModel("operator " + t.op)

    def hashed(self, key, kind, shape=()):
        g = np.random.default_rng([self.seed, abs(hash_(repr(key))) % (2 ** 31)])
        if kind == "b1":
            return g.random(shape) < 0.5
        if kind == "int":
            return g.integers(0, 9, shape) if shape else int(g.integers(0, 9))
        v = g.normal(size=shape)
        return v if shape else float(v)

    def prop(self, t, env):
        name, ids = t.args[0], self.ev(t.args[1], env)
        name = name.args[0] if isinstance(name, T) else name
        arr = np.asarray(ids)
        if tm.kind(t) == "str":
            out = np.empty(arr.size, dtype=object)
            out[:] = ["%s<%d>" % (name, i) for i in arr.ravel()]
        else:
            out = np.array([self.hashed(("prop", name, int(i)), "f8")
                            for i in arr.ravel()], dtype=float)
        return out.reshape(arr.shape) if arr.shape else out[0]

    # ------------------------------------------------------------ structure
    def op_cols(self, t, a, env):
        vs = [np.asarray(_num(self.ev(x, env))) for x in a]
        return np.stack(vs, axis=-1)

    def op_stackrows(self, t, a, env):
        return np.stack([np.asarray(_num(self.ev(x, env))) for x in a], axis=0)

    def op_row(self, t, a, env):
        vs = [self.ev(x, env) for x in a]
        if any(isinstance(v, (Opq, str)) for v in vs):
            o = np.empty(len(vs), dtype=object)
            o[:] = vs
            return o
        return np.array([_num(v) for v in vs]) if vs else np.zeros(0)

    def op_mat(self, t, a, env):
        return np.array([self.ev(x, env) for x in a])

    def op_struct(self, t, a, env):
        return Rec(a[0], [self.ev(x, env) for x in a[1:]])

    def op_inst(self, t, a, env):
        return Inst(a[0], {k: self.ev(v, env) for k, v in zip(a[1], a[2])})

    def op_np_(self, t, a, env):
        return self.ev(a[0], env)

    def elem(self, x, env):
        """Element of a python container; marked numpy scalars stay visible."""
        v = self.ev(x, env)
        if isinstance(x, T):
            while x.op == "ite":
                c = self.ev(x.args[0], env)
                if isinstance(c, np.ndarray) and c.ndim:
                    return v
                x = x.args[1] if bool(c) else x.args[2]
            if x.op == "np_":
                return NpScalar(v)
        return v

    def op_seqof(self, t, a, env):
        d = {"int": int, "b1": bool, "f8": float, "str": "U32"}.get(a[0], int)
        v = [self.ev(x, env) for x in a[1:]]
        return np.array(v) if v else np.zeros(0, d)

    def op_snoc(self, t, a, env):
        v = self.ev(a[0], env)
        if not bool(self.ev(a[2], env)):
            return v
        x = self.ev(a[1], env)
        if a[3] == "set" and x in v.tolist():
            return v
        return np.array(v.tolist() + [x])

    def op_tuple(self, t, a, env):
        return tuple(self.elem(x, env) for x in a)

    def op_rows(self, t, a, env):
        return [self.ev(x, env) for x in a]

    def items(self, segs, env):
        out = []
        for s in segs:
            out += self.seg(s, env)
        return out

    def seg(self, s, env):
        if s.op == "each":
            sp, body, d = s.args
            b = raw_bvar(d)
            out = []
            for e in self.envs(sp, b, env):
                out += self.seg(body, e)
            return out
        if s.op == "guarded":
            return self.seg(s.args[1], env) if bool(self.ev(s.args[0], env)) else []
        if s.op == "pair":
            return [(self.hkey(self.ev(s.args[0], env)), self.elem(s.args[1], env))]
        return [self.elem(s, env)]

    @staticmethod
    def hkey(k):
        if isinstance(k, np.generic):
            return k.item()
        if isinstance(k, np.ndarray) and k.ndim == 0:
            return k.item()
        if isinstance(k, np.ndarray):
            raise Undef("unhashable")
        return k

    def op_list(self, t, a, env):
        return self.items(a[0], env)

    def op_dict(self, t, a, env):
        out = {}
        for k, v in self.items(a[0], env):
            out[k] = v
        return out

    def op_set(self, t, a, env):
        return set(self.hkey(x) for x in self.items(a[0], env))

    def op_setcmp(self, t, a, env):
        x, y = self.ev(a[1], env), self.ev(a[2], env)
        return getattr(operator, a[0].args[0])(x, y)

    def op_listof(self, t, a, env):
        v = self.ev(a[0], env)
        return v

    def op_nth(self, t, a, env):
        return list(self.indices(a[0], env))[int(self.ev(a[1], env))]

    def op_lastof(self, t, a, env):
        lam = a[1]
        d = raw_bvar(lam.args[2] if len(lam.args) > 2 else lam.args[-1])
        ix = [i for i in self.indices(a[0], env) if bool(self.ev(lam.args[1], {**env, d: i}))]
        if not ix:
            raise Undef("no such key")
        return ix[-1]

    def op_ixeq(self, t, a, env):
        return int(self.ev(a[0], env)) == int(self.ev(a[1], env))

    def op_countof(self, t, a, env):
        k = self.ev(a[0], env)
        return sum(1 for x in self.ev(a[1], env) if same(x, k, 0.0))

    def op_occ(self, t, a, env):
        """How often the key occurred before in the innermost enumeration."""
        k = self.ev(a[0], env)
        if len(a) == 4:
            d, at, n = raw_bvar(a[1].args[2]), self.ev(a[3], env), 0
            for i in self.indices(a[2], env):
                if i == at:
                    return n
                n += same(self.ev(a[1].args[1], {**env, d: i}), k, 0.0)
            raise Undef("no such element")
        bs = [b for b in tm.tvars(a[0]) if ("before", b) in env]
        if len(bs) != 1:
            raise NoModel("occurrence")
        done, n = env[("before", bs[0])]
        return sum(1 for e in done[:n] if same(self.ev(a[0], e), k, 0.0))

    def op_glob(self, t, a, env):
        return Opq(("glob", a[0]))

    def op_slice(self, t, a, env):
        return ("slice",) + tuple(self.ev(x, env) for x in a)

    def op_str(self, t, a, env):
        vs = [x if isinstance(x, str) else self.ev(x, env) for x in a]
        if all(isinstance(v, str) for v in vs):
            return "".join(vs)
        return Opq(("str",) + tuple(digest(v) for v in vs))

    def op_fmt(self, t, a, env):
        v = self.ev(a[0], env)
        if len(a) == 1:
            if isinstance(v, str):
                return v
            if isinstance(v, (bool, int, float, np.integer, np.bool_, np.floating)):
                return str(v)
            return Opq(("fmt", digest(v)))
        spec = self.ev(a[1], env)
        if isinstance(v, np.generic) and a[2] != 114:
            v = v.item()
        if isinstance(spec, str) and (isinstance(v, (str, bool, int)) or isinstance(
                v, float) and a[2] != 114) and not isinstance(v, np.generic):
            v = {115: str, 114: repr, 97: ascii}.get(a[2], lambda x: x)(v)
            try:
                return format(v, spec)
            except ValueError:
                raise Undef("format")
        return Opq(("fmt", digest(v), digest(spec), a[2]))

    def op_strjoin(self, t, a, env):
        sep, vs = self.ev(a[0], env), self.items(a[1:], env)
        if isinstance(sep, str) and all(isinstance(v, str) for v in vs):
            return sep.join(vs)
        return Opq(("join", digest(sep)) + tuple(digest(v) for v in vs))

    def op_strm(self, t, a, env):
        vs = [self.ev(x, env) for x in a[1:]]
        if all(isinstance(v, (str, int)) for v in vs) and a[0] in (
                "format", "lower", "upper", "strip", "lstrip", "rstrip", "replace", "title",
                "removeprefix", "removesuffix", "zfill", "capitalize"):
            return getattr(vs[0], a[0])(*vs[1:])
        if a[0] == "%" and isinstance(vs[0], str):
            x = tuple(y.item() if isinstance(y, np.generic) else y for y in (
                vs[1] if isinstance(vs[1], tuple) else (vs[1],)))
            if all(isinstance(y, (str, int, float)) for y in x) and "%r" not in vs[0]:
                try:
                    return vs[0] % x
                except (TypeError, ValueError):
                    raise Undef("format")
        if a[0] == "*" and isinstance(vs[0], str) and isinstance(vs[1], (int, np.integer)):
            return vs[0] * int(vs[1])
        return Opq(("strm", a[0]) + tuple(digest(v) for v in vs))

    def op_full(self, t, a, env):
        sp, v, r = a
        if sp.op == "nested" and r == 1:
            return self.stack([self.ev(v, e) for e in self.envs(sp, None, env)])
        x = self.ev(v, env)
        if r == 1:
            return np.full(self.count(sp, env), x)
        if sp.op == "prodspace":
            return np.full(tuple(self.count(s, env) for s in sp.args), x)
        if r >= 2 and sp.op == "rowsof":
            return np.full(np.shape(self.ev(sp.args[0], env)), x)
        raise NoModel("full rank %s" % r)

    def op_lam1(self, t, a, env):
        sp, b, body = a
        return self.stack([self.ev(body, e) for e in self.envs(sp, b, env)])

    def op_stackeach(self, t, a, env):
        return self.op_lam1(t, a, env)

    @staticmethod
    def stack(vs):
        if any(isinstance(v, (Opq, str)) for v in vs):
            o = np.empty(len(vs), dtype=object)
            o[:] = vs
            return o
        return np.array(vs)

    def op_colvec(self, t, a, env):
        return np.asarray(self.ev(a[0], env))[:, None]

    def op_rowvec(self, t, a, env):
        return np.asarray(self.ev(a[0], env))[None, :]

    def op_T(self, t, a, env):
        return np.asarray(self.ev(a[0], env)).T

    def op_col(self, t, a, env):
        v = self.ev(a[0], env)
        k = a[1] if isinstance(a[1], int) else self.ev(a[1], env)
        if isinstance(v, Rec):
            return v.vals[int(k)]
        return v[..., int(k)]

    def op_colslice(self, t, a, env):
        return self.ev(a[0], env)[:, a[1]:a[2]]

    def op_field(self, t, a, env):
        v = self.ev(a[0], env)
        n = a[1] if isinstance(a[1], str) else self.ev(a[1], env)
        if isinstance(v, Rec):
            return v.vals[v.names.index(n)]
        raise NoModel("field of %s" % type(v).__name__)

    def op_at(self, t, a, env):
        v, i = self.ev(a[0], env), self.ev(a[1], env)
        if isinstance(v, Rec):
            return Rec(v.names, [x[int(i)] for x in v.vals])
        if isinstance(v, dict):
            return v[self.hkey(i)]
        if isinstance(v, (list, tuple, np.ndarray)):
            return v[int(i)]
        if isinstance(v, Inst):
            raise NoModel("at of instance")
        raise NoModel("at of %s" % type(v).__name__)

    def key(self, k, env):
        if k.op == "slice":
            return self.slice(k, env)
        if k.op == "ellipsis":
            return Ellipsis
        v = self.ev(k, env)
        if isinstance(v, (list, tuple)):
            v = np.asarray(v)
        if isinstance(v, (bool, np.bool_)):
            raise NoModel("boolean scalar index")
        if isinstance(v, float):
            raise Undef("float index")
        if isinstance(v, (Inst, Opq)):
            raise NoModel("instance index")
        return v

    def op_seqeq(self, t, a, env):
        x, y = self.ev(a[0], env), self.ev(a[1], env)
        return len(x) == len(y) and all(same(p, q, 0) for p, q in zip(x, y))

    def op_npuf(self, t, a, env):
        f = getattr(np, a[0][6:])
        r = f(*[_num(self.ev(x, env)) for x in a[3:]])
        return r[a[1]] if f.nout > 1 else r

    def op_npat(self, t, a, env):
        x = np.array(self.ev(a[1], env))
        args = [self.key(a[2], env)] + [self.ev(y, env) for y in a[3:]]
        getattr(np, a[0][6:]).at(x, *args)
        return x

    def op_take(self, t, a, env):
        v, k = self.ev(a[0], env), self.key(a[1], env)
        if isinstance(v, Rec):
            return Rec(v.names, [x[k] for x in v.vals])
        if isinstance(v, (list, tuple)):
            if isinstance(k, slice):
                return v[k]
            v = np.asarray(v)
        return v[k]

    def op_take2(self, t, a, env):
        return self.ev(a[0], env)[self.key(a[1], env), self.key(a[2], env)]

    def op_takecols(self, t, a, env):
        return self.ev(a[0], env)[:, self.key(a[1], env)]

    def op_takeaxis(self, t, a, env):
        ax = self.ev(a[2], env)
        return np.take_along_axis(self.ev(a[0], env), self.ev(a[1], env), ax)

    def op_putaxis(self, t, a, env):
        x = np.array(self.ev(a[0], env))
        np.put_along_axis(x, self.ev(a[1], env), self.ev(a[2], env), self.ev(a[3], env))
        return x

    def op_upd(self, t, a, env):
        v = self.ev(a[0], env)
        w = self.ev(a[2], env)
        if a[1].op == "key2":
            k = tuple(self.key(x, env) for x in a[1].args)
        else:
            k = self.key(a[1], env)
        return self.put(v, k, w)

    @staticmethod
    def put(v, k, w):
        if isinstance(v, Rec):
            ws = w.vals if isinstance(w, Rec) else [w] * len(v.vals)
            return Rec(v.names, [Model.put(x, k, y) for x, y in zip(v.vals, ws)])
        x = np.array(v)
        y = np.asarray(w)
        if y.dtype.kind == "c" and x.dtype.kind in "fiu" or \
                y.dtype.kind == "f" and x.dtype.kind in "iub" or \
                y.dtype.kind in "iu" and x.dtype.kind == "b":
            x = x.astype(np.result_type(x.dtype, y.dtype))
        x[k] = y
        return x

    def op_updcol(self, t, a, env):
        x = np.array(self.ev(a[0], env))
        x[..., a[1]] = self.ev(a[2], env)
        return x

    def op_updcols(self, t, a, env):
        x = np.array(self.ev(a[0], env))
        x[..., a[1]:a[2]] = self.ev(a[3], env)
        return x

    def op_fill(self, t, a, env):
        x = np.array(self.ev(a[0], env)).astype(float) if tm.kind(a[0]) in (
            "f8", "int", None) else np.array(self.ev(a[0], env))
        for k, v, g, bs in a[1]:
            ks = k.args if k.op == "key2" else (k,)

            def go(n, e):
                if n == len(bs):
                    if bool(self.ev(g, e)):
                        ix = tuple(self.key(q, e) for q in ks)
                        w = self.ev(v, e)
                        nonlocal x
                        if np.asarray(w).dtype.kind == "c" and x.dtype.kind != "c":
                            x = x.astype(complex)
                        x[ix if len(ix) > 1 else ix[0]] = w
                    return
                b, sp = bs[n]
                for i in self.indices(sp, e):
                    go(n + 1, {**e, b: i})
            go(0, dict(env))
        return x

    def op_filldiag(self, t, a, env):
        x = np.array(self.ev(a[0], env))
        v = self.ev(a[1], env)
        if np.asarray(v).dtype.kind == "f" and x.dtype.kind in "iub":
            x = x.astype(bool if x.dtype.kind == "b" else x.dtype)
        np.fill_diagonal(x, v)
        return x

    def op_diag(self, t, a, env):
        return np.diag(self.ev(a[0], env))

    def op_uninit(self, t, a, env):
        raise NoModel("uninitialised memory")

    # ----------------------------------------------------------- reductions
    def red(self, t, env, f, empty):
        sp, body, d = t.args
        b = raw_bvar(d)
        r = empty
        first = True
        for e in self.envs(sp, b, env):
            v = self.ev(body, e)
            r = v if first and empty is None else f(r, v)
            first = False
        if r is None:
            raise Undef("empty reduction")
        return r

    def op_bsum(self, t, a, env):
        return self.red(t, env, lambda r, v: r + (v if not isinstance(
            v, (bool, np.bool_)) else int(v)), 0)

    def op_bprod(self, t, a, env):
        return self.red(t, env, lambda r, v: r * v, 1)

    def op_bany(self, t, a, env):
        return self.red(t, env, lambda r, v: np.logical_or(r, v), False)

    def op_ball(self, t, a, env):
        return self.red(t, env, lambda r, v: np.logical_and(r, v), True)

    def op_bmax(self, t, a, env):
        return self.red(t, env, np.maximum, None)

    def op_bmin(self, t, a, env):
        return self.red(t, env, np.minimum, None)

    REDS = {"bsum": np.sum, "bprod": np.prod, "bany": np.any, "ball": np.all,
            "bmax": np.max, "bmin": np.min, "sum": np.sum, "prod": np.prod,
            "any": np.any, "all": np.all, "max": np.max, "min": np.min,
            "mean": np.mean, "var": np.var, "std": np.std}

    def redax(self, name, v, axis):
        f = self.REDS.get(name)
        if f is None:
            raise NoModel("reduction " + str(name))
        return f(np.asarray(v), axis=axis)

    def op_red0(self, t, a, env):
        return self.redax(a[0], self.ev(a[1], env), 0)

    def op_red1(self, t, a, env):
        return self.redax(a[0], self.ev(a[1], env), 1)

    def op_redall(self, t, a, env):
        return self.redax(a[0], self.ev(a[1], env), None)

    def op_redn(self, t, a, env):
        return self.redax(a[0], self.ev(a[1], env), self.ev(a[2], env))

    op_redaxis = op_redn

    def op_var0(self, t, a, env):
        return np.var(self.ev(a[0], env))

    def op_std0(self, t, a, env):
        return np.std(self.ev(a[0], env))

    def op_argmax0(self, t, a, env):
        return int(np.argmax(self.ev(a[0], env)))

    def op_argmin0(self, t, a, env):
        return int(np.argmin(self.ev(a[0], env)))

    def op_argmin0_ax(self, t, a, env):
        return np.argmin(self.ev(a[0], env), axis=self.ev(a[1], env))

    def op_argmax0_ax(self, t, a, env):
        return np.argmax(self.ev(a[0], env), axis=self.ev(a[1], env))

    def kw(self, args, env):
        return {x.args[0]: self.ev(x.args[1], env) for x in args
                if isinstance(x, T) and x.op == "kw"}

    def op_argsort(self, t, a, env):
        k = self.kw(a[1:], env)
        ax = k.get("axis", -1)
        return np.argsort(self.ev(a[0], env), axis=ax, kind="stable")

    def op_sorted(self, t, a, env):
        v = self.ev(a[0], env)
        return np.sort(v) if isinstance(v, np.ndarray) else sorted(v)

    def op_argpartition(self, t, a, env):
        # any partition is allowed: nothing but the partition may be relied on
        k = self.kw(a, env)
        ax, kth = k.get("axis", -1), k.get("kth")
        if kth is None and len(a) > 1:
            kth = self.ev(a[1], env)
        o = np.argsort(self.ev(a[0], env), axis=ax, kind="stable")
        n = o.shape[ax]
        if np.ndim(kth) or kth is None:
            raise NoModel("kth")
        kth = int(kth)
        if not -n <= kth < n:
            raise Crash("kth out of bounds")
        kth %= n
        o = np.moveaxis(o, ax, -1)
        o = np.concatenate([o[..., :kth][..., ::-1], o[..., kth:kth + 1],
                            o[..., kth + 1:][..., ::-1]], axis=-1)
        return np.moveaxis(o, -1, ax)

    def op_reverse(self, t, a, env):
        return self.ev(a[0], env)[::-1]

    def op_unique(self, t, a, env):
        return np.unique(self.ev(a[0], env))

    def op_unique_inverse(self, t, a, env):
        v = self.ev(a[0], env)
        return np.unique(v, return_inverse=True)[1].reshape(np.shape(v))

    def op_unique_index(self, t, a, env):
        return np.unique(self.ev(a[0], env), return_index=True)[1]

    def op_unique_counts(self, t, a, env):
        return np.unique(self.ev(a[0], env), return_counts=True)[1]

    def op_isin(self, t, a, env):
        y = self.ev(a[1], env)
        if isinstance(y, (set, frozenset, dict)):
            y = list(y)
        return np.isin(np.asarray(self.ev(a[0], env)), np.asarray(y), *[
            bool(self.ev(q, env)) for q in a[2:]])

    def op_in(self, t, a, env):
        x, y = self.ev(a[0], env), self.ev(a[1], env)
        if isinstance(y, (dict, set, frozenset)):
            return self.hkey(x) in y
        if isinstance(y, np.ndarray):
            return bool(np.any(y == x))
        if isinstance(y, (list, tuple)):
            return any(same(x, q) for q in y)
        raise NoModel("in")

    def op_flatnonzero(self, t, a, env):
        return np.flatnonzero(self.ev(a[0], env))

    def op_nonzero(self, t, a, env):
        return np.nonzero(self.ev(a[0], env))[a[1] if isinstance(a[1], int)
                                              else self.ev(a[1], env)]

    def op_nzvals(self, t, a, env):
        return np.asarray(self.ev(a[0], env))[np.nonzero(self.ev(a[1], env))]

    def op_coo(self, t, a, env):
        v = [self.ev(x, env) for x in a]
        return self.mkcoo(*v)

    @staticmethod
    def mkcoo(r, c, d, n, m):
        r, c, d = np.asarray(r), np.asarray(c), np.asarray(d)
        if not (r.ndim == c.ndim == d.ndim == 1 and len(r) == len(c) == len(d)):
            raise Undef("coo lengths")
        if len(r) and (r.max() >= n or c.max() >= m or min(r.min(), c.min()) < 0):
            raise Undef("coo index")
        return Rec(("row", "col", "data", "n", "m"), [r, c, d, int(n), int(m)])

    @staticmethod
    def dense(x):
        r, c, d, n, m = x.vals
        out = np.zeros((n, m), d.dtype)
        if d.dtype == bool:
            out[r[d], c[d]] = True
        else:
            np.add.at(out, (r, c), d)
        return out

    @staticmethod
    def coosum(x, major="col"):
        r, c, d, n, m = x.vals
        if not len(r):
            return x
        o = np.lexsort((r, c) if major == "col" else (c, r))
        r, c, d = r[o], c[o], d[o]
        new = np.append(True, (r[1:] != r[:-1]) | (c[1:] != c[:-1]))
        i, = np.nonzero(new)
        return Rec(x.names, [r[new], c[new], np.add.reduceat(d, i, dtype=d.dtype), n, m])

    def op_coodense(self, t, a, env):
        return self.dense(self.mkcoo(*[self.ev(x, env) for x in a]))

    def op_coosum(self, t, a, env):
        x = self.coosum(self.ev(a[0], env), a[2].args[0])
        return x.vals[x.names.index(a[1].args[0])]

    def op_coopart(self, t, a, env):
        x = self.ev(a[0], env)
        return x.vals[x.names.index(a[1].args[0])]

    def op_csrindices(self, t, a, env):
        x = self.ev(a[0], env)
        o = np.argsort(x.vals[0], kind="stable")
        return x.vals[1][o]

    def op_bftree(self, t, a, env):
        x, s = self.ev(a[0], env), int(self.ev(a[1], env))
        r, c, d, n, m = x.vals
        if not 0 <= s < n or n != m:
            raise Undef("bfs start")
        if not self.ev(a[2], env):
            r, c = np.append(r, c), np.append(c, r)
        pred, order, i = {s: -1}, [s], 0
        while i < len(order):
            u = order[i]
            i += 1
            for v in c[r == u].tolist():
                if v not in pred:
                    pred[v] = u
                    order.append(v)
        e = sorted((p, v) for v, p in pred.items() if p >= 0)
        return Rec(x.names, [np.array([p for p, _ in e], int), np.array(
            [v for _, v in e], int), np.ones(len(e)), n, m])

    def op_arange(self, t, a, env):
        return np.arange(*[self.ev(x, env) for x in a])

    def op_concat(self, t, a, env):
        ax = self.ev(a[0], env)
        return np.concatenate([np.asarray(self.ev(x, env)) for x in a[1:]], axis=int(ax))

    def op_vstack(self, t, a, env):
        return np.vstack([np.asarray(self.ev(x, env)) for x in a])

    def op_concat_seq(self, t, a, env):
        return np.concatenate(self.ev(a[1], env), axis=int(self.ev(a[0], env)))

    def op_reshape(self, t, a, env):
        v = self.ev(a[0], env)
        sh = []
        for x in a[1:]:
            y = self.ev(x, env)
            sh += list(y) if isinstance(y, (tuple, list, np.ndarray)) else [int(y)]
        if isinstance(v, Rec):
            return Rec(v.names, [np.reshape(x, sh) for x in v.vals])
        return np.reshape(np.asarray(v), sh)

    def op_ravel(self, t, a, env):
        v = self.ev(a[0], env)
        if isinstance(v, Rec):
            return Rec(v.names, [np.ravel(x) for x in v.vals])
        return np.ravel(v)

    def op_view(self, t, a, env):
        v, how = self.ev(a[0], env), str(a[1])
        if how == "('bitview', 'f8')":
            if isinstance(v, Rec):
                return np.stack([np.asarray(x, dtype=float) for x in v.vals], axis=-1).reshape(-1)
            if v.dtype.kind == "c":
                return np.ascontiguousarray(v).view(float)
            if v.dtype.kind == "f":
                return v
        raise NoModel("view " + how)

    def op_viewf(self, t, a, env):
        v = self.ev(a[0], env)
        return np.ascontiguousarray(np.asarray(v).astype(complex)).view(float)

    def op_tile(self, t, a, env):
        return np.tile(self.ev(a[0], env), self.ev(a[1], env))

    def assignment(self, a, env):
        """Rows and columns of the assignment of least total cost."""
        import itertools
        c = np.asarray(self.ev(a[0], env), float)
        for k in a[1:]:
            if k.args[0] == "maximize":
                if bool(self.ev(k.args[1], env)):
                    c = -c
            else:
                raise NoModel("assignment option")
        if c.ndim != 2 or np.isnan(c).any() or (c == -np.inf).any():
            raise Undef("assignment of invalid costs")
        flip = c.shape[0] > c.shape[1]
        if flip:
            c = c.T
        n, m = c.shape
        if n > 6 or m > 8:
            raise NoModel("large assignment")
        best, arg, second = np.inf, None, np.inf
        for q in itertools.permutations(range(m), n):
            t = sum(c[i, j] for i, j in enumerate(q))
            if t < best:
                best, arg, second = t, q, best
            elif t < second:
                second = t
        if arg is None or n and second - best < 1e-7:
            raise Undef("assignment not unique")
        r, k = np.arange(n), np.array(arg, int)
        if flip:
            o = np.argsort(k)
            r, k = k[o], r[o]
        return r, k

    def op_assign_rows(self, t, a, env):
        return self.assignment(a, env)[0]

    def op_assign_cols(self, t, a, env):
        return self.assignment(a, env)[1]

    def op_matmul(self, t, a, env):
        return np.matmul(self.ev(a[0], env), self.ev(a[1], env))

    def op_cumsum(self, t, a, env):
        return np.cumsum(self.ev(a[0], env), **self.kw(a[1:], env))

    def op_round(self, t, a, env):
        return np.round(*[self.ev(x, env) for x in a])

    def op_clip(self, t, a, env):
        return np.clip(*[self.ev(x, env) for x in a])

    def op_isclose(self, t, a, env):
        return np.isclose(*[self.ev(x, env) for x in a if not (
            isinstance(x, T) and x.op == "kw")], **self.kw(a, env))

    def op_nan_to_num(self, t, a, env):
        return np.nan_to_num(self.ev(a[0], env))

    def op_viewc(self, t, a, env):
        v = np.ascontiguousarray(self.ev(a[0], env)).astype(float)
        return v.view(complex)

    def op_sign(self, t, a, env):
        return np.sign(self.ev(a[0], env))

    def op_tri(self, t, a, env):
        lower, k = self.ev(a[0], env), self.ev(a[2], env)
        v = self.ev(a[1], env)
        n = int(v) if np.ndim(v) == 0 else len(v)
        f = np.tril_indices if lower else np.triu_indices
        return f(n, int(k))[int(self.ev(a[3], env))]

    def op_linspace(self, t, a, env):
        return np.linspace(*[self.ev(x, env) for x in a if x.op != "kw"],
                           **self.kw(a, env))

    # -------------------------------------------------------------- scalars
    def op_rows_n(self, t, a, env):
        return self.count(a[0], env)

    def op_len(self, t, a, env):
        return self.length(self.ev(a[0], env))

    def op_nonempty(self, t, a, env):
        return self.count(a[0], env) > 0

    def op_truth(self, t, a, env):
        v = self.ev(a[0], env)
        if isinstance(v, np.ndarray):
            if v.size != 1:
                raise Undef("truth of array")
            return bool(v.ravel()[0])
        if isinstance(v, (Inst, Rec, Opq)):
            raise NoModel("truth")
        return bool(v)

    def op_item(self, t, a, env):
        v = np.asarray(self.ev(a[0], env))
        if v.size != 1:
            raise Undef("item")
        return v.ravel()[0].item()

    def op_isnone(self, t, a, env):
        return self.ev(a[0], env) is None

    def op_arrayeq(self, t, a, env):
        x, y = self.ev(a[0], env), self.ev(a[1], env)
        if isinstance(x, Rec) and isinstance(y, Rec):
            return x.names == y.names and all(
                np.array_equal(p, q) for p, q in zip(x.vals, y.vals))
        return bool(np.array_equal(x, y, *[bool(self.ev(q, env)) for q in a[2:]]))

    def op_allclose(self, t, a, env):
        x, y, r, b, n = (self.ev(q, env) for q in a)
        if isinstance(x, Rec) or isinstance(y, Rec):
            raise Crash("allclose of structured arrays")
        try:
            return bool(np.allclose(x, y, r, b, bool(n)))
        except ValueError as e:
            raise Crash(str(e))

    def op_seteq(self, t, a, env):
        return set(self.ev(a[0], env)) == set(self.ev(a[1], env))

    def op_keys(self, t, a, env):
        v = self.ev(a[0], env)
        if isinstance(v, dict):
            return list(v)
        raise NoModel("keys")

    def op_samearg(self, t, a, env):
        return False

    def op_pair(self, t, a, env):
        return (self.ev(a[0], env), self.ev(a[1], env))

    def op_posn(self, t, a, env):
        i = self.ev(a[1], env)
        return list(self.indices(a[0], env)).index(i)

    def op_firstof(self, t, a, env):
        ix = list(self.indices(a[0], env))
        if not ix:
            raise Undef("first of empty")
        return ix[0]

    def op_member(self, t, a, env):
        return self.ev(a[0], env) in list(self.indices(a[1], env))

    def op_minimize(self, t, a, env):
        return ("minimize",) + tuple(digest(self.ev(x, env)) for x in a)

    def op_minof(self, t, a, env):
        return self.hashed(("minof", self.ev(a[0], env)), "f8")

    def op_argminof(self, t, a, env):
        return self.hashed(("argminof", self.ev(a[0], env), self.ev(a[1], env)), "f8")

    def op_dim(self, t, a, env):
        v = self.ev(a[0], env)
        v = v.vals[0] if isinstance(v, Rec) else v
        return int(np.shape(v)[int(self.ev(a[1], env))])

    def op_shape(self, t, a, env):
        return tuple(int(x) for x in np.shape(self.ev(a[0], env)))

    def op_fullshape(self, t, a, env):
        sh, v = self.ev(a[0], env), self.ev(a[1], env)
        return np.full(tuple(int(x) for x in np.ravel(sh)), v)

    # uninterpreted functions of known shape
    def op_rand0(self, t, a, env):
        if DRAW[0] is not None:
            return DRAW[0](self, tuple(repr(x) for x in a), 1)[0]
        return 0.05 + 0.9 * np.random.default_rng(
            [self.seed, abs(hash_(repr(self.args(t, env)))) % (2 ** 31)]).random()

    def op_rand1(self, t, a, env):
        n = int(self.ev(a[3], env))
        if DRAW[0] is not None:
            return DRAW[0](self, tuple(repr(x) for x in a), n)
        return 0.05 + 0.9 * np.random.default_rng(
            [self.seed, abs(hash_(repr(self.args(t, env)))) % (2 ** 31)]).random(n)

    def args(self, t, env):
        return (t.op,) + tuple(digest(self.ev(x, env)) if isinstance(x, T) else x
                               for x in t.args)

    def op_rng(self, t, a, env):
        return Opq(("rng",) + tuple(digest(self.ev(x, env)) for x in a))

    # -------------------------------------------------------------- fastjet
    def jets(self, t, env):
        """(momenta, constituents) of the jets above a transverse momentum: a
        clustering invented for the model, fixed by the jet definition."""
        seq, pt = t.args[:2]
        if seq.op != "call" or len(seq.args) != 3 or any(
                x.op != "call" for x in seq.args[1:]):
            raise NoModel("cluster sequence")
        ak, jd = seq.args[1:]
        if ak.args[0] not in ("awkward.from_numpy", "awkward.Array") or len(ak.args) != 2 or \
                jd.args[0] != "fastjet.JetDefinition":
            raise NoModel("cluster sequence")
        x = self.ev(ak.args[1], env)
        if not isinstance(x, Rec) or set(x.names) != {"px", "py", "pz", "E"}:
            raise NoModel("momenta to cluster")
        p = np.column_stack([np.asarray(x.vals[x.names.index(q)], float)
                             for q in ("px", "py", "pz", "E")])
        d = [self.ev(q, env) for q in jd.args[1:]]
        if d and isinstance(d[-1], tuple):
            d = d[:-1] + list(d[-1])
        return invent_jets(self, p, d, float(self.ev(pt, env)))

    def op_fj_col(self, t, a, env):
        return self.jets(t, env)[0][:, ("px", "py", "pz", "E").index(a[2].args[0])]

    def op_fj_cons(self, t, a, env):
        c = self.jets(t, env)[1]
        out = np.empty(len(c), dtype=object)
        for i, x in enumerate(c):
            out[i] = x
        return out

    def op_call(self, t, a, env):
        k = tm.kind(t)
        if k is None or tm.rank(t) is None:
            return Opq(self.args(t, env))
        raise NoModel("call " + str(a[0]))

    def op_npcall(self, t, a, env):
        """A numpy function without effects, whose result is a new array."""
        f = np
        for q in a[0][6:].split("."):
            f = getattr(f, q, None)
            if f is None:
                raise NoModel(a[0])
        args, kw = [], {}
        for x in a[3:]:
            if x.op == "kw":
                kw[x.args[0]] = numeric(self.ev(x.args[1], env))
            else:
                args.append(numeric(self.ev(x, env)))
        if args and isinstance(args[0], Rec):
            if a[0][6:] not in ("delete", "roll", "take", "compress", "repeat"):
                raise NoModel(a[0] + " of records")
            return Rec(args[0].names, [f(x, *args[1:], **kw) for x in args[0].vals])
        if any(isinstance(x, Rec) for x in args) or any(isinstance(x, Rec) for x in kw.values()):
            raise NoModel(a[0] + " of records")
        try:
            return f(*args, **kw)
        except np.linalg.LinAlgError as e:
            raise Undef(str(e))
        except ZeroDivisionError as e:
            raise Undef(str(e))

    def op_kw(self, t, a, env):
        return ("kw", a[0], self.ev(a[1], env))


def invent_jets(M, p, jetdef, ptmin):
    key = [repr(x.key[-1]) if isinstance(x, Opq) else "%.9g" % x for x in jetdef]
    g = np.random.default_rng([M.seed, hash_("|".join(key)) % 99991])
    k = max(2, len(p) // 2)
    label = g.integers(0, k + 1, len(p))
    js = [np.flatnonzero(label == i) for i in range(k)]
    js = [j for j in js if len(j)]
    ps = np.array([p[j].sum(axis=0) for j in js]).reshape(-1, 4)
    keep = np.hypot(ps[:, 0], ps[:, 1]) >= ptmin
    return ps[keep], [j for j, q in zip(js, keep) if q]


def raw_bvar(d):
    return d if isinstance(d, T) else tm.raw("bvar", d)


def hash_(s):
    """Process-independent hash."""
    h = 2166136261
    for c in str(s).encode():
        h = ((h ^ c) * 16777619) & 0xFFFFFFFF
    return h


class Verdict:
    def __init__(self, kind, detail=None, models=0):
        self.kind, self.detail, self.models = kind, detail, models

    def __repr__(self):
        return "<%s %s>" % (self.kind, self.detail)


MOODS = ("plain", "degenerate", "spacelike")


class Raised:
    """The call ends in an exception in this model."""

    def __init__(self, exc, loc=None):
        self.exc, self.loc = exc, loc

    def __eq__(self, o):
        return isinstance(o, Raised) and (self.exc == o.exc or "*" in (self.exc, o.exc))

    def __hash__(self):
        return 7

    def __repr__(self):
        return "raise %s" % self.exc


def value(x, M):
    """x is a term or a function of the model."""
    if callable(x):
        return x(M)
    with np.errstate(all="ignore"):
        return M.val(x)


LOG = None
SIZES = (0, 1, 2, -4, -3)        # of the events, relative to the base of five


def compare(got, want, seed=1, n=6, leaf=None, moods=MOODS, sizes=None, tol=1e-6,
            adjust=None, need=2, base=5, when=None):
    """'equal', 'differ' (with a witness) or 'undecided' (with the reason).

    got and want are terms or functions of the model; adjust(value) may
    normalise both values; models in which when(M) is false are skipped."""
    if got is want:
        return Verdict("equal", None, 0)
    if any(isinstance(t, T) and tm.has_unknown(t) for t in (got, want)):
        return Verdict("undecided", "unknown part")
    done, undef = 0, None
    for m in range(n):
        for mood in moods:
            M = Model(seed * 1009 + m, size=base + SIZES[m % 5], leaf=leaf, mood=mood,
                      sizes=sizes)
            M.index = m
            try:
                with np.errstate(all="ignore"):
                    if when is not None and not when(M):
                        continue
                    w = value(want, M)
            except NoModel as e:
                return Verdict("undecided", "reference: %s" % e)
            except Undef as e:
                undef = "reference undefined: %s" % e
                continue
            except IndexError as e:        # (an index the event does not have)
                undef = "reference: %s" % e
                continue
            except (TypeError, ValueError, KeyError, AttributeError) as e:
                return Verdict("undecided", "reference: %s %s" % (type(e).__name__, e))
            try:
                g = value(got, M)
            except NoModel as e:
                return Verdict("undecided", str(e))
            except Crash as e:
                g = Raised("*", str(e))
            except Undef as e:
                undef = str(e)
                if LOG is not None:
                    LOG.append(undef)
                continue
            except (RecursionError, MemoryError):
                return Verdict("undecided", "recursion")
            if adjust is not None:
                try:
                    g, w = adjust(g), adjust(w)
                except NoModel as e:
                    return Verdict("undecided", str(e))
            done += 1
            if isinstance(g, Raised) or isinstance(w, Raised):
                if g != w:
                    return Verdict("differ", (g, w, M), done)
                continue
            try:
                equal = same(g, w, tol)
            except NoModel as e:
                return Verdict("undecided", str(e))
            if not equal:
                new = free_calls(g) - free_calls(w)
                if new:
                    return Verdict("undecided", "unmodelled operation %s" % min(new))
                return Verdict("differ", (g, w, M), done)
    if done < need:
        return Verdict("undecided", undef or "no model", done)
    return Verdict("equal", None, done)


DRAW = [None]       # rule's own draws: (model, key, number) -> values
COARSE = [False]


def single(a):
    """Single precision; if COARSE made wider than the tolerance of compare."""
    if not COARSE[0]:
        return np.asarray(a).astype(np.float32).astype(float)
    m, e = np.frexp(np.asarray(a, float))
    return np.ldexp(np.round(m * 2.0 ** 14) / 2.0 ** 14, e)


def free_calls(v, out=None):
    """Names of unmodelled operations a value depends on."""
    out = set() if out is None else out
    if isinstance(v, Opq):
        v = v.key
    if isinstance(v, (Rec, Inst, dict)):
        v = v.vals if isinstance(v, Rec) else list((v.fields if isinstance(
            v, Inst) else v).values())
    if isinstance(v, NpScalar):
        v = v.v
    if isinstance(v, np.ndarray) and v.dtype == object:
        v = v.ravel().tolist()
    if isinstance(v, (list, tuple, set, frozenset)):
        if len(v) > 1 and isinstance(v, tuple) and isinstance(v[0], str) and v[0] == "call" and isinstance(v[1], str):
            out.add(v[1])
        for x in v:
            if isinstance(x, (list, tuple, set, frozenset, dict, Opq, Rec, Inst, np.ndarray,
                              NpScalar)):
                free_calls(x, out)
    return out


def plain(v):
    """Wrapped data structures as their contents."""
    if isinstance(v, Inst):
        f = v.fields
        if v.cls == "MaskGroup":
            d = f.get("_mask_arrays")
            return plain(d)
        if v.cls in ("ParticleSet", "Graphicle"):
            return {k.lstrip("_"): plain(x) for k, x in f.items()
                    if k.lstrip("_") in ("pdg", "pmu", "color", "helicity", "status", "final",
                                         "particles", "adj")}
        if v.cls == "AdjacencyList" and "_data" in f:
            return plain(f["_data"])
        if "_data" in f:
            return plain(f["_data"])
        return v
    if isinstance(v, Rec):
        return Rec(v.names, [plain(x) for x in v.vals])
    if isinstance(v, dict):
        return {k: plain(x) for k, x in v.items()}
    if isinstance(v, tuple):
        return tuple(plain(x) for x in v)
    if isinstance(v, list):
        return [plain(x) for x in v]
    return v
