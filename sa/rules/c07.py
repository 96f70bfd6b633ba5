"""C07: dependence analysis of numba prange loops.

Every access to an array which is shared between the iterations of a prange
loop gets an affine subscript in the loop indices; for every pair (write,
write) and (write, read) on the same array the system "same element, different
iteration" has to be infeasible (Fourier-Motzkin elimination over the loop
bounds and affine guards).  Scalars assigned in the body have to be private:
written before they are read in the same iteration and not read afterwards.
"""
import ast
from fractions import Fraction as Fr

from ..loader import AnalysisBroken, qualname
from . import Result
from .astutil import Names, jit_kind, dotted

FRESH = {"empty", "zeros", "ones", "full", "empty_like", "zeros_like",
         "ones_like", "array", "copy", "flatnonzero", "where", "arange", "abs",
         "sqrt", "exp", "angle", "hypot", "nonzero", "argsort", "sort", "sum",
         "var", "mean", "cos", "sin", "linspace", "dot", "cumsum", "square",
         "unique", "concatenate", "repeat", "full_like", "outer", "minimum",
         "maximum", "conj", "isnan", "searchsorted"}
VIEWS = {"asarray", "ravel", "reshape", "transpose", "real", "imag", "view",
         "ascontiguousarray", "atleast_1d", "expand_dims", "diag", "diagonal"}
PURE_BUILTINS = {"range", "len", "enumerate", "zip", "abs", "min", "max", "float",
                 "int", "complex", "round", "bool", "sum", "pow", "divmod"}
MUTATORS = {"fill", "sort", "put", "partition", "itemset", "resize", "append",
            "extend", "insert", "pop", "add", "update", "clear", "remove",
            "setdefault"}


class Aff:
    """Affine form: coefficients over symbols plus constant."""
    __slots__ = ("c", "k")

    def __init__(self, c=None, k=0):
        self.c = {s: Fr(v) for s, v in (c or {}).items() if v}
        self.k = Fr(k)

    def add(self, o, f=1):
        c = dict(self.c)
        for s, v in o.c.items():
            c[s] = c.get(s, 0) + f * v
        return Aff(c, self.k + f * o.k)

    def scale(self, f):
        return Aff({s: v * f for s, v in self.c.items()}, self.k * f)

    def rename(self, ren):
        return Aff({ren.get(s, s): v for s, v in self.c.items()}, self.k)

    def __repr__(self):
        t = ["%s%s" % ("" if v == 1 else "%s*" % v, s) for s, v in sorted(self.c.items())]
        if self.k or not t:
            t.append(str(self.k))
        return " + ".join(t)


DATA = "data"      # data dependent subscript
HARD = "hard"      # not understood


def infeasible(ineqs, eqs):
    """True when the rational system (ineqs >= 0, eqs == 0) has no solution
    taking integrality of strict bounds into account (they are given with
    the +1 already)."""
    sys_ = [(dict(a.c), a.k) for a in ineqs]
    for e in eqs:
        sys_.append((dict(e.c), e.k))
        sys_.append(({s: -v for s, v in e.c.items()}, -e.k))
    vars_ = sorted({s for c, _ in sys_ for s in c})
    for v in vars_:
        pos = [x for x in sys_ if x[0].get(v, 0) > 0]
        neg = [x for x in sys_ if x[0].get(v, 0) < 0]
        rest = [x for x in sys_ if not x[0].get(v, 0)]
        for pc, pk in pos:
            for nc, nk in neg:
                a, b = pc[v], -nc[v]
                c = {}
                for s, w in pc.items():
                    c[s] = c.get(s, 0) + w * b
                for s, w in nc.items():
                    c[s] = c.get(s, 0) + w * a
                c = {s: w for s, w in c.items() if w}
                c.pop(v, None)
                rest.append((c, pk * b + nk * a))
        seen, new = set(), []
        for c, k in rest:
            if not c:
                if k < 0:
                    return True
                continue
            key = (tuple(sorted(c.items())), k)
            if key not in seen:
                seen.add(key)
                new.append((c, k))
        sys_ = new
        if len(sys_) > 4000:
            return False
    return any(not c and k < 0 for c, k in sys_)


class Access:
    def __init__(self, arr, idx, write, node, dom, func, guardsets):
        self.arr, self.idx, self.write = arr, idx, write
        self.node, self.dom, self.func = node, list(dom), func
        self.locals = guardsets


class Arrv:
    """A view on a shared array: base name and index prefix."""

    def __init__(self, base, prefix=()):
        self.base, self.prefix = base, tuple(prefix)


def compose(prefix, idx):
    """Index of an element of a view: idx applied to base[prefix]."""
    out, k = [], 0
    idx = list(idx)
    for x in prefix:
        if x[0] == "slice" and k < len(idx):
            y = idx[k]
            k += 1
            lo = x[1]
            plain = x[3] is None and (lo is None or isinstance(lo, Aff) and (
                lo.c or lo.k >= 0))
            if y[0] == "pt" and plain:
                out.append(("pt", y[1] if lo is None else y[1].add(lo)))
            elif y[0] == "slice" and lo is None and x[2] is None and x[3] is None:
                out.append(y)
            elif y[0] == "slice" and y[1] is None and y[2] is None and y[3] is None:
                out.append(x)
            elif y[0] in (DATA, "arr"):
                out.append(y)
            else:
                out.append((HARD,))
        else:
            out.append(x)
    return tuple(out) + tuple(idx[k:])


class Private:
    pass


PRIV = Private()


class Opaque:
    """A scalar: data dependent (loaded) or unknown."""

    def __init__(self, why):
        self.why = why


class Loop:
    """Collects accesses of one prange loop body."""

    def __init__(self, an, m, fn, node, env, ivar):
        self.an, self.m, self.fn, self.node = an, m, fn, node
        self.acc, self.hard = [], []
        self.ivar = ivar
        self.ninner = 0
        self.dom = []
        self.inner = set()
        self.assigned_in = set()
        self.depth = 0

    # ------------------------------------------------------- expressions
    def aff(self, e, env):
        """Affine form, DATA or HARD."""
        v = self.val(e, env, quiet=True)
        if isinstance(v, Aff):
            return v
        if isinstance(v, Opaque):
            return v.why
        return HARD

    def val(self, e, env, quiet=False):
        if isinstance(e, ast.Constant):
            if isinstance(e.value, int) and not isinstance(e.value, bool):
                return Aff(k=e.value)
            return Opaque(HARD)
        if isinstance(e, ast.Name):
            if e.id in env:
                return env[e.id]
            return Opaque(HARD)
        if isinstance(e, ast.UnaryOp):
            v = self.val(e.operand, env, quiet)
            if isinstance(e.op, ast.USub) and isinstance(v, Aff):
                return v.scale(-1)
            return v if isinstance(e.op, ast.UAdd) else (
                v if isinstance(v, Opaque) else Opaque(HARD))
        if isinstance(e, ast.BinOp):
            a, b = self.val(e.left, env, quiet), self.val(e.right, env, quiet)
            if isinstance(a, Aff) and isinstance(b, Aff):
                if isinstance(e.op, ast.Add):
                    return a.add(b)
                if isinstance(e.op, ast.Sub):
                    return a.add(b, -1)
                if isinstance(e.op, ast.Mult):
                    if not a.c:
                        return b.scale(a.k)
                    if not b.c:
                        return a.scale(b.k)
                    # product of two loop invariants is one symbol
                    if not self.varies(a) and not self.varies(b):
                        return Aff({"(%s)*(%s)" % tuple(sorted((repr(a), repr(b)))): 1})
                    return Opaque(HARD)
                if not self.varies(a) and not self.varies(b):
                    return Aff({"(%r %s %r)" % (a, type(e.op).__name__, b): 1})
                return Opaque(HARD)
            if any(isinstance(x, (Private, Arrv)) for x in (a, b)):
                return PRIV
            if any(isinstance(x, Opaque) and x.why == DATA for x in (a, b)):
                return Opaque(DATA)
            return Opaque(HARD)
        if isinstance(e, ast.Subscript):
            b = self.val(e.value, env, quiet)
            if isinstance(b, Arrv):
                idx = self.index(e.slice, env)
                full = compose(b.prefix, idx)
                if not quiet:
                    self.access(b.base, full, False, e)
                rk = self.an.rank.get(b.base)
                if any(x[0] == "slice" for x in full) or (rk and len(
                        full) < rk) or rk is None and not all(
                        x[0] == "pt" for x in full):
                    if any(x[0] in ("arr",) for x in full):
                        return PRIV
                    return Arrv(b.base, full)
                return Opaque(DATA)
            if isinstance(b, Private):
                return Opaque(DATA)
            if isinstance(b, tuple):
                if isinstance(e.slice, ast.Constant) and isinstance(
                        e.slice.value, int) and -len(b) <= e.slice.value < len(b):
                    return b[e.slice.value]
            return Opaque(HARD)
        if isinstance(e, ast.Attribute):
            b = self.val(e.value, env, quiet)
            if e.attr == "shape":
                if isinstance(b, Arrv):
                    return ("shape", b)
                return Opaque(HARD)
            if e.attr in ("T", "real", "imag"):
                if e.attr == "T" and isinstance(b, Arrv):
                    return Opaque(HARD)
                return b
            if e.attr == "size" and isinstance(b, Arrv):
                return Aff({"size(%s)" % b.base: 1})
            return Opaque(HARD)
        if isinstance(e, ast.Tuple):
            return tuple(self.val(x, env, quiet) for x in e.elts)
        if isinstance(e, ast.Call):
            return self.call(e, env, quiet)
        if isinstance(e, ast.IfExp):
            self.val(e.test, env, quiet)
            a, b = self.val(e.body, env, quiet), self.val(e.orelse, env, quiet)
            if isinstance(a, Opaque) and isinstance(b, Opaque):
                return Opaque(DATA if DATA in (a.why, b.why) else HARD)
            if isinstance(a, Private) and isinstance(b, Private):
                return PRIV
            return Opaque(HARD)
        if isinstance(e, (ast.Compare, ast.BoolOp)):
            for c in ast.iter_child_nodes(e):
                if isinstance(c, ast.expr):
                    self.val(c, env, quiet)
            return Opaque(DATA)
        if isinstance(e, (ast.List, ast.ListComp, ast.Dict, ast.Set)):
            for c in ast.walk(e):
                if isinstance(c, ast.Subscript):
                    self.val(c, env, quiet)
            return PRIV
        return Opaque(HARD)

    def varies(self, a):
        return any(s == self.ivar or s in self.inner for s in a.c)

    def index(self, s, env):
        parts = s.elts if isinstance(s, ast.Tuple) else [s]
        out = []
        for x in parts:
            if isinstance(x, ast.Slice):
                lo = self.aff(x.lower, env) if x.lower is not None else None
                hi = self.aff(x.upper, env) if x.upper is not None else None
                out.append(("slice", lo, hi, x.step))
            elif isinstance(x, ast.Constant) and x.value is Ellipsis:
                out.append(("ellipsis",))
            else:
                v = self.val(x, env, True)
                if isinstance(v, (Private, Arrv)):
                    out.append(("arr",))
                elif isinstance(v, Aff):
                    out.append(("pt", v))
                elif isinstance(v, Opaque):
                    out.append((v.why,))
                else:
                    out.append((HARD,))
        return tuple(out)

    def access(self, base, idx, write, node):
        self.acc.append(Access(base, idx, write, node, self.dom,
                               self.fn.name, None))

    def call(self, e, env, quiet):
        full = self.an.names.full(self.m, e.func) or ""
        tail = full.split(".")[-1]
        args = [self.val(a.value if isinstance(a, ast.Starred) else a, env, quiet)
                for a in e.args]
        kws = {k.arg: self.val(k.value, env, quiet) for k in e.keywords}
        got = self.an.names.func(self.m, e.func)
        if isinstance(e.func, ast.Attribute) and got is None and not full.startswith(
                ("numpy", "math", "cmath", "numba")):
            b = self.val(e.func.value, env, quiet)
            if isinstance(b, Arrv):
                if e.func.attr in MUTATORS:
                    if not quiet:
                        self.access(b.base, b.prefix, True, e)
                    return Opaque(HARD)
                if e.func.attr == "copy":
                    if not quiet:
                        self.access(b.base, b.prefix, False, e)
                    return PRIV
                if e.func.attr in VIEWS:
                    return Opaque(HARD)
                if not quiet:
                    self.access(b.base, b.prefix, False, e)
                return Opaque(DATA)
            if isinstance(b, Private):
                return PRIV if e.func.attr in ("copy", "astype", "reshape") else Opaque(DATA)
            return Opaque(DATA)
        if got is not None and not quiet:
            m2, f2 = got
            return self.inline(m2, f2, args, kws, e)
        if not quiet:
            for a in list(args) + list(kws.values()):
                if isinstance(a, Arrv):
                    self.access(a.base, a.prefix, False, e)
            out = kws.get("out")
            if isinstance(out, Arrv):
                self.access(out.base, out.prefix, True, e)
            if tail in ("fill_diagonal", "copyto", "put", "place", "putmask") and args \
                    and isinstance(args[0], Arrv):
                self.access(args[0].base, args[0].prefix, True, e)
            if tail == "at" and args and isinstance(args[0], Arrv):
                self.access(args[0].base, args[0].prefix, True, e)
        if tail == "len" and args and isinstance(args[0], Arrv):
            k = sum(1 for x in args[0].prefix if x[0] == "pt")
            return Aff({"dim(%s,%d)" % (args[0].base, k): 1})
        if tail == "int" and args:
            return args[0] if isinstance(args[0], (Aff, Opaque)) else Opaque(HARD)
        if tail in ("min", "max") and any(isinstance(a, Aff) for a in args):
            return Opaque(HARD)
        if full.startswith("numpy") and tail in VIEWS:
            return args[0] if args and isinstance(args[0], Private) else Opaque(HARD)
        if full.startswith("numpy"):
            if tail in FRESH and any(isinstance(a, (Private, Arrv, tuple)) for a in args):
                return PRIV
            if tail in ("empty", "zeros", "ones", "full", "arange"):
                return PRIV
            return Opaque(DATA)
        return Opaque(DATA)

    def inline(self, m2, f2, args, kws, e):
        """A package function called inside the loop."""
        kind = jit_kind(self.an.names, m2, f2)
        if kind == "vectorize":
            for a in args:
                if isinstance(a, Arrv):
                    self.access(a.base, a.prefix, False, e)
            return PRIV if any(isinstance(a, (Arrv, Private)) for a in args) else Opaque(DATA)
        self.depth += 1
        if self.depth > 6:
            self.hard.append("recursion through %s" % f2.name)
            self.depth -= 1
            return Opaque(HARD)
        env = {}
        pars = [p.arg for p in f2.args.args]
        for p, v in zip(pars, args):
            env[p] = v
        env.update({k: v for k, v in kws.items() if k})
        for p in pars:
            env.setdefault(p, Opaque(HARD))
        keep = self.m, self.fn
        self.m, self.fn = m2, f2
        self.ret = []
        saved_ret = getattr(self, "rets", None)
        self.rets = []
        self.block(f2.body, env, top=False)
        rets, self.rets = self.rets, saved_ret
        self.m, self.fn = keep
        self.depth -= 1
        if len(rets) == 1:
            return rets[0]
        if rets and all(isinstance(r, Private) for r in rets):
            return PRIV
        return Opaque(DATA)

    # --------------------------------------------------------- statements
    def block(self, body, env, top=True):
        for s in body:
            self.stmt(s, env)

    def setname(self, name, v, env):
        env[name] = v

    def target(self, t, v, env, node, aug=False):
        if isinstance(t, ast.Name):
            self.setname(t.id, v, env)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = v if isinstance(v, tuple) and len(v) == len(t.elts) else None
            if isinstance(v, tuple) and v and v[0] == "shape":
                b = v[1]
                vs = [Aff({"dim(%s,%d)" % (b.base, len(b.prefix) + k): 1})
                      for k in range(len(t.elts))]
            for k, x in enumerate(t.elts):
                self.target(x, vs[k] if vs else Opaque(DATA), env, node)
        elif isinstance(t, ast.Subscript):
            b = self.val(t.value, env)
            if isinstance(b, Arrv):
                idx = compose(b.prefix, self.index(t.slice, env))
                self.access(b.base, idx, True, node)
                if aug:
                    self.access(b.base, idx, False, node)
            elif isinstance(b, Private):
                pass
            else:
                self.hard.append("line %d: store to an array which is not resolved"
                                 % node.lineno)
        elif isinstance(t, ast.Attribute):
            self.hard.append("line %d: attribute store" % node.lineno)

    def stmt(self, s, env):
        if isinstance(s, ast.Assign):
            v = self.val(s.value, env)
            for t in s.targets:
                self.target(t, v, env, s)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.target(s.target, self.val(s.value, env), env, s)
        elif isinstance(s, ast.AugAssign):
            v = self.val(s.value, env)
            if isinstance(s.target, ast.Name):
                old = env.get(s.target.id)
                if isinstance(old, Arrv):
                    self.access(old.base, old.prefix, True, s)
                    self.access(old.base, old.prefix, False, s)
                elif isinstance(old, Private):
                    pass
                else:
                    env[s.target.id] = self.val(ast.copy_location(ast.BinOp(
                        s.target, s.op, s.value), s), env, True) if isinstance(
                            old, Aff) and isinstance(v, Aff) else Opaque(DATA)
            else:
                self.target(s.target, v, env, s, aug=True)
        elif isinstance(s, ast.Expr):
            self.val(s.value, env)
        elif isinstance(s, ast.If):
            self.val(s.test, env)
            g, ng = self.guard(s.test, env)
            n0 = len(self.dom)
            e1, e2 = dict(env), dict(env)
            self.dom.extend(g)
            self.block(s.body, e1)
            t1 = self.ends(s.body)
            del self.dom[n0:]
            self.dom.extend(ng)
            self.block(s.orelse, e2)
            t2 = self.ends(s.orelse)
            del self.dom[n0:]
            if t1 and not t2:
                self.dom.extend(ng)     # only the other branch continues
                env.clear()
                env.update(e2)
            elif t2 and not t1:
                self.dom.extend(g)
                env.clear()
                env.update(e1)
            else:
                for k in set(e1) | set(e2):
                    a, b = e1.get(k), e2.get(k)
                    if a is b or (isinstance(a, Aff) and isinstance(b, Aff) and
                                  repr(a) == repr(b)):
                        env[k] = a
                    elif a is None or b is None:
                        env[k] = a or b
                    elif isinstance(a, Private) and isinstance(b, Private):
                        env[k] = PRIV
                    elif isinstance(a, Arrv) or isinstance(b, Arrv):
                        env[k] = Opaque(HARD)
                    else:
                        env[k] = Opaque(DATA if DATA in (
                            getattr(a, "why", ""), getattr(b, "why", "")) else HARD)
        elif isinstance(s, ast.For):
            self.for_(s, env)
        elif isinstance(s, ast.While):
            self.val(s.test, env)
            self.havoc(s, env)
            self.block(s.body, env)
            self.block(s.body, env)
            self.block(s.orelse, env)
        elif isinstance(s, ast.Return):
            v = self.val(s.value, env) if s.value is not None else Opaque(HARD)
            if self.depth and self.rets is not None:
                self.rets.append(v)
        elif isinstance(s, (ast.Pass, ast.Continue, ast.Break, ast.Assert, ast.Raise)):
            pass
        elif isinstance(s, ast.With):
            self.block(s.body, env)
        else:
            self.hard.append("line %d: %s" % (s.lineno, type(s).__name__))

    def ends(self, body):
        return bool(body) and isinstance(body[-1], (ast.Continue, ast.Break,
                                                    ast.Return, ast.Raise))

    def guard(self, t, env):
        """Affine constraints (>= 0) of a test and of its negation."""
        if isinstance(t, ast.BoolOp) and isinstance(t.op, ast.And):
            g = []
            for v in t.values:
                g.extend(self.guard(v, env)[0])
            return g, []
        if isinstance(t, ast.BoolOp):
            n = []
            for v in t.values:
                n.extend(self.guard(v, env)[1])
            return [], n
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            a, b = self.guard(t.operand, env)
            return b, a
        if isinstance(t, ast.Compare) and len(t.ops) == 1:
            a, b = self.aff(t.left, env), self.aff(t.comparators[0], env)
            if isinstance(a, Aff) and isinstance(b, Aff):
                one = Aff(k=1)
                op = t.ops[0]
                if isinstance(op, ast.Lt):
                    return [b.add(a, -1).add(one, -1)], [a.add(b, -1)]
                if isinstance(op, ast.LtE):
                    return [b.add(a, -1)], [a.add(b, -1).add(one, -1)]
                if isinstance(op, ast.Gt):
                    return [a.add(b, -1).add(one, -1)], [b.add(a, -1)]
                if isinstance(op, ast.GtE):
                    return [a.add(b, -1)], [b.add(a, -1).add(one, -1)]
                if isinstance(op, ast.Eq):
                    return [a.add(b, -1), b.add(a, -1)], []
                if isinstance(op, ast.NotEq):
                    return [], [a.add(b, -1), b.add(a, -1)]
        return [], []

    def havoc(self, s, env):
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id in env:
                if isinstance(env[n.id], (Aff, Opaque)):
                    env[n.id] = Opaque(HARD)

    def for_(self, s, env):
        n0 = len(self.dom)
        self.havoc_body(s, env)
        self.bind_iter(s.target, s.iter, env, s)
        self.block(s.body, env)
        del self.dom[n0:]
        self.block(s.orelse, env)

    def havoc_body(self, s, env):
        """Scalars carried around the inner loop are not affine."""
        for b in s.body:
            for n in ast.walk(b):
                if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                    if isinstance(env.get(n.target.id), Aff):
                        env[n.target.id] = Opaque(HARD)

    def fresh(self, name):
        self.ninner += 1
        v = "%s.%d" % (name, self.ninner)
        self.inner.add(v)
        return v

    def bind_iter(self, target, it, env, node):
        if isinstance(it, ast.Call):
            full = self.an.names.full(self.m, it.func) or ""
            tail = full.split(".")[-1]
            if tail in ("range", "prange", "arange") and isinstance(target, ast.Name):
                b = [self.aff(a, env) for a in it.args]
                v = self.fresh(target.id)
                a = Aff({v: 1})
                env[target.id] = a
                if len(b) == 1:
                    b = [Aff(), b[0]]
                step = b[2] if len(b) > 2 else Aff(k=1)
                if isinstance(step, Aff) and not step.c and step.k < 0:
                    if isinstance(b[0], Aff):
                        self.dom.append(b[0].add(a, -1))
                    if isinstance(b[1], Aff):
                        self.dom.append(a.add(b[1], -1).add(Aff(k=1), -1))
                else:
                    if isinstance(b[0], Aff) and isinstance(step, Aff) and not step.c:
                        self.dom.append(a.add(b[0], -1))
                    if isinstance(b[1], Aff):
                        self.dom.append(b[1].add(a, -1).add(Aff(k=1), -1))
                return
            if tail == "enumerate" and isinstance(target, ast.Tuple) and len(
                    target.elts) == 2 and isinstance(target.elts[0], ast.Name):
                v = self.fresh(target.elts[0].id)
                off = self.aff(it.args[1], env) if len(it.args) > 1 else Aff()
                a = Aff({v: 1})
                env[target.elts[0].id] = a.add(off) if isinstance(off, Aff) else Opaque(HARD)
                self.dom.append(a)
                self.bind_elem(target.elts[1], it.args[0], Aff({v: 1}), env)
                return
            if tail == "zip" and isinstance(target, ast.Tuple):
                v = self.fresh("zip")
                self.dom.append(Aff({v: 1}))
                for t, x in zip(target.elts, it.args):
                    self.bind_elem(t, x, Aff({v: 1}), env)
                return
        v = self.fresh("it")
        self.dom.append(Aff({v: 1}))
        self.bind_elem(target, it, Aff({v: 1}), env)

    def bind_elem(self, t, it, pos, env):
        if isinstance(it, ast.Call):
            full = self.an.names.full(self.m, it.func) or ""
            if full.split(".")[-1] == "zip" and isinstance(t, ast.Tuple):
                for a, b in zip(t.elts, it.args):
                    self.bind_elem(a, b, pos, env)
                return
            if full.split(".")[-1] in ("range", "arange") and isinstance(t, ast.Name):
                b = [self.aff(a, env) for a in it.args]
                if len(b) == 1 and isinstance(b[0], Aff):
                    env[t.id] = pos
                    self.dom.append(b[0].add(pos, -1).add(Aff(k=1), -1))
                    return
                if len(b) == 2 and isinstance(b[0], Aff):
                    env[t.id] = pos.add(b[0])
                    if isinstance(b[1], Aff):
                        self.dom.append(b[1].add(env[t.id], -1).add(Aff(k=1), -1))
                    return
        b = self.val(it, env, True)
        if isinstance(b, Arrv):
            pre, done, sl = [], False, False
            for x in b.prefix:
                if x[0] == "slice" and not done:
                    lo = x[1]
                    if x[3] is None and (lo is None or isinstance(lo, Aff)) and not (
                            isinstance(lo, Aff) and not lo.c and lo.k < 0):
                        pre.append(("pt", pos if lo is None else pos.add(lo)))
                        if isinstance(x[2], Aff):
                            self.dom.append(x[2].add(pre[-1][1], -1).add(Aff(k=1), -1))
                    else:
                        pre.append((HARD,))
                    done = True
                else:
                    pre.append(x)
            if not done:
                pre.append(("pt", pos))
            self.access(b.base, tuple(pre), False, it)
            rk = self.an.rank.get(b.base)
            v = Arrv(b.base, pre) if rk and len(pre) < rk or any(
                x[0] == "slice" for x in pre) else Opaque(DATA)
        elif isinstance(b, Private):
            v = Opaque(DATA)
        else:
            v = Opaque(HARD)
            self.val(it, env)
        self.target(t, v if not isinstance(t, ast.Tuple) else Opaque(DATA), env, it)


class Analysis:
    def __init__(self, pkg, res):
        self.pkg, self.res = pkg, res
        self.names = Names(pkg)
        self.rank = {}

    def sig_ranks(self, m, fn):
        """Array ranks of the parameters from the numba signature."""
        pars = [a.arg for a in fn.args.args]
        for d in fn.decorator_list:
            if isinstance(d, ast.Call):
                for a in d.args:
                    if isinstance(a, ast.Constant) and isinstance(a.value, str) \
                            and "(" in a.value:
                        inner = a.value[a.value.index("(") + 1:]
                        depth, parts, cur = 0, [], ""
                        for ch in inner:
                            if ch in "[(":
                                depth += 1
                            elif ch in "])":
                                depth -= 1
                                if depth < 0:
                                    break
                            if ch == "," and depth == 0:
                                parts.append(cur)
                                cur = ""
                            else:
                                cur += ch
                        parts.append(cur)
                        for p, t in zip(pars, parts):
                            if "[" in t:
                                self.rank[p] = t[t.index("["):].count(":")

    def shape_rank(self, e):
        """Rank of a freshly allocated array expression."""
        if isinstance(e, ast.Call):
            f = self.names.full(self.m, e.func) or ""
            t = f.split(".")[-1]
            if f.startswith("numpy") and t in ("empty", "zeros", "ones", "full") and e.args:
                return len(e.args[0].elts) if isinstance(e.args[0], (ast.Tuple, ast.List)) else 1
            if f.startswith("numpy") and t.endswith("_like") and e.args and \
                    isinstance(e.args[0], ast.Name):
                return self.rank.get(e.args[0].id)
            g = self.names.func(self.m, e.func)
            if g:
                for d in g[1].decorator_list:
                    if isinstance(d, ast.Call):
                        for a in d.args:
                            if isinstance(a, ast.Constant) and isinstance(a.value, str):
                                head = a.value.split("(")[0]
                                if "[" in head:
                                    return head.count(":")
            if t in ("abs", "sqrt", "cos", "sin", "exp", "angle", "real", "imag") and e.args:
                return self.shape_rank(e.args[0])
        if isinstance(e, ast.Name):
            return self.rank.get(e.id)
        return None

    def kernel(self, m, fn):
        self.m, self.fn = m, fn
        self.rank = {}
        self.sig_ranks(m, fn)
        n = 0
        # environment before the loops: parameters and outer locals shared
        self.outer(m, fn, fn.body)
        for loop in ast.walk(fn):
            if isinstance(loop, ast.For) and isinstance(loop.iter, ast.Call):
                f = self.names.full(m, loop.iter.func) or ""
                if f.split(".")[-1] == "prange":
                    par = loop._parent
                    nested = False
                    while par is not fn:
                        if isinstance(par, ast.For) and isinstance(par.iter, ast.Call) and (
                                self.names.full(m, par.iter.func) or "").endswith("prange"):
                            nested = True
                        par = par._parent
                    if nested:
                        continue      # executed serially inside the outer one
                    n += 1
                    self.loop(m, fn, loop)
        return n

    def outer(self, m, fn, body):
        """Flow-insensitive facts about the variables outside the loops."""
        self.assigns = {}
        for s in ast.walk(fn):
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(
                    s.targets[0], ast.Name):
                r = self.shape_rank(s.value)
                if r is not None:
                    self.rank[s.targets[0].id] = r

    def env_at(self, m, fn, loop, lp):
        env = {}
        for a in fn.args.args:
            if self.rank.get(a.arg) is not None:
                env[a.arg] = Arrv(a.arg)
            else:
                env[a.arg] = Aff({a.arg: 1})
        counts = {}
        inloop = {id(x) for x in ast.walk(loop)}
        for s in ast.walk(fn):
            if isinstance(s, ast.Name) and isinstance(s.ctx, ast.Store) and id(s) not in inloop:
                counts[s.id] = counts.get(s.id, 0) + 1
        for s in ast.walk(fn):
            if id(s) in inloop or not isinstance(s, ast.Assign):
                continue
            for t in s.targets:
                if isinstance(t, ast.Name):
                    self.outer_bind(t.id, s.value, env, lp, counts)
                elif isinstance(t, ast.Tuple):
                    v = lp.val(s.value, env, True)
                    if isinstance(v, tuple) and v and v[0] == "shape":
                        for k, x in enumerate(t.elts):
                            if isinstance(x, ast.Name):
                                env[x.id] = Aff({"dim(%s,%d)" % (v[1].base, k): 1})
                    elif isinstance(v, tuple) and len(v) == len(t.elts) and all(
                            isinstance(x, ast.Name) for x in t.elts):
                        for x, y in zip(t.elts, v):
                            env[x.id] = y if isinstance(y, Aff) and counts[x.id] == 1 \
                                else Aff({x.id: 1})
                    else:
                        for x in t.elts:
                            if isinstance(x, ast.Name):
                                env[x.id] = Arrv(x.id) if self.rank.get(x.id) else Aff({x.id: 1})
        return env

    def outer_bind(self, name, value, env, lp, counts):
        v = lp.val(value, env, True)
        if isinstance(v, Arrv) and isinstance(value, (ast.Name, ast.Subscript)) \
                and counts.get(name) == 1:
            env[name] = v
            return
        if isinstance(v, Aff) and counts.get(name) == 1:
            env[name] = v
            return
        if isinstance(v, (Private, Arrv)) or self.rank.get(name):
            env[name] = Arrv(name)       # array allocated outside the loop
            return
        if isinstance(value, ast.Subscript):
            # e.g. n = x.shape[0]
            b = lp.val(value.value, env, True)
            if isinstance(b, tuple) and b and b[0] == "shape" and isinstance(
                    value.slice, ast.Constant):
                env[name] = Aff({"dim(%s,%d)" % (b[1].base, value.slice.value): 1})
                return
        if isinstance(value, (ast.List, ast.Dict, ast.Set, ast.ListComp)):
            env[name] = Arrv(name)
            return
        env[name] = Aff({name: 1}) if counts.get(name) == 1 else Aff({name: 1})

    def loop(self, m, fn, loop):
        res = self.res
        q = qualname(fn)
        if not isinstance(loop.target, ast.Name):
            res.unknown("%s: prange target" % q)
            return
        iv = loop.target.id
        lp = Loop(self, m, fn, loop, {}, iv + ".par")
        env = self.env_at(m, fn, loop, lp)
        outer_names = set(env)
        i = Aff({lp.ivar: 1})
        env[iv] = i
        b = [lp.aff(a, env) for a in loop.iter.args]
        if len(b) == 1:
            b = [Aff(), b[0]]
        if isinstance(b[0], Aff):
            lp.dom.append(i.add(b[0], -1))
        if isinstance(b[1], Aff):
            lp.dom.append(b[1].add(i, -1).add(Aff(k=1), -1))
        lp.rets = None
        lp.block(loop.body, env)
        # -------- scalars
        for name, node, why in self.scalars(fn, loop, iv):
            if why == "carried" and isinstance(env.get(name), Arrv):
                continue
            res.bad("no scalar is shared between parallel iterations", m.rel,
                    node.lineno, q, "scalar %r is %s in the prange loop over %r" % (
                        name, "read before it is written in an iteration" if
                        why == "carried" else "written in the loop and read after it", iv))
        res.ok("%s: scalars assigned in the prange loop over %s are private" % (q, iv))
        for h in lp.hard:
            res.unknown("%s: %s" % (q, h))
        # -------- arrays
        res.count("prange loops")
        res.count("array accesses", len(lp.acc))
        byarr = {}
        for a in lp.acc:
            byarr.setdefault(a.arr, []).append(a)
        for arr, accs in sorted(byarr.items()):
            ws = [a for a in accs if a.write]
            for w in ws:
                for a in accs:
                    if a.write and accs.index(a) < accs.index(w):
                        continue
                    self.pair(m, q, arr, w, a, lp)
        if not any(a.write for a in lp.acc) and not lp.hard:
            res.unknown("%s: prange loop without array writes" % q)

    def pair(self, m, q, arr, w, a, lp):
        res = self.res
        res.count("access pairs")
        what = "%s: %s[%s] line %d vs %s line %d" % (
            q, arr, self.fmt(w.idx), w.node.lineno, "write" if a.write else "read",
            a.node.lineno)
        n = max(len(w.idx), len(a.idx), self.rank.get(arr) or 0)
        if any(x[0] == "ellipsis" for x in w.idx + a.idx):
            res.unknown(what)
            return
        wi = list(w.idx) + [("slice", None, None, None)] * (n - len(w.idx))
        ai = list(a.idx) + [("slice", None, None, None)] * (n - len(a.idx))
        verdict = None
        for order in (1, -1):
            ren = {s: s + "'" for s in lp.inner}
            ren[lp.ivar] = lp.ivar + "'"
            ineq = list(w.dom) + [d.rename(ren) for d in a.dom]
            i1, i2 = Aff({lp.ivar: 1}), Aff({lp.ivar + "'": 1})
            one = Aff(k=1)
            ineq.append(i2.add(i1, -1).add(one, -1) if order == 1 else
                        i1.add(i2, -1).add(one, -1))
            eqs, hard, data = [], False, False
            for x, y in zip(wi, ai):
                if x[0] == "pt" and y[0] == "pt":
                    eqs.append(x[1].add(y[1].rename(ren), -1))
                    continue
                for u, pt, r in ((x, y, None), (y, x, ren)):
                    if u[0] == "slice" and pt[0] == "pt" and u[3] is None:
                        p = pt[1] if r is not None else pt[1].rename(ren)
                        lo, hi = u[1], u[2]
                        if isinstance(lo, Aff) and (lo.c or lo.k >= 0):
                            l2 = lo.rename(ren) if r is not None else lo
                            ineq.append(p.add(l2, -1))
                        elif lo is not None:
                            hard = True
                        if isinstance(hi, Aff) and (hi.c or hi.k >= 0):
                            h2 = hi.rename(ren) if r is not None else hi
                            ineq.append(h2.add(p, -1).add(one, -1))
                        elif hi is not None:
                            hard = True
                        break
                else:
                    if x[0] == "slice" and y[0] == "slice" and x[3] is None and y[3] is None:
                        t = Aff({"el%d" % len(eqs): 1})
                        for u, r in ((x, None), (y, ren)):
                            for bnd, sg in ((u[1], 1), (u[2], -1)):
                                if isinstance(bnd, Aff) and (bnd.c or bnd.k >= 0):
                                    b2 = bnd.rename(r) if r else bnd
                                    ineq.append(t.add(b2, -1) if sg == 1 else
                                                b2.add(t, -1).add(one, -1))
                                elif bnd is not None:
                                    hard = True
                    elif HARD in (x[0], y[0]) or "slice" in (x[0], y[0]) and (
                            x[0] == "slice" and x[3] is not None or
                            y[0] == "slice" and y[3] is not None):
                        hard = True
                    elif DATA in (x[0], y[0]) or "arr" in (x[0], y[0]):
                        data = True
                    else:
                        hard = True
            # integer divisibility of single equations
            gcd_bad = any(self.no_int(e) for e in eqs)
            if gcd_bad or infeasible(ineq, eqs):
                continue
            if hard:
                verdict = verdict or "hard"
            else:
                verdict = "race"
                break
        if verdict is None:
            res.ok(what + ": distinct iterations never meet")
        elif verdict == "hard":
            res.unknown(what)
        else:
            res.bad("distinct parallel iterations access distinct elements",
                    m.rel, w.node.lineno, q,
                    "parallel iterations of the loop over %s can write %s[%s] "
                    "(line %d) and %s the same element at line %d" % (
                        lp.ivar[:-4], arr, self.fmt(w.idx), w.node.lineno,
                        "write" if a.write else "read", a.node.lineno))

    def no_int(self, e):
        from math import gcd
        if e.c and all(v.denominator == 1 for v in e.c.values()) and e.k.denominator == 1:
            g = 0
            for v in e.c.values():
                g = gcd(g, abs(int(v)))
            # only loop variables are known to be integers; symbols are sizes
            return g > 1 and int(e.k) % g != 0
        return False

    def fmt(self, idx):
        out = []
        for x in idx:
            if x[0] == "pt":
                out.append(repr(x[1]))
            elif x[0] == "slice":
                out.append("%s:%s" % ("" if x[1] is None else x[1], "" if x[2] is None else x[2]))
            else:
                out.append("<%s>" % x[0])
        return ", ".join(out)

    # ------------------------------------------------------------ scalars
    def scalars(self, fn, loop, iv):
        """(name, node, why) of non-private scalars of the loop."""
        stored = {}
        for b in loop.body:
            for n in ast.walk(b):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    stored.setdefault(n.id, n)
                elif isinstance(n, (ast.comprehension,)):
                    pass
        out = []
        for name, node in sorted(stored.items()):
            r = self.read_first(loop.body, name, {"w": False})
            if r is not None and self.bound_before(fn, loop, name):
                out.append((name, r, "carried"))
            else:
                aft = self.read_after(fn, loop, name)
                if aft is not None and self.written_at_top(loop.body, name):
                    out.append((name, aft, "after"))
        return out

    def bound_before(self, fn, loop, name):
        if name in [a.arg for a in fn.args.args]:
            return True
        inl = {id(x) for x in ast.walk(loop)}
        return any(isinstance(n, ast.Name) and n.id == name and isinstance(
            n.ctx, ast.Store) and id(n) not in inl and n.lineno <= loop.lineno
            for n in ast.walk(fn))

    def written_at_top(self, body, name):
        return True

    def read_after(self, fn, loop, name):
        """A read of name after the loop which the loop's write reaches."""
        chain = []
        n = loop
        while n is not fn:
            par = n._parent
            for f in ("body", "orelse", "finalbody"):
                lst = getattr(par, f, None)
                if isinstance(lst, list) and n in lst:
                    chain.append(lst[lst.index(n) + 1:])
            n = par
        for rest in chain:
            st = {"w": False}
            r = self.read_first(rest, name, st)
            if r is not None:
                return r
            if st["w"]:
                return None
        return None

    def read_first(self, body, name, st):
        """First node reading name before it is surely written, else None.
        st['w'] becomes True when it is written on every path."""
        for s in body:
            r = self.rf_stmt(s, name, st)
            if r is not None:
                return r
            if st["w"]:
                return None
            if isinstance(s, (ast.Continue, ast.Break, ast.Return, ast.Raise)):
                st["w"] = True       # nothing after is reached
                return None
        return None

    def reads(self, e, name):
        for n in ast.walk(e):
            if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Load):
                return n
        return None

    def stores(self, e, name):
        return any(isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Store)
                   for n in ast.walk(e))

    def rf_stmt(self, s, name, st):
        if isinstance(s, ast.If):
            r = self.reads(s.test, name)
            if r is not None:
                return r
            a, b = dict(st), dict(st)
            r = self.read_first(s.body, name, a) or self.read_first(s.orelse, name, b)
            if r is not None:
                return r
            st["w"] = a["w"] and b["w"]
            return None
        if isinstance(s, ast.For):
            r = self.reads(s.iter, name)
            if r is not None:
                return r
            a = dict(st)
            if self.stores(s.target, name):
                a["w"] = True
            r = self.read_first(s.body, name, a) if not a["w"] else None
            if r is None:
                b = dict(st)
                r = self.read_first(s.orelse, name, b)
            return r
        if isinstance(s, ast.While):
            r = self.reads(s.test, name)
            if r is None:
                r = self.read_first(s.body, name, dict(st))
            return r
        if isinstance(s, ast.AugAssign):
            if isinstance(s.target, ast.Name) and s.target.id == name:
                return s.target
            return self.reads(s, name)
        if isinstance(s, ast.Assign):
            r = self.reads(s.value, name)
            if r is None:
                for t in s.targets:
                    r = r or self.reads(t, name)
            if r is not None:
                return r
            if any(self.stores(t, name) for t in s.targets):
                st["w"] = True
            return None
        if isinstance(s, ast.With):
            return self.read_first(s.body, name, st)
        r = self.reads(s, name)
        if r is not None:
            return r
        if self.stores(s, name):
            st["w"] = True
        return None


def run(ctx):
    res = Result(__doc__)
    an = Analysis(ctx.pkg, res)
    nk = nl = 0
    for m, fn in ctx.pkg.functions():
        if jit_kind(an.names, m, fn) == "parallel":
            nk += 1
            nl += an.kernel(m, fn)
    res.count("parallel kernels", nk)
    if not nk:
        raise AnalysisBroken("no numba parallel kernel found")
    if not nl:
        raise AnalysisBroken("no prange loop found in the parallel kernels")
    return res
