"""C06: typestate of numba's process-wide thread count.

A path-sensitive dataflow analysis over the structured control flow of every
routine which reaches a parallel kernel.  The abstract state is the symbolic
value of numba's thread count (``('amb',)`` on entry).  Package callees,
context managers (generator based and class based), nested functions and
lambdas are inlined; every call may also leave exceptionally.  Obligations:

* at each parallel kernel call reached from a routine with a thread-count
  parameter, the state is exactly that parameter's value;
* on every normal and exceptional exit the state is the entry state again.
"""
import ast
import re

from ..loader import AnalysisBroken, qualname
from . import Result
from .astutil import Names, jit_kind, decorator_info, dotted

AMB = ("amb",)
UNK = ("?",)
NOTHING = ("none",)
THREADS = re.compile(r"thread|n_jobs|num_workers|n_workers")
CONSUME = {"list", "tuple", "sum", "any", "all", "dict", "set", "sorted",
           "max", "min", "frozenset", "fromiter", "array", "stack", "vstack",
           "concatenate", "reduce", "deque", "consume", "hstack", "next",
           "last", "first", "one", "extend", "asarray", "OrderedDict"}
LAZY = {"map", "filter", "starmap", "imap"}
PASSIVE = {"zip", "enumerate", "iter", "reversed", "chain", "islice",
           "from_iterable", "takewhile", "dropwhile"}
MAXPATHS = 600


class TooHard(Exception):
    pass


class Env:
    __slots__ = ("d", "conds")

    def __init__(self, d=None, conds=None):
        self.d = d or {}
        self.conds = conds or {}

    def copy(self):
        return Env(dict(self.d), dict(self.conds))

    def key(self):
        return (tuple(sorted((k, repr(v)) for k, v in self.d.items()
                             if v != UNK)),
                tuple(sorted(self.conds.items())))

    def set(self, name, v):
        self.d[name] = v
        for c in [c for c in self.conds if re.search(r"\b%s\b" % re.escape(name), c)]:
            del self.conds[c]


class Path:
    """kind: normal / return / raise / break / continue."""
    __slots__ = ("kind", "env", "st", "val", "heap")

    def __init__(self, kind, env, st, val=UNK, heap=None):
        self.kind, self.env, self.st, self.val = kind, env, st, val
        self.heap = heap or {}

    def key(self):
        return (self.kind, self.env.key(), self.st, repr(self.val),
                tuple(sorted((repr(k), repr(v)) for k, v in self.heap.items())))


def dedupe(paths):
    seen, out = set(), []
    for p in paths:
        k = p.key()
        if k not in seen:
            seen.add(k)
            out.append(p)
    if len(out) > MAXPATHS:
        raise TooHard("too many paths")
    return out


class Analyser:
    def __init__(self, pkg, res):
        self.pkg, self.res = pkg, res
        self.names = Names(pkg)
        self.kernels, self.rel = {}, set()
        self.nodes = {}
        self.nobj = 0
        self.props = set()
        for m, n in pkg.functions():
            if jit_kind(self.names, m, n) == "parallel":
                self.kernels[id(n)] = (m, n)
            for nm, _ in decorator_info(self.names, m, n):
                if nm and nm.split(".")[-1] in ("property", "cached_property"):
                    self.props.add(n.name)
        self.find_relevant()

    # -------------------------------------------------------- call graph
    def mentions(self, m, n):
        out = set()
        for x in ast.walk(n):
            if isinstance(x, ast.Name):
                out.add(x.id)
            elif isinstance(x, ast.Attribute):
                out.add(x.attr)
        return out

    def find_relevant(self):
        fns = [(m, n) for m, n in self.pkg.functions()
               if id(n) not in self.kernels and not jit_kind(self.names, m, n)]
        ment = {id(n): self.mentions(m, n) for m, n in fns}
        hot = {k[1].name for k in self.kernels.values()} | {
            "set_num_threads", "set_num_threads"}
        classes = {}
        for m in self.pkg.modules.values():
            for c in ast.walk(m.tree):
                if isinstance(c, ast.ClassDef):
                    classes[c.name] = c
        changed = True
        while changed:
            changed = False
            for m, n in fns:
                if id(n) not in self.rel and ment[id(n)] & hot:
                    self.rel.add(id(n))
                    self.nodes[id(n)] = (m, n)
                    new = n.name
                    par = getattr(n, "_parent", None)
                    if isinstance(par, ast.ClassDef) and n.name.startswith("__"):
                        if n.name in ("__enter__", "__exit__", "__init__",
                                      "__call__"):
                            new = par.name
                        else:
                            continue
                    if new not in hot:
                        hot.add(new)
                        changed = True
        self.hot = hot

    def site(self, m, node):
        fn = node
        while fn is not None and not isinstance(fn, (ast.FunctionDef, ast.Module)):
            fn = getattr(fn, "_parent", None)
        return "%s:%s" % (m.rel, getattr(node, "lineno", 0)), (
            qualname(fn) if isinstance(fn, ast.FunctionDef) else "<module>")

    # ----------------------------------------------------------- routines
    def routine(self, m, fn):
        self.root = (m, fn)
        self.record = []
        self.unk = []
        self.depth = 0
        a = fn.args
        env = Env()
        pars = [p.arg for p in a.posonlyargs + a.args + a.kwonlyargs]
        tp = [p for p in pars if THREADS.search(p)]
        for p in pars:
            env.d[p] = ("param", p)
        self.tparam = tp[0] if tp else None
        outs = self.body(m, fn, Path("normal", env, AMB))
        final = []
        for p in outs:
            if p.val and p.val[0] == "lazy":
                final.extend(self.consume(p, p.val, m, fn))
            final.append(p)
        return outs

    def body(self, m, fn, p):
        outs = []
        for q in self.block(m, fn.body, [p]):
            if q.kind == "normal":
                q = Path("return", q.env, q.st, NOTHING, q.heap)
            outs.append(q)
        return dedupe(outs)

    # ---------------------------------------------------------- statements
    def block(self, m, stmts, paths):
        done = []
        for s in stmts:
            nxt = []
            for p in paths:
                for q in self.stmt(m, s, p):
                    (nxt if q.kind == "normal" else done).append(q)
            paths = dedupe(nxt)
            if not paths:
                break
        return dedupe(done + paths)

    def stmt(self, m, s, p):
        t = type(s).__name__
        f = getattr(self, "s_" + t, None)
        if f is not None:
            return f(m, s, p)
        if isinstance(s, (ast.Pass, ast.Global, ast.Nonlocal, ast.Import,
                          ast.ImportFrom)):
            return [p]
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            q = self.fork(p)
            q.env.set(s.name, ("def", id(s)))
            self.nodes[id(s)] = (m, s)
            return [q]
        # anything else: evaluate contained expressions
        paths = [p]
        for e in ast.iter_child_nodes(s):
            if isinstance(e, ast.expr):
                paths = self.over(paths, lambda q, e=e: self.ev(m, e, q))
        return paths

    def fork(self, p, **kw):
        q = Path(p.kind, p.env.copy(), p.st, p.val, dict(p.heap))
        for k, v in kw.items():
            setattr(q, k, v)
        return q

    def over(self, paths, f):
        out = []
        for p in paths:
            if p.kind == "normal":
                out.extend(f(p))
            else:
                out.append(p)
        return dedupe(out)

    def s_Expr(self, m, s, p):
        if isinstance(s.value, (ast.Yield, ast.YieldFrom)):
            return self.do_yield(m, s.value, p)
        return self.ev(m, s.value, p)

    def s_Return(self, m, s, p):
        if s.value is None:
            return [self.fork(p, kind="return", val=NOTHING)]
        return [self.fork(q, kind="return") if q.kind == "normal" else q
                for q in self.ev(m, s.value, p)]

    def s_Raise(self, m, s, p):
        ps = [p]
        if s.exc is not None:
            ps = self.ev(m, s.exc, p)
        return dedupe([self.fork(q, kind="raise") for q in ps])

    def s_Break(self, m, s, p):
        return [self.fork(p, kind="break")]

    def s_Continue(self, m, s, p):
        return [self.fork(p, kind="continue")]

    def s_Assert(self, m, s, p):
        ps = self.ev(m, s.test, p)
        return ps + [self.fork(q, kind="raise") for q in ps if q.kind == "normal"]

    def bind(self, m, t, v, q):
        if isinstance(t, ast.Name):
            q.env.set(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = v[1] if v[0] == "tup" and len(v[1]) == len(t.elts) else [UNK] * len(t.elts)
            for x, y in zip(t.elts, vs):
                self.bind(m, x.value if isinstance(x, ast.Starred) else x, y, q)
        elif isinstance(t, ast.Attribute):
            if isinstance(t.value, ast.Name):
                o = q.env.d.get(t.value.id, UNK)
                if o[0] == "obj":
                    q.heap[(o[1], t.attr)] = v

    def s_Assign(self, m, s, p):
        out = []
        for q in self.ev(m, s.value, p):
            if q.kind == "normal":
                q = self.fork(q)
                for t in s.targets:
                    self.bind(m, t, q.val, q)
            out.append(q)
        return out

    def s_AnnAssign(self, m, s, p):
        if s.value is None:
            return [p]
        out = []
        for q in self.ev(m, s.value, p):
            if q.kind == "normal":
                q = self.fork(q)
                self.bind(m, s.target, q.val, q)
            out.append(q)
        return out

    def s_AugAssign(self, m, s, p):
        out = []
        for q in self.ev(m, s.value, p):
            if q.kind == "normal":
                q = self.fork(q)
                old = q.env.d.get(s.target.id, UNK) if isinstance(
                    s.target, ast.Name) else UNK
                self.bind(m, s.target, self.arith(old, q.val), q)
            out.append(q)
        return out

    def arith(self, a, b):
        for x in (a, b):
            if x[0] in ("param", "amb", "arith", "const"):
                return ("arith", repr((a, b)))
        return UNK

    def static(self, e, p):
        """True/False/None truth of a condition from tracked values."""
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            r = self.static(e.operand, p)
            return None if r is None else not r
        k = ast.unparse(e)
        if k in p.env.conds:
            return p.env.conds[k]
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            neg = None
            if isinstance(e.ops[0], (ast.IsNot, ast.NotEq)):
                neg = True
            elif isinstance(e.ops[0], (ast.Is, ast.Eq)):
                neg = False
            if neg is not None:
                a, b = self.quick(e.left, p), self.quick(e.comparators[0], p)
                if a is not None and b is not None and a[0] in (
                        "const", "none") and b[0] in ("const", "none"):
                    return (a == b) != neg
        if isinstance(e, ast.Constant):
            return bool(e.value)
        return None

    def quick(self, e, p):
        if isinstance(e, ast.Constant):
            return NOTHING if e.value is None else ("const", e.value)
        if isinstance(e, ast.Name):
            return p.env.d.get(e.id)
        return None

    def assume(self, e, val, p):
        neg = False
        while isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            e, neg = e.operand, not neg
        if any(isinstance(x, (ast.Call, ast.NamedExpr)) for x in ast.walk(e)):
            return
        p.env.conds[ast.unparse(e)] = val != neg

    def split(self, m, test, p):
        out = []
        for q in self.ev(m, test, p):
            if q.kind != "normal":
                out.append((None, q))
                continue
            r = self.static(test, q)
            for val in (True, False):
                if r is None or r is val:
                    w = self.fork(q)
                    if r is None:
                        self.assume(test, val, w)
                    out.append((val, w))
        return out

    def s_If(self, m, s, p):
        out = []
        for val, q in self.split(m, s.test, p):
            if val is None:
                out.append(q)
            else:
                out.extend(self.block(m, s.body if val else s.orelse, [q]))
        return dedupe(out)

    def s_While(self, m, s, p):
        return self.loop(m, s, p, None)

    def s_For(self, m, s, p):
        out = []
        for q in self.ev(m, s.iter, p):
            if q.kind != "normal":
                out.append(q)
            else:
                out.extend(self.loop(m, s, q, q.val))
        return dedupe(out)

    def loop(self, m, s, p, it):
        done, seen = [], set()
        work = [p]
        while work:
            q = work.pop()
            k = q.key()
            if k in seen:
                continue
            seen.add(k)
            if len(seen) > MAXPATHS:
                raise TooHard("loop")
            heads = [q]
            if it is not None and it[0] == "lazy":
                heads = self.consume(q, it, m, s)
            for h in heads:
                if h.kind != "normal":
                    done.append(h)
                    continue
                ent = self.fork(h)
                if it is not None:
                    for x in ast.walk(s.target):
                        if isinstance(x, ast.Name):
                            ent.env.set(x.id, UNK)
                    done.extend(self.block(m, s.orelse, [self.fork(h)]))
                    br = [(True, ent)]
                else:
                    br = []
                    for val, w in self.split(m, s.test, ent):
                        # the test may differ in the next iteration
                        w.env.conds.pop(ast.unparse(s.test), None)
                        if val is None:
                            done.append(w)
                        elif val:
                            br.append((True, w))
                        else:
                            done.extend(self.block(m, s.orelse, [w]))
                for _, w in br:
                    for r in self.block(m, s.body, [w]):
                        if r.kind in ("normal", "continue"):
                            work.append(self.fork(r, kind="normal"))
                        elif r.kind == "break":
                            done.append(self.fork(r, kind="normal"))
                        else:
                            done.append(r)
        return dedupe(done)

    def s_Try(self, m, s, p):
        out = []
        for q in self.block(m, s.body, [p]):
            if q.kind == "raise" and s.handlers:
                catch_all = False
                for h in s.handlers:
                    w = self.fork(q, kind="normal")
                    if h.name:
                        w.env.set(h.name, UNK)
                    out.extend(self.block(m, h.body, [w]))
                    nm = dotted(h.type) if h.type is not None else None
                    if h.type is None or nm == "BaseException":
                        catch_all = True
                        break
                if not catch_all:
                    out.append(q)
            elif q.kind == "normal" and s.orelse:
                out.extend(self.block(m, s.orelse, [q]))
            else:
                out.append(q)
        out = dedupe(out)
        if s.finalbody:
            fin = []
            for q in out:
                for r in self.block(m, s.finalbody, [self.fork(q, kind="normal")]):
                    if r.kind == "normal":
                        r = self.fork(r, kind=q.kind, val=q.val)
                    fin.append(r)
            out = dedupe(fin)
        return out

    def s_With(self, m, s, p):
        return self.with_items(m, list(s.items), s.body, p)

    def with_items(self, m, items, body, p):
        if not items:
            return self.block(m, body, [p])
        item, rest = items[0], items[1:]
        out = []
        for q in self.ev(m, item.context_expr, p):
            if q.kind != "normal":
                out.append(q)
                continue
            cm = q.val

            def inner(w, got=UNK):
                w = self.fork(w, kind="normal")
                if item.optional_vars is not None:
                    self.bind(m, item.optional_vars, got, w)
                return self.with_items(m, rest, body, w)
            out.extend(self.enter(m, cm, q, inner))
        return dedupe(out)

    def enter(self, m, cm, q, inner):
        if cm[0] == "cm":
            m2, fn = self.nodes[cm[1]]
            frame = Env(dict(cm[2]))
            outer = q.env
            saved = getattr(self, "yielder", None)

            def yielder(w):
                # run the with body in the caller's frame
                self.yielder = saved
                res = inner(Path("normal", outer.copy(), w.st, UNK, dict(w.heap)),
                            w.val)
                self.yielder = yielder
                back = []
                for r in res:
                    z = Path("raise" if r.kind == "raise" else "normal",
                             w.env.copy(), r.st, UNK, dict(r.heap))
                    z.env.d["%out"] = ("pend", r.kind, r.val, r.env)
                    back.append(z)
                return back
            self.yielder = yielder
            try:
                res = self.body(m2, fn, Path("normal", frame, q.st, UNK, dict(q.heap)))
            finally:
                self.yielder = saved
            out = []
            for r in res:
                pend = r.env.d.get("%out")
                if r.kind == "raise":
                    env = pend[3] if pend else outer
                    out.append(Path("raise", env.copy(), r.st, UNK, r.heap))
                elif pend is None:
                    out.append(Path("raise", outer.copy(), r.st, UNK, r.heap))
                else:
                    kind = pend[1] if pend[1] != "raise" else "normal"
                    out.append(Path(kind, pend[3].copy(), r.st, pend[2], r.heap))
            return out
        if cm[0] == "obj":
            cls = cm[2]
            en, ex = self.find_method(cls, "__enter__"), self.find_method(cls, "__exit__")
            if not en or not ex:
                raise TooHard("context manager %s" % cls)
            out = []
            for w in self.inline(en, [cm], {}, q):
                if w.kind != "normal":
                    out.append(w)
                    continue
                for r in inner(w, w.val):
                    for z in self.inline(ex, [cm, UNK, UNK, UNK], {}, self.fork(r, kind="normal")):
                        if z.kind == "normal":
                            sup = z.val == ("const", True)
                            kind = r.kind
                            if r.kind == "raise" and sup:
                                kind = "normal"
                            z = self.fork(z, kind=kind, val=r.val)
                            z.env = r.env.copy()
                        out.append(z)
            return out
        if cm[0] == "stack":
            out = []
            self.nobj += 1
            for r in inner(self.fork(q), cm):
                work = [self.fork(r, kind="normal")]
                for cb in reversed(r.heap.get((cm[1], "cbs"), ())):
                    nxt = []
                    for w in work:
                        nxt.extend(self.fork(z, kind="normal")
                                   for z in self.apply(None, cb[1], list(cb[2]), {}, w))
                    work = dedupe(nxt)
                for w in work:
                    out.append(self.fork(w, kind=r.kind, val=r.val))
            return out
        if cm[0] in ("u?",):
            raise TooHard("context manager")
        # unrelated context manager (np.errstate, warnings.catch_warnings...)
        out = []
        for r in inner(q):
            out.append(r)
        return out

    def do_yield(self, m, e, p):
        y = getattr(self, "yielder", None)
        paths = self.ev(m, e.value, p) if getattr(e, "value", None) is not None else [p]
        if y is None:
            return paths
        out = []
        for q in paths:
            if q.kind == "normal":
                out.extend(y(q))
            else:
                out.append(q)
        return out

    # --------------------------------------------------------- expressions
    def ev(self, m, e, p):
        f = getattr(self, "e_" + type(e).__name__, None)
        if f is not None:
            return f(m, e, p)
        paths = [p]
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                paths = self.over(paths, lambda q, c=c: self.ev(m, c, q))
        out = []
        for q in paths:
            if q.kind == "normal":
                q = self.fork(q, val=UNK)
            out.append(q)
        return out

    def one(self, p, v):
        return [self.fork(p, val=v)]

    def e_Constant(self, m, e, p):
        return self.one(p, NOTHING if e.value is None else ("const", e.value))

    def e_Name(self, m, e, p):
        if e.id in p.env.d:
            return self.one(p, p.env.d[e.id])
        got = self.names.func(m, e)
        if got:
            self.nodes[id(got[1])] = got
            return self.one(p, ("def", id(got[1])))
        full = self.names.full(m, e)
        d = self.names.defs.get(full)
        if d and isinstance(d[1], ast.ClassDef):
            return self.one(p, ("cls", full))
        return self.one(p, ("ext", full or e.id))

    def e_Attribute(self, m, e, p):
        d = dotted(e)
        if d is not None and d.split(".")[0] not in p.env.d:
            got = self.names.func(m, e)
            if got:
                self.nodes[id(got[1])] = got
                return self.one(p, ("def", id(got[1])))
            full = self.names.full(m, e)
            if full in self.names.defs:
                return self.one(p, ("cls", full))
            head = d.split(".")[0]
            if head in self.names.alias[m.name]:
                return self.one(p, ("ext", full))
        out = []
        for q in self.ev(m, e.value, p):
            if q.kind != "normal":
                out.append(q)
                continue
            o = q.val
            if o[0] == "obj":
                v = q.heap.get((o[1], e.attr))
                if v is not None:
                    out.append(self.fork(q, val=v))
                    continue
                meth = self.find_method(o[2], e.attr)
                if meth:
                    out.append(self.fork(q, val=("meth", id(meth[1]), o)))
                    self.nodes[id(meth[1])] = meth
                    continue
            if o[0] == "stack":
                out.append(self.fork(q, val=("stackm", o[1], e.attr)))
                continue
            cands = [(mm, n) for mm, c, n in self.names.methods.get(e.attr, [])
                     if id(n) in self.rel]
            if cands:
                if e.attr in self.props:
                    for c in cands:
                        out.extend(self.inline(c, [o], {}, q))
                    continue
                for c in cands:
                    self.nodes[id(c[1])] = c
                    out.append(self.fork(q, val=("meth", id(c[1]), o)))
                continue
            if e.attr in self.props:
                out.append(self.fork(q, kind="raise"))
            out.append(self.fork(q, val=UNK))
        return dedupe(out)

    def e_Subscript(self, m, e, p):
        ps = self.ev(m, e.value, p)
        ps = self.over(ps, lambda q: self.ev(m, e.slice, q))
        out = []
        for q in ps:
            if q.kind == "normal":
                out.append(self.fork(q, kind="raise"))
                q = self.fork(q, val=UNK)
            out.append(q)
        return dedupe(out)

    def e_BinOp(self, m, e, p):
        out = []
        for q in self.ev(m, e.left, p):
            if q.kind != "normal":
                out.append(q)
                continue
            a = q.val
            for r in self.ev(m, e.right, q):
                if r.kind == "normal":
                    r = self.fork(r, val=self.arith(a, r.val))
                out.append(r)
        return dedupe(out)

    def e_IfExp(self, m, e, p):
        out = []
        for val, q in self.split(m, e.test, p):
            if val is None:
                out.append(q)
            else:
                out.extend(self.ev(m, e.body if val else e.orelse, q))
        return dedupe(out)

    def e_BoolOp(self, m, e, p):
        out, cur = [], [p]
        for k, x in enumerate(e.values):
            nxt = []
            for q in cur:
                for r in self.ev(m, x, q):
                    if r.kind != "normal":
                        out.append(r)
                        continue
                    if k < len(e.values) - 1:
                        out.append(r)
                    nxt.append(r)
            cur = nxt
        return dedupe(out + cur)

    def e_NamedExpr(self, m, e, p):
        out = []
        for q in self.ev(m, e.value, p):
            if q.kind == "normal":
                q = self.fork(q)
                self.bind(m, e.target, q.val, q)
            out.append(q)
        return out

    def e_Tuple(self, m, e, p):
        acc = [(p, ())]
        out = []
        for x in e.elts:
            nxt = []
            for q, vs in acc:
                for r in self.ev(m, x, q):
                    if r.kind == "normal":
                        nxt.append((r, vs + (r.val,)))
                    else:
                        out.append(r)
            acc = nxt
        for q, vs in acc:
            out.append(self.fork(q, val=("tup", vs)))
        return dedupe(out)

    e_List = e_Tuple

    def e_Lambda(self, m, e, p):
        self.nodes[id(e)] = (m, e)
        return self.one(p, ("lam", id(e), tuple(sorted(
            p.env.d.items(), key=lambda kv: kv[0]))))

    def hot_expr(self, m, e):
        return bool(self.mentions(m, e) & self.hot)

    def comp(self, m, e, p):
        """Runs a comprehension eagerly for zero and one iteration."""
        ps = [p]
        skip = []
        for g in e.generators:
            ps = self.over(ps, lambda q, g=g: self.ev(m, g.iter, q))
            new = []
            for q in ps:
                if q.kind == "normal":
                    its = [q]
                    if q.val[0] == "lazy":
                        its = self.consume(q, q.val, m, e)
                    for q2 in its:
                        q2 = self.fork(q2)
                        for x in ast.walk(g.target):
                            if isinstance(x, ast.Name):
                                q2.env.set(x.id, UNK)
                        new.append(q2)
                        skip.append(self.fork(q2, val=UNK))
                else:
                    new.append(q)
            ps = new
            for c in g.ifs:
                ps = self.over(ps, lambda q, c=c: self.ev(m, c, q))
        elts = [e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]
        for x in elts:
            ps = self.over(ps, lambda q, x=x: self.ev(m, x, q))
        return dedupe(skip + [self.fork(q, val=UNK) if q.kind == "normal" else q
                              for q in ps])

    e_ListComp = e_SetComp = e_DictComp = comp

    def e_GeneratorExp(self, m, e, p):
        if not self.hot_expr(m, e):
            return self.one(p, UNK)
        self.nodes[id(e)] = (m, e)
        return self.one(p, ("lazy", ("gen", id(e), tuple(p.env.d.items()))))

    def e_Yield(self, m, e, p):
        return self.do_yield(m, e, p)

    e_YieldFrom = e_Yield

    def consume(self, p, lazy, m, node):
        kind = lazy[1][0]
        if kind == "gen":
            m2, e = self.nodes[lazy[1][1]]
            w = self.fork(p)
            w.env = Env(dict(lazy[1][2]))
            outs = self.comp(m2, e, w)
        else:
            outs = self.apply(node, lazy[1][1], [UNK], {}, p)
        res = []
        for o in outs:
            z = self.fork(o)
            z.env = p.env.copy()
            z.val = UNK
            res.append(z)
        return dedupe(res)

    # --------------------------------------------------------------- calls
    def e_Call(self, m, e, p):
        out = []
        for q in self.ev(m, e.func, p):
            if q.kind != "normal":
                out.append(q)
                continue
            f = q.val
            acc = [(q, [], {})]
            for a in e.args:
                x = a.value if isinstance(a, ast.Starred) else a
                nxt = []
                for w, args, kw in acc:
                    for r in self.ev(m, x, w):
                        if r.kind != "normal":
                            out.append(r)
                        elif isinstance(a, ast.Starred) and r.val[0] != "tup":
                            nxt.append((r, args + [("star",)], kw))
                        elif isinstance(a, ast.Starred):
                            nxt.append((r, args + list(r.val[1]), kw))
                        else:
                            nxt.append((r, args + [r.val], kw))
                acc = nxt
            for k in e.keywords:
                nxt = []
                for w, args, kw in acc:
                    for r in self.ev(m, k.value, w):
                        if r.kind != "normal":
                            out.append(r)
                        else:
                            nxt.append((r, args, {**kw, (k.arg or "**"): r.val}))
                acc = nxt
            for w, args, kw in acc:
                out.extend(self.apply((m, e), f, args, kw, w))
        return dedupe(out)

    def apply(self, site, f, args, kw, p):
        tag = f[0]
        if tag == "part":
            return self.apply(site, f[1], list(f[2]) + args, {**dict(f[3]), **kw}, p)
        if tag == "def":
            m2, fn = self.nodes[f[1]]
            if id(fn) in self.kernels:
                return self.kernel(site, fn, p)
            if isinstance(fn, ast.ClassDef):
                return self.one(p, UNK)
            if id(fn) in self.rel or isinstance(getattr(fn, "_parent", None),
                                                ast.FunctionDef):
                return self.inline((m2, fn), args, kw, p)
            return self.mayraise(self.extern_args(site, args, kw, p))
        if tag == "meth":
            m2, fn = self.nodes[f[1]]
            return self.inline((m2, fn), [f[2]] + args, kw, p)
        if tag == "lam":
            m2, lam = self.nodes[f[1]]
            w = self.fork(p)
            w.env = Env(dict(f[2]))
            for x, v in zip(lam.args.args, args):
                w.env.set(x.arg, v)
            for k, v in kw.items():
                w.env.set(k, v)
            res = []
            for r in self.ev(m2, lam.body, w):
                z = self.fork(r)
                z.env = p.env.copy()
                res.append(z)
            return dedupe(res)
        if tag == "cls":
            self.nobj += 1
            m2, c = self.names.defs[f[1]]
            o = ("obj", "%s@%s" % (f[1], getattr(site[1], "lineno", 0) if site else 0), f[1])
            init = self.find_method(f[1], "__init__")
            if init and (id(init[1]) in self.rel or f[1].split(".")[-1] in self.hot):
                return [self.fork(r, val=o) if r.kind == "normal" else r
                        for r in self.inline(init, [o], dict(kw), p, args)]
            if f[1].split(".")[-1] in self.hot:
                w = self.fork(p, val=o)
                flds = [x.target.id for x in c.body if isinstance(x, ast.AnnAssign)
                        and isinstance(x.target, ast.Name)]
                for n, v in list(zip(flds, args)) + list(kw.items()):
                    w.heap[(o[1], n)] = v
                return [w]
            return self.mayraise(self.one(p, UNK))
        if tag == "stackm":
            w = self.fork(p, val=UNK)
            key = (f[1], "cbs")
            if f[2] == "callback" and args:
                w.heap[key] = w.heap.get(key, ()) + (("cb", args[0], tuple(args[1:])),)
                return [w]
            if f[2] == "enter_context":
                if args and args[0][0] in ("cm", "obj"):
                    raise TooHard("ExitStack.enter_context")
                return [w]
            if f[2] in ("close", "pop_all", "push"):
                raise TooHard("ExitStack." + f[2])
            return [w]
        if tag == "ext":
            name = f[1] or ""
            tail = name.split(".")[-1]
            if tail == "get_num_threads" and name.startswith("numba"):
                return self.one(p, p.st)
            if tail == "set_num_threads" and name.startswith("numba"):
                v = args[0] if args else kw.get("n", UNK)
                out = [self.fork(p, st=v, val=NOTHING)]
                if v[0] != "amb":
                    # an invalid count is refused, nothing changes
                    out.append(self.fork(p, kind="raise"))
                return out
            if tail == "ExitStack":
                self.nobj += 1
                return self.one(p, ("stack", "st%d" % getattr(site[1], "lineno", 0)))
            if tail == "partial" and args:
                return self.one(p, ("part", args[0], tuple(args[1:]),
                                    tuple(sorted(kw.items()))))
            if tail == "int" and len(args) == 1:
                return self.mayraise(self.one(p, args[0]))
            if tail in ("attrgetter", "itemgetter", "methodcaller", "TypeVar"):
                return self.one(p, UNK)
            if tail in ("min", "max") and any(a[0] == "param" for a in args):
                return self.one(p, ("clamp", tuple(args)))
            if tail in LAZY and args and self.callable_hot(args[0]):
                return self.one(p, ("lazy", ("map", args[0])))
            if tail in PASSIVE:
                for a in args:
                    if a[0] == "lazy":
                        return self.one(p, a)
                return self.one(p, UNK)
            if tail == "len":
                return self.one(p, UNK)
        return self.mayraise(self.extern_args(site, args, kw, p))

    def callable_hot(self, v):
        if v[0] in ("def", "meth"):
            return v[1] in self.kernels or v[1] in self.rel
        if v[0] == "lam":
            m2, lam = self.nodes[v[1]]
            return self.hot_expr(m2, lam)
        if v[0] == "part":
            return self.callable_hot(v[1])
        return False

    def extern_args(self, site, args, kw, p):
        """An unknown function may call callables and consume iterators."""
        ps = [self.fork(p, val=UNK)]
        for a in list(args) + list(kw.values()):
            if a[0] == "lazy":
                ps = self.over(ps, lambda q, a=a: self.consume(
                    q, a, site[0] if site else None, site[1] if site else None))
            elif self.callable_hot(a):
                ps = self.over(ps, lambda q, a=a: self.apply(site, a, [], {}, q))
        return [self.fork(q, val=UNK) if q.kind == "normal" else q for q in ps]

    def mayraise(self, ps):
        out = []
        for q in ps:
            out.append(q)
            if q.kind == "normal":
                out.append(self.fork(q, kind="raise"))
        return out

    def kernel(self, site, fn, p):
        self.record.append((site, fn, p.st))
        return self.mayraise(self.one(p, UNK))

    def find_method(self, cls, name):
        d = self.names.defs.get(cls)
        if not d:
            return None
        for k in d[1].body:
            if isinstance(k, ast.FunctionDef) and k.name == name:
                return (d[0], k)
        for b in d[1].bases:
            f = self.names.full(d[0], b)
            if f in self.names.defs:
                r = self.find_method(f, name)
                if r:
                    return r
        return None

    def inline(self, target, args, kw, p, more=()):
        m2, fn = target
        args = list(args) + list(more)
        self.depth += 1
        if self.depth > 14:
            self.depth -= 1
            raise TooHard("recursion through %s" % fn.name)
        try:
            env = Env()
            a = fn.args
            pars = [x.arg for x in a.posonlyargs + a.args]
            for x, d in zip(pars[len(pars) - len(a.defaults):], a.defaults):
                env.d[x] = self.default(m2, d, p)
            for x, d in zip(a.kwonlyargs, a.kw_defaults):
                env.d[x.arg] = self.default(m2, d, p) if d is not None else UNK
            star = next((i for i, v in enumerate(args) if v == ("star",)), None)
            if star is not None:
                for x in pars[star:]:
                    env.d[x] = UNK
                args = args[:star]
            for x, v in zip(pars, args):
                env.d[x] = v
            for k, v in kw.items():
                if k == "**":
                    for x in pars[len(args):]:
                        if x not in kw:
                            env.d[x] = UNK
                else:
                    env.d[k] = v
            for x in pars:
                env.d.setdefault(x, UNK)
            if a.vararg:
                env.d[a.vararg.arg] = ("tup", tuple(args[len(pars):]))
            par = getattr(fn, "_parent", None)
            if isinstance(par, (ast.FunctionDef, ast.If, ast.With, ast.Try)):
                for k, v in p.env.d.items():
                    env.d.setdefault(k, v)
            decos = [n for n, _ in decorator_info(self.names, m2, fn)]
            isgen = any(isinstance(x, (ast.Yield, ast.YieldFrom))
                        for x in ast.walk(fn))
            if isgen and any(d and d.split(".")[-1] == "contextmanager" for d in decos):
                self.nodes[id(fn)] = (m2, fn)
                return self.one(p, ("cm", id(fn), tuple(env.d.items())))
            if isgen:
                raise TooHard("generator %s" % fn.name)
            if any(d and d.split(".")[-1] not in (
                    "property", "cached_property", "staticmethod",
                    "classmethod", "wraps", "deprecated", "override",
                    "overload", "setter", "final", "lru_cache", "cache")
                    for d in decos):
                raise TooHard("decorated %s" % fn.name)
            saved = getattr(self, "yielder", None)
            self.yielder = None
            try:
                outs = self.body(m2, fn, Path("normal", env, p.st, UNK, dict(p.heap)))
            finally:
                self.yielder = saved
            res = []
            for o in outs:
                res.append(Path("normal" if o.kind == "return" else o.kind,
                                p.env.copy(), o.st, o.val, o.heap))
            return dedupe(res)
        finally:
            self.depth -= 1

    def default(self, m, d, p):
        q = Path("normal", Env(), AMB)
        try:
            r = self.ev(m, d, q)
            return r[0].val
        except TooHard:
            return UNK


def show(v):
    if v == AMB:
        return "the ambient thread count"
    if v[0] == "param":
        return "parameter %r" % v[1]
    if v[0] == "const":
        return "the constant %r" % (v[1],)
    return "%s" % (v,)


def run(ctx):
    res = Result(__doc__)
    an = Analyser(ctx.pkg, res)
    if not an.kernels:
        raise AnalysisBroken("no numba parallel kernel found")
    roots = []
    for m, n in ctx.pkg.functions():
        if id(n) not in an.rel:
            continue
        par = getattr(n, "_parent", None)
        if not isinstance(par, (ast.Module, ast.ClassDef)):
            continue
        decos = [d for d, _ in decorator_info(an.names, m, n)]
        if any(d and d.split(".")[-1] == "contextmanager" for d in decos):
            continue
        if isinstance(par, ast.ClassDef) and n.name in (
                "__enter__", "__exit__", "__init__", "__post_init__"):
            continue
        roots.append((m, n))
    nk = 0
    nthread = 0
    for m, n in roots:
        q = qualname(n)
        pars = [p.arg for p in n.args.posonlyargs + n.args.args + n.args.kwonlyargs]
        private = n.name.startswith("_")
        has_t = any(THREADS.search(p) for p in pars)
        if private and not has_t:
            # a helper: judged where it is inlined into its callers
            continue
        res.count("routines")
        try:
            outs = an.routine(m, n)
        except TooHard as e:
            res.unknown("%s: %s" % (q, e))
            continue
        bad_exit = {}
        direct_set = private and not an.record
        for p in outs:
            res.count("exit paths")
            if p.st != AMB and not direct_set:
                bad_exit.setdefault((p.kind, p.st), p)
        if bad_exit:
            for (kind, st), p in bad_exit.items():
                if st == UNK:
                    res.unknown("%s: thread count unknown on %s" % (q, kind))
                else:
                    res.bad("thread count restored", m.rel, n.lineno, q,
                            "leaves numba's thread count at %s on a path "
                            "which ends by %s" % (show(st), {
                                "raise": "an exception",
                                "return": "returning"}.get(kind, kind)))
        else:
            res.ok("%s: entry thread count restored on all %d exits" % (q, len(outs)))
        if an.tparam is None:
            continue
        nthread += 1
        seen = set()
        for site, fn, st in an.record:
            loc = an.site(*site) if site else (m.rel + ":0", "?")
            k = (loc, fn.name, st)
            if k in seen:
                continue
            seen.add(k)
            nk += 1
            if st == ("param", an.tparam):
                res.ok("%s: kernel %s at %s runs with %s" % (q, fn.name, loc[0], an.tparam))
            elif st[0] == "clamp" and AMB in (st[1] if isinstance(st[1], tuple) else ()):
                f, _, ln = loc[0].partition(":")
                res.bad("kernel runs with the requested thread count", f, int(ln),
                        loc[1], "parallel kernel %s, reached from %s, runs with the requested "
                        "number bounded by the number in effect before the call" % (fn.name, q))
            elif st[0] in ("?", "clamp"):
                res.unknown("%s: kernel %s at %s: %s" % (q, fn.name, loc[0], show(st)))
            else:
                f, _, ln = loc[0].partition(":")
                res.bad("kernel runs with the requested thread count", f, int(ln),
                        loc[1], "parallel kernel %s, reached from %s, runs with "
                        "%s instead of the requested %r" % (
                            fn.name, q, show(st), an.tparam))
    res.count("kernels", len(an.kernels))
    res.count("kernel call obligations", nk)
    if not nthread:
        raise AnalysisBroken("no routine with a thread-count parameter found")
    if not nk and not res.findings and not res.unknowns:
        raise AnalysisBroken("no parallel kernel is reached from any routine "
                             "with a thread-count parameter")
    return res
