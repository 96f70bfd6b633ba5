"""C18: resolution of names, attributes, keywords; definite assignment.

* every global name read by a function resolves in its module or builtins;
* every attribute of an imported module exists in the installed version
  (resolved from the sources and stubs of the installed packages);
* every attribute of an object whose class is known to be one of the
  package's exists (self, annotated parameters, and the values which the
  abstract interpreter types on the public API);
* every call of the package's own functions and constructors binds;
* every local variable is bound on every path reaching a use, with branches
  on the same condition correlated.
"""
import ast
import builtins
import symtable

from ..loader import AnalysisBroken, qualname
from . import Result
from .astutil import Names, dotted, walk_scope, decorator_info
from .exports import Exports

BUILTINS = set(dir(builtins)) | {"__file__", "__name__", "__doc__", "__spec__",
                                 "__package__", "__class__", "__path__",
                                 "__builtins__", "__annotations__", "__loader__",
                                 "__qualname__", "__module__", "reveal_type"}


# ----------------------------------------------------------- global names
def global_names(m):
    out = set()
    tree = m.tree
    star = False
    for n in ast.walk(tree):
        if isinstance(n, ast.Global):
            out.update(n.names)

    def body(stmts):
        nonlocal star
        for s in stmts:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                out.add(s.name)
                continue
            if isinstance(s, (ast.Import, ast.ImportFrom)):
                for a in s.names:
                    if a.name == "*":
                        star = True
                    out.add(a.asname or a.name.split(".")[0])
                continue
            for n in walk_expr(s):
                if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    out.add(n.id)
            for f in ("body", "orelse", "finalbody"):
                body(getattr(s, f, []) or [])
            for h in getattr(s, "handlers", []):
                if h.name:
                    out.add(h.name)
                body(h.body)
            for c in getattr(s, "cases", []):
                body(c.body)
    body(tree.body)
    return out, star


def walk_expr(s):
    """Expressions of one statement without its nested blocks."""
    stack = []
    for f, v in ast.iter_fields(s):
        if f in ("body", "orelse", "finalbody", "handlers", "cases"):
            continue
        stack.extend([v] if isinstance(v, ast.AST) else
                     [x for x in v if isinstance(x, ast.AST)] if isinstance(v, list) else [])
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp,
                          ast.GeneratorExp)):
            # walrus targets escape comprehensions
            for x in ast.walk(n):
                if isinstance(x, ast.NamedExpr):
                    yield x.target
            continue
        stack.extend(ast.iter_child_nodes(n))


def undefined(ctx, res, m):
    gl, star = global_names(m)
    if star:
        # a star import at run time hides the names; one inside
        # TYPE_CHECKING contributes nothing at run time
        for n in ast.walk(m.tree):
            if isinstance(n, ast.ImportFrom) and any(a.name == "*" for a in n.names):
                p = n._parent
                if not (isinstance(p, ast.If) and "TYPE_CHECKING" in ast.unparse(p.test)):
                    res.unknown("%s: star import" % m.rel)
                    return
    try:
        top = symtable.symtable(m.source, m.path, "exec")
    except SyntaxError as e:
        raise AnalysisBroken(str(e))
    used = {}

    def go(t):
        for s in t.get_symbols():
            if t.get_type() == "module":
                continue
            if s.is_global() and s.is_referenced():
                used.setdefault(s.get_name(), []).append(t)
        for c in t.get_children():
            go(c)
    go(top)
    for s in top.get_symbols():
        if s.is_referenced() and not s.is_assigned() and not s.is_imported() and not \
                s.is_namespace():
            used.setdefault(s.get_name(), []).append(top)
    future = any(isinstance(n, ast.ImportFrom) and n.module == "__future__" and
                 any(a.name == "annotations" for a in n.names)
                 for n in m.tree.body)
    for name, tabs in sorted(used.items()):
        res.count("global name references")
        if name in gl or name in BUILTINS:
            res.ok("%s: %s" % (m.rel, name))
            continue
        node = None
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Load):
                a = n
                ann = False
                while a is not None and not isinstance(a, ast.stmt):
                    p = getattr(a, "_parent", None)
                    if isinstance(p, ast.arg) or isinstance(p, ast.AnnAssign) and \
                            p.annotation is a or isinstance(p, ast.FunctionDef) and p.returns is a:
                        ann = True
                    a = p
                if ann and future:
                    continue
                node = n
                break
        if node is None:
            continue
        f = node
        while f is not None and not isinstance(f, ast.FunctionDef):
            f = getattr(f, "_parent", None)
        res.bad("global names exist", m.rel, node.lineno,
                qualname(f) if f is not None else "<module>",
                "name %r is not defined in the module nor a builtin" % name)


# ----------------------------------------------------- external attributes
def externals(ctx, res, names, ex):
    for m in ctx.pkg.modules.values():
        al = names.alias[m.name]
        for n in ast.walk(m.tree):
            if isinstance(n, ast.ImportFrom) and not n.level and n.module:
                top = n.module.split(".")[0]
                if top == "graphicle":
                    check_pkg_from(ctx, res, m, n, n.module)
                    continue
                if not ex.is_installed(top):
                    if top != "fastjet":
                        res.unknown("%s: %s is not installed" % (m.rel, top))
                    continue
                got, complete = ex.names(n.module)
                for a in n.names:
                    if a.name == "*":
                        continue
                    res.count("imported names")
                    if a.name in got:
                        res.ok("%s: from %s import %s" % (m.rel, n.module, a.name))
                    elif complete:
                        res.bad("imported names exist", m.rel, n.lineno, "<module>",
                                "%s has no name %r" % (n.module, a.name))
                    else:
                        res.unknown("%s: from %s import %s" % (m.rel, n.module, a.name))
            elif isinstance(n, ast.ImportFrom):
                check_pkg_from(ctx, res, m, n, names.resolve_from(m, n))
            elif isinstance(n, ast.Import):
                for a in n.names:
                    top = a.name.split(".")[0]
                    if top in ("graphicle", "fastjet"):
                        continue
                    if not ex.is_installed(top):
                        res.bad("imported modules exist", m.rel, n.lineno, "<module>",
                                "module %r is not installed" % a.name)
            elif isinstance(n, ast.Attribute) and not isinstance(
                    getattr(n, "_parent", None), ast.Attribute):
                d = dotted(n)
                chain = n
                if d is None:
                    # innermost dotted prefix of a longer expression
                    continue
                check_chain(ctx, res, m, names, ex, n, d, al)
            elif isinstance(n, ast.Attribute):
                pass


def check_pkg_from(ctx, res, m, n, base):
    target = ctx.pkg.modules.get(base)
    for a in n.names:
        if a.name == "*":
            continue
        res.count("imported names")
        if base + "." + a.name in ctx.pkg.modules:
            res.ok("%s: %s.%s" % (m.rel, base, a.name))
            continue
        if target is None:
            if base.split(".")[0] == "graphicle":
                res.bad("imported names exist", m.rel, n.lineno, "<module>",
                        "package module %r does not exist" % base)
            continue
        gl, star = global_names(target)
        if a.name in gl or star:
            res.ok("%s: %s.%s" % (m.rel, base, a.name))
        else:
            res.bad("imported names exist", m.rel, n.lineno, "<module>",
                    "%s has no name %r" % (base, a.name))


def local_names(fn):
    out = {a.arg for a in fn.args.posonlyargs + fn.args.args + fn.args.kwonlyargs}
    for x in (fn.args.vararg, fn.args.kwarg):
        if x:
            out.add(x.arg)
    for n in walk_scope(fn):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.add(n.id)
    return out


def shadowed(node, head):
    n = node
    while n is not None:
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            loc = getattr(n, "_locals", None)
            if loc is None:
                loc = n._locals = local_names(n)
            if head in loc:
                return True
        elif isinstance(n, ast.Lambda):
            if head in {a.arg for a in n.args.args}:
                return True
        elif isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for g in n.generators:
                if any(isinstance(x, ast.Name) and x.id == head for x in ast.walk(g.target)):
                    return True
        n = getattr(n, "_parent", None)
    return False


def enclosing(node):
    f = node
    while f is not None and not isinstance(f, ast.FunctionDef):
        f = getattr(f, "_parent", None)
    return qualname(f) if f is not None else "<module>"


def guarded(node, attr):
    """Inside a try catching AttributeError, or under hasattr(...)."""
    n = node
    while n is not None:
        p = getattr(n, "_parent", None)
        if isinstance(p, ast.Try) and n in p.body:
            for h in p.handlers:
                t = ast.unparse(h.type) if h.type is not None else "BaseException"
                if any(x in t for x in ("AttributeError", "Exception", "NameError",
                                        "ImportError")):
                    return True
        if isinstance(p, (ast.If, ast.IfExp)) and "hasattr" in ast.unparse(p.test):
            return True
        n = p
    return False


def check_chain(ctx, res, m, names, ex, node, d, al):
    head, _, tail = d.partition(".")
    if head not in al or shadowed(node, head):
        return
    if m.name + "." + head in names.defs:
        return
    full = al[head] + "." + tail
    parts = full.split(".")
    top = parts[0]
    if top == "fastjet" or not ex.is_installed(top) and top != "graphicle":
        return
    mod = top
    k = 1
    if top == "graphicle":
        while k < len(parts):
            if mod + "." + parts[k] in ctx.pkg.modules:
                mod = mod + "." + parts[k]
                k += 1
                continue
            break
        if k >= len(parts) or mod not in ctx.pkg.modules:
            return
        gl, star = global_names(ctx.pkg.modules[mod])
        res.count("module attributes")
        name = parts[k]
        full = names.canon(mod + "." + name)
        if name in gl or star:
            tgt = names.defs.get(full)
            if tgt and isinstance(tgt[1], ast.ClassDef) and k + 1 < len(parts):
                if not has_attr(ctx, names, full, parts[k + 1]) and not guarded(node, parts[k + 1]):
                    res.bad("attributes exist", m.rel, node.lineno, enclosing(node),
                            "class %s has no attribute %r" % (tgt[1].name, parts[k + 1]))
                    return
            elif tgt is None and full.split(".")[0] == "graphicle" and ".".join(
                    full.split(".")[:-1]) in ctx.pkg.modules and k + 1 >= len(parts):
                pass
            res.ok("%s:%d %s" % (m.rel, node.lineno, d))
        elif not guarded(node, name):
            res.bad("module attributes exist", m.rel, node.lineno, enclosing(node),
                    "%s has no attribute %r" % (mod, name))
        return
    # walk into sub-packages while they are modules
    while k < len(parts):
        sub = mod + "." + parts[k]
        got, complete = ex.names(mod)
        if parts[k] in got:
            if ex.find(sub) is not None and not is_def(ex, mod, parts[k]):
                mod = sub
                k += 1
                continue
            res.count("module attributes")
            res.ok("%s:%d %s" % (m.rel, node.lineno, d))
            return
        res.count("module attributes")
        if not complete:
            res.unknown("%s:%d %s" % (m.rel, node.lineno, d))
        elif guarded(node, parts[k]):
            res.ok("%s:%d %s (guarded)" % (m.rel, node.lineno, d))
        else:
            res.bad("module attributes exist", m.rel, node.lineno, enclosing(node),
                    "module %s of the installed version has no attribute %r" % (
                        mod, parts[k]))
        return


def is_def(ex, mod, name):
    p = ex.find(mod)
    try:
        tree = ast.parse(open(p, encoding="utf-8", errors="replace").read())
    except (SyntaxError, TypeError):
        return False
    return any(isinstance(s, (ast.FunctionDef, ast.ClassDef)) and s.name == name
               for s in tree.body)


# ------------------------------------------------------- package attributes
def class_attrs(ctx, names, full, seen=None):
    """(names, complete) of a package class including its bases."""
    seen = set() if seen is None else seen
    if full in seen:
        return set(), True
    seen.add(full)
    m, c = names.defs[full]
    out, complete = set(dir(object)) | set(dir(type)) | {"__dict__", "__slots__"}, True
    for d, _ in decorator_info(names, m, c):
        if d and d.split(".")[-1] in ("define", "attrs", "s", "frozen", "mutable"):
            out |= {"__attrs_attrs__", "__attrs_init__", "__match_args__"}
    for s in c.body:
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            out.add(s.name)
        elif isinstance(s, ast.Assign):
            for t in s.targets:
                for n in ast.walk(t):
                    if isinstance(n, ast.Name):
                        out.add(n.id)
        elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
            out.add(s.target.id)
        elif not isinstance(s, (ast.Expr, ast.Pass)):
            for n in ast.walk(s):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    out.add(n.id)
                elif isinstance(n, ast.FunctionDef):
                    out.add(n.name)
    for n in ast.walk(c):
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(
                n.value, ast.Name) and n.value.id in ("self", "cls"):
            out.add(n.attr)
        if isinstance(n, ast.Call) and dotted(n.func) in ("setattr", "object.__setattr__") \
                and len(n.args) > 1:
            if isinstance(n.args[1], ast.Constant):
                out.add(n.args[1].value)
            elif dotted(n.args[0]) in ("self", "cls"):
                complete = False
    if "__getattr__" in out or "__getattribute__" in {
            s.name for s in c.body if isinstance(s, ast.FunctionDef)}:
        complete = False
    for k in c.keywords:
        if k.arg == "metaclass":
            complete = complete and (names.full(m, k.value) or "").endswith("ABCMeta")
    for b in c.bases:
        e = b.value if isinstance(b, ast.Subscript) else b
        f = names.full(m, e)
        if f in names.defs and isinstance(names.defs[f][1], ast.ClassDef):
            o, k = class_attrs(ctx, names, f, seen)
            out |= o
            complete = complete and k
        else:
            a = ext_attrs(f)
            if a is None:
                complete = False
            else:
                out |= a
    return out, complete


def ext_attrs(full):
    if full is None:
        return None
    mod, _, name = full.rpartition(".")
    if full == "numpy.lib.mixins.NDArrayOperatorsMixin":
        ops = ("add sub mul matmul truediv floordiv mod divmod pow lshift rshift "
               "and xor or").split()
        out = {"__lt__", "__le__", "__eq__", "__ne__", "__gt__", "__ge__",
               "__neg__", "__pos__", "__abs__", "__invert__", "__array_ufunc__"}
        for o in ops:
            out |= {"__%s__" % o, "__r%s__" % o, "__i%s__" % o}
        return out
    if not mod:
        return set(dir(getattr(builtins, name))) if hasattr(builtins, name) else None
    top = mod.split(".")[0]
    import sys
    if top in sys.stdlib_module_names:
        try:
            return set(dir(getattr(__import__(mod, fromlist=["x"]), name)))
        except (ImportError, AttributeError):
            return None
    if top == "typing_extensions" and name in ("Protocol", "NamedTuple", "Generic",
                                               "TypedDict"):
        import typing
        return set(dir(getattr(typing, name)))
    return None


def has_attr(ctx, names, full, attr):
    got, complete = class_attrs(ctx, names, full)
    if attr in got or not complete:
        return True
    if attr.startswith("_") and any(g.endswith(attr) for g in got):
        return True
    return False


def own_attributes(ctx, res, names):
    for m, fn in ctx.pkg.functions():
        c = fn._parent
        env = {}
        if isinstance(c, ast.ClassDef):
            decos = [d.split(".")[-1] for d, _ in decorator_info(names, m, fn) if d]
            if "staticmethod" not in decos and fn.args.args:
                env[fn.args.args[0].arg] = names.full(m, c.name)
        for a in fn.args.args + fn.args.kwonlyargs + fn.args.posonlyargs:
            if a.annotation is None:
                continue
            t = a.annotation
            if isinstance(t, ast.Constant) and isinstance(t.value, str):
                try:
                    t = ast.parse(t.value, mode="eval").body
                except SyntaxError:
                    continue
            if isinstance(t, ast.Subscript):
                f0 = names.full(m, t.value) or ""
                t = t.slice if f0.split(".")[-1] == "Optional" else t.value
            f = names.full(m, t)
            if f and f not in names.defs and "graphicle.data." + f in names.defs:
                f = "graphicle.data." + f
            if f in names.defs and isinstance(names.defs[f][1], ast.ClassDef):
                if names.defs[f][0].name.endswith("base"):
                    continue
                env[a.arg] = f
        stored = {n.id for n in ast.walk(fn) if isinstance(n, ast.Name) and
                  isinstance(n.ctx, (ast.Store, ast.Del))}
        for x in list(env):
            if x in stored:
                del env[x]
        # isinstance tests may narrow to something else
        for n in ast.walk(fn):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in (
                    "isinstance", "hasattr", "issubclass") and n.args and isinstance(
                        n.args[0], ast.Name) and n.args[0].id in env and \
                    n.args[0].id not in ("self", "cls"):
                env.pop(n.args[0].id)
        for n in ast.walk(fn):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and \
                    n.value.id in env and isinstance(n.ctx, (ast.Load, ast.Del)):
                full = env[n.value.id]
                if full not in names.defs:
                    continue
                abstract = any((names.full(names.defs[full][0], b.value if isinstance(
                    b, ast.Subscript) else b) or "").split(".")[-1] in (
                        "ABC", "Protocol") for b in names.defs[full][1].bases)
                attr = n.attr
                if attr.startswith("__") and not attr.endswith("__"):
                    attr = "_%s%s" % (c.name.lstrip("_") if isinstance(
                        c, ast.ClassDef) else "", attr)
                res.count("attributes of package classes")
                if has_attr(ctx, names, full, attr) or has_attr(ctx, names, full, n.attr):
                    res.ok("%s:%d %s.%s" % (m.rel, n.lineno, n.value.id, n.attr))
                elif abstract or guarded(n, attr) or sub_has(ctx, names, full, n.attr):
                    res.ok("%s:%d %s.%s (subclass or guarded)" % (
                        m.rel, n.lineno, n.value.id, n.attr))
                else:
                    res.bad("attributes exist", m.rel, n.lineno, qualname(fn),
                            "%s has no attribute %r" % (
                                full.replace("graphicle.", ""), n.attr))


def sub_has(ctx, names, full, attr):
    for k, (m, c) in names.defs.items():
        if isinstance(c, ast.ClassDef) and k != full:
            for b in c.bases:
                e = b.value if isinstance(b, ast.Subscript) else b
                if names.full(m, e) == full and has_attr(ctx, names, k, attr):
                    return True
    return False


# -------------------------------------------------------- calls that bind
def calls_bind(ctx, res, names):
    for m in ctx.pkg.modules.values():
        for n in ast.walk(m.tree):
            if not isinstance(n, ast.Call):
                continue
            head = dotted(n.func)
            if head is None or shadowed(n, head.split(".")[0]) and not \
                    head.startswith(("self.", "cls.")):
                continue
            got = names.func(m, n.func)
            skip = 0
            if got is None and head.startswith(("self.", "cls.")) and head.count(".") == 1:
                c = n
                while c is not None and not isinstance(c, ast.ClassDef):
                    c = getattr(c, "_parent", None)
                if c is None:
                    continue
                got = method_of(names, names.full(m, c.name), head.split(".")[1])
                if got is None:
                    continue
                decos = [d.split(".")[-1] for d, _ in decorator_info(names, got[0], got[1]) if d]
                if "property" in decos or "cached_property" in decos:
                    continue
                skip = 0 if "staticmethod" in decos else 1
                if head.startswith("cls.") and skip and "classmethod" not in decos:
                    skip = 0
            if got is None:
                continue
            m2, f2 = got
            if any(d and d.split(".")[-1] in ("vectorize", "overload", "lru_cache", "deprecated")
                   or d is None for d, _ in decorator_info(names, m2, f2)):
                pass
            if any(isinstance(a, ast.Starred) for a in n.args) or any(
                    k.arg is None for k in n.keywords):
                continue
            if isinstance(f2._parent, ast.ClassDef) and not skip and "." in head and \
                    not head.startswith(("self.", "cls.")):
                decos = [d.split(".")[-1] for d, _ in decorator_info(names, m2, f2) if d]
                if "classmethod" in decos:
                    skip = 1
            res.count("calls of package functions")
            msg = binds(f2, len(n.args) + skip, [k.arg for k in n.keywords])
            if msg is None:
                res.ok("%s:%d %s" % (m.rel, n.lineno, head))
            else:
                res.bad("calls of package functions bind", m.rel, n.lineno,
                        enclosing(n), "call of %s: %s" % (f2.name, msg))


def method_of(names, full, name):
    d = names.defs.get(full)
    if d is None:
        return None
    for s in d[1].body:
        if isinstance(s, ast.FunctionDef) and s.name == name:
            return d[0], s
    for b in d[1].bases:
        e = b.value if isinstance(b, ast.Subscript) else b
        f = names.full(d[0], e)
        if f in names.defs:
            r = method_of(names, f, name)
            if r:
                return r
    return None


def binds(fn, npos, kws):
    a = fn.args
    pars = [p.arg for p in a.posonlyargs + a.args]
    if npos > len(pars) and not a.vararg:
        return "takes %d positional arguments, %d given" % (len(pars), npos)
    bound = set(pars[:npos])
    allowed = {p.arg for p in a.args + a.kwonlyargs}
    for k in kws:
        if k in bound:
            return "argument %r given twice" % k
        if k not in allowed and not a.kwarg:
            return "no parameter named %r" % k
        bound.add(k)
    nd = len(a.defaults)
    for p in pars[:len(pars) - nd]:
        if p not in bound:
            return "missing argument %r" % p
    for p, d in zip(a.kwonlyargs, a.kw_defaults):
        if d is None and p.arg not in bound:
            return "missing argument %r" % p.arg
    return None


# ------------------------------------------------------ definite assignment
class DA:
    """Paths carry (bound names, maybe-bound-by-loop names, conditions)."""
    MAX = 128

    def __init__(self, fn, res, m):
        self.fn, self.res, self.m = fn, res, m
        self.locals = local_names(fn) - {n for x in walk_scope(fn) if isinstance(
            x, (ast.Global, ast.Nonlocal)) for n in x.names}
        for n in walk_scope(fn):
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                self.locals.add(n.name)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                for a in n.names:
                    self.locals.add(a.asname or a.name.split(".")[0])
            elif isinstance(n, ast.ExceptHandler) and n.name:
                self.locals.add(n.name)
            elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
                self.locals.add(n.name)
        comp = set()
        for n in walk_scope(fn):
            if isinstance(n, ast.comprehension):
                for x in ast.walk(n.target):
                    if isinstance(x, ast.Name):
                        comp.add(x.id)
        real = set()
        for n in walk_scope(fn):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                a, inside = n, False
                while a is not fn:
                    p = a._parent
                    if isinstance(p, ast.comprehension) and a is p.target:
                        inside = True
                    a = p
                if not inside:
                    real.add(n.id)
        self.comp_only = comp - real
        self.locals -= self.comp_only
        self.nuses = 0
        self.reported = set()
        a = fn.args
        self.start = frozenset(
            [p.arg for p in a.posonlyargs + a.args + a.kwonlyargs] +
            [x.arg for x in (a.vararg, a.kwarg) if x])

    def run(self):
        self.block(self.fn.body, [(self.start, frozenset(), ())])
        return self

    # path: (bound, maybe, conds)
    def use(self, e, paths, bound_extra=frozenset()):
        """Check reads in an expression, return paths after walrus stores."""
        if e is None:
            return paths
        stores = set()
        for n in self.loads(e):
            if isinstance(n, ast.Name):
                if isinstance(n.ctx, ast.Store):
                    stores.add(n.id)
                    continue
                if n.id in self.locals and n.id not in stores and not self.in_comp(n, e):
                    self.nuses += 1
                    self.check(n, paths)
        if stores:
            paths = [(b | stores, m, c) for b, m, c in paths]
        return paths

    def in_comp(self, n, root):
        a = n
        while a is not root and a is not None:
            p = getattr(a, "_parent", None)
            if isinstance(p, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                for g in p.generators:
                    if any(isinstance(x, ast.Name) and x.id == n.id for x in ast.walk(g.target)):
                        return True
            if isinstance(p, ast.Lambda) and n.id in {x.arg for x in p.args.args}:
                return True
            a = p
        return False

    def loads(self, e):
        """Names evaluated now (not inside lambda bodies), roughly in order."""
        if isinstance(e, ast.Lambda):
            for d in e.args.defaults + [x for x in e.args.kw_defaults if x]:
                yield from self.loads(d)
            return
        if isinstance(e, ast.Name):
            yield e
            return
        if isinstance(e, ast.NamedExpr):
            yield from self.loads(e.value)
            yield e.target
            return
        if isinstance(e, (ast.BoolOp, ast.IfExp)):
            # short circuits: only the first operand is surely evaluated
            if isinstance(e, ast.IfExp):
                yield from self.loads(e.test)
                return
            yield from self.loads(e.values[0])
            return
        if isinstance(e, ast.GeneratorExp):
            yield from self.loads(e.generators[0].iter)
            return
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.DictComp)):
            yield from self.loads(e.generators[0].iter)
            return
        for c in ast.iter_child_nodes(e):
            if isinstance(c, (ast.expr, ast.keyword, ast.slice)):
                yield from self.loads(c)

    def check(self, n, paths):
        if n.id in self.reported:
            return
        bad = [p for p in paths if n.id not in p[0]]
        if not bad:
            return
        if all(n.id in p[1] for p in bad):
            self.res.unknown("%s:%d %s may be unbound if a loop runs zero times" % (
                self.m.rel, n.lineno, n.id))
            return
        p = next(p for p in bad if n.id not in p[1])
        self.reported.add(n.id)
        cond = ", ".join("%s is %s" % (c, v) for c, v in p[2] if not c.startswith("%"))
        self.res.bad("locals are bound before use", self.m.rel, n.lineno,
                     qualname(self.fn), "local variable %r is not bound on the path%s" % (
                         n.id, (" where " + cond) if cond else " reaching this line"))

    def norm(self, paths):
        seen, out = set(), []
        for p in paths:
            if p not in seen:
                seen.add(p)
                out.append(p)
        if len(out) > self.MAX:
            # merge: forget conditions; names bound on some path only become
            # maybe-bound (never reported)
            b = frozenset.intersection(*[p[0] for p in out])
            mb = frozenset.union(*[p[0] | p[1] for p in out])
            out = [(b, mb, ())]
        return out

    def store(self, target, paths):
        names = {n.id for n in ast.walk(target) if isinstance(n, ast.Name) and
                 isinstance(n.ctx, (ast.Store,))}
        for n in ast.walk(target):
            if isinstance(n, (ast.Subscript, ast.Attribute)):
                paths = self.use(n.value, paths)
                if isinstance(n, ast.Subscript):
                    paths = self.use(n.slice, paths)
        return self.bind(names, paths)

    def bind(self, names, paths):
        names = set(names)
        if not names:
            return paths
        return self.norm([(b | names, mb, tuple(
            (c, v) for c, v in cs if not (set(self.cnames(c)) & names)))
            for b, mb, cs in paths])

    _cn = {}

    def cnames(self, c):
        r = self._cn.get(c)
        if r is None:
            try:
                r = tuple({n.id for n in ast.walk(ast.parse(c.lstrip("%"), mode="eval"))
                           if isinstance(n, ast.Name)})
            except SyntaxError:
                r = ()
            self._cn[c] = r
        return r

    def block(self, stmts, paths):
        """Returns fall-through paths; break/continue go to self.loops."""
        for s in stmts:
            if not paths:
                return []
            paths = self.norm(self.stmt(s, paths))
        return paths

    def literals(self, t, val):
        """Facts implied by test t being val: list of (cond, value)."""
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            return self.literals(t.operand, not val)
        if isinstance(t, ast.BoolOp):
            if isinstance(t.op, ast.And) == val:
                out = []
                for x in t.values:
                    out.extend(self.literals(x, val))
                return out
            return [(ast.unparse(t), val)]
        if isinstance(t, ast.Compare) and len(t.ops) == 1:
            neg = {ast.IsNot: ast.Is, ast.NotEq: ast.Eq, ast.NotIn: ast.In,
                   ast.GtE: ast.Lt, ast.LtE: ast.Gt}.get(type(t.ops[0]))
            if neg is not None:
                c = ast.Compare(t.left, [neg()], t.comparators)
                return [(ast.unparse(c), not val)]
        return [(ast.unparse(t), val)]

    def evalc(self, t, cs):
        """Truth of t under known facts, or None."""
        if isinstance(t, ast.Constant):
            return bool(t.value)
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            r = self.evalc(t.operand, cs)
            return None if r is None else not r
        if isinstance(t, ast.BoolOp):
            rs = [self.evalc(x, cs) for x in t.values]
            if isinstance(t.op, ast.And):
                if False in rs:
                    return False
                if all(r is True for r in rs):
                    return True
            else:
                if True in rs:
                    return True
                if all(r is False for r in rs):
                    return False
        ((c, v),) = self.literals(t, True)[:1] if len(self.literals(t, True)) == 1 else (
            (ast.unparse(t), True),)
        for k, w in cs:
            if k == c:
                return w == v
        return None

    def split(self, test, paths):
        a, b = [], []
        pure = not any(isinstance(x, (ast.Call, ast.NamedExpr, ast.Await)) for x in ast.walk(
            test)) or all(isinstance(x.func, ast.Name) and x.func.id in (
                "isinstance", "len", "callable", "issubclass", "hasattr", "type", "bool")
                for x in ast.walk(test) if isinstance(x, ast.Call))
        for p in paths:
            r = self.evalc(test, p[2]) if pure else None
            for val, out in ((True, a), (False, b)):
                if r is not None and r is not val:
                    continue
                cs = p[2]
                if r is None:
                    facts = self.literals(test, val) if pure else [
                        ("%" + ast.unparse(test), val)]
                    cs = tuple(sorted(set(cs) | set(facts)))
                out.append((p[0], p[1], cs))
        return a, b

    def stmt(self, s, paths):
        t = type(s)
        if t in (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef):
            for d in s.decorator_list:
                paths = self.use(d, paths)
            if t is not ast.ClassDef:
                for d in s.args.defaults + [x for x in s.args.kw_defaults if x]:
                    paths = self.use(d, paths)
            return self.bind({s.name}, paths)
        if t in (ast.Import, ast.ImportFrom):
            return self.bind({a.asname or a.name.split(".")[0] for a in s.names}, paths)
        if t is ast.Return:
            self.use(s.value, paths)
            return []
        if t is ast.Raise:
            self.use(s.exc, paths)
            return []
        if t is ast.Assign:
            paths = self.use(s.value, paths)
            for x in s.targets:
                paths = self.store(x, paths)
            return paths
        if t is ast.AnnAssign:
            if s.value is None:
                return paths
            paths = self.use(s.value, paths)
            return self.store(s.target, paths)
        if t is ast.AugAssign:
            paths = self.use(s.value, paths)
            if isinstance(s.target, ast.Name):
                if s.target.id in self.locals:
                    self.nuses += 1
                    self.check(s.target, paths)
                return self.bind({s.target.id}, paths)
            return self.store(s.target, paths)
        if t is ast.Delete:
            for x in s.targets:
                if isinstance(x, ast.Name):
                    self.check(x, paths)
                    paths = [(b - {x.id}, mb - {x.id}, c) for b, mb, c in paths]
                else:
                    paths = self.use(x, paths)
            return paths
        if t is ast.If:
            paths = self.use(s.test, paths)
            a, b = self.split(s.test, paths)
            return self.block(s.body, a) + self.block(s.orelse, b)
        if t in (ast.For, ast.AsyncFor, ast.While):
            return self.loop(s, paths)
        if t in (ast.With, ast.AsyncWith):
            for i in s.items:
                paths = self.use(i.context_expr, paths)
                if i.optional_vars is not None:
                    paths = self.store(i.optional_vars, paths)
            sup = any("suppress" in ast.unparse(i.context_expr) for i in s.items)
            out = self.block(s.body, paths)
            return out + paths if sup else out
        if t is ast.Try or t.__name__ == "TryStar":
            return self.try_(s, paths)
        if t is ast.Match:
            return self.match(s, paths)
        if t is ast.Break:
            if self.loops:
                self.loops[-1][0].extend(paths)
            return []
        if t is ast.Continue:
            if self.loops:
                self.loops[-1][1].extend(paths)
            return []
        if t is ast.Assert:
            paths = self.use(s.test, paths)
            a, _ = self.split(s.test, paths)
            return a
        if t in (ast.Global, ast.Nonlocal, ast.Pass):
            return paths
        for c in ast.iter_child_nodes(s):
            if isinstance(c, ast.expr):
                paths = self.use(c, paths)
        return paths

    loops = ()

    def loop(self, s, paths):
        forever = False
        if isinstance(s, ast.While):
            paths = self.use(s.test, paths)
            forever = isinstance(s.test, ast.Constant) and bool(s.test.value)
        else:
            paths = self.use(s.iter, paths)
        stored = {n.id for b in s.body for n in ast.walk(b) if isinstance(n, ast.Name)
                  and isinstance(n.ctx, ast.Store)}
        if not isinstance(s, ast.While):
            stored |= {n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)}
        drop = lambda ps: [(b, mb, tuple((c, v) for c, v in cs  # noqa: E731
                                         if not set(self.cnames(c)) & stored)) for b, mb, cs in ps]
        self.loops = list(self.loops) + [([], [])]
        ent = drop(paths)
        if not isinstance(s, ast.While):
            ent = self.store(s.target, ent)
        body = self.block(s.body, ent)
        brk, cont = self.loops[-1]
        self.loops = self.loops[:-1]
        after = body + cont
        zero = [] if forever else drop(paths)
        static = isinstance(s, ast.For) and self.nonempty(s.iter)
        out = []
        if not forever:
            for p in after:
                out.append(p)
            if not static:
                # names bound in every iteration are maybe bound
                some = frozenset.intersection(*[p[0] for p in after]) if after else frozenset()
                for b, mb, c in zero:
                    out.append((b, mb | some | (frozenset().union(
                        *[p[0] for p in brk]) if brk else frozenset()), c))
        if s.orelse:
            out = self.block(s.orelse, self.norm(drop(out)))
        return self.norm(drop(out + brk))

    def nonempty(self, it):
        return isinstance(it, (ast.Tuple, ast.List)) and bool(it.elts)

    def simple(self, s):
        return isinstance(s, ast.Assign) and isinstance(s.value, (ast.Constant, ast.Name)) or \
            isinstance(s, ast.Pass)

    def try_(self, s, paths):
        entry = list(paths)
        k = 0
        while k < len(s.body) and self.simple(s.body[k]):
            entry = self.norm(self.stmt(s.body[k], entry))
            k += 1
        mid = list(entry)
        cur = entry
        for st in s.body[k:]:
            if not cur:
                break
            cur = self.norm(self.stmt(st, cur))
            if st is not s.body[-1]:
                mid = mid + cur
        body = cur
        hs = self.norm(mid)
        out = self.block(s.orelse, body) if s.orelse else body
        for h in s.handlers:
            ps = hs
            if h.name:
                ps = self.bind({h.name}, ps)
            r = self.block(h.body, ps)
            if h.name:
                r = [(b - {h.name}, mb - {h.name}, c) for b, mb, c in r]
            out = out + r
        if s.finalbody:
            # the exceptional entry is checked too, but never falls through
            self.block(s.finalbody, hs)
            out = self.block(s.finalbody, self.norm(out))
        return out

    def match(self, s, paths):
        paths = self.use(s.subject, paths)
        out = []
        wild = False
        for c in s.cases:
            names = {n.name for n in ast.walk(c.pattern) if isinstance(
                n, (ast.MatchAs, ast.MatchStar)) and n.name} | {
                    n.rest for n in ast.walk(c.pattern) if isinstance(
                        n, ast.MatchMapping) and n.rest}
            ps = self.bind(names, paths)
            if c.guard is not None:
                ps = self.use(c.guard, ps)
            out += self.block(c.body, ps)
            if c.guard is None and isinstance(c.pattern, ast.MatchAs) and c.pattern.pattern is None:
                wild = True
        return out + ([] if wild else paths)


def definite(ctx, res):
    for m, fn in ctx.pkg.functions():
        res.count("functions checked for definite assignment")
        before = len(res.findings)
        d = DA(fn, res, m).run()
        res.count("uses of locals", d.nuses)
        if len(res.findings) == before:
            res.ok("%s: %d uses of locals bound" % (qualname(fn), d.nuses))


# --------------------------------------------------------- typed attributes
def typed_attributes(ctx, res, names):
    """Attribute accesses which pyright types as a concrete package class and
    which do not exist according to our own class tables."""
    import json
    import re
    import shutil
    import subprocess
    from ..loader import REPO, PKG
    exe = shutil.which("pyright")
    if exe is None:
        res.notes.append("pyright is not available: typed attribute pass skipped")
        return
    try:
        p = subprocess.run([exe, "--pythonpath", "/opt/venv/bin/python",
                            "--outputjson", PKG], cwd=REPO,
                           capture_output=True, text=True, timeout=200)
        out = json.loads(p.stdout)
    except Exception as e:        # the tool gave no answer
        res.notes.append("pyright gave no answer (%s)" % type(e).__name__)
        return
    res.count("files typed by pyright", out["summary"]["filesAnalyzed"])
    byfile = {m.path: m for m in ctx.pkg.modules.values()}
    for d in out["generalDiagnostics"]:
        if d.get("rule") != "reportAttributeAccessIssue":
            continue
        g = re.match(r'Cannot (?:access|assign to) attribute "(\w+)" for class '
                     r'"(?:type\[)?(\w+)(\[[^"]*\])?\*?\]?"', d["message"])
        if not g or "is unknown" not in d["message"]:
            continue
        attr, cls = g.group(1), g.group(2)
        full = "graphicle.data." + cls
        if full not in names.defs or "subclass of" in d["message"]:
            continue
        m = byfile.get(d["file"])
        line = d["range"]["start"]["line"] + 1
        if m is None or has_attr(ctx, names, full, attr):
            continue
        node = None
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute) and n.attr == attr and \
                    n.lineno <= line <= n.end_lineno:
                node = n
        if node is None or guarded(node, attr) or sub_has(ctx, names, full, attr):
            continue
        res.bad("attributes exist", m.rel, line, enclosing(node),
                "%s has no attribute %r" % (cls, attr))
    res.ok("typed attribute accesses of %d files" % out["summary"]["filesAnalyzed"])


def run(ctx):
    res = Result(__doc__)
    names = Names(ctx.pkg)
    ex = Exports()
    if not ex.sites:
        res.notes.append("no site-packages directory found")
    for m in ctx.pkg.modules.values():
        undefined(ctx, res, m)
    externals(ctx, res, names, ex)
    own_attributes(ctx, res, names)
    calls_bind(ctx, res, names)
    definite(ctx, res)
    typed_attributes(ctx, res, names)
    return res
