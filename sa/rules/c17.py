"""C17: import-effect reachability.

Every statement which imports fastjet (import statements, importlib, and
__import__ with a constant name) is attributed to the code which executes it:
a module initialiser or a function.  It must not be reachable from any module
initialiser, nor in the call graph from any public entry point other than
select.fastjet_clusters.
"""
import ast

from ..loader import AnalysisBroken, qualname
from . import Result
from .astutil import Names, dotted

TARGET = "fastjet"
ENTRY = "fastjet_clusters"


def is_target(name):
    return name is not None and (name == TARGET or name.startswith(TARGET + "."))


def type_checking(node, names, m):
    """Is the statement inside ``if TYPE_CHECKING:``?"""
    n = node
    while n is not None:
        p = getattr(n, "_parent", None)
        if isinstance(p, ast.If) and n in p.body:
            f = names.full(m, p.test) or ""
            if f.split(".")[-1] == "TYPE_CHECKING":
                return True
        n = p
    return False


def owner(node):
    """Innermost function whose execution runs ``node`` (None: import time)."""
    n = node
    while True:
        p = getattr(n, "_parent", None)
        if p is None:
            return None
        if isinstance(p, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
            inside = p.body if isinstance(p.body, list) else [p.body]
            if n in inside:
                return p
        n = p


def imports(names, m):
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Import):
            for a in n.names:
                yield n, a.name
        elif isinstance(n, ast.ImportFrom) and not n.level:
            yield n, n.module
        elif isinstance(n, ast.Call):
            f = names.full(m, n.func) or ""
            if f.split(".")[-1] in ("import_module", "__import__", "lazy_import",
                                    "importorskip", "LazyLoader") and n.args and \
                    isinstance(n.args[0], ast.Constant) and isinstance(
                        n.args[0].value, str):
                yield n, n.args[0].value


def run(ctx):
    res = Result(__doc__)
    pkg = ctx.pkg
    names = Names(pkg)
    entry = None
    for m, fn in pkg.functions():
        if fn.name == ENTRY and isinstance(fn._parent, ast.Module):
            entry = (m, fn)
    if entry is None:
        raise AnalysisBroken("select.%s has vanished" % ENTRY)
    sites = []
    nimp = 0
    for m in pkg.modules.values():
        for n, name in imports(names, m):
            nimp += 1
            if is_target(name) and not type_checking(n, names, m):
                sites.append((m, n, owner(n)))
    # modules of the package executed by ``import graphicle``
    local = []
    for m in pkg.modules.values():
        for n in ast.walk(m.tree):
            tg = []
            if isinstance(n, ast.Import):
                tg = [a.name for a in n.names]
            elif isinstance(n, ast.ImportFrom):
                base = names.resolve_from(m, n)
                tg = [base] + [base + "." + a.name for a in n.names]
            for t in tg:
                for k in range(1, t.count(".") + 2):
                    pre = ".".join(t.split(".")[:k])
                    if pre in pkg.modules and not type_checking(n, names, m):
                        local.append((m, n, owner(n), pre))
    eager, work = set(), ["graphicle"]
    while work:
        x = work.pop()
        if x in eager:
            continue
        eager.add(x)
        work.extend(t for m, n, own, t in local if m.name == x and own is None)
    done = set()
    k = 0
    while k < len(sites):
        m, n, own = sites[k]
        if own is None and m.name not in eager and m.name not in done:
            done.add(m.name)
            sites.extend((m2, n2, o2) for m2, n2, o2, t in local if t == m.name)
        k += 1
    sites = [x for x in sites if not (x[2] is None and x[0].name not in eager)]
    res.count("modules imported eagerly", len(eager))
    res.count("import statements", nimp)
    res.count("fastjet imports", len(sites))
    # ------------------------------------------------ name based call graph
    by_name, info = {}, {}
    for m, fn in pkg.functions():
        info[id(fn)] = (m, fn)
        by_name.setdefault(fn.name, []).append(fn)

    def mentions(nodes, m):
        """Functions possibly called by the given nodes."""
        out = []
        for root in nodes:
            for x in ast.walk(root):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
                    got = names.func(m, x)
                    if got:
                        out.append((got[1], x))
                    else:
                        out.extend((f, x) for f in by_name.get(x.id, ())
                                   if not isinstance(f._parent, (ast.Module, ast.ClassDef)))
                elif isinstance(x, ast.Attribute):
                    got = names.func(m, x)
                    if got:
                        out.append((got[1], x))
                    else:
                        full = names.full(m, x) or ""
                        if full.split(".")[0] in ("numpy", "scipy", "numba", "awkward"):
                            continue
                        out.extend((f, x) for f in by_name.get(x.attr, ())
                                   if isinstance(f._parent, ast.ClassDef))
        return out

    def reach(start):
        seen, work, via = set(), list(start), {}
        for f in start:
            via[id(f)] = None
        while work:
            f = work.pop()
            if id(f) in seen:
                continue
            seen.add(id(f))
            m, fn = info.get(id(f), (None, f))
            if m is None:
                m = mod_of[id(f)]
            body = fn.body if isinstance(fn.body, list) else [fn.body]
            for g, x in mentions(body, m):
                if id(g) not in via:
                    via[id(g)] = f
                work.append(g)
        return seen, via

    def chain(via, f):
        out = []
        while f is not None:
            out.append(getattr(f, "name", "<lambda>"))
            f = via.get(id(f))
        return " <- ".join(out)

    mod_of = {}
    for m in pkg.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Lambda):
                mod_of[id(n)] = m
    # code executed by the module initialisers: calls at import time
    roots_init = []
    for m in pkg.modules.values():
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Call) and owner(x) is None and not type_checking(x, names, m):
                got = names.func(m, x.func)
                if got:
                    roots_init.append(got[1])
            elif isinstance(x, (ast.FunctionDef, ast.ClassDef)) and owner(x) is None:
                for d in x.decorator_list:
                    got = names.func(m, d)
                    if got:
                        roots_init.append(got[1])
    reach_init, via_init = reach(roots_init)
    # public entry points other than the one which may need it
    publics = []
    for m, fn in pkg.functions():
        if fn is entry[1]:
            continue
        p = fn._parent
        if isinstance(p, ast.ClassDef):
            pub = not p.name.startswith("_") and (
                not fn.name.startswith("_") or fn.name.endswith("__"))
        elif isinstance(p, ast.Module):
            pub = not fn.name.startswith("_")
        else:
            continue
        if pub:
            publics.append(fn)
    res.count("public entry points", len(publics))
    reach_pub, via_pub = reach(publics)
    res.count("reachable functions", len(reach_pub))
    for m, n, own in sites:
        where = "%s line %d" % (m.rel, n.lineno)
        if own is None:
            res.bad("no import of fastjet at import time", m.rel, n.lineno,
                    "<module>", "importing %s imports fastjet" % m.name)
            continue
        q = qualname(own) if not isinstance(own, ast.Lambda) else "<lambda>"
        outer = own
        while not isinstance(outer._parent, (ast.Module, ast.ClassDef)) and \
                outer._parent is not None:
            outer = outer._parent
        if own is entry[1] or outer is entry[1]:
            if id(entry[1]) not in reach_pub and id(entry[1]) not in reach_init:
                res.ok("%s: in %s only" % (where, q))
                continue
        if own.__class__ is ast.FunctionDef and own.name == "__getattr__" and \
                isinstance(own._parent, ast.Module):
            res.unknown("%s: module __getattr__" % where)
            continue
        if id(own) in reach_init:
            res.bad("no import of fastjet at import time", m.rel, n.lineno, q,
                    "the import is executed while a module of the package is "
                    "imported (%s)" % chain(via_init, own))
        elif id(own) in reach_pub:
            res.bad("fastjet is only imported by fastjet_clusters", m.rel,
                    n.lineno, q, "the import is reachable from another public "
                    "entry point (%s)" % chain(via_pub, own))
        else:
            res.ok("%s: in %s, only reached from fastjet_clusters" % (where, q))
    # graph obligations: every public entry point was checked
    for f in publics:
        res.ok("entry point %s" % qualname(f))
    if not sites:
        res.notes.append("no import of fastjet was found at all")
        res.unknown("no import of fastjet found")
    return res
