"""Helpers over the package's syntax trees."""
import ast

from ..loader import qualname, PKG


def dotted(e):
    """'a.b.c' of a Name/Attribute chain or None."""
    parts = []
    while isinstance(e, ast.Attribute):
        parts.append(e.attr)
        e = e.value
    if isinstance(e, ast.Name):
        parts.append(e.id)
        return ".".join(reversed(parts))
    return None


class Names:
    """Import aliases and top-level definitions of every module."""

    def __init__(self, pkg):
        self.pkg = pkg
        self.alias = {}      # module -> local name -> dotted external/pkg name
        self.defs = {}       # dotted function/class name -> (module, node)
        self.methods = {}    # method name -> [(module, class node, node)]
        for m in pkg.modules.values():
            al = self.alias[m.name] = {}
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Import):
                    for a in n.names:
                        if a.asname:
                            al[a.asname] = a.name
                        else:
                            al[a.name.split(".")[0]] = a.name.split(".")[0]
                elif isinstance(n, ast.ImportFrom):
                    base = self.resolve_from(m, n)
                    for a in n.names:
                        al[a.asname or a.name] = (base + "." + a.name) if base else a.name
            for s in self._top(m.tree.body):
                if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    self.defs[m.name + "." + s.name] = (m, s)
                elif isinstance(s, ast.ClassDef):
                    self.defs[m.name + "." + s.name] = (m, s)
                    for k in s.body:
                        if isinstance(k, (ast.FunctionDef, ast.AsyncFunctionDef)):
                            self.methods.setdefault(k.name, []).append((m, s, k))

    def _top(self, body):
        for s in body:
            if isinstance(s, (ast.If, ast.Try, ast.With)):
                for f in ("body", "orelse", "finalbody"):
                    yield from self._top(getattr(s, f, []) or [])
                for h in getattr(s, "handlers", []):
                    yield from self._top(h.body)
            else:
                yield s

    def resolve_from(self, m, n):
        if not n.level:
            return n.module or ""
        parts = m.name.split(".")
        is_pkg = m.path.endswith("__init__.py")
        up = n.level - (1 if is_pkg else 0)
        if up:
            parts = parts[:-up]
        if n.module:
            parts += n.module.split(".")
        return ".".join(parts)

    def full(self, m, e, seen=0):
        """Fully qualified dotted name of an expression, or None."""
        d = e if isinstance(e, str) else dotted(e)
        if d is None:
            return None
        head, _, tail = d.partition(".")
        al = self.alias[m.name]
        if m.name + "." + head in self.defs:
            full = m.name + "." + d
        elif head in al:
            full = al[head] + ("." + tail if tail else "")
        else:
            full = d
        return self.canon(full)

    def canon(self, full, depth=0):
        """Follow re-exports inside the package."""
        if full in self.defs or depth > 6 or not full.startswith(PKG):
            return full
        parts = full.split(".")
        for k in range(len(parts) - 1, 0, -1):
            mod = ".".join(parts[:k])
            if mod in self.pkg.modules:
                al = self.alias[mod]
                nm = parts[k]
                if nm in al:
                    new = al[nm] + "".join("." + p for p in parts[k + 1:])
                    if new != full:
                        return self.canon(new, depth + 1)
                break
        return full

    def func(self, m, e):
        """(module, FunctionDef) for an expression naming a package function."""
        f = self.full(m, e)
        if f is None:
            return None
        got = self.defs.get(f)
        if got and isinstance(got[1], ast.FunctionDef):
            return got
        return None


def decorator_info(names, m, fn):
    """List of (full name, Call node or None) of the decorators."""
    out = []
    for d in fn.decorator_list:
        c = d if isinstance(d, ast.Call) else None
        out.append((names.full(m, d.func if c else d), c))
    return out


def jit_kind(names, m, fn):
    """None, 'njit', 'parallel' or 'vectorize' from the decorators."""
    for name, c in decorator_info(names, m, fn):
        if name is None or not name.startswith("numba"):
            continue
        tail = name.split(".")[-1]
        if tail in ("vectorize", "guvectorize"):
            return "vectorize"
        if tail in ("njit", "jit"):
            if c is not None:
                for k in c.keywords:
                    if k.arg == "parallel" and isinstance(k.value, ast.Constant) \
                            and k.value.value is True:
                        return "parallel"
            return "njit"
    return None


def walk_scope(node):
    """Walk a function's own scope (not nested defs/lambdas/classes)."""
    stack = list(ast.iter_child_nodes(node))
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda,
                          ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))


__all__ = ["dotted", "Names", "decorator_info", "jit_kind", "walk_scope",
           "qualname"]
