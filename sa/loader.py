"""Parses the package under analysis into modules, classes and functions."""
import ast
import os

REPO = os.environ.get("SA_REPO", "/repo")
PKG = "graphicle"


class AnalysisBroken(Exception):
    """A public anchor vanished or the source cannot be analysed at all."""


class Module:
    def __init__(self, name, path):
        self.name, self.path = name, path
        with open(path, encoding="utf-8") as f:
            self.source = f.read()
        try:
            self.tree = ast.parse(self.source, path)
        except SyntaxError as e:
            raise AnalysisBroken("cannot parse %s: %s" % (path, e))
        self.rel = os.path.relpath(path, REPO)
        for parent in ast.walk(self.tree):
            for child in ast.iter_child_nodes(parent):
                child._parent = parent
        self.env = {}          # evaluated module globals (by the interpreter)
        self.loaded = False

    def __repr__(self):
        return "<module %s>" % self.name


class Package:
    def __init__(self, repo=None):
        root = os.path.join(repo or REPO, PKG)
        if not os.path.isdir(root):
            raise AnalysisBroken("package directory %s is missing" % root)
        self.modules = {}
        for dirpath, dirs, files in os.walk(root):
            dirs[:] = sorted(d for d in dirs if d != "__pycache__")
            for fn in sorted(files):
                if not fn.endswith(".py"):
                    continue
                path = os.path.join(dirpath, fn)
                rel = os.path.relpath(path, root)[:-3].replace(os.sep, ".")
                if rel == "__init__":
                    name = PKG
                elif rel.endswith(".__init__"):
                    name = PKG + "." + rel[:-9]
                else:
                    name = PKG + "." + rel
                self.modules[name] = Module(name, path)

    def functions(self):
        for m in self.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    yield m, n


def qualname(node):
    parts = []
    n = node
    while n is not None and not isinstance(n, ast.Module):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            parts.append(n.name)
        n = getattr(n, "_parent", None)
    return ".".join(reversed(parts)) or "<module>"
