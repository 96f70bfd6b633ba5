"""Which names do installed modules export?  Decided from their sources.

Nothing is imported except C modules of the standard library, whose names
cannot be read from source.
"""
import ast
import glob
import os
import sys

STDLIB = os.path.dirname(os.__file__)


def site_dirs():
    out = []
    for pat in ("/opt/venv/lib/python3*/site-packages",):
        out.extend(sorted(glob.glob(pat)))
    return out


class Exports:
    def __init__(self):
        self.cache = {}
        self.sites = site_dirs()

    def find(self, name):
        """Path of a module's source (stub preferred), 'dir' or None."""
        rel = name.replace(".", os.sep)
        for root in self.sites + [STDLIB]:
            for suf in ("/__init__.pyi", "/__init__.py", ".pyi", ".py"):
                p = os.path.join(root, rel) + suf
                if os.path.exists(p):
                    return p
        return None

    def is_installed(self, top):
        return self.find(top) is not None or top in sys.builtin_module_names \
            or top in sys.stdlib_module_names

    def names(self, mod):
        """(set of names, complete?) exported by a module."""
        if mod in self.cache:
            return self.cache[mod]
        self.cache[mod] = (set(), False)       # cycles
        r = self._names(mod)
        self.cache[mod] = r
        return r

    def _names(self, mod):
        top = mod.split(".")[0]
        if top in sys.stdlib_module_names:
            p = self.find(mod)
            if p is None:
                try:
                    m = __import__(mod, fromlist=["x"])
                    return set(dir(m)), True
                except Exception:
                    return set(), False
        files = []
        rel = mod.replace(".", os.sep)
        for root in self.sites + [STDLIB]:
            for suf in ("/__init__.pyi", "/__init__.py", ".pyi", ".py"):
                p = os.path.join(root, rel) + suf
                if os.path.exists(p):
                    files.append(p)
            if files:
                break
        if not files:
            return set(), False
        out, complete = set(), True
        stub_complete = False
        for p in files:
            try:
                tree = ast.parse(open(p, encoding="utf-8", errors="replace").read())
            except SyntaxError:
                complete = False
                continue
            if "sys.modules[" in ast.unparse(tree):
                complete = False
            pkg = mod if "__init__" in os.path.basename(p) else mod.rpartition(".")[0]
            c = self.collect(tree.body, pkg, out)
            complete = complete and c
            if p.endswith(".pyi") and c and not any(
                    isinstance(n, ast.FunctionDef) and n.name == "__getattr__"
                    for n in tree.body):
                stub_complete = True     # the stub is the declared public interface
            if "__init__" in os.path.basename(p):
                d = os.path.dirname(p)
                for f in os.listdir(d):
                    b = f.split(".")[0]
                    if os.path.isdir(os.path.join(d, f)) or f.endswith((".py", ".pyi", ".so")):
                        out.add(b)
        if "__getattr__" in out:
            # lazily resolved names: keep what the sources mention
            for p in files:
                src = open(p, encoding="utf-8", errors="replace").read()
                if p.endswith(".py"):
                    tree = ast.parse(src)
                    for n in ast.walk(tree):
                        if isinstance(n, ast.FunctionDef) and n.name == "__getattr__":
                            raising = self.getattr_names(n, out)
                            if not raising:
                                complete = False
        complete = complete or stub_complete
        out |= {"__name__", "__file__", "__doc__", "__version__", "__dict__",
                "__path__", "__package__", "__loader__", "__spec__"}
        return out, complete

    def getattr_names(self, fn, out):
        """Names a module __getattr__ serves; False when it is not clear."""
        for n in ast.walk(fn):
            if isinstance(n, ast.Compare) and len(n.ops) == 1:
                for c in [n.left] + n.comparators:
                    if isinstance(c, ast.Constant) and isinstance(c.value, str):
                        # a name which is only mentioned to raise is removed
                        par = None
                        out.add(c.value) if not self.only_raises(fn, n) else None
        return True

    def only_raises(self, fn, cmp_):
        for n in ast.walk(fn):
            if isinstance(n, ast.If) and any(x is cmp_ for x in ast.walk(n.test)):
                return any(isinstance(s, ast.Raise) for s in n.body)
        return False

    def collect(self, body, pkg, out):
        ok = True
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                out.add(s.name)
            elif isinstance(s, ast.Import):
                for a in s.names:
                    out.add(a.asname or a.name.split(".")[0])
            elif isinstance(s, ast.ImportFrom):
                base = s.module or ""
                if s.level:
                    parts = pkg.split(".")
                    if s.level > 1:
                        parts = parts[:-(s.level - 1)]
                    base = ".".join(parts + ([s.module] if s.module else []))
                for a in s.names:
                    if a.name == "*":
                        names, c = self.names(base)
                        public = self.dunder_all(base)
                        out |= public if public is not None else {
                            n for n in names if not n.startswith("_")}
                        ok = ok and (c or public is not None)
                    else:
                        out.add(a.asname or a.name)
            elif isinstance(s, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
                for t in (s.targets if isinstance(s, ast.Assign) else [s.target]):
                    for n in ast.walk(t):
                        if isinstance(n, ast.Name):
                            out.add(n.id)
            elif isinstance(s, (ast.If, ast.Try, ast.With, ast.For, ast.While)):
                for f in ("body", "orelse", "finalbody"):
                    ok = self.collect(getattr(s, f, []) or [], pkg, out) and ok
                for h in getattr(s, "handlers", []):
                    ok = self.collect(h.body, pkg, out) and ok
                if isinstance(s, ast.For):
                    for n in ast.walk(s.target):
                        if isinstance(n, ast.Name):
                            out.add(n.id)
                    if any(isinstance(n, ast.Call) and getattr(n.func, "id", "") in (
                            "setattr", "globals", "vars") for n in ast.walk(s)):
                        ok = False
            elif isinstance(s, ast.Expr):
                if any(isinstance(n, ast.Call) and getattr(n.func, "id", "") in (
                        "globals", "vars", "setattr") for n in ast.walk(s)):
                    ok = False
            elif type(s).__name__ == "TypeAlias":
                out.add(s.name.id)
        return ok

    def dunder_all(self, mod):
        p = self.find(mod)
        if p is None:
            return None
        try:
            tree = ast.parse(open(p, encoding="utf-8", errors="replace").read())
        except SyntaxError:
            return None
        for s in tree.body:
            if isinstance(s, ast.Assign) and any(
                    isinstance(t, ast.Name) and t.id == "__all__" for t in s.targets):
                try:
                    return set(ast.literal_eval(s.value))
                except ValueError:
                    return None
        return None
