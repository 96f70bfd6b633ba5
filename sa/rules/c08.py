"""C08: results depend only on the arguments and the seed.

Every scenario of the public API is extracted twice in one history, once per
order which a set of strings can have, and with other contents of fresh
memory, and the results are compared; the value graphs are searched for the
clock, object identities and randomised hashes; random generators have to be
seeded from the caller's argument, which is checked on the value graphs and
on every construction site in the sources.
"""
import ast
import random

from .. import api, terms as tm
from ..loader import qualname
from ..terms import T, raw, NONE
from ..values import Ref, IterO, Ext
from . import Result
from .c04 import event_leaf
from .astutil import Names, dotted
from .common import sc_one, sc_steps, where, why_not, compare, outcome, loc3

SIZES = {"E": 4, "F": 4, "M": 5}
MAKERS = {"default_rng", "RandomState", "Generator", "SeedSequence", "PCG64", "PCG64DXSM",
          "Philox", "MT19937", "SFC64", "BitGenerator", "Random", "SystemRandom"}
CLOCK = ("time.", "datetime.", "uuid.", "secrets.", "os.urandom", "os.getpid", "os.times",
         "os.environ", "os.getenv", "random.", "threading.get_ident", "tempfile.", "socket.",
         "getpass.", "platform.")
STATIC_OK = {"datetime.timedelta", "time.strptime", "uuid.UUID", "uuid.uuid5", "uuid.uuid3",
             "random.Random"}


def volatile(name):
    return name not in STATIC_OK and name.startswith(CLOCK)


def sources(t):
    """Parts of a term which are not a function of the arguments."""
    out = []
    if not isinstance(t, T):
        return out
    for u in tm.subterms(t):
        if u.op == "globalrng":
            out.append("the global random state (%s)" % (u.args[0],))
        elif u.op == "id":
            out.append("the identity of an object")
        elif u.op == "hash" and tm.kind(u.args[0]) == "str":
            out.append("the randomised hash of a string")
        elif u.op in ("call", "glob") and isinstance(u.args[0], str) and volatile(
                u.args[0].strip("<>")):
            out.append(u.args[0])
    return out


def uninit(t):
    u = raw("sym", "%uninit")
    if isinstance(t, T) and any(x is u for x in tm.subterms(t)):
        return tm.subst(t, {u: raw("sym", "%uninit2")})
    return None


def leaf(M, name, p):
    """Two different contents of fresh memory."""
    if name == "%uninit":
        return 0.0
    if name == "%uninit2":
        return 3.7e5
    if M.index % 2 and name in ("status", "pdg"):
        return event_leaf(M, name, p)
    return None


def seed_leaf(M, name, p):
    if name.endswith("seed"):
        return (0, 1, 7, 12345)[M.index % 4]
    return leaf(M, name, p)


def listed(I, st, v):
    """The elements of an iterator."""
    if isinstance(v, Ref) and isinstance(st.heap.get(v.id), IterO):
        return I.call(Ext("builtins.list"), [v], {}, st)
    return v


def twice(sc):
    """Scenario calling the routine again after a first call."""
    def prep(e):
        first = sc.prep(e)

        def go(e):
            def once(r):
                e.raised = []
                v = api.invoke(e, *r[:3])
                got = list(e.raised)
                if v is None:
                    from ..interp import AbsDead
                    raise AbsDead()
                return e.I.term(listed(e.I, e.st, v), e.st), got
            t1, _ = once(first)
            again = sc.prep(e)
            t2, _ = once(again)
            return raw("tuple", t1, t2)
        return ("do", go), [], {}, list(first[3]) if len(first) > 3 else []
    return api.Scenario(sc.name + " twice", prep, target=sc.target)


def result_term(I, o):
    if o.dead or o.value is None:
        return None
    try:
        return o.value if isinstance(o.value, T) else I.term(
            listed(I, o.st, o.value), o.st)
    except (KeyError, TypeError, AttributeError, IndexError, ValueError):
        return None


def seeds_of(o):
    return [v for n, v in o.inputs if n in ("argument seed", "argument rng_seed") and isinstance(
        v, T) and v is not NONE]


def run_values(res, ctx):
    I = ctx.interp
    steps = sc_steps(ctx)
    sites = {}
    for sc in api.scenarios():
        target = sc.target or sc.name
        o = sc_one(I, sc, steps)
        events = o.events
        t = result_term(I, o)
        res.count("scenarios")
        # ------------------------------------------------ volatile sources
        bad = list(dict.fromkeys(sources(t))) if t is not None else []
        for e in events:
            if e.kind == "global-rng":
                res.bad("source", *loc3(e.loc), "%s draws from the global random state (%s)" % (
                    sc.name, e.what))
            elif e.kind == "rng" and e.extra is not None:
                want = seeds_of(o)
                st = e.extra if isinstance(e.extra, T) else None
                if want and st is not None and not any(w in tm.subterms(st) for w in want):
                    res.bad("seed", *loc3(e.loc), "%s builds a random generator from %s instead "
                            "of the seed argument" % (sc.name, st))
                elif want and st is not None:
                    compare(res, ctx, "seed", target, None, lambda M: M.val(st) is None,
                            lambda M: False, "%s: every given seed is used" % sc.name,
                            leaf=seed_leaf, n=4, sizes=SIZES, at=loc3(e.loc))
        if bad:
            f, l, fn = where(ctx, target)
            res.bad("source", f, l, fn, "the result of %s depends on %s" % (
                sc.name, ", ".join(bad)))
            continue
        for e in events:
            if e.kind == "set-order":
                sites.setdefault(loc3(e.loc), [False, e.what])
                if not o.exact:
                    sites[loc3(e.loc)][0] = True
        if not o.exact or t is None and not o.dead:
            res.unknown("%s (%s)" % (sc.name, why_not(o)))
            continue
        res.ok(sc.name + ": no volatile source")
        # ------------------------------------------------------ repetition
        o2 = sc_one(I, twice(sc), 2 * steps)
        if not o2.dead:
            if not o2.exact or not (isinstance(o2.value, T) and o2.value.op == "tuple"):
                res.unknown("%s repeated (%s)" % (sc.name, why_not(o2)))
            else:
                a, b = o2.value.args
                compare(res, ctx, "history", target, None, b, a, "%s: a second call gives the "
                        "same result" % sc.name, leaf=leaf, n=4, sizes=SIZES)
        # ---------------------------------------------------- fresh memory
        if t is not None:
            u = uninit(t)
            if u is not None:
                compare(res, ctx, "uninitialised", target, None, u, t, "%s: no uninitialised "
                        "memory in the result" % sc.name, leaf=leaf, n=4, sizes=SIZES)
            else:
                res.ok(sc.name + ": initialised")
        # ------------------------------------------------------- set order
        if any(e.kind == "set-order" and e.what == "str" for e in events):
            for k in range(6 if ctx.tier == "quick" else 24):
                I.set_perm = random.Random(k)
                try:
                    p = sc_one(I, sc, steps)
                finally:
                    I.set_perm = None
                if not p.exact:
                    res.unknown("%s with sets in another order (%s)" % (sc.name, why_not(p)))
                    continue
                ft, gt = outcome(I, o, norm=None), outcome(I, p, norm=None)
                compare(res, ctx, "set-order", target, None, gt, ft,
                        "%s: order %d of the strings in sets" % (sc.name, k), leaf=leaf, n=4, sizes=SIZES)
    return sites


# ------------------------------------------------------- sources in the text
def run_sites(res, ctx):
    """Constructions of generators and uses of global generators."""
    names = Names(ctx.pkg)
    for m in ctx.pkg.modules.values():
        stack = []

        def walk(n):
            fn = isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda))
            if fn:
                stack.append(n)
            if isinstance(n, ast.Call):
                site(n)
            for c in ast.iter_child_nodes(n):
                walk(c)
            if fn:
                stack.pop()

        def site(n):
            full = names.full(m, n.func)
            if not full:
                return
            tail = full.split(".")[-1]
            at = (m.rel, n.lineno, next((qualname(f) for f in reversed(stack) if not isinstance(
                f, ast.Lambda)), "<module>"))
            if full.startswith("numpy.random.") or full.startswith("random."):
                res.count("uses of random number modules")
                if tail not in MAKERS and full.count(".") == (2 if full[0] == "n" else 1):
                    res.bad("source", *at, "%s uses the global random state" % full)
                    return
                if tail not in ("default_rng", "RandomState", "Random", "SystemRandom"):
                    return
                arg = n.args[0] if n.args else next((k.value for k in n.keywords if k.arg in (
                    "seed", "x")), None)
                if any(k.arg is None for k in n.keywords) or any(isinstance(
                        a, ast.Starred) for a in n.args):
                    res.unknown("%s:%d arguments of %s" % (m.rel, n.lineno, tail))
                    return
                if arg is None or isinstance(arg, ast.Constant):
                    res.bad("seed", *at, "a random generator is built from %s instead of a seed "
                            "passed by the caller" % (
                                "fresh entropy" if arg is None or arg.value is None else
                                repr(arg.value)))
                    return
                if not from_params(arg, stack):
                    res.unknown("%s:%d origin of the seed" % (m.rel, n.lineno))
                    return
                res.ok("%s:%d generator seeded by a parameter" % (m.rel, n.lineno))
        walk(m.tree)


def from_params(e, stack):
    """Some name in e is, or is computed from, a parameter."""
    params, defs = set(), {}
    for f in stack:
        a = f.args
        params |= {x.arg for x in a.args + a.posonlyargs + a.kwonlyargs + [
            y for y in (a.vararg, a.kwarg) if y]}
        for n in ast.walk(f):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    for x in ast.walk(t):
                        if isinstance(x, ast.Name):
                            defs.setdefault(x.id, []).append(n.value)
            elif isinstance(n, (ast.NamedExpr, ast.AnnAssign)) and n.value is not None and \
                    isinstance(n.target, ast.Name):
                defs.setdefault(n.target.id, []).append(n.value)
    seen, todo = set(), [e]
    while todo:
        x = todo.pop()
        for n in ast.walk(x):
            if isinstance(n, ast.Name) and n.id not in seen:
                seen.add(n.id)
                if n.id in params:
                    return True
                todo += defs.get(n.id, [])
    return False


# ------------------------------------------- order of sets in the other paths
ADD = {"append", "extend", "insert", "appendleft", "write"}


def run_orders(res, ctx, sites):
    """Places where the interpreter saw a set of strings being iterated in a
    scenario it could not follow to the end: the syntax around decides whether
    the order is kept in an ordered result."""
    for (f, line, func), (open_, kind) in sorted(sites.items()):
        if not open_:
            continue
        m = next((m for m in ctx.pkg.modules.values() if m.rel == f), None)
        if m is None:
            continue
        d = next((n for n in ast.walk(m.tree) if isinstance(
            n, ast.FunctionDef) and qualname(n) == func), None)
        if d is None or kind != "str" and not of_keys(d, line):
            continue
        v = kept(d, line)
        if v:
            res.bad("set-order", f, line, func, "the order of a set of strings is kept in the "
                    "result: %s" % v)
        else:
            res.ok("%s:%d iteration over a set" % (f, line))


def defs_of(d):
    """Expressions assigned to the local names of a function."""
    out = {}
    for n in ast.walk(d):
        if isinstance(n, (ast.Assign, ast.AnnAssign, ast.NamedExpr)) and n.value is not None:
            for t in n.targets if isinstance(n, ast.Assign) else [n.target]:
                for x in ast.walk(t):
                    if isinstance(x, ast.Name):
                        out.setdefault(x.id, []).append(n.value)
    return out


def closure(d, e, view):
    """Expressions which may contribute to e inside a function."""
    defs, seen, todo = defs_of(d), set(), [e]
    while todo:
        x = view(todo.pop())
        yield x
        for n in ast.walk(x):
            if isinstance(n, ast.Name) and n.id not in seen:
                seen.add(n.id)
                todo += defs.get(n.id, [])


SETS = ("set", "frozenset")
SET_OPS = ("difference", "union", "intersection", "symmetric_difference", "copy")


def is_set(d, e, depth=0):
    """The expression is a set built in this function."""
    if depth > 6:
        return False
    if isinstance(e, (ast.Set, ast.SetComp)):
        return True
    if isinstance(e, ast.Call):
        if dotted(e.func) in SETS:
            return True
        return isinstance(e.func, ast.Attribute) and e.func.attr in SET_OPS and is_set(
            d, e.func.value, depth + 1)
    if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Sub, ast.BitAnd, ast.BitOr, ast.BitXor)):
        return is_set(d, e.left, depth + 1) or is_set(d, e.right, depth + 1)
    if isinstance(e, ast.Name):
        vs = defs_of(d).get(e.id, [])
        return bool(vs) and all(is_set(d, v, depth + 1) for v in vs)
    return False


def at_line(d, line):
    """Sets mentioned on a line."""
    return [n for n in ast.walk(d) if isinstance(n, ast.expr) and n.lineno <= line <=
            n.end_lineno and is_set(d, n)]


def of_keys(d, line):
    """The sets of the line hold keys of mappings, which are strings in this
    package."""
    ok = False
    def left(e):
        if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Sub, ast.BitAnd)):
            return left(e.left)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in (
                "difference", "intersection"):
            return left(e.func.value)
        return e
    for e in at_line(d, line):
        for x in closure(d, e, left):
            for n in ast.walk(x):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and \
                        n.func.attr == "keys":
                    ok = True
                elif isinstance(n, (ast.List, ast.Dict)) and not (getattr(
                        n, "elts", None) or getattr(n, "keys", None)):
                    return False           # filled elsewhere
    return ok


SAME_ORDER = ("list", "tuple", "zip", "map", "enumerate", "iter", "reversed", "itertools.chain",
              "it.chain", "dict")


def keeps(d, e, line):
    """The value of e is a sequence in the order of a set iterated on the line."""
    if isinstance(e, ast.Call) and dotted(e.func) in SAME_ORDER:
        return any(is_set(d, a) or keeps(d, a, line) for a in e.args if not isinstance(
            a, ast.Starred))
    if isinstance(e, (ast.ListComp, ast.GeneratorExp, ast.DictComp)):
        it = e.generators[0].iter
        return is_set(d, it) or keeps(d, it, line)
    return False


def kept(d, line):
    """Order-sensitive use at a line of a function, or None."""
    rets = [n.value for n in ast.walk(d) if isinstance(n, ast.Return) and n.value is not None]

    def returned(name):
        for r in rets:
            x = r
            if isinstance(x, ast.Call) and len(x.args) >= 1 and dotted(x.func) in (
                    "tuple", "list", "dict"):
                x = x.args[0]
            if isinstance(x, ast.Name) and x.id == name:
                return True
        return False
    sorted_ = {x.id for n in ast.walk(d) if isinstance(n, ast.Call) and (
        dotted(n.func) in ("sorted", "set", "frozenset") or isinstance(
            n.func, ast.Attribute) and n.func.attr == "sort")
        for x in ast.walk(n) if isinstance(x, ast.Name)}
    fresh = {t.id for n in ast.walk(d) if isinstance(n, (ast.Assign, ast.AnnAssign))
             for t in (n.targets if isinstance(n, ast.Assign) else [n.target])
             if isinstance(t, ast.Name) and n.value is not None and (
                 isinstance(n.value, (ast.List, ast.Dict)) and not (getattr(
                     n.value, "elts", None) or getattr(n.value, "keys", None)) or isinstance(
                     n.value, ast.Call) and not n.value.args)}
    zipped = {x.id for n in ast.walk(d) if isinstance(n, ast.Call) and isinstance(
        n.func, ast.Name) and n.func.id not in (
            "len", "sum", "any", "all", "min", "max", "sorted", "set", "frozenset", "print")
        for x in n.args if isinstance(x, ast.Name)}
    for n in ast.walk(d):
        if isinstance(n, (ast.For, ast.AsyncFor)) and n.iter.lineno <= line <= n.iter.end_lineno:
            tgt = {x.id for x in ast.walk(n.target) if isinstance(x, ast.Name)}
            for x in ast.walk(n):
                if isinstance(x, (ast.Yield, ast.YieldFrom)):
                    return "the loop yields its elements"
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and \
                        x.func.attr in ADD and isinstance(x.func.value, ast.Name) and \
                        x.func.value.id in fresh - sorted_ and returned(x.func.value.id):
                    return "the loop appends to '%s', which is returned" % x.func.value.id
                if isinstance(x, ast.Assign):
                    for t in x.targets:
                        if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and \
                                t.value.id in fresh - sorted_ and returned(t.value.id) and \
                                isinstance(t.slice, ast.Name) and t.slice.id in tgt:
                            return "the loop fills '%s' in that order, which is returned" % (
                                t.value.id)
        if isinstance(n, ast.Return) and n.value is not None and n.lineno <= line <= n.end_lineno \
                and keeps(d, n.value, line):
            return "the elements are returned as a sequence"
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(
                n.targets[0], ast.Name) and n.lineno <= line <= n.end_lineno and keeps(
                    d, n.value, line):
            name = n.targets[0].id
            if name not in sorted_ and (name in zipped or returned(name)):
                return "'%s' holds the elements in that order and is passed on" % name
    return None


def run(ctx):
    res = Result(__doc__)
    sites = run_values(res, ctx)
    run_sites(res, ctx)
    run_orders(res, ctx, sites)
    return res
