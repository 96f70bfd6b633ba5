"""C34: assignment changes exactly what it names.

Item assignment on masks with every kind of key, item assignment and deletion
on mask groups, and the inherited dictionary methods, are extracted as value
graphs of the object afterwards and compared with the assignment of numpy and
of an ordered dictionary in finite models; assignment to data is compared
with the assigned contents.
"""
from .. import api
from ..model import np, Inst
from ..terms import const
from ..values import Ext
from . import Result
from .c09 import build as group, GROUPS
from .c19 import index, keys, leaf as key_leaf, table
from .common import deep, expect, seq


def leaf(M, name, p):
    if name == "v":
        return bool(M.index % 2)
    return key_leaf(M, name, p)


def plainly(v):
    return np.asarray(v.fields["_data"]) if isinstance(v, Inst) else np.asarray(v)


def item(x, what):
    """The mask after the assignment."""
    out = table(x("self", norm=None)).copy()
    k = index(x("key", norm=None))
    v = x("value", norm=None)
    out[k] = v if what == "number" else plainly(v)[k]
    return out


def run_masks(res, ctx):
    values = (("number", lambda e: e.num("v", "b1")),
              ("array", lambda e: e.arr(e.col("w", "b1"), "b1")),
              ("MaskArray", lambda e: e.mask("w")))
    for kn, kb in keys():
        for vn, vb in values:
            def go(e, o, k, v, vn=vn):
                if vn != "number":
                    if vn == "array" and isinstance(e.I.getattr(k, "data", e.st), object) \
                            and kn.startswith("Mask"):
                        k2 = e.I.getattr(k, "data", e.st)
                    else:
                        k2 = k
                    v = e.I.getitem(v, k2, e.st)
                e.I.call(e.I.getattr(o, "__setitem__", e.st), [k, v], {}, e.st)
                return o
            if kn == "int" and vn == "MaskArray":
                continue                # (an array of a single element)
            expect(res, ctx, "item", seq("MaskArray[%s] = %s" % (kn, vn), lambda e, kb=kb, vb=vb: [
                ("self", e.mask("x")), ("key", kb(e)), ("value", vb(e))], go,
                target="MaskArray.__setitem__"), lambda x, vn=vn: item(x, vn),
                "the selected elements and no others", norm=lambda v: table(v), leaf=leaf, n=8,
                moods=("plain",))


def members(v):
    return deep(v)[2]


def run_groups(res, ctx):
    arr = lambda e: e.arr(e.col("w", "b1"), "b1")      # noqa: E731
    values = (("MaskArray", lambda e: e.mask("w")), ("array", arr),
              ("MaskGroup", lambda e: group(e, GROUPS["or"], "w")))
    for g in ("and", "or(and,or(and))", "one"):
        for key in ("a", "b", "new", "latent"):
            for vn, vb in values:
                def put(e, o, v, key=key):
                    e.I.call(e.I.getattr(o, "__setitem__", e.st), [const(key), v], {}, e.st)
                    return o

                def want(x, key=key):
                    s = deep(x("self", norm=None))
                    v = x("value", norm=None)
                    d = dict(s[2])
                    d[key] = deep(v) if isinstance(v, Inst) else ("MaskArray", np.asarray(v))
                    return (s[0], s[1], list(d.items()))
                expect(res, ctx, "member", seq("MaskGroup(%s)[%s] = %s" % (g, key, vn), lambda e, g=g,
                       vb=vb: [("self", group(e, GROUPS[g])), ("value", vb(e))], put,
                       target="MaskGroup.__setitem__"), want,
                       "the member of that key, in place or last", norm=deep, n=5,
                       moods=("plain",))
            held = key in GROUPS[g][1]
            for meth, args in (("__delitem__", 1), ("pop", 1), ("clear", 0)):
                if not held:
                    continue

                def drop(e, o, key=key, meth=meth, args=args):
                    e.I.call(e.I.getattr(o, meth, e.st), [const(key)][:args], {}, e.st)
                    return o

                def left(x, key=key, args=args):
                    s = deep(x("self", norm=None))
                    return (s[0], s[1], [kv for kv in s[2] if args and kv[0] != key])
                expect(res, ctx, "member", seq("MaskGroup(%s).%s(%s)" % (g, meth, key), lambda e, g=g: [
                    ("self", group(e, GROUPS[g]))], drop, target="MaskGroup.__delitem__"), left,
                    "every other member, in order", norm=deep, n=5, moods=("plain",))
        for key in GROUPS[g][1]:
            for meth in ("__getitem__", "get", "pop"):
                def take(e, o, key=key, meth=meth):
                    return e.I.call(e.I.getattr(o, meth, e.st), [const(key)], {}, e.st)
                expect(res, ctx, "member", seq("value of MaskGroup(%s).%s(%s)" % (g, meth, key),
                       lambda e, g=g: [("self", group(e, GROUPS[g]))], take,
                       target="MaskGroup.__getitem__"),
                       lambda x, key=key: dict(members(x("self", norm=None)))[key],
                       "the member of that key", norm=deep, n=5, moods=("plain",))


def run_data(res, ctx):
    for c in api.ARRAYS:
        if c == "AdjacencyList":
            continue
        for vn, vb in (("array", lambda e, c=c: e.I.getattr(api.build(e, c, "y"), "_data", e.st)),
                       ("view", lambda e, c=c: e.I.getattr(api.build(e, c, "y"), "data", e.st))):
            def put(e, o, v):
                e.I.setattr(o, "data", v, e.st)
                return o

            def want(x):
                v = x("value", norm=None)
                return np.column_stack(v.vals) if hasattr(v, "vals") else np.asarray(v)
            expect(res, ctx, "data", seq("%s.data = %s" % (c, vn), lambda e, c=c, vb=vb: [
                ("self", api.build(e, c, "x")), ("value", vb(e))], put, target=c + ".data"), want,
                "the assigned contents", norm=lambda v: table(v), n=5, moods=("plain",))


def run(ctx):
    res = Result(__doc__)
    run_masks(res, ctx)
    run_groups(res, ctx)
    run_data(res, ctx)
    return res
