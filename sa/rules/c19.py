"""C19: all data structures share one sequence protocol.

len, truth value, iteration and indexing are extracted as value graphs for
every structure and every kind of key and compared with the declared rows in
finite models, the empty structure and empty selections included; result
classes are read off the extracted value.
"""
from .. import api, terms as tm
from ..model import np, Rec, Inst, Raised
from ..terms import const, raw, NONE
from ..values import Slice, Ext
from . import Result
from .c09 import build as group, GROUPS
from .c11 import native, rows, parts, PARTS
from .common import mcall, seq, expect, deep

ARRAYS = ("MaskArray", "PdgArray", "MomentumArray", "ColorArray", "HelicityArray", "StatusArray",
          "AdjacencyList")
SLICES = ((None, 2, None), (1, None, 2), (None, None, -1), (-2, None, None), (1, 1, None),
          (5, 2, -2), (0, 99, 1))


def leaf(M, name, p):
    n = M.nspace("E")
    g = np.random.default_rng([M.seed, 77, len(name)])
    if name == "k":
        return (0, n - 1, -1, -n)[M.index % 4]
    if name in ("lo", "hi", "step"):
        return SLICES[M.index % len(SLICES)][("lo", "hi", "step").index(name)]
    if name in ("bk", "mk") or name.startswith("mgk"):
        if M.index % 5 == 4:
            return np.zeros(n, bool)
        return np.random.default_rng([M.seed, sum(map(ord, name))]).random(n) < 0.6
    if name == "ik":
        k = M.nspace("K")
        return g.integers(-n, n, k)


def blank(M, name, p):
    """Masks which select nothing in some of the models."""
    return np.zeros(M.nspace("E"), bool) if M.index % 2 and p.get("kind") == "b1" else None


def keys():
    yield "int", lambda e: e.num("k", "int")
    yield "idxarr", lambda e: e.arr(tm.sym("ik", "int", 1, space=raw("space", "K")), "i8")
    yield "boolarr", lambda e: e.arr(e.col("bk", "b1"), "b1")
    yield "MaskArray", lambda e: e.mask("mk")
    for agg in ("and", "or"):
        yield "MaskGroup " + agg, lambda e, agg=agg: e.mask_group("mgk", agg=agg)
    for i, (a, b, c) in enumerate(SLICES):
        yield "slice %s:%s:%s" % tuple("" if x is None else x for x in (a, b, c)), \
            lambda e, s=(a, b, c): Slice(*[NONE if x is None else const(x) for x in s])
    yield "list", lambda e: e.I.new_list(e.st, [const(2), const(0), const(-1), const(2)])


def table(v):
    """Rows of an array structure (weights as a last column)."""
    f = v.fields
    d = f["_data"]
    if isinstance(d, Rec):
        d = np.column_stack(d.vals)
    return np.asarray(d)


def index(k):
    """A model key as a numpy key."""
    if isinstance(k, Inst):
        if "_data" in k.fields:
            return np.asarray(k.fields["_data"])
        from .c09 import agg_of
        return agg_of(k)
    if isinstance(k, tuple) and k and k[0] == "slice":
        return slice(*[None if x is None else int(x) for x in k[1:]])
    if isinstance(k, (int, np.integer)):
        return [int(k)]
    return k


def picked(v, k):
    """Declared contents of v[k], tagged with the class."""
    if v.cls == "MaskGroup":
        f = v.fields
        return ("MaskGroup", str(f["_agg_op"]).lower(), [
            (n, picked(x, k)) for n, x in f["_mask_arrays"].items()])
    d = table(v)[index(k)]
    if v.cls == "AdjacencyList":
        w = np.asarray(v.fields["weights"])
        return (v.cls, d, w[index(k)] if len(w) else w)
    return (v.cls, d)


def result(v):
    """Actual contents, tagged with the class."""
    if not isinstance(v, Inst):
        return ("not a structure", v)
    if v.cls == "MaskGroup":
        f = v.fields
        return ("MaskGroup", str(f["_agg_op"]).lower(), [
            (n, result(x)) for n, x in f["_mask_arrays"].items()])
    if v.cls == "AdjacencyList":
        return (v.cls, table(v), np.asarray(v.fields["weights"]))
    return (v.cls, table(v))


def run(ctx):
    res = Result(__doc__)
    I = ctx.interp

    def builtin(name):
        return lambda e, o: e.I.call(Ext("builtins." + name), [o], {}, e.st)

    def empties(sc):
        sc.maybe_empty = True
        return sc
    objs = [(c, c, lambda e, c=c: api.build(e, c)) for c in ARRAYS]
    objs.append(("AdjacencyList", "AdjacencyList unweighted", lambda e: e.adj("x", weights=False)))
    for cls, tag, b in objs:
        for size in ({"E": 0}, {"E": 1}, {"E": 4}):
            for fn, want in (("len", lambda x: len(table(x("self", norm=None)))),
                             ("bool", lambda x: len(table(x("self", norm=None))) > 0)):
                expect(res, ctx, "protocol", empties(seq(
                    "%s(%s of %d)" % (fn, tag, size["E"]), lambda e, b=b: [("self", b(e))],
                    builtin(fn), target=cls + {"len": ".__len__", "bool": ".__bool__"}[fn])),
                    want, "number of particles", norm=None, sizes=size, moods=("plain",), n=4)
        I.native = True
        try:
            for fn in ("list", "tuple"):
                expect(res, ctx, "iteration", seq("%s(%s)" % (fn, tag), lambda e, b=b: [
                    ("self", b(e))], builtin(fn), target=cls + ".__iter__"),
                    lambda x: rows(table(x("self", norm=None))), "native values in order",
                    norm=native)
        finally:
            I.native = False
        for kn, kb in keys():
            # get = api key by subscription, so every route through the class counts
            expect(res, ctx, "indexing", seq(
                "%s[%s]" % (tag, kn), lambda e, b=b, kb=kb: [("self", b(e)), ("key", kb(e))],
                lambda e, o, k: e.I.getitem(o, k, e.st), target=cls + ".__getitem__"),
                lambda x: picked(x("self", norm=None), x("key", norm=None)),
                "exactly the selected rows", norm=result, leaf=leaf, moods=("plain",), n=10)
    # mask groups -------------------------------------------------------
    for g in GROUPS:
        b = lambda e, g=g: group(e, GROUPS[g])      # noqa: E731
        for kn, kb in keys():
            if kn == "list":        # a list key of a group names members
                continue
            expect(res, ctx, "group-indexing", seq(
                "MaskGroup %s[%s]" % (g, kn), lambda e, b=b, kb=kb: [
                    ("self", b(e)), ("key", kb(e))],
                lambda e, o, k: e.I.getitem(o, k, e.st), target="MaskGroup.__getitem__"),
                lambda x: picked(x("self", norm=None), x("key", norm=None)),
                "every member so indexed, same aggregation", norm=result, leaf=leaf,
                moods=("plain",), n=10)
        names = list(GROUPS[g][1])
        for ks in (names[::-1], names[-1:], names[:2], []):
            def sub(x, ks=ks):
                c, agg, ms = result(x("self", norm=None))
                return (c, agg, [(k, dict(ms)[k]) for k in ks])
            expect(res, ctx, "group-indexing", seq(
                "MaskGroup %s[%s]" % (g, ks), lambda e, b=b, ks=ks: [
                    ("self", b(e)), ("key", e.I.new_list(e.st, [const(k) for k in ks]))],
                lambda e, o, k: e.I.getitem(o, k, e.st), target="MaskGroup.__getitem__"), sub,
                "those members in the given order, same aggregation", norm=result, leaf=leaf,
                moods=("plain",))
        for k in names:
            expect(res, ctx, "group-indexing", seq(
                "MaskGroup %s[%r]" % (g, k), lambda e, b=b: [("self", b(e))],
                lambda e, o, k=k: e.I.getitem(o, const(k), e.st),
                target="MaskGroup.__getitem__"),
                lambda x, k=k: dict(result(x("self", norm=None))[2])[k], "that member",
                norm=result, moods=("plain",))
        expect(res, ctx, "protocol", seq("len(MaskGroup %s)" % g, lambda e, b=b: [("self", b(e))],
                                         builtin("len"), target="MaskGroup.__len__"),
               lambda x, n=len(names): n, "number of members", norm=None, moods=("plain",))
        expect(res, ctx, "iteration", seq("list(MaskGroup %s)" % g, lambda e, b=b: [
            ("self", b(e))], builtin("list"), target="MaskGroup.__iter__"),
            lambda x, ns=names: ns, "keys in order", norm=None, moods=("plain",))
    for g in ["empty"] + [g for g in GROUPS if g != "none"]:
        b = lambda e, g=g: group(e, GROUPS[g] if g != "empty" else ("or", {}))      # noqa: E731
        for n in (0, 1, 3):
            expect(res, ctx, "protocol", empties(seq(
                "bool(MaskGroup %s of %d)" % (g, n), lambda e, b=b: [("self", b(e))],
                builtin("bool"), target="MaskGroup.__bool__")),
                lambda x, n=n, g=g: n > 0 and g != "empty", "has members with elements",
                norm=None, sizes={"E": n}, moods=("plain",), n=4, leaf=blank)
    # composites ----------------------------------------------------------
    combos = [PARTS + ("adj",), ("pdg",), ("final",), ("pmu", "final"), ("adj",), (), ("helicity",),
              ("color", "adj"), ("status",)]
    for cls in ("ParticleSet", "Graphicle"):
        for keep in combos:
            if cls == "ParticleSet" and "adj" in keep:
                keep = tuple(k for k in keep if k != "adj")
            b = lambda e, k=keep, c=cls: parts(e, k, c)        # noqa: E731
            for n in (0, 1, 3):
                for fn in ("len", "bool"):
                    want = n if keep else 0
                    expect(res, ctx, "protocol", empties(seq(
                        "%s(%s %s of %d)" % (fn, cls, "+".join(keep) or "empty", n),
                        lambda e, b=b: [("self", b(e))], builtin(fn),
                        target="%s.__%s__" % (cls, fn))),
                        lambda x, w=want, fn=fn: w if fn == "len" else w > 0,
                        "of the populated components", norm=None, sizes={"E": n},
                        moods=("plain",), n=4)
    return res
