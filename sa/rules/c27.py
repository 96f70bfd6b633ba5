"""C27: mask-tree operations reach every level and treat 'latent' consistently.

recursive_drop, flatten, leaf_masks and any_overlap are extracted as value
graphs for mask trees with nested, repeated and differently placed keys and
compared with the declared trees in finite models.
"""
from ..model import np
from ..terms import const, TRUE, FALSE
from ..values import Tup
from . import Result
from .c09 import build as group, GROUPS, agg_of, leaf
from .common import seq, expect, deep

L = None
TREES = dict(GROUPS)
TREES.update({
    "latent first": ("or", {"W": ("or", {"latent": L, "u": L, "d": L}), "b": L}),
    "latent last": ("or", {"t": ("or", {"W": ("and", {"u": L, "d": L, "latent": L}), "b": L,
                                         "latent": L})}),
    "latent top": ("and", {"a": L, "latent": L, "W": ("or", {"u": L, "latent": L})}),
    "latent group": ("or", {"latent": ("or", {"x": L, "y": L}), "a": L, "W": ("or", {
        "u": L, "latent": ("or", {"p": L, "q": L})})}),
    "repeated keys": ("or", {"g": ("or", {"u": L, "d": L, "latent": L}), "u": L,
                              "h": ("and", {"d": ("or", {"u": L, "s": L}), "g": L})}),
    "wide": ("or", {k: L for k in "abcdefgh"}),
    "deep": ("and", {"a": ("or", {"b": ("and", {"c": ("or", {"d": L, "latent": L, "e": L}),
                                                "latent": L})})}),
    "no masks": ("or", {}),
    "empty group": ("or", {"a": L, "W": ("or", {"latent": L}), "b": L}),
})


def tree(v):
    """(class, aggregation, items) of a model value."""
    if v.cls == "MaskGroup":
        f = v.fields
        return ("MaskGroup", str(f["_agg_op"]).lower(),
                [(k, x) for k, x in f["_mask_arrays"].items()])
    return (v.cls, np.asarray(v.fields["_data"]))


def drop(v, key):
    t = tree(v)
    if t[0] != "MaskGroup":
        return t
    return (t[0], t[1], [(k, drop(x, key)) for k, x in t[2] if k != key])


def pairs(d):
    return [(k, ("MaskArray", np.asarray(x))) for k, x in d.items()]


def rise(v):
    out = {}

    def visit(x):
        for k, y in x.fields["_mask_arrays"].items():
            if k == "latent":
                continue
            out[k] = agg_of(y)
            if y.cls == "MaskGroup":
                visit(y)
    visit(v)
    return ("MaskGroup", tree(v)[1], pairs(out))


def leaves(v):
    out = {}

    def visit(x):
        for k, y in x.fields["_mask_arrays"].items():
            if k == "latent":
                continue
            if y.cls == "MaskGroup":
                visit(y)
            else:
                out[k] = agg_of(y)
    visit(v)
    return ("MaskGroup", tree(v)[1], pairs(out))


def agg(v):
    return [(k, ("MaskArray", agg_of(x))) for k, x in v.fields["_mask_arrays"].items()]


def empty_group(spec):
    """Trees with a group which has nothing to aggregate."""
    return any(v is not None and (not v[1] or empty_group(v)) for v in spec[1].values())


def overlap(v):
    ms = [agg_of(x) for x in v.fields["_mask_arrays"].values()]
    return any((ms[i] & ms[j]).any() for i in range(len(ms)) for j in range(i))


def sparse_leaf(M, name, p):
    if p.get("kind") == "b1" and p.get("rank") == 1:
        n = M.nspace("E")
        g = np.random.default_rng([M.seed, sum(map(ord, name)), len(name)])
        return g.random(n) < (0.08, 0.2, 0.5)[M.index % 3]


def run(ctx):
    res = Result(__doc__)
    kw = dict(leaf=leaf, moods=("plain",), n=6, sizes={"E": 7})
    for name, spec in TREES.items():
        b = lambda e, spec=spec: [("self", group(e, spec))]       # noqa: E731

        def meth(e, o, m, *a, **k):
            return e.I.call(e.I.getattr(o, m, e.st), [const(x) for x in a], {
                x: const(y) for x, y in k.items()}, e.st)
        for key in (None, "latent", "u", "b", "absent"):
            for inplace in (None, False, True):
                def go(e, o, key=key, inplace=inplace):
                    k = {} if key is None else {"key": key}
                    if inplace is not None:
                        k["inplace"] = inplace
                    return Tup([meth(e, o, "recursive_drop", **k), o])

                def ref(x, key=key, inplace=inplace):
                    v = x("self", norm=None)
                    d = drop(v, key or "latent")
                    return (d, d if inplace else deep(v))
                expect(res, ctx, "drop", seq(
                    "MaskGroup.recursive_drop(%r, inplace=%s) of tree %s" % (key, inplace, name), b,
                    go, target="MaskGroup.recursive_drop"), ref,
                    "key removed at every level, and only there", norm=deep, **kw)
        for how in (None, "rise"):
            expect(res, ctx, "flatten", seq(
                "MaskGroup.flatten(%s) of tree %s" % (how or "", name), b,
                lambda e, o, how=how: meth(e, o, "flatten", *([how] if how else [])),
                target="MaskGroup.flatten"), lambda x: rise(x("self", norm=None)),
                "every nested mask raised, latent excepted", norm=deep, **kw)
        for fn, go in (("MaskGroup.flatten", lambda e, o: meth(e, o, "flatten", "leaves")),
                       ("select.leaf_masks", lambda e, o: e.I.call(e.I.public(
                           "select.leaf_masks"), [o], {}, e.st))):
            expect(res, ctx, "leaves", seq("%s of tree %s" % (fn, name), b, go, target=fn),
                   lambda x: leaves(x("self", norm=None)),
                   "innermost masks, latent excepted", norm=deep, **kw)
        expect(res, ctx, "flatten", seq(
            "MaskGroup.flatten('agg') of tree %s" % name, b,
            lambda e, o: meth(e, o, "flatten", "agg"), target="MaskGroup.flatten"),
            lambda x: agg(x("self", norm=None)), "each top-level member as one mask",
            norm=lambda v: deep(v)[2], **kw)
        expect(res, ctx, "overlap", seq(
            "select.any_overlap of tree %s" % name, b,
            lambda e, o: e.I.call(e.I.public("select.any_overlap"), [o], {}, e.st),
            target="select.any_overlap"), lambda x: overlap(x("self", norm=None)),
            "some pair of members shares an element", norm=None, leaf=sparse_leaf,
            moods=("plain",), n=9, sizes={"E": 7})
    return res
