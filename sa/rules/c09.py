"""C09: mask operators follow boolean algebra.

Every operator and aggregation method of masks and mask groups is extracted
as a value graph for each kind of operand, in either order, with flat, nested
and mixed-aggregation groups, and compared with the element-wise logical
result in finite models.
"""
from .. import api
from ..model import np
from ..terms import const
from ..values import ClsV, DictO
from . import Result
from .common import attr, mcall, seq, expect, scen

# (aggregation, members); a member is None (mask) or another group
FLAT_AND = ("and", {"a": None, "b": None, "c": None})
FLAT_OR = ("or", {"a": None, "b": None, "c": None})
ONE = ("or", {"a": None})
ONE_AND = ("and", {"a": None})
MIX1 = ("and", {"a": None, "b": ("or", {"c": None, "d": None}), "e": None})
MIX2 = ("or", {"a": ("and", {"c": None, "latent": None}), "b": ("or", {
    "x": ("and", {"f": None, "g": None}), "y": None})})
MIX3 = ("or", {"latent": None, "b": ("and", {"x": ("or", {"f": None, "g": None}), "y": None})})
GROUPS = {"and": FLAT_AND, "or": FLAT_OR, "one": ONE, "one-and": ONE_AND, "and(or)": MIX1,
          "or(and,or(and))": MIX2, "or(and(or))": MIX3}
OPS = {"and": "bitand", "or": "bitor", "eq": "Eq", "ne": "NotEq"}
LOGIC = {"and": np.logical_and, "or": np.logical_or, "eq": np.equal, "ne": np.not_equal}


def build(e, spec, name="g"):
    I, st = e.I, e.st
    agg, members = spec
    d = I.alloc(st, DictO([], kind="OrderedDict"))
    for k, v in members.items():
        x = build(e, v, name + "." + k) if v else e.mask(name + "." + k)
        I.np.dict_set(I, st, d, const(k), x)
    return e.make("MaskGroup", d, agg_op=const(agg))


def members(v):
    """The members of a mask-group value, as (aggregation, {key: value})."""
    f = v.fields
    return str(f["_agg_op"]).lower(), f["_mask_arrays"]


def agg_of(v, how=None):
    """The declared single mask of a mask, group or array value."""
    if isinstance(v, np.ndarray):
        return v
    if "_data" in v.fields:
        return np.asarray(v.fields["_data"])
    agg, m = members(v)
    out = None
    for x in m.values():
        y = agg_of(x)
        out = y if out is None else LOGIC[how or agg](out, y)
    return out


def leaf(M, name, p):
    if p.get("kind") == "b1" and p.get("rank") == 1:
        n = M.nspace("E")
        g = np.random.default_rng([M.seed, sum(map(ord, name)), len(name)])
        return g.random(n) < (0.3, 0.5, 0.75)[M.index % 3]


def operands():
    yield "MaskArray", lambda e, n: e.mask(n)
    yield "ndarray", lambda e, n: e.arr(e.col(n, "b1"), "b1")
    for k in ("and", "or", "and(or)", "or(and,or(and))"):
        yield "MaskGroup %s" % k, lambda e, n, k=k: build(e, GROUPS[k], n)


def run(ctx):
    res = Result(__doc__)
    kw = dict(leaf=leaf, moods=("plain",), n=8, sizes={"E": 9})
    ops = list(operands())
    for op in ("and", "or", "eq", "ne"):
        for lt, lb in ops:
            for rt, rb in ops:
                if lt == rt == "ndarray":
                    continue
                if lt.startswith("MaskGroup and(") and rt.startswith("MaskGroup"):
                    continue

                def prep(e, op=op, lb=lb, rb=rb):
                    return ("binop", OPS[op]), [
                        lb(e, "l"), rb(e, "r")], {}
                cls = lt.split()[0]
                tgt = "%s.__%s__" % (cls if cls != "ndarray" else rt.split()[0], op)
                s = scen("%s %s %s" % (lt, op, rt), prep, target=tgt)
                expect(res, ctx, "operator", s, lambda x, op=op: LOGIC[op](
                    agg_of(x("argument 1", norm=None)), agg_of(x("argument 2", norm=None))),
                    "element-wise result", **kw)
    for cls, tag, b in [("MaskArray", "", lambda e: e.mask("m"))] + [
            ("MaskGroup", k, lambda e, k=k: build(e, GROUPS[k])) for k in GROUPS]:
        expect(res, ctx, "operator", mcall(cls, "__invert__", b, tag=tag),
               lambda x: ~agg_of(x("self", norm=None)), "element-wise negation", **kw)
    for k in GROUPS:
        b = lambda e, k=k: build(e, GROUPS[k])     # noqa: E731
        for m, how in (("bitwise_and", "and"), ("bitwise_or", "or")):
            def top(x, how=how):
                _, ms = members(x("self", norm=None))
                out = None
                for v in ms.values():
                    y = agg_of(v)
                    out = y if out is None else LOGIC[how](out, y)
                return out
            expect(res, ctx, "aggregate", mcall("MaskGroup", m, b, tag=k), top,
                   "over all members", cls="MaskArray", **kw)
        expect(res, ctx, "aggregate", attr("MaskGroup", "data", b, k),
               lambda x: agg_of(x("self", norm=None)), "own aggregation at every level", **kw)

        def arr(e, g):
            return e.I.call(e.I.getattr(g, "__array__", e.st), [], {}, e.st)
        expect(res, ctx, "aggregate", seq("MaskGroup.__array__[%s]" % k, lambda e, b=b: [
            ("self", b(e))], arr), lambda x: agg_of(x("self", norm=None)),
            "own aggregation at every level", **kw)
    for agg in ("AND", "OR", "and", "or"):
        def reset(e, g, agg=agg):
            e.I.setattr(g, "agg_op", const(agg), e.st)
            return e.I.getattr(g, "data", e.st)
        expect(res, ctx, "aggregate", seq("MaskGroup.agg_op = %s" % agg, lambda e: [
            ("self", build(e, MIX1))], reset, target="MaskGroup.data"),
            lambda x, agg=agg: top_as(x("self", norm=None), agg.lower()),
            "aggregation follows agg_op", **kw)
    for agg, member in (("none", ""), ("None", ""), ("or", ""), ("AND", ""), ("none", "NONE"),
                        ("or", "OR"), ("and", "AND")):
        for how in ("set", "given"):
            def back(e, g, agg=agg, member=member, how=how):
                I, st = e.I, e.st
                a = I.getattr(ClsV(e.cls("MaskAggOp")), member, st) if member else const(agg)
                if how == "set":
                    I.setattr(g, "agg_op", a, st)
                else:
                    g = e.make("MaskGroup", I.getattr(g, "_mask_arrays", st), agg_op=a)
                return I.getattr(I.getattr(g, "agg_op", st), "value", st)
            expect(res, ctx, "aggregate", seq("MaskGroup.agg_op %s as %s" % (
                how, "MaskAggOp." + member if member else agg), lambda e: [
                    ("self", build(e, MIX1))], back, target="MaskGroup.agg_op"),
                lambda x, agg=agg: agg.lower(), "the setting itself", **kw)
    built(res, ctx, kw)
    return res


def built(res, ctx, kw):
    """Groups constructed from plain mappings of arrays and masks."""
    def mapping(e):
        I, st = e.I, e.st
        v = {k: e.arr(e.col(k, "b1"), "b1") for k in "acd"}
        v["m"] = e.mask("m")
        inner, outer = I.alloc(st, DictO([], kind="dict")), I.alloc(st, DictO([], kind="dict"))
        for d, ks in ((inner, "cd"), (outer, "am")):
            for k in ks:
                I.np.dict_set(I, st, d, const(k), v[k])
        I.np.dict_set(I, st, outer, const("n"), inner)
        return outer, [(k, v[k]) for k in "acdm"]

    for agg in (None, "and", "or"):
        def setup(e):
            d, ins = mapping(e)
            return [("map", d)] + ins

        def go(e, d, *ins, agg=agg):
            k = {} if agg is None else {"agg_op": const(agg)}
            g = e.I.construct(e.cls("MaskGroup"), [d], k, e.st)
            return e.I.getattr(g, "data", e.st)

        def want(x, agg=agg):
            f = LOGIC[agg or "and"]
            return f(f(x("a"), x("m")), x("c") & x("d"))
        expect(res, ctx, "aggregate", seq("MaskGroup(mapping, agg=%s).data" % agg, setup, go,
               target="MaskGroup.data"), want, "nested mappings become groups", **kw)


def top_as(v, agg):
    out = None
    for y in map(agg_of, members(v)[1].values()):
        out = y if out is None else LOGIC[agg](out, y)
    return out
