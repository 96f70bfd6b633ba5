"""C33: array structures compare element by element.

== and != between an array structure and another one, a numpy array, a number
or a single row are extracted as value graphs and compared with the equality
of whole records, in finite models of few distinct values (undefined ones
included), where records agree in all, some or none of their components.
"""
from .. import api, terms as tm
from ..model import np
from ..terms import const, raw
from ..values import Ext, Tup
from . import Result
from .c19 import table
from .common import expect, seq

ONE = ("PdgArray", "HelicityArray", "StatusArray")
TWO = {"MomentumArray": 4, "ColorArray": 2, "AdjacencyList": 2}
ROWS = {"MomentumArray": "MomentumElement", "ColorArray": "ColorElement",
        "AdjacencyList": "VertexPair"}


def leaf(M, name, p):
    g = np.random.default_rng([M.seed, sum(map(ord, name)), 6])
    many = p.get("rank") == 1 or p.get("mom")
    n = M.nspace("E") if many else 1
    k = (2, 3)[M.index % 2]             # values to choose from
    v = g.integers(-1, k - 1, n)
    if p.get("mom") or p.get("kind") == "f8":
        v = v * 1.0
        if p.get("mom") and M.index % 3 == 2:
            v[g.integers(n)] = np.nan
        if name.startswith("r"):
            v = v + 0.0
    return v if many else v.reshape(-1)[0].item()


def wanted(op, a, b):
    a = np.asarray(a)
    e = a == np.asarray(b)
    e = e.all(axis=1) if a.ndim == 2 else e
    return e if op == "eq" else ~e


def other(x):
    """Contents of the second operand."""
    v = x("other", norm=None)
    if hasattr(v, "fields"):
        return table(v)
    if hasattr(v, "vals"):
        v = v.vals
        return np.column_stack(v) if np.ndim(v[0]) else np.array(v)
    return np.asarray(v)


def run(ctx):
    res = Result(__doc__)
    many = dict(leaf=leaf, n=24, moods=("plain",), cls="MaskArray")

    def check(cls, tag, op, b, also=lambda e: []):
        expect(res, ctx, "comparison", seq("%s %s %s" % (cls, op, tag), lambda e: [
            ("self", api.build(e, cls, "x")), ("other", b(e))],
            lambda e, s, o: e.I.call(Ext("operator." + op), [s, o], {}, e.st),
            target=cls + ".__%s__" % op), lambda x: wanted(op, table(x("self", norm=None)), other(x)),
            "whether each whole record is %s" % ("equal" if op == "eq" else "different"), **many)

    for op in ("eq", "ne"):
        for cls in ONE + tuple(TWO):
            same = lambda e, cls=cls: api.build(e, cls, "y")     # noqa: E731
            check(cls, "the same class", op, same)
            if cls != "AdjacencyList":
                check(cls, "its data", op, lambda e, same=same: e.I.getattr(same(e), "data", e.st))
            if cls in ONE:
                check(cls, "a number", op, lambda e: e.num("v", "int"))
                continue
            w = TWO[cls]
            kind = "f8" if w == 4 else "int"
            nums = lambda e, w=w, kind=kind: [e.num("r%d" % i, kind) for i in range(w)]  # noqa: E731
            check(cls, "a tuple", op, lambda e, nums=nums: Tup(nums(e)))
            check(cls, "a list", op, lambda e, nums=nums: e.I.new_list(e.st, nums(e)))
            check(cls, "an element", op, lambda e, cls=cls, nums=nums: e.I.call(
                e.I.public("data." + ROWS[cls]), nums(e), {}, e.st))
        for cls, o in (("PdgArray", "StatusArray"), ("StatusArray", "PdgArray")):
            check(cls, o, op, lambda e, o=o: api.build(e, o, "y"))
        for edges in ("edges",):
            check("AdjacencyList", "its edges", op, lambda e: e.I.getattr(
                api.build(e, "AdjacencyList", "y"), edges, e.st))
    return res
