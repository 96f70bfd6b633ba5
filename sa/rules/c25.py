"""C25: the vertices, roots and leaves of a graph are read off its edges exactly.

AdjacencyList.roots, leaves and nodes, the corresponding accessors of an event
and hadron_vertices are extracted as value graphs (scipy's sparse sums, set
operations and relabelling included) and compared with their definitions on
the edges, in finite models whose edges are repeated, reversed, looping,
signed, and disconnected.
"""
from .. import terms as tm
from ..model import NpScalar, np
from . import Result
from .common import attr, expect, fcall, seq

STATUS = (21, -23, 81, -84, 80, 90, 79, 91, -80, 1, 83, -90, 62, -91, 0, 85)


def edges(M, n):
    g = np.random.default_rng([M.seed, 8])
    k = M.index % 4
    if k == 0:                          # event graph: leaves positive
        src = -g.integers(1, 5, n)
        dst = np.where(g.random(n) < 0.5, g.integers(1, 6, n), src - g.integers(0, 3, n))
    elif k == 1:                        # anything, from few labels: loops, cycles
        src, dst = g.integers(-3, 4, n), g.integers(-3, 4, n)
    elif k == 2:                        # scattered labels, few coincidences
        src, dst = g.integers(-40, 40, n), g.integers(-40, 40, n)
        if n > 1:
            dst[0] = src[1]
    else:                               # a chain, in jumbled order
        v = g.permutation(n + 1) * 3 + 1
        src, dst = -v[:-1], -v[1:]
        o = g.permutation(n)
        src, dst = src[o], dst[o]
    if n > 3:
        src[2], dst[2] = src[0], dst[0]
    return src, dst


def leaf(M, name, p):
    if name.endswith((".src", ".dst")):
        return edges(M, M.nspace("E"))[name.endswith(".dst")]
    if name.endswith(".w"):             # zero, cancelling and negative weights
        g = np.random.default_rng([M.seed, 10])
        return g.choice((0.0, 1.0, -1.0, 2.5, -0.5), M.nspace("E"))
    if name.split(".")[-1] == "status" or name == "status":
        g = np.random.default_rng([M.seed, 9])
        return g.choice(STATUS, M.nspace("E"))


def labels(v):
    """Vertices with their order by magnitude."""
    v = np.asarray(v)
    return [np.abs(v), np.sort(v)]


def nodes(e):
    u = np.unique(e)
    return [np.sort(np.abs(u)), u]


def ints(v):
    """Vertices in any order, with their Python types."""
    return sorted((int(x.v), "numpy") if isinstance(x, NpScalar) else (int(x), "int")
                  for x in v)


def run(ctx):
    res = Result(__doc__)
    many = dict(leaf=leaf, n=16)
    for w in (True, False):
        obj = lambda e, w=w: e.adj("x", weights=w)          # noqa: E731
        tag = "weighted" if w else "unweighted"
        expect(res, ctx, "roots", attr("AdjacencyList", "roots", obj, tag),
               lambda x: ~np.isin(x("self")[:, 0], x("self")[:, 1]),
               "edges whose source is the destination of no edge", cls="MaskArray", **many)
        expect(res, ctx, "leaves", attr("AdjacencyList", "leaves", obj, tag),
               lambda x: ~np.isin(x("self")[:, 1], x("self")[:, 0]),
               "edges whose destination is the source of no edge", cls="MaskArray", **many)
        expect(res, ctx, "nodes", attr("AdjacencyList", "nodes", obj, tag),
               lambda x: nodes(x("self")), "every vertex once, ascending in magnitude",
               norm=labels, **many)

    def data(v):
        return np.asarray(v.fields["adj"].fields["_data"])
    for name, want, norm in (
            ("nodes", nodes, labels),
            ("roots", lambda e: ~np.isin(e[:, 0], e[:, 1]), lambda v: np.asarray(v)),
            ("leaves", lambda e: ~np.isin(e[:, 1], e[:, 0]), lambda v: np.asarray(v))):
        def go(e, g, name=name):
            o = g if name == "nodes" else e.I.getattr(g, "adj", e.st)
            v = e.I.getattr(o, name, e.st)
            return v if name == "nodes" else e.I.getattr(v, "data", e.st)
        expect(res, ctx, "event-" + name, seq("%s of a Graphicle" % name, lambda e: [
            ("g", e.graphicle())], go, target="Graphicle.nodes" if name == "nodes" else
            "AdjacencyList." + name), lambda x, want=want: want(x("g", norm=data)),
            "those of its edges", norm=norm, **many)

    def after(e, a, name):
        """Connectivity of the selected edges only."""
        I, st = e.I, e.st
        k = I.getitem(a, e.arr(e.col("m", "b1"), "b1"), st)
        v = I.getattr(k, name, st)
        return v if name == "nodes" else I.getattr(v, "data", st)

    def part(x, name):
        e = x("a")[np.asarray(x.M.val(tm.sym("m", "b1", 1, space=tm.raw("space", "E"))))]
        return nodes(e) if name == "nodes" else ~np.isin(
            e[:, int(name == "leaves")], e[:, int(name == "roots")])
    for name in ("roots", "leaves", "nodes"):
        expect(res, ctx, "part-" + name, seq("%s of selected edges" % name, lambda e: [
            ("a", e.adj("x"))], lambda e, a, name=name: after(e, a, name),
            target="AdjacencyList." + name), lambda x, name=name: part(x, name),
            "those of the selected edges alone", norm=labels if name == "nodes" else
            (lambda v: np.asarray(v)), **many)
    ctx.interp.native = True            # numpy scalars taken from arrays stay marked
    try:
        expect(res, ctx, "hadron-vertices", fcall("select.hadron_vertices", lambda e: (
            [e.adj("x"), e.status("status")], {})),
            lambda x: ints(np.unique(x.nth(0)[np.isin(np.abs(x.nth(1)), range(80, 91)), 0]).tolist()),
            "sources of the particles with status magnitude 80 to 90, each once, native integers",
            norm=ints, **many)
    finally:
        ctx.interp.native = False
    return res
