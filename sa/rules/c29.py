"""C29: adjacency constructions follow their documented edge semantics.

The matrices and edge lists that the adjacency builders return are extracted
as value graphs (partial sorts, element placement along an axis, diagonal
fills and scipy's sparse arrays included) and compared with the declared
edges in finite models of the affinities, edges and weights.
"""
from ..model import np, Rec
from ..terms import const
from .. import api, terms as tm
from ..terms import raw
from . import Result, ref
from .common import fcall, mcall, attr, expect


def mat(e):
    return e.arr(tm.sym("A", "f8", 2, space=raw("space", "N"), space1=raw("space", "N")), "f8")


def leaf(M, name, p):
    if name == "A":                     # affinities: zero on the diagonal, distinct
        n = M.nspace("N")
        g = np.random.default_rng([M.seed, 5])
        a = g.random((n, n)) * 3 + 0.1
        if M.index % 2:
            a = a + a.T
        np.fill_diagonal(a, 0.0)
        return a
    if name == "A0":                    # a sparse matrix with weights
        n = M.nspace("N")
        g = np.random.default_rng([M.seed, 6])
        return g.normal(size=(n, n)) * (g.random((n, n)) < 0.4)
    if name == "B0":
        n = M.nspace("N")
        g = np.random.default_rng([M.seed, 6])
        return g.random((n, n)) < 0.4
    if name == "cut":
        if M.index % 4 == 3:            # exactly an affinity
            return float(leaf(M, "A", p)[0, 1])
        return (1.3, 0.7, -0.2)[M.index % 4]
    if name == "k":
        return (1, 2, M.nspace("N") - 1)[M.index % 3]
    if name == "n":
        return 1 + M.index % 4
    if name == "radius":
        return 1.1 + 0.6 * (M.index % 3)


def leaf_signed(M, name, p):
    """Affinities of both signs, with zeros off and numbers on the diagonal."""
    n = M.nspace("N")
    g = np.random.default_rng([M.seed, 12])
    if name == "A":
        a = g.choice((-2.5, -1.0, -0.5, 0.0, 0.0, 0.5, 1.0, 2.5), (n, n))
        return a + np.diag(np.diag(a) * -0.5 + (0.25 if M.index % 2 else 0.0))
    if name == "cut":
        return (0.0, -0.5, 0.5, 1.0, -2.5)[M.index % 5]


def leaf_twins(M, name, p):
    """Particles which coincide, and radii which only just exclude that."""
    if name == "radius":
        return (0.0, 1e-9, -1.0)[M.index % 3]
    if p.get("mom"):
        n = M.nspace("E")
        return M.momentum(p["mom"], p["comp"], n)[np.arange(n) % 2]


def leaf_edges(M, name, p):
    """Event graph edges: vertices negative except leaves, repeated edges."""
    if name in ("x.src", "x.dst"):
        n = M.nspace("E")
        g = np.random.default_rng([M.seed, 8])
        src = -g.integers(1, 5, n)
        dst = np.where(g.random(n) < 0.5, g.integers(1, 6, n), src - g.integers(0, 3, n))
        if n > 2:
            src[2], dst[2] = src[0], dst[0]
        return src if name == "x.src" else dst


def leaf_weighted(M, name, p):
    """The same edges with zero and cancelling weights in every other model."""
    if name.endswith(".w") and M.index % 2:
        g = np.random.default_rng([M.seed, 10])
        return g.choice((0.0, 1.0, -1.0, 2.5), M.nspace("E"))
    return leaf_edges(M, name, p)


def off_diag(v):
    """Off-diagonal entries, and where the diagonal is filled."""
    v = np.asarray(v)
    o = v.copy()
    np.fill_diagonal(o, 0)
    return (o, np.diag(v) != 0, v.dtype == bool)


def coo(v):
    return v.vals if isinstance(v, Rec) else v


def edges_weights(v):
    """Contents of an AdjacencyList: edges and weights."""
    f = v.fields
    return (np.asarray(f["_data"]), np.asarray(f["weights"]))


def run(ctx):
    res = Result(__doc__)
    yes, no = const(True), const(False)
    for mode in ("max", "min"):
        for sl in (True, False):
            for w in (True, False):
                def cut(x, mode=mode, sl=sl, w=w):
                    a, c = x.nth(0), x.nth(1)
                    m = a < c if mode == "max" else a > c
                    o = np.where(m, a if w else 1.0, 0.0)
                    np.fill_diagonal(o, 0)
                    return (o if w else o.astype(bool), np.full(len(a), sl), not w)
                expect(res, ctx, "cut-adj", fcall("matrix.cut_adj", lambda e, mode=mode, sl=sl, w=w: (
                    [mat(e), e.num("cut")], dict(mode=const(mode), self_loop=const(sl),
                                                 weighted=const(w))),
                    "%s,loop=%s,weighted=%s" % (mode, sl, w)), cut, "edges on the right side of "
                    "the cut", norm=off_diag, leaf=leaf, n=8)
                expect(res, ctx, "cut-adj", fcall("matrix.cut_adj", lambda e, mode=mode, sl=sl, w=w: (
                    [mat(e), e.num("cut")], dict(mode=const(mode), self_loop=const(sl),
                                                 weighted=const(w))),
                    "%s,loop=%s,weighted=%s,signed" % (mode, sl, w)), cut, "edges on the right "
                    "side of the cut", norm=off_diag, leaf=leaf_signed, n=10, moods=("plain",))
    expect(res, ctx, "cut-adj", fcall("matrix.cut_adj", lambda e: ([mat(e), e.num("cut")], {}),
           "defaults"), lambda x: (np.where(np.eye(len(x.nth(0))), 0, x.nth(0) < x.nth(1)).astype(
               bool), np.zeros(len(x.nth(0)), bool), True), "boolean, below the cut, no loops",
           norm=off_diag, leaf=leaf, n=8)
    for sl in (True, False):
        for w in (True, False):
            for row in (True, False):
                def knn(x, sl=sl, w=w, row=row):
                    a, k = x.nth(0), x.nth(1)
                    o = np.zeros_like(a)
                    for i in range(len(a)):
                        d = a[i].copy()
                        if not sl:
                            d[i] = np.inf
                        for j in np.argsort(d)[:k]:
                            o[i, j] = a[i, j] if w else 1
                    if not row:
                        o = o.T
                    return o if w else o.astype(bool)

                def kind(v, w=w):
                    v = np.asarray(v)
                    return v if w else (v if v.dtype == bool else v + 0.5)
                expect(res, ctx, "knn-adj", fcall("matrix.knn_adj", lambda e, sl=sl, w=w, row=row: (
                    [mat(e), e.num("k", "int")], dict(
                        self_loop=const(sl), weighted=const(w), row=const(row))),
                    "loop=%s,weighted=%s,row=%s" % (sl, w, row)), knn, "edges to the k nearest",
                    norm=kind, leaf=leaf, n=9)
        expect(res, ctx, "fc-adj", fcall("matrix.fc_adj", lambda e, sl=sl: (
            [e.num("n", "int")], dict(self_loop=const(sl))), "loop=%s" % sl),
            lambda x, sl=sl: np.ones((x.nth(0),) * 2, bool) if sl else ~np.eye(x.nth(0), dtype=bool),
            "all pairs", norm=lambda v: v if np.asarray(v).dtype == bool else np.asarray(v) + 0.5,
            leaf=leaf, n=8)
    expect(res, ctx, "fc-adj", fcall("matrix.fc_adj", lambda e: ([e.num("n", "int")], {}),
           "default"), lambda x: ~np.eye(x.nth(0), dtype=bool), "no self-loops by default",
           leaf=leaf, n=8)

    # ------------------------------------------------- edge lists and matrices
    def relabel(x):
        e = x("self")
        u, inv = np.unique(e, return_inverse=True)
        return inv.reshape(-1, 2), len(u)

    def wts(x, weighted):
        if not weighted:
            return None
        return x.M.val(x.I.term(x.I.getattr(x.o.inputs[0][1], "weights", x.o.before), x.o.before))

    def dense(x, weighted):
        e, n = relabel(x)
        o = np.zeros((n, n))
        w = wts(x, weighted)
        np.add.at(o, (e[:, 0], e[:, 1]), 1.0 if w is None else w)
        return o
    for w in (True, False):
        obj = lambda e, w=w: e.adj("x", weights=w)          # noqa: E731
        tag = "weighted" if w else "unweighted"
        expect(res, ctx, "adjacency-matrix", attr("AdjacencyList", "matrix", obj, tag),
               lambda x, w=w: dense(x, w), "entry (src, dst) sums the edges' weights",
               leaf=leaf_weighted, n=8)
        expect(res, ctx, "adjacency-sparse", mcall("AdjacencyList", "to_sparse", obj, None, tag),
               lambda x: [relabel(x)[0][:, 0], relabel(x)[0][:, 1], x("self")[:, 1] > 0,
                          relabel(x)[1], relabel(x)[1]],
               "row is source, column is destination, True where the edge ends in a leaf",
               norm=coo, leaf=leaf_weighted, n=8)
    expect(res, ctx, "adjacency-sparse", mcall(
        "AdjacencyList", "to_sparse", lambda e: e.adj("x"),
        lambda e, o: ([e.arr(e.col("d"), "f8")], {}), "data"),
        lambda x: [relabel(x)[0][:, 0], relabel(x)[0][:, 1], x.nth(1), relabel(x)[1],
                   relabel(x)[1]], "each edge carries its own datum", norm=coo, leaf=leaf_weighted,
        n=8)

    def pairs(x, w, sl):
        a = x.nth(0)
        i, j = np.nonzero(a)
        v = a[i, j].astype(float)
        if sl:
            keep = i != j
            n = np.arange(len(a))
            i, j, v = np.append(i[keep], n), np.append(j[keep], n), np.append(v[keep], 0 * n)
        o = np.lexsort((j, i))
        return (i[o], j[o], v[o] if w else np.zeros(0))

    def canon(v, sl=False):
        e, w = edges_weights(v)
        o = np.lexsort((e[:, 1], e[:, 0]))
        if len(w) not in (0, len(e)):
            return "%d weights for %d edges" % (len(w), len(e))
        w = w[o] if len(w) else w
        if sl and len(w):               # the weight of added loops is not documented
            w = np.where(e[o, 0] == e[o, 1], 0.0, w)
        return (e[o, 0], e[o, 1], w)
    for nm, kind in (("A0", "f8"), ("B0", "b1")):
        for w in (True, False):
            for sl in (True, False):
                expect(res, ctx, "from-matrix", fcall(
                    "AdjacencyList.from_matrix", lambda e, w=w, sl=sl, nm=nm, kind=kind: (
                        [e.arr(tm.sym(nm, kind, 2, space=raw("space", "N"),
                                      space1=raw("space", "N")), kind)],
                        dict(weighted=const(w), self_loop=const(sl))),
                    "%s,weighted=%s,loop=%s" % (kind, w, sl)),
                    lambda x, w=w, sl=sl: pairs(x, w, sl), "one edge row -> column for every "
                    "nonzero element, with its weight", norm=lambda v, sl=sl: canon(v, sl),
                    cls="AdjacencyList", leaf=leaf, n=8)
    expect(res, ctx, "from-matrix", fcall("AdjacencyList.from_matrix", lambda e: (
        [e.arr(tm.sym("A0", "f8", 2, space=raw("space", "N"), space1=raw("space", "N")), "f8")],
        {}), "defaults"), lambda x: pairs(x, False, False), "no weights, no added loops",
        norm=canon, cls="AdjacencyList", leaf=leaf, n=8)

    # ------------------------------------------------------ clustering coefficients
    def cluster(x, pseudo):
        a = ref.delta_r(x.nth(0), x.nth(0), pseudo) < x.nth(1)
        np.fill_diagonal(a, False)
        out = []
        for r in a:
            n = np.flatnonzero(r)
            k = len(n)
            out.append(a[np.ix_(n, n)].sum() / (k * (k - 1)) if k > 1 else 0.0)
        return np.array(out)
    for p in (True, False, None):
        expect(res, ctx, "clustering-coefficient", fcall(
            "calculate.cluster_coeff_distbn", lambda e, p=p: (
                [e.momenta(), e.num("radius")],
                {} if p is None else {"pseudo": const(p), "threads": const(2)}),
            "pseudo=%s" % p), lambda x, p=p: cluster(x, p is not False),
            "fraction of linked neighbour pairs within the radius", leaf=leaf, n=9, base=6)
        expect(res, ctx, "clustering-coefficient", fcall(
            "calculate.cluster_coeff_distbn", lambda e, p=p: (
                [e.momenta(), e.num("radius")],
                {} if p is None else {"pseudo": const(p), "threads": const(2)}),
            "pseudo=%s,twins" % p), lambda x, p=p: cluster(x, p is not False),
            "only pairs nearer than the radius", leaf=leaf_twins, n=9, base=7, moods=("plain",))
    return res
