"""C23: descendant masks select exactly the reachable edges.

The masks are extracted as value graphs over the edge list, down to the sparse
matrix handed to the breadth first search, and compared with reachability in
finite event graphs: trees, chains, cyclic graphs, repeated edges, leaves and
vertices which are not in the graph.
"""
from ..model import np
from . import Result
from .common import fcall, seq, expect
from .c19 import table


def graph(M):
    """Edges of a small graph, of one of several shapes."""
    n = M.nspace("E")
    g = np.random.default_rng([M.seed, 23])
    how = M.index % 4
    if how == 0:                       # event: forwards in time, negative leaves
        src, dst, k = [], [], 1
        nodes = [1]
        while len(src) < n:
            s = nodes[int(g.integers(len(nodes)))]
            k += 1
            src.append(s)
            leaf = g.random() < 0.4
            dst.append(-k if leaf else k)
            if not leaf:
                nodes.append(k)
        perm = g.permutation(n)
        return np.array(src)[perm], np.array(dst)[perm]
    if how == 1:                       # any graph on a few vertices, cycles, repeats
        ids = g.choice(np.arange(-9, 40), 4, replace=False) if M.index % 8 == 1 else \
            g.choice([-5, -3, -2, 2, 3, 5], 5, replace=False)
        return g.choice(ids, n), g.choice(ids, n)
    if how == 2:                       # a chain, shuffled
        ids = g.permutation(np.arange(1, n + 2)) * 3
        perm = g.permutation(n)
        return ids[:-1][perm], ids[1:][perm]
    a = g.integers(1, 6, n)            # layered with shared vertices
    return a, np.where(g.random(n) < 0.3, -(np.arange(n) + 10), a + g.integers(1, 3, n))


def leaf(M, name, p):
    if name in ("adj.src", "adj.dst", "edges.src", "edges.dst"):
        return graph(M)[name.endswith("dst")]
    s, d = graph(M)
    ids = np.union1d(s, d)
    g = np.random.default_rng([M.seed, 41])
    if name == "vertex":
        return int(ids[g.integers(len(ids))]) if M.index % 7 != 6 else 77
    if name in ("src", "dst"):
        i = int(g.integers(len(s)))
        return int((s, d)[name == "dst"][i])


def reach(s, d, v):
    """Edges whose source can be reached from the vertex."""
    if not np.any(s == v):
        return d == v
    seen, todo = {v}, [v]
    while todo:
        u = todo.pop()
        for w in d[s == u].tolist():
            if w not in seen:
                seen.add(w)
                todo.append(w)
    return np.isin(s, sorted(seen))


def run(ctx):
    res = Result(__doc__)
    kw = dict(leaf=leaf, moods=("plain",), n=40, sizes={"E": 9}, cls="MaskArray")

    def cols(x, k=0):
        a = np.asarray(x.nth(k))
        return a[:, 0], a[:, 1]

    def vtx(x):
        return reach(*cols(x), int(x.nth(1)))
    expect(res, ctx, "vertex-descendants", fcall("select.vertex_descendants", lambda e: (
        [e.adj(), e.num("vertex", "int")], {})), vtx, "edges reachable from the vertex", **kw)

    def pair(e):
        return e.I.call(e.I.public("VertexPair"), [e.num("src", "int"), e.num("dst", "int")],
                        {}, e.st)

    def edge(x):
        s, d = cols(x)
        a, b = x.nth(1)
        return reach(s, d, int(b)) | ((s == a) & (d == b))
    expect(res, ctx, "edge-descendants", fcall("select.edge_descendants", lambda e: (
        [e.adj(), pair(e)], {})), edge, "the edge and those reachable from its target", **kw)
    return res
