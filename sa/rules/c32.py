"""C32: hadronised descendants are shared out among their partons by distance.

partition_descendants is extracted as a value graph over the event and the
hierarchy (its loops over hadronisation vertices and leaves included) and
compared with the declared allocation in finite events: partons that meet in
hadronisation vertices, hadrons of either sign of status, decays, finals of
every kind, and leaves with none, some or all of the incoming partons.
"""
from ..model import np
from .. import api
from ..terms import const
from . import Result, ref
from .common import fcall, expect, deep
from .c04 import comp
from . import c23


def event(M):
    """Vertices, statuses: partons (-1, -2, -3) into -11 and -12, hadrons out
    of them, decays of hadrons in -21, -22."""
    n = M.nspace("E")
    g = np.random.default_rng([M.seed, 32])
    src, dst, st = np.zeros((3, n), int)
    vtx = [-11, -12]
    dec = {-11: [], -12: []}
    for i in range(n):
        v = vtx[int(g.random() < 0.35)]
        kind = i % 4 if i < 8 else int(g.integers(4))
        if kind in (0, 1):              # a parton, perhaps not hadronising
            src[i] = -int(g.integers(1, 4))
            dst[i] = v if g.random() < 0.85 else 100 + i
            st[i] = g.choice((23, -71, 62, -23))
        elif kind == 2 or not dec[v]:   # from hadronisation
            src[i] = v
            if g.random() < 0.35:
                dst[i] = v - 10
                dec[v].append(i)
            else:
                dst[i] = 100 + i
            st[i] = g.choice((83, -83, 84, -81, 80, 90, -90, 79 if i > 8 else 86))
        else:
            src[i], dst[i], st[i] = v - 10, 100 + i, 91
    if M.index % 5 == 4:                # one vertex is not of hadronisation
        st = np.where((src == -12), 91, st)
    final = dst > 0 if M.index % 3 else g.random(n) < 0.7
    o = g.permutation(n)
    return {"gedges.src": src[o], "gedges.dst": dst[o], "gstatus": st[o], "gfinal": final[o]}


def leaf(M, name, p):
    if name in ("gedges.src", "gedges.dst", "gstatus", "gfinal"):
        return event(M)[name]
    if name == "pt_exp":
        return (0.0, -1.0, 0.7, -0.3)[M.index % 4]
    if name.startswith("mg."):
        g = np.random.default_rng([M.seed, sum(map(ord, name))])
        return g.random(M.nspace("E")) < (0.5, 0.8, 0.25)[M.index % 3]


def leaves(d, top=True):
    """Assignable (container, position) of every leaf that is not latent."""
    for i, (k, v) in enumerate(d):
        if k == "latent":
            continue
        if v[0] == "MaskArray":
            yield d, i
        else:
            yield from leaves(v[2], False)


def own(v):
    """The same tree with lists and arrays of its own."""
    if v[0] == "MaskArray":
        return ("MaskArray", np.array(v[1]))
    return (v[0], v[1], [(k, own(x)) for k, x in v[2]])


def table(x, k=0):
    return deep(x.M.val(x.I.term(x.o.inputs[k][1], x.o.before)))


def want(x):
    s, d, st = comp(x, "src"), comp(x, "dst"), comp(x, "status")
    final, pmu = np.asarray(comp(x, "final"), bool), comp(x, "pmu")
    e = -0.1
    if len(x.o.inputs) > 2:
        e = float(x.nth(2))
    tree = own(table(x, 1))
    lv = list(leaves(tree[2]))

    def any_of(t):
        if t[0] == "MaskArray":
            return np.asarray(t[1], bool)
        return np.logical_or.reduce([any_of(v) for _, v in t[2]])
    hard = any_of(tree)
    for v in np.unique(s[(np.abs(st) >= 80) & (np.abs(st) <= 90)]):
        into = d == v
        if not (into & hard).any():
            continue
        had = c23.reach(s, d, int(v)) & final
        a, b = np.flatnonzero(into), np.flatnonzero(had)
        dist = ref.pt(pmu[a])[:, None] ** e * ref.delta_r(pmu[a], pmu[b], True)
        near = a[np.argmin(dist, axis=0)] if len(b) else a[:0]
        for c, i in lv:
            m = c[i][1][1]
            if m[into].any():
                m[b] = m[near]
    return tree


def dist(x):
    a, b = x.nth(0), x.nth(1)
    e = float(x.nth(2)) if len(x.o.inputs) > 2 else -0.1
    return ref.pt(a)[:, None] ** e * ref.delta_r(a, b, True)


def run(ctx):
    res = Result(__doc__)
    for kw in ((), ("pt_exp",)):
        expect(res, ctx, "distance", fcall("matrix.parton_hadron_distance", lambda e, kw=kw: (
            [e.momenta("p"), e.momenta("q", e.space("F"))], {k: e.num(k) for k in kw}),
            ",".join(kw)), dist, "pT^exp times Delta R, parton by hadron", leaf=leaf, n=8)
    groups = (("flat", lambda e, agg: e.mask_group("mg", ("b", "c"), agg)),
              ("nested", lambda e, agg: api.nested_group(e, "mg", agg)))
    for tag, grp in groups:
        for agg in (("or", "and") if tag == "flat" else ("or",)):
            for kw in ((), ("pt_exp",)):
                def prep(e, grp=grp, agg=agg, kw=kw):
                    return [e.graphicle("g"), grp(e, agg)], {k: e.num(k) for k in kw}
                expect(res, ctx, "partition", fcall(
                    "select.partition_descendants", prep, ",".join((tag, agg) + kw)), want,
                    "finals go to the nearest incoming parton", norm=deep, cls="MaskGroup",
                    leaf=leaf, moods=("plain",), n=24, sizes={"E": 13})
    return res
