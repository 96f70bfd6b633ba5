"""C31: events keep every field they are built from in its own component.

from_numpy, from_event, from_lhe_event and the constructors are interpreted on
symbolic events with every set of populated fields; each component of the
result, and each accessor of an event, is compared with the array given for
it, or must be empty when there was none.
"""
import itertools

from ..model import np
from ..terms import TRUE, const, raw
from ..values import DT, DictO, ExtO
from . import Result
from .common import deep, expect, seq

ONE = ("pdg", "helicity", "status", "final")
FIELDS = ("pdg", "pmu", "color", "helicity", "status", "final")


def given(e, name, pre="in."):
    """An array supplied for a field."""
    c = lambda q, k: e.col(pre + q, k)          # noqa: E731
    if name == "pmu":
        return e.arr(raw("cols", *[c("pmu." + q, "f8") for q in ("x", "y", "z", "e")]), "f8")
    if name == "color":
        return e.arr(raw("cols", c("color.color", "int"), c("color.anticolor", "int")), "i4")
    if name == "edges":
        return e.arr(raw("cols", c("edges.src", "int"), c("edges.dst", "int")), "i4")
    if name == "weights":
        return e.arr(c("weights", "f8"), "f8")
    if name == "final":
        return e.arr(c("final", "b1"), "b1")
    return e.arr(c(name, "int"), {"pdg": "i4"}.get(name, "i2"))


def leaf(M, name, p):
    """Small distinct numbers, different for every column; or all zero."""
    if name.startswith("in.") or name.startswith("other."):
        g = np.random.default_rng([M.seed, sum(i * ord(c) for i, c in enumerate(name))])
        n = M.nspace("E")
        if M.index % 3 == 2 and not name.startswith("other."):
            return np.zeros(n, {"b1": bool, "f8": float}.get(p.get("kind"), int))
        if name.endswith("final"):
            return g.random(n) < 0.5
        if p.get("kind") == "f8":
            return np.round(g.normal(size=n) * 50, 3)
        return g.permutation(np.arange(-40, 40))[:n]


def value(M, name, pre="in."):
    cols = {"pmu": ["pmu.x", "pmu.y", "pmu.z", "pmu.e"],
            "color": ["color.color", "color.anticolor"],
            "edges": ["edges.src", "edges.dst"]}.get(name, [name])
    kd = "f8" if name in ("pmu", "weights") else "b1" if name == "final" else "int"
    v = [leaf(M, pre + c, {"kind": kd}) for c in cols]
    return v[0] if len(v) == 1 else np.stack(v, 1)


def held(v):
    """Components of a composite as plain arrays by name."""
    f = v.fields
    out = {}
    p = f["particles"].fields if "particles" in f else f
    for k in FIELDS:
        out[k] = np.asarray(p[k].fields["_data"])
    if "adj" in f:
        out["edges"] = np.asarray(f["adj"].fields["_data"])
        out["weights"] = np.asarray(f["adj"].fields["weights"])
    return out


def plain(d):
    return sorted((k, "empty" if np.size(v) == 0 else np.asarray(v) + 0) for k, v in d.items())


def declared(M, names, comp, pre="in."):
    d = {k: (value(M, k, pre) if k in names else ()) for k in FIELDS}
    if comp == "Graphicle":
        d["edges"] = value(M, "edges", pre) if "edges" in names else ()
        d["weights"] = value(M, "weights", pre) if {"edges", "weights"} <= set(names) else ()
    return plain(d)


def subsets(fields):
    yield tuple(fields)
    for k in fields:
        yield (k,)
        yield tuple(f for f in fields if f != k)
    yield ()


def event(e, names, masks, own=False):
    f = {k: given(e, k) for k in names}
    f["%closed"] = TRUE
    if masks is not None:
        I, st = e.I, e.st
        d = I.alloc(st, DictO([], kind="OrderedDict"))
        for k in masks:
            I.np.dict_set(I, st, d, const(k), given(
                e, "final", "in." if k == "final" and not own else "other." + k + "."))
        f["masks"] = d
    return e.I.alloc(e.st, ExtO("event", raw("opaque", "event"), f))


def run(ctx):
    res = Result(__doc__)
    for comp, fields in (("ParticleSet", FIELDS), ("Graphicle", FIELDS + ("edges", "weights"))):
        for names in subsets(fields):
            tag = "+".join(names) if len(names) < 4 else "all" if len(names) == len(
                fields) else "without " + (set(fields) - set(names)).pop()
            expect(res, ctx, "from-numpy", seq(
                "%s.from_numpy(%s)" % (comp, tag or "nothing"), lambda e, names=names: [
                    (k, given(e, k)) for k in names],
                lambda e, *v, names=names, comp=comp: e.I.call(
                    e.I.getattr(e.I.public(comp), "from_numpy", e.st), [],
                    dict(zip(names, v)), e.st), target=comp + ".from_numpy"),
                lambda x, names=names, comp=comp: declared(x.M, names, comp),
                "every array in its own component, the others empty",
                norm=lambda v: plain(held(v)), cls=comp, leaf=leaf, n=3, moods=("plain",))
    expect(res, ctx, "from-numpy", seq(
        "Graphicle.from_numpy(positional)", lambda e: [
            (k, given(e, k)) for k in FIELDS + ("edges", "weights")],
        lambda e, *v: e.I.call(e.I.getattr(e.I.public("Graphicle"), "from_numpy", e.st),
                               list(v), {}, e.st), target="Graphicle.from_numpy"),
        lambda x: declared(x.M, FIELDS + ("edges", "weights"), "Graphicle"),
        "every array in its own component", norm=lambda v: plain(held(v)), leaf=leaf, n=3,
        moods=("plain",))
    for names in (("b", "a", "latent"), ("final",), ("latent", "z", "c", "d")):
        def fields(e, names=names):
            cs = [e.col("in.%s.final" % k, "b1") for k in names]
            return [("arr", e.arr(raw("struct", names, *cs), DT("struct", tuple(
                (k, "b1") for k in names))))]
        expect(res, ctx, "from-numpy", seq(
            "MaskGroup.from_numpy_structured(%s)" % "+".join(names), fields,
            lambda e, v: e.I.call(e.I.getattr(e.I.public("MaskGroup"), "from_numpy_structured",
                                              e.st), [v], {}, e.st),
            target="MaskGroup.from_numpy_structured"),
            lambda x, names=names: [(k, ("MaskArray", value(x.M, "final", "in.%s." % k)))
                                    for k in names],
            "a member for every field, in order", norm=lambda v: deep(v)[2], cls="MaskGroup",
            leaf=leaf, n=3, moods=("plain",))
    evf = FIELDS + ("edges",)
    for names, masks in itertools.chain(
            ((s, None) for s in subsets(evf)),
            ((evf[:5] + ("edges",), ("other", "final")), (("pmu",), ("final",)),
             (evf, ("final",)), (("pmu", "final"), ("final",)), (("final", "edges"), ("zzz",)),
             (evf[:5] + ("edges",), ("final", "zzz")))):
        tag = "%s%s" % ("+".join(names) if len(names) < 4 else "all" if len(names) == len(
            evf) else "without " + "+".join(sorted(set(evf) - set(names))),
            "" if masks is None else ", masks " + "+".join(masks))
        own = masks is not None and "final" in names
        expect(res, ctx, "from-event", seq(
            "Graphicle.from_event(%s)" % (tag or "nothing"),
            lambda e, names=names, masks=masks, own=own: [("event", event(
                e, names, masks, own))],
            lambda e, ev: e.I.call(e.I.getattr(e.I.public("Graphicle"), "from_event", e.st),
                                   [ev], {}, e.st), target="Graphicle.from_event"),
            lambda x, names=names, masks=masks: declared(
                x.M, names + (("final",) if masks else ()), "Graphicle"),
            "every field of the event in its own component, final from the masks if the event "
            "has no such field", norm=lambda v: plain(held(v)), cls="Graphicle", leaf=leaf, n=3,
            moods=("plain",))

    def lhe(x):
        d = dict(declared(x.M, FIELDS[:4], "ParticleSet"))
        d["final"] = np.zeros(x.M.nspace("E"), int)
        d.pop("status")
        return sorted(d.items())

    def lheld(v):
        d = held(v)
        d.pop("status")
        return plain(d)
    expect(res, ctx, "from-lhe", seq(
        "ParticleSet.from_lhe_event", lambda e: [("event", event(e, FIELDS[:5], None))],
        lambda e, ev: e.I.call(e.I.getattr(e.I.public("ParticleSet"), "from_lhe_event", e.st),
                               [ev], {}, e.st), target="ParticleSet.from_lhe_event"),
        lhe, "every field in its own component, no particle final", norm=lheld,
        cls="ParticleSet", leaf=leaf, n=3, moods=("plain",))

    # ------------------------------------------------------------- accessors
    def accessor(name):
        def go(e, g):
            I, st = e.I, e.st
            o = I.getattr(g, name, st)
            if name in ("edges", "nodes"):
                return o
            return I.getattr(o, "_data", st)
        return go

    def edges(v):
        if getattr(v, "dtype", None) is not None and v.dtype.names:
            return np.stack([v[k] for k in v.dtype.names], 1)
        return np.asarray(v)

    def want(x, name):
        d = x("g", norm=held)
        e = d["edges"]
        if name == "nodes":
            u = np.unique(e)
            return u
        return d[name]
    for name in FIELDS + ("nodes",):
        expect(res, ctx, "accessor", seq("Graphicle.%s" % name, lambda e: [
            ("g", e.graphicle())], accessor(name), target="Graphicle." + name),
            lambda x, name=name: want(x, name) + 0, "the component itself",
            norm=(lambda v: np.sort(v)) if name == "nodes" else (lambda v: np.asarray(v) + 0),
            n=4, moods=("plain",))
    for k, f in (("src", 0), ("dst", 1)):
        expect(res, ctx, "accessor", seq("Graphicle.edges[%r]" % k, lambda e: [
            ("g", e.graphicle())], lambda e, g, k=k: e.I.getitem(e.I.getattr(
                g, "edges", e.st), const(k), e.st), target="Graphicle.edges"),
            lambda x, f=f: want(x, "edges")[:, f] + 0, "the edges' own column",
            norm=lambda v: np.asarray(v) + 0, n=4, moods=("plain",))
    return res
