"""C11: serialisation is complete and made of native Python values.

The value graph of serialize() is extracted for every structure (nested and
empty ones included) with numpy scalars and arrays kept distinct from native
values, and compared with the declared contents; the classes of the containers
are read off the extracted result.  Rebuilding is decided by composing the
constructor with serialize().
"""
from .. import api
from ..model import np, NpScalar, Rec, Inst, NoModel
from ..terms import const, T
from ..values import Ref, ListO, DictO, Tup, InstO
from . import Result
from .c09 import build as group, GROUPS
from .common import mcall, seq, expect, deep, where

ARRAYS = ("MaskArray", "PdgArray", "MomentumArray", "ColorArray", "HelicityArray", "StatusArray",
          "AdjacencyList")
PARTS = ("pdg", "pmu", "color", "helicity", "status", "final")


def native(v):
    """Serialised contents; anything of numpy stays visible."""
    if isinstance(v, dict):
        return {k: native(x) for k, x in v.items()}
    if isinstance(v, (tuple, list)):
        return tuple(native(x) for x in v)
    if isinstance(v, NpScalar):
        return v
    if isinstance(v, (np.ndarray, Rec, Inst)):
        return NpScalar(str(type(v).__name__) + " " + repr(v))
    if isinstance(v, np.generic):
        return v.item()
    return v


def rows(a):
    a = np.asarray(a)
    return tuple(a.tolist()) if a.ndim == 1 else tuple(map(tuple, a.tolist()))


def content(v):
    """Declared serialised form of a model value."""
    f = v.fields
    if v.cls == "MaskGroup":
        return {k: content(x) for k, x in f["_mask_arrays"].items()}
    if v.cls == "ParticleSet":
        return {k: content(f[k]) for k in PARTS}
    if v.cls == "Graphicle":
        return {**content(f["particles"]), "adj": content(f["adj"])}
    d = f["_data"]
    if isinstance(d, Rec):
        d = np.column_stack(d.vals)
    return rows(d)


def containers(I, st, v, path="result"):
    """Containers of the result which are neither dict nor tuple."""
    v = I.norm(st, v)
    if isinstance(v, Ref):
        o = st.heap.get(v.id)
        if isinstance(o, DictO):
            for s in o.segs:
                k = s.key.args[0] if isinstance(s.key, T) and s.key.op == "const" else "?"
                yield from containers(I, st, s.value, "%s[%r]" % (path, k))
        elif isinstance(o, ListO):
            if o.kind != "tuple":
                yield path, o.kind
            for s in o.segs:
                yield from containers(I, st, s.value, path + "[...]")
        elif isinstance(o, InstO):
            yield path, o.cls.name
        else:
            yield path, type(o).__name__


def parts(e, keep, cls="ParticleSet"):
    b = dict(pdg=e.pdg, pmu=e.momenta, color=e.color, helicity=e.helicity, status=e.status,
             final=e.mask)
    p = e.make("ParticleSet", **{k: b[k](k) for k in keep if k in b})
    if cls == "ParticleSet":
        return p
    return e.make("Graphicle", p, e.adj("adj")) if "adj" in keep else e.make("Graphicle", p)


def structures():
    for c in ARRAYS:
        yield c, "", lambda e, c=c: api.build(e, c)
    yield "AdjacencyList", "unweighted", lambda e: e.adj("x", weights=False)
    for k in GROUPS:
        yield "MaskGroup", k, lambda e, k=k: group(e, GROUPS[k])
    yield "MaskGroup", "latent first", lambda e: e.mask_group("g", ("latent", "b", "a"))
    for cls in ("ParticleSet", "Graphicle"):
        yield cls, "", lambda e, c=cls: api.build(e, c)
        for keep in (("pdg", "final"), ("pmu", "adj"), ("adj",), ()):
            if cls == "ParticleSet" and "adj" in keep:
                continue
            yield cls, "only " + "+".join(keep) if keep else "empty", lambda e, k=keep, c=cls: \
                parts(e, k, c)


def run(ctx):
    res = Result(__doc__)
    I = ctx.interp
    I.native = True
    try:
        body(ctx, res, I)
    finally:
        I.native = False
    return res


def body(ctx, res, I):
    from .common import sc_one, sc_steps
    for cls, tag, b in structures():
        sc = mcall(cls, "serialize", b, tag=tag)
        o = sc_one(I, sc, sc_steps(ctx))
        expect(res, ctx, "serialized", sc, lambda x: content(x("self", norm=None)),
               "every component in order, native values only", norm=native, o=o, n=5)
        if o.exact and not o.dead:
            bad = list(containers(I, o.st, o.value))
            f, l, fn = where(ctx, cls + ".serialize")
            for path, kind in bad[:1]:
                res.bad("container", f, l, fn, "%s: %s is a %s, not a tuple or dict" % (
                    sc.name, path, kind))
            if not bad:
                res.ok("%s: containers are dicts and tuples" % sc.name)

    def rebuild(cls):
        def go(e, o):
            s = e.I.call(e.I.getattr(o, "serialize", e.st), [], {}, e.st)
            return e.I.construct(e.cls(cls), [s], {}, e.st)
        return go
    strip = lambda v: content(v) if isinstance(v, Inst) else v      # noqa: E731
    for cls in ARRAYS:
        expect(res, ctx, "rebuild", seq("%s(serialize())" % cls, lambda e, c=cls: [
            ("self", api.build(e, c))], rebuild(cls), target=cls + ".serialize"),
            lambda x: content(x("self", norm=None)), "same data", norm=strip, n=5)
    for k in GROUPS:
        expect(res, ctx, "rebuild", seq("MaskGroup(serialize())[%s]" % k, lambda e, k=k: [
            ("self", group(e, GROUPS[k]))], rebuild("MaskGroup"),
            target="MaskGroup.serialize"), lambda x: content(x("self", norm=None)),
            "same keys and data at every level", norm=strip, n=5)

    def again(e, o):
        s = e.I.call(e.I.getattr(o, "serialize", e.st), [], {}, e.st)
        kw = {k: e.I.getitem(s, const(k), e.st) for k in PARTS}
        return e.I.call(e.I.public("ParticleSet.from_numpy"), [], kw, e.st)
    expect(res, ctx, "rebuild", seq("ParticleSet.from_numpy(**serialize())", lambda e: [
        ("self", api.build(e, "ParticleSet"))], again, target="ParticleSet.serialize"),
        lambda x: content(x("self", norm=None)), "same data", norm=strip, n=5)
