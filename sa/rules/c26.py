"""C26: equality compares contents.

== and != of composites and MaskGroup.equal_to are extracted as value graphs
for pairs of equal and different structure and compared with equality of the
contents in finite models where the two operands agree everywhere, or differ
in a single element of a single component.
"""
from .. import terms as tm
from ..model import np, Inst, Rec
from ..terms import const, raw, FALSE
from . import Result
from .c09 import build as group, GROUPS
from .common import seq, expect
from .c19 import table

PARTS = ("pdg", "pmu", "color", "helicity", "status", "final")
LEAVES = ["pdg", "p.px", "p.py", "p.pz", "p.e", "color.color", "color.anticolor", "helicity",
          "status", "final", "edges.src", "edges.dst", "edges.w"]


def same(u, v):
    """Equality of contents."""
    if u.cls != v.cls:
        return False
    if u.cls in ("ParticleSet", "Graphicle"):
        ks = PARTS if u.cls == "ParticleSet" else ("particles", "adj")
        f, g = ({k.lstrip("_"): x for k, x in w.fields.items()} for w in (u, v))
        return all(same(f[k], g[k]) for k in ks)
    a, b = table(u), table(v)
    if a.shape != b.shape or not np.array_equal(a, b):
        return False
    if u.cls == "AdjacencyList":
        return np.array_equal(np.asarray(u.fields["weights"]), np.asarray(v.fields["weights"]))
    return True


def flip(M, v, where):
    v = np.array(v)
    if v.dtype == bool and where % 2 and v.any() and not v.all():
        i, j = np.argmax(v), np.argmin(v)       # as many elements are True
        v[i], v[j] = v[j], v[i]
        return v
    i = (0, len(v) - 1, len(v) // 2)[where % 3]
    v[i] = (not v[i]) if v.dtype == bool else v[i] + (
        1e-9 if v.dtype.kind == "f" and where % 2 else 1)
    return v


ALIAS = {"a.c": "a"}        # the single member of a group in the place of a mask


def contents(names):
    """leaf function: x.b equals x.a except for one element of one array."""
    def leaf(M, name, p):
        if name[:2] not in ("a.", "b.") or p.get("rank") != 1:
            return None
        base = ALIAS.get(name[2:], name[2:])
        if base not in names:
            return None
        n = M.nspace("E" if name[0] == "a" or not M.index % 2 else "F")
        g = np.random.default_rng([M.seed, sum(map(ord, base)), len(base)])
        k = p.get("kind")
        v = g.random(n) < 0.5 if k == "b1" else g.integers(-5, 6, n) if k == "int" else \
            np.round(g.normal(0, 9, n), 2)
        j = M.index // 2
        if name[0] == "b" and j and names[(j - 1) % len(names)] == base and n:
            v = flip(M, v, (j - 1) % len(names) + (j - 1) // len(names))
        return v
    return leaf


def comp(e, name, keep, sp, cls):
    b = dict(pdg=lambda: e.pdg(name + "pdg", sp), pmu=lambda: e.momenta(name + "p", sp),
             color=lambda: e.color(name + "color", sp),
             helicity=lambda: e.helicity(name + "helicity", sp),
             status=lambda: e.status(name + "status", sp),
             final=lambda: e.mask(name + "final", sp))
    p = e.make("ParticleSet", **{k: b[k]() for k in keep if k in b})
    if cls == "ParticleSet":
        return p
    kw = {}
    if "adj" in keep or "edges" in keep:
        kw["adj"] = e.adj(name + "edges", sp, weights="adj" in keep)
    return e.make("Graphicle", p, **kw)


# ------------------------------------------------------------- mask groups
def keys_of(spec):
    return list(spec[1])


def paths(spec, pre=""):
    out = []
    for k, v in spec[1].items():
        out += paths(v, pre + k + ".") if v else [pre + k]
    return out


def gsame(u, v, order):
    if u.cls != v.cls:
        return False
    if u.cls != "MaskGroup":
        return np.array_equal(np.asarray(u.fields["_data"]), np.asarray(v.fields["_data"]))
    f, g = u.fields["_mask_arrays"], v.fields["_mask_arrays"]
    if (list(f) != list(g)) if order else (set(f) != set(g)):
        return False
    return all(gsame(f[k], g[k], order) for k in f)


PAIRS = [(n, n, GROUPS[n], GROUPS[n]) for n in GROUPS]


def variants():
    base = ("and", {"a": None, "b": ("or", {"c": None, "d": ("and", {"e": None, "f": None})}),
                    "g": None})
    yield "identical", base, base
    yield "outer order", base, ("and", {k: base[1][k] for k in ("g", "b", "a")})
    inner = ("or", {"d": base[1]["b"][1]["d"], "c": None})
    yield "inner order", base, ("and", {"a": None, "b": inner, "g": None})
    deep = ("or", {"c": None, "d": ("and", {"f": None, "e": None})})
    yield "innermost order", base, ("and", {"a": None, "b": deep, "g": None})
    yield "missing key", base, ("and", {"a": None, "b": base[1]["b"]})
    yield "renamed key", base, ("and", {"a": None, "b": base[1]["b"], "h": None})
    less = ("or", {"c": None, "d": ("and", {"e": None})})
    yield "missing inner key", base, ("and", {"a": None, "b": less, "g": None})
    yield "mask for group", base, ("and", {"a": None, "b": None, "g": None})
    yield "mask for inner group", base, ("and", {"a": None, "b": ("or", {
        "c": None, "d": None}), "g": None})
    yield "group for mask", base, ("and", {"a": ("and", {"c": None}), "b": base[1]["b"],
                                           "g": None})
    yield "flat and flat", GROUPS["and"], GROUPS["and"]
    yield "flat or", GROUPS["or"], GROUPS["or"]
    yield "one", GROUPS["one"], GROUPS["one"]


def run(ctx):
    res = Result(__doc__)
    combos = [PARTS + ("adj",), PARTS, ("pdg",), ("pmu", "final"), ("adj",), ("edges", "status"),
              ("color", "adj"), ("helicity",), ()]
    names = {"pdg": ["pdg"], "pmu": ["p.px", "p.py", "p.pz", "p.e"],
             "color": ["color.color", "color.anticolor"], "helicity": ["helicity"],
             "status": ["status"], "final": ["final"],
             "adj": ["edges.src", "edges.dst", "edges.w"], "edges": ["edges.src", "edges.dst"]}
    for cls in ("ParticleSet", "Graphicle"):
        for i, k1 in enumerate(combos):
            for k2 in {k1, combos[(i + 1) % len(combos)]}:
                if cls == "ParticleSet":
                    k1, k2 = (tuple(x for x in k if x in PARTS) for k in (k1, k2))
                ns = [n for k in k1 for n in names[k]]
                for other in ("E", "F"):
                    for op in ("Eq", "NotEq"):
                        expect(res, ctx, "composite", seq(
                            "%s %s(%s) with (%s)%s" % (cls, op, "+".join(k1), "+".join(k2),
                                                       "" if other == "E" else " of other length"),
                            lambda e, k1=k1, k2=k2, other=other, cls=cls: [
                                ("u", comp(e, "a.", k1, e.space(), cls)),
                                ("v", comp(e, "b.", k2, e.space(other), cls))],
                            lambda e, u, v, op=op: e.I.truth(e.I.np.compare(
                                e.I, e.st, op, u, v), e.st), target=cls + ".__eq__"),
                            lambda X, op=op: same(X("u", norm=None), X("v", norm=None)) == (
                                op == "Eq"),
                            "equality of all components", norm=None, moods=("plain",),
                            leaf=contents(ns), n=4 * len(ns) + 2,
                            sizes={"E": 3, "F": 4 if other == "F" else 3})
    vs = list(variants())
    vs += [(n + " reversed", b, a) for n, a, b in vs if a != b or list(a[1]) != list(b[1])]
    for n, s1, s2 in vs:
        for order in (None, False, True):
            ns = paths(s1)
            expect(res, ctx, "group", seq(
                "MaskGroup.equal_to %s%s" % (n, "" if order is None else
                                             ", check_order=%s" % order),
                lambda e, s1=s1, s2=s2: [("u", group(e, s1, "a")), ("v", group(e, s2, "b"))],
                lambda e, u, v, order=order: e.I.truth(e.I.call(e.I.getattr(
                    u, "equal_to", e.st), [v], {} if order is None else {
                        "check_order": const(order)}, e.st), e.st), target="MaskGroup.equal_to"),
                lambda X, order=order: gsame(X("u", norm=None), X("v", norm=None), bool(order)),
                "same keys, nesting and leaf arrays", norm=None, moods=("plain",),
                leaf=contents(ns), n=4 * len(ns) + 2, sizes={"E": 3, "F": 3})
    return res
