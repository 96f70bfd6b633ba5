"""C12: kinematic quantities equal their definitions.

The value graph of every kinematic property and of the aggregate kinematic
functions is extracted (through properties, memoised helpers and the numba
kernels behind them, loops summarised) and compared, by random interpretation,
with the declared formula over plain, degenerate (at rest, along the beam,
duplicated) and space-like / negative energy momenta.
"""
from .. import api
from ..model import np
from . import Result, ref
from .common import attr, fcall, expect, where


def along(p):
    return (ref.pt(p) == 0) & (p[:, 2] != 0)


def small(M, name, p):
    """Momenta close to the beam, energies close to the longitudinal momentum."""
    if not p.get("mom"):
        return None
    n = M.nspace("E")
    g = np.random.default_rng([M.seed, 3])
    z = g.normal(size=n) * 2
    f = g.uniform(-3, 3, n)
    t = 10.0 ** np.array([(-6, -7, -15, -16)[(M.index + i) % 4] for i in range(n)])
    d = 10.0 ** np.array([(-6, -14, -7)[(M.index // 2 + i) % 3] for i in range(n)])
    return {"px": t * np.cos(f), "py": t * np.sin(f), "pz": z, "e": np.abs(z) + d}[p["comp"]]


def wild(M, name, p):
    """Components of very different sizes, some of the energies zero."""
    if not p.get("mom"):
        return None
    n = M.nspace("E")
    g = np.random.default_rng([M.seed, 11, ("px", "py", "pz", "e").index(p["comp"])])
    v = g.choice((-1.0, 1.0), n) * 10.0 ** g.uniform(-3, 3, n)
    if p["comp"] == "e":
        v = np.abs(v)
        v[M.index % 3::3] = 0.0
    return v


def scaled(M, name, p):
    """Whole events in other units; no weight at all."""
    if p.get("mom") and M.index % 4 > 1:
        return M.momentum(p["mom"], p["comp"], M.nspace("E")) * (1e-2, 1e5)[M.index % 4 - 2]
    if name == "w" and M.index % 3 == 1:
        return np.zeros(M.nspace("E"))


def run(ctx):
    res = Result(__doc__)
    defs = {
        "x": lambda p: p[:, 0], "y": lambda p: p[:, 1], "z": lambda p: p[:, 2],
        "energy": lambda p: p[:, 3], "pt": ref.pt, "eta": ref.eta, "rapidity": ref.rapidity,
        "phi": ref.phi, "theta": ref.theta, "mass": ref.mass, "mass_t": ref.mass_t,
    }
    for name, f in defs.items():
        expect(res, ctx, "definition", attr("MomentumArray", name, lambda e: e.momenta()),
               lambda x, f=f: f(x("self")), "equals its definition", n=10)
    for name in ("phi", "pt", "theta", "rapidity", "mass_t"):
        # small, but not zero to the precision of the numbers
        expect(res, ctx, "definition", attr("MomentumArray", name, lambda e: e.momenta()),
               lambda x, f=defs[name]: f(x("self")), "equals its definition near zero", n=8,
               moods=("plain",), leaf=small)
    for name, f in defs.items():
        expect(res, ctx, "definition", attr("MomentumArray", name, lambda e: e.momenta()),
               lambda x, f=f: f(x("self")), "equals its definition at every scale", n=8,
               moods=("plain",), leaf=wild)
    for p in (True, False):
        kw = lambda p=p: {"pseudo": api.const(p)}       # noqa: E731

        def wc(x, p=p):
            m = x.nth(0)
            w = ref.pt(m)
            r = (ref.eta if p else ref.rapidity)(m)
            f = (ref.phi(m) * w).sum() / w.sum()
            return ((r * w).sum() / w.sum(), ref.wrap(f))
        expect(res, ctx, "centroid", fcall("calculate.weighted_centroid", lambda e: (
            [e.momenta()], kw()), "pseudo=%s" % p), wc, "pT weighted mean", n=8)

        def rc(x, p=p):
            s = x.nth(0).sum(axis=0, keepdims=True)
            return ((ref.eta if p else ref.rapidity)(s)[0], ref.phi(s)[0])
        expect(res, ctx, "resultant", fcall("calculate.resultant_coords", lambda e: (
            [e.momenta()], kw()), "pseudo=%s" % p), rc, "coordinates of the sum", n=8)

    def cm(x, w=None):
        d = x.nth(0)
        if not isinstance(d, np.ndarray):
            d = np.column_stack(d.vals)
        if w is not None:
            v = x.nth(1)
            if not isinstance(v, np.ndarray):
                v = np.column_stack(v.vals)
            d = (v if v.ndim == 2 else v.reshape(-1, 1)) * d
        s = d.sum(axis=0)
        m2 = s[3] ** 2 - (s[:3] ** 2).sum()
        return np.sqrt(m2) if m2 >= 0 else 0.0

    def off_cone(M, o=None):
        return True
    for tag, prep, w in (
            ("MomentumArray", lambda e: ([e.momenta()], {}), None),
            ("structured array", lambda e: ([e.I.getattr(e.momenta(), "data", e.st)], {}), None),
            ("column weights", lambda e: ([e.momenta(), e.arr(api.raw("colvec", e.col("w")), "f8")],
                                          {}), 1),
            ("matrix of weights", lambda e: ([e.momenta(), e.arr(api.raw("cols", *[
                e.col("w%d" % i, "f8") for i in range(4)]), "f8")], {}), 1),
            ("structured weights", lambda e: ([e.momenta(), e.I.getattr(
                e.momenta("q"), "data", e.st)], {}), 1)):
        for size in (None, {"E": 1}):
            expect(res, ctx, "combined-mass", fcall("calculate.combined_mass", prep, tag + (
                ", one particle" if size else "")),
                lambda x, w=w: cm(x, w), "mass of the weighted sum", n=8,
                moods=("plain", "spacelike"), leaf=scaled, sizes=size)

    def agg(x):
        p, ms = x.nth(0), x.nth(1)
        return np.array([p[m].sum(axis=0) for m in ms])
    expect(res, ctx, "aggregate", fcall("calculate.aggregate_momenta", lambda e: (
        [e.momenta(), api.mask_list(e)], {})), agg, "sum of each cluster in order", n=8,
        cls="MomentumArray")
    expect(res, ctx, "aggregate", fcall("calculate.aggregate_momenta", lambda e: (
        [e.momenta(), api.mask_seq(e)], {}), "any number"), agg, "sum of each cluster in order",
        n=8, cls="MomentumArray")
    for tag, b in (("masks", lambda e, n: e.mask(n)),
                   ("arrays", lambda e, n: e.arr(e.col(n, "b1"), "b1")),
                   ("groups", lambda e, n: e.mask_group(n))):
        def two(x):
            u, v = x.nth(0), x.nth(1)
            return [np.logical_and.reduce(list(q.values())) if isinstance(q, dict) else q
                    for q in (u, v)]
        expect(res, ctx, "jaccard", fcall("calculate.jaccard_distance", lambda e, b=b: (
            [b(e, "m1"), b(e, "m2")], {}), tag), lambda x, two=two: ref.jaccard(*two(x)),
            "1 - |intersection|/|union|", n=14)
        expect(res, ctx, "jaccard", fcall("calculate.jaccard_distance", lambda e, b=b: (
            [b(e, "m1"), b(e, "m2"), e.arr(e.col("w"), "f8")], {}), tag + ",weights"),
            lambda x, two=two: ref.jaccard(*two(x), x.nth(2)), "weighted", n=14)
    expect(res, ctx, "jaccard", fcall("calculate.jaccard_distance", lambda e: (
        [e.mask("m1"), e.mask("m2")], {}), "empty union"), lambda x: 0.0,
        "0 for an empty union", leaf=lambda M, n, p: np.zeros(M.nspace("E"), bool)
        if n in ("m1", "m2") else None)
    return res
