"""C22: both Delta R computations agree and are rows-by-columns.

The matrices written by the distance kernels are extracted (loops summarised
as fills of the index square, unassigned elements staying undefined) and
compared with the declared matrix, for two different clouds, for an object
against itself, and for their callers.
"""
from ..model import np
from ..terms import const, TRUE, FALSE
from .. import api
from . import Result, ref
from .common import fcall, mcall, expect


def radius_leaf(M, name, p):
    if name == "radius":
        return 0.6 + 0.5 * (M.index % 4)
    if name == "pt_exp":
        return (-0.1, 0.7, -2.0, 0.0)[M.index % 4]


def run(ctx):
    res = Result(__doc__)
    for p in (True, False):
        for th in (1, 2):
            expect(res, ctx, "delta-R", mcall("MomentumArray", "delta_R", lambda e: e.momenta(),
                   lambda e, o, p=p, th=th: ([e.momenta("q", e.space("F"))], dict(
                       pseudo=const(p), threads=const(th))), "other,pseudo=%s,threads=%d" % (p, th)),
                   lambda x, p=p: ref.delta_r(x("self"), x("1"), p), "distance of every pair", n=8)
            expect(res, ctx, "delta-R", mcall("MomentumArray", "delta_R", lambda e: e.momenta(),
                   lambda e, o, p=p, th=th: ([o], dict(pseudo=const(p), threads=const(th))),
                   "self,pseudo=%s,threads=%d" % (p, th)),
                   lambda x, p=p: zero_diag(ref.delta_r(x("self"), x("self"), p)),
                   "distance of every pair, zero diagonal", n=8)
        expect(res, ctx, "delta-R", mcall("MomentumArray", "delta_R", lambda e: e.momenta(),
               lambda e, o, p=p: ([e.momenta("q", e.space())], dict(pseudo=const(p))),
               "same length,pseudo=%s" % p),
               lambda x, p=p: ref.delta_r(x("self"), x("1"), p), "distance of every pair", n=8)
    expect(res, ctx, "delta-R-default", mcall(
        "MomentumArray", "delta_R", lambda e: e.momenta(), lambda e, o: (
            [e.momenta("q", e.space("F"))], {}), "defaults"),
        lambda x: ref.delta_r(x("self"), x("1"), True), "pseudorapidity by default", n=8)
    expect(res, ctx, "delta-R", fcall("matrix.delta_R_aff", lambda e: ([e.momenta()], {})),
           lambda x: zero_diag(ref.delta_r(x.nth(0), x.nth(0), True)), "self distances", n=8)

    def phd(x, w=None):
        a, b = x.nth(0), x.nth(1)
        return ref.pt(a)[:, None] ** (x.nth(2) if w is None else w) * ref.delta_r(a, b, True)
    expect(res, ctx, "parton-hadron", fcall("matrix.parton_hadron_distance", lambda e: (
        [e.momenta("p"), e.momenta("q", e.space("F"))], {"pt_exp": e.num("pt_exp")})), phd,
        "row i scaled by pt_i", n=8, leaf=radius_leaf, moods=("plain", "spacelike"))
    expect(res, ctx, "parton-hadron", fcall("matrix.parton_hadron_distance", lambda e: (
        [e.momenta("p"), e.momenta("q", e.space("F"))], {}), "default"),
        lambda x: phd(x, -0.1), "row i scaled by pt_i", n=8, moods=("plain", "spacelike"))

    def prune(x, mask=False, centre=False):
        p = x.nth(0)
        r = x.nth(1)
        m = x("mask") if mask else np.ones(len(p), bool)
        q = p[m]
        if centre:
            e0, f0 = x("centre")
        else:
            s = q.sum(axis=0, keepdims=True)
            e0, f0 = ref.eta(s)[0], np.arctan2(s[0, 1], s[0, 0])
        d = np.hypot(ref.eta(q) - e0, ref.wrap(np.arctan2(q[:, 1], q[:, 0]) - f0))
        out = np.zeros(len(p), bool)
        out[m] = d < r
        return out
    from ..values import Tup
    for m in (False, True):
        for c in (False, True):
            def prep(e, m=m, c=c):
                k = {}
                if m:
                    k["mask"] = e.mask()
                if c:
                    k["centre"] = Tup([e.num("eta0"), e.num("phi0")])
                return [e.momenta(), e.num("radius")], k
            expect(res, ctx, "centroid-prune", fcall(
                "select.centroid_prune", prep, "mask=%s,centre=%s" % (m, c)),
                lambda x, m=m, c=c: prune(x, m, c), "particles closer than the radius",
                cls="MaskArray", n=14, leaf=radius_leaf, moods=("plain", "spacelike"))
    return res


def zero_diag(m):
    m = m.copy()
    np.fill_diagonal(m, 0.0)
    return m
