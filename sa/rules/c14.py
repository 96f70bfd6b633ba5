"""C14: splitting conserves four-momentum and keeps the other particles.

The output array of split_momentum / split_hardest is extracted as one value
graph over all rows (slices, in-place products and row assignments included)
and compared with the declared arrangement for every position of the hardest
particle, for explicit (named tuple and plain tuple) and automatic axes.
"""
from ..model import np, Raised
from ..terms import raw, const
from .. import api
from . import Result, ref
from .common import fcall, expect
from .c13 import angles


def tup(e):
    from ..values import Tup
    return Tup([e.num("theta"), e.num("phi")])


def leaf(M, name, p):
    if name == "z":
        return (0.5, 0.05, 0.31, 0.44)[M.index % 4]
    if name in ("theta", "phi", "angle"):
        g = np.random.default_rng([M.seed, len(name)])
        if M.index % 4 == 3:            # no turn at all, and more than a turn
            return (0.0, 7.9, -13.0)[(M.index // 4 + len(name)) % 3]
        return float(g.uniform(-3, 3))


def children(parent, z, angle, th, ph):
    a = parent * z
    a[:3] = ref.rotation(angle, th, ph) @ a[:3]
    return np.array([a, parent - a])


def unpack(t):
    return tuple(t.vals) if hasattr(t, "vals") else tuple(t)


def run(ctx):
    res = Result(__doc__)
    one = lambda e: e.momenta("p", raw("range", const(0), const(1), const(1)))  # noqa: E731
    for tag, ax in (("SphericalAngle", angles), ("tuple", tup)):
        expect(res, ctx, "split-momentum", fcall("transform.split_momentum", lambda e, ax=ax: (
            [one(e), e.num("z"), e.num("angle"), ax(e)], {}), tag),
            lambda x: children(x.nth(0)[0], x.nth(1), x.nth(2), *unpack(x.nth(3))),
            "children z R p and p - z R p", cls="MomentumArray", leaf=leaf, n=8)
        f = fcall("transform.split_momentum", lambda e, ax=ax: (
            [one(e), e.num("z"), e.num("angle"), ax(e)], {}), tag)
        expect(res, ctx, "conservation", f, lambda x: x.nth(0)[0], "children sum to the parent",
               norm=lambda v: api_plain(v).sum(axis=0), leaf=leaf, n=8)

        def hardest(x):
            p = x.nth(0)
            i = int(ref.pt(p).argmax())
            return np.vstack([np.delete(p, i, axis=0), children(
                p[i], x.nth(1), x.nth(2), *unpack(x.nth(3)))])
        expect(res, ctx, "split-hardest", fcall("transform.split_hardest", lambda e, ax=ax: (
            [e.momenta(), e.num("z"), e.num("angle"), ax(e)], {}), tag), hardest,
            "others kept in order, then both children", cls="MomentumArray", leaf=leaf,
            moods=("plain", "spacelike"), n=16)

    def auto(x):
        p = x.nth(0)
        if len(p) < 2:
            return Raised("ValueError")
        w = ref.pt(p)
        i = int(w.argmax())
        c = np.cross(p[w.argmin(), :3], p[i, :3])
        return np.vstack([np.delete(p, i, axis=0), children(
            p[i], x.nth(1), x.nth(2), np.arctan2(np.hypot(c[0], c[1]), c[2]),
            np.arctan2(c[1], c[0]))])
    expect(res, ctx, "split-hardest", fcall("transform.split_hardest", lambda e: (
        [e.momenta(), e.num("z"), e.num("angle")], {}), "no axis"), auto,
        "others kept in order, then both children, axis from softest x hardest",
        cls="MomentumArray", leaf=leaf, moods=("plain", "spacelike"), n=16)
    # smallest events
    for n in (1, 2):
        def hardest1(x):
            p = x.nth(0)
            i = int(ref.pt(p).argmax())
            return np.vstack([np.delete(p, i, axis=0), children(
                p[i], x.nth(1), x.nth(2), *unpack(x.nth(3)))])
        expect(res, ctx, "split-hardest", fcall("transform.split_hardest", lambda e: (
            [e.momenta(), e.num("z"), e.num("angle"), angles(e)], {}), "%d particles" % n),
            hardest1, "others kept in order, then both children", cls="MomentumArray",
            leaf=leaf, moods=("plain", "spacelike"), n=8, sizes={"E": n})
    return res


def api_plain(v):
    from ..model import plain
    return plain(v)
