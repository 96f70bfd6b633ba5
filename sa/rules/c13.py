"""C13: boosts and rotations.

The transformations are extracted as value graphs and compared with the unique
Lorentz transformation having the declared effect: boost along z for
shift_rapidity, rotation about z for shift_phi, and Rodrigues' rotation for
rotation_matrix; soft_hard_axis must give the angles of softest x hardest.
The algebraic consequences (preserved components, orthogonality, determinant,
fixed axis) are checked on the extracted graphs themselves as well.
"""
from ..model import np, plain
from ..terms import const, raw, TRUE
from .. import terms as tm
from . import Result, ref
from .common import fcall, mcall, expect

SH = (("scalar", lambda e: e.num("s")),
      ("int", lambda e: e.num("s", "int")),
      ("array", lambda e: e.arr(e.col("s1"), "f8")))


def angles(e, n=""):
    return e.I.call(e.I.public("transform.SphericalAngle"), [
        e.num(n + "theta"), e.num(n + "phi")], {}, e.st)


def lorentz(x):
    p, s = x("self"), x("1")
    q = p.copy()
    q[:, 2] = np.cosh(s) * p[:, 2] + np.sinh(s) * p[:, 3]
    q[:, 3] = np.cosh(s) * p[:, 3] + np.sinh(s) * p[:, 2]
    return q


def rotate(x):
    p, s = x("self"), x("1")
    q = p.copy()
    q[:, 0] = np.cos(s) * p[:, 0] - np.sin(s) * p[:, 1]
    q[:, 1] = np.sin(s) * p[:, 0] + np.cos(s) * p[:, 1]
    return q


def tilt(x):
    p, s = x("self"), x("1")
    q = p.copy()
    q[:, 2] = ref.pt(p) * np.sinh(ref.eta(p) + s)
    q[:, 3] = np.nan
    return q


def se_leaf(M, name, p):
    """Moderate shifts; time-like particles, heavy and light."""
    if name == "s":
        return (0.7, -1.3, 2.0, -0.2)[M.index % 4] if p.get("kind") != "int" else (
            1, -2, 2, -1)[M.index % 4]


def wide(M, name, p):
    """Shifts of more than a turn, and of many units of rapidity."""
    v = (0.7, -4.0, 5.5, 8.5, -9.0, -0.2, 3.5)
    if name == "s":
        return v[M.index % 7] if p.get("kind") != "int" else round(v[M.index % 7])
    if name == "s1":
        return np.array([v[(M.index + 2 * i) % 7] for i in range(M.nspace("E"))])


def turns(M, name, p):
    v = (0.0, 2.5, -2.5, 7.9, -13.0, np.pi / 2, np.pi)
    if name in ("angle", "theta", "phi"):
        return float(v[(M.index * len(name) + len(name)) % 7])


def eta_sum(p):
    return float(ref.eta(p.sum(axis=0)[None, :])[0])


def boosted(x, n=None):
    """(common boost?, transverse components, mass_t; shift reached by the sum)"""
    p, s = x("self"), float(x("1"))
    q = p.sum(axis=0)
    r = np.hypot(q[0], q[1]) / ref.mass_t(q[None, :])[0]
    t = eta_sum(p)
    b = np.arcsinh(r * np.sinh(t + s)) - np.arcsinh(r * np.sinh(t))
    q = p.copy()
    q[:, 2] = np.cosh(b) * p[:, 2] + np.sinh(b) * p[:, 3]
    q[:, 3] = np.cosh(b) * p[:, 3] + np.sinh(b) * p[:, 2]
    return q


def run(ctx):
    res = Result(__doc__)
    mom = lambda e: e.momenta()         # noqa: E731
    for tag, b in SH:
        expect(res, ctx, "boost", mcall("MomentumArray", "shift_rapidity", mom,
                                        lambda e, o, b=b: ([b(e)], {}), tag),
               lorentz, "boost along z by the shift", cls="MomentumArray", n=8)
        expect(res, ctx, "rotation", mcall("MomentumArray", "shift_phi", mom,
                                           lambda e, o, b=b: ([b(e)], {}), tag),
               rotate, "rotation about z by the shift", cls="MomentumArray", n=8)
        expect(res, ctx, "eta-shift", mcall(
            "MomentumArray", "shift_eta", mom,
            lambda e, o, b=b: ([b(e)], {"experimental": TRUE}), tag + ",experimental"),
            tilt, "longitudinal momentum for the shifted pseudorapidity, energy undefined",
            cls="MomentumArray", n=8, moods=("plain", "spacelike"))
        for nm, meth, want, kw in (("boost", "shift_rapidity", lorentz, {}),
                                   ("rotation", "shift_phi", rotate, {}),
                                   ("eta-shift", "shift_eta", tilt, {"experimental": TRUE})):
            expect(res, ctx, nm, mcall(
                "MomentumArray", meth, mom, lambda e, o, b=b, kw=kw: ([b(e)], kw), tag + ",wide"),
                want, "the same for large shifts", cls="MomentumArray", n=8, leaf=wide,
                moods=("plain",))
        expect(res, ctx, "eta-shift", mcall(
            "MomentumArray", "shift_eta", mom,
            lambda e, o, b=b: ([b(e)], {"experimental": TRUE}), tag + ",experimental,beam"),
            lambda x: tilt(x)[:, (0, 1, 3)], "px and py kept, energy undefined, for every particle",
            norm=lambda v: np.asarray(plain(v))[:, (0, 1, 3)], n=8, moods=("degenerate",))

    for tag, b in SH[:2]:
        for kw in ((), ("max_corrections",)):
            expect(res, ctx, "eta-boost", mcall(
                "MomentumArray", "shift_eta", mom, lambda e, o, b=b, kw=kw: (
                    [b(e)], {k: const(3) for k in kw}), ",".join((tag,) + kw)),
                boosted, "common boost along z to the shifted pseudorapidity of the sum",
                cls="MomentumArray", n=12, moods=("plain",), leaf=se_leaf)
    expect(res, ctx, "eta-boost-none", mcall(
        "MomentumArray", "shift_eta", mom, lambda e, o: (
            [e.num("s")], dict(max_corrections=const(0))), "max_corrections=0"),
        lambda x: x("self"), "no correction, no boost", cls="MomentumArray", n=6,
        moods=("plain",))

    rot = fcall("transform.rotation_matrix", lambda e: ([e.num("angle"), angles(e)], {}))

    def parts(x):
        a = x.nth(0)
        t = x.nth(1)
        th, ph = (t.vals if hasattr(t, "vals") else t)
        return a, th, ph
    expect(res, ctx, "rotation-matrix", rot, lambda x: ref.rotation(*parts(x)),
           "right-handed rotation about the axis", n=12, moods=("plain",))
    expect(res, ctx, "rotation-matrix", rot, lambda x: ref.rotation(*parts(x)),
           "right-handed rotation about the axis, for every angle", n=12, moods=("plain",),
           leaf=turns)

    def algebra(what, f, want):
        expect(res, ctx, "rotation-algebra", rot, want, what, norm=f, n=6, moods=("plain",))
    algebra("is orthogonal", lambda r: np.asarray(r) @ np.asarray(r).T, lambda x: np.eye(3))
    algebra("has determinant one", lambda r: np.linalg.det(np.asarray(r)), lambda x: 1.0)

    def softhard(x):
        p = x.nth(0)
        w = ref.pt(p)
        c = np.cross(p[w.argmin(), :3], p[w.argmax(), :3])
        return (np.arctan2(np.hypot(c[0], c[1]), c[2]), np.arctan2(c[1], c[0]))

    def seq(v):
        return tuple(v.vals) if hasattr(v, "vals") else v
    expect(res, ctx, "axis-angles", fcall("transform.soft_hard_axis", lambda e: (
        [e.momenta()], {})), softhard, "angles (theta, phi) of softest x hardest", norm=seq,
        n=10, moods=("plain", "spacelike"))
    return res
