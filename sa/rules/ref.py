"""Declared definitions, written with numpy over concrete model values.

Momenta are (n, 4) arrays with columns x, y, z, e.  These functions are the
oracle with which extracted terms are compared; they never see the package.
"""
from ..model import np

TOL = 1e-10


def comps(p):
    return p[:, 0], p[:, 1], p[:, 2], p[:, 3]


def pt(p):
    return np.hypot(p[:, 0], p[:, 1])


def mag(p):
    return np.sqrt((p[:, :3] ** 2).sum(axis=1))


def eta(p):
    with np.errstate(all="ignore"):
        m = mag(p)
        out = np.arctanh(p[:, 2] / m)
        # exactly along the beam
        return np.where((pt(p) == 0.0) & (m > 0), np.copysign(np.inf, p[:, 2]), out)


def rapidity(p):
    x, y, z, e = comps(p)
    with np.errstate(all="ignore"):
        r = 0.5 * np.log((e + z) / (e - z))
    return np.where(np.abs(e - np.abs(z)) <= TOL, np.copysign(np.inf, z), r)


def phi(p):
    f = np.arctan2(p[:, 1], p[:, 0])
    return np.where(pt(p) <= TOL, np.nan, f)


def theta(p):
    return np.arctan2(pt(p), p[:, 2])


def sroot(v):
    return np.sign(v) * np.sqrt(np.abs(v))


def mass(p):
    return sroot(p[:, 3] ** 2 - (p[:, :3] ** 2).sum(axis=1))


def mass_t(p):
    return sroot(p[:, 3] ** 2 - p[:, 2] ** 2)


def wrap(a):
    return np.angle(np.exp(1j * a))


def delta_r(a, b, pseudo):
    """rows a, columns b"""
    f = eta if pseudo else rapidity
    ra, rb = f(a), f(b)
    with np.errstate(all="ignore"):
        d = ra[:, None] - rb[None, :]
    d = np.where(np.isnan(d), 0.0, d)
    za, zb = a[:, 0] + 1j * a[:, 1], b[:, 0] + 1j * b[:, 1]
    return np.hypot(d, np.angle(za[:, None] * zb.conj()[None, :]))


def rotation(angle, theta_, phi_):
    n = axis(theta_, phi_)
    k = np.array([[0, -n[2], n[1]], [n[2], 0, -n[0]], [-n[1], n[0], 0]])
    return np.eye(3) + np.sin(angle) * k + (1 - np.cos(angle)) * (k @ k)


def axis(theta_, phi_):
    return np.array([np.sin(theta_) * np.cos(phi_), np.sin(theta_) * np.sin(phi_),
                     np.cos(theta_)])


def jaccard(u, v, w=None):
    w = np.ones(len(u)) if w is None else w
    union = (w * (u | v)).sum()
    if union == 0:
        return 0.0
    return (w * (u ^ v)).sum() / union
