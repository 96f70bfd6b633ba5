"""C30: randomly sampled momenta are physical and isotropic.

from_spherical_uniform is extracted as a value graph over its random draws,
which are told apart by their place in the generator's stream.  Every draw is
varied on its own over the unit interval in the graph: the energy, the cosine
of the polar angle and the azimuth of each particle must each answer to one
draw of its own, linearly over the whole declared range, which makes them
uniform and independent; the mass must be real, and zero for the declared
share of the draws.
"""
import cmath
import math

from .. import model
from ..model import np
from ..terms import const
from . import Result
from .common import compare, fcall, outcome, sc_one, sc_steps, why_not

GRID = (0.01, 0.125, 0.25, 0.5, 0.625, 0.875, 0.99)
FINE = 200


class Draws:
    """Values of the random draws, by place in the stream and element."""

    def __init__(self, seed):
        self.seed, self.made, self.fixed = seed, {}, {}

    def __call__(self, M, key, n):
        if key not in self.made:
            self.made[key] = np.random.default_rng(
                [self.seed, len(self.made)]).random(max(n, 64)) * 0.9 + 0.05
        v = self.made[key][:n].copy()
        for (k, i), x in self.fixed.items():
            if k == key and i < n:
                v[i] = x
        self.size[key] = n
        return v


def rows(p):
    """Energy, |p|/E, polar cosine and azimuth of each particle."""
    q = np.linalg.norm(p[:, :3], axis=1)
    return (p[:, 3], q, p[:, 2] / q, np.arctan2(p[:, 1], p[:, 0]))


def linear(vals, lo, hi):
    """Whether values over GRID run linearly between two limits."""
    up = lo + (hi - lo) * np.array(GRID)
    return any(np.allclose(vals, x, rtol=0, atol=1e-6 * (hi - lo)) for x in (up, lo + hi - up))


def circle(vals):
    """Whether angles over GRID run once around the circle, evenly."""
    z = [cmath.rect(1.0, v) for v in vals]
    return any(all(abs(x - cmath.rect(1.0, vals[0] + s * 2 * math.pi * (u - GRID[0]))) < 1e-6
                   for x, u in zip(z, GRID)) for s in (1, -1))


def study(got, M, emax, share):
    """What the draws do to the particles: a description to be compared."""
    D = Draws(M.seed)

    def sample(**kw):
        D.fixed = dict(kw.get("fixed", {}))
        D.size = {}
        model.DRAW[0] = D
        try:
            v = got(model.Model(M.seed, size=5, leaf=M.leaf, mood="plain"))
        finally:
            model.DRAW[0] = None
        if isinstance(v, model.Raised):
            raise model.NoModel("raises %s" % v)
        v = np.asarray(v)
        if v.ndim != 2 or v.shape[1] != 4 or v.dtype.kind != "f":
            raise model.NoModel("not momenta")
        return v
    p0 = sample()
    n = len(p0)
    out = {"particles": n}
    e0, q0, c0, a0 = rows(p0)
    want = {"energy": 0, "polar cosine": 2, "azimuth": 3}
    acts = {k: {} for k in want}        # quantity -> row -> draw elements
    resp, worst, least = {}, 0.0, math.inf
    for key, m in sorted(D.size.items()):
        for i in range(m):
            runs = [rows(sample(fixed={(key, i): u})) for u in GRID]
            if any(len(r[0]) != n for r in runs):
                return {"particles": "depends on the draws"}
            for name, j in want.items():
                for r in range(n):
                    vs = [x[j][r] for x in runs]
                    if not all(map(math.isfinite, vs)):
                        raise model.NoModel("undefined " + name)
                    z = [cmath.rect(1.0, v) for v in vs] if j == 3 else vs
                    if max(abs(x - z[0]) for x in z) > 1e-7:
                        acts[name].setdefault(r, []).append((key, i))
                        resp[name, r, key, i] = vs
            worst = max([worst] + [float(np.max(r[1] / r[0])) for r in runs])
            least = min([least] + [float(np.min(r[0])) for r in runs])
    used = []
    for name in want:
        verdict = "uniform and independent"
        for r in range(n):
            ds = acts[name].get(r, [])
            if len(ds) != 1:
                verdict = "made of %d draws" % len(ds)
                break
            vs = resp[(name, r) + ds[0]]
            ok = circle(vs) if name == "azimuth" else linear(
                vs, *((0.0, emax) if name == "energy" else (-1.0, 1.0)))
            if not ok:
                verdict = "not uniform"
                break
            used.append(ds[0])
        out[name] = verdict
    if len(set(used)) != len(used):
        out["draws"] = "shared"
    b = q0 / e0
    out["mass"] = "real" if worst <= 1 + 1e-9 and least >= 0 else "imaginary"
    if share == 1.0:
        out["massless"] = bool(np.allclose(b, 1.0, atol=1e-9))
    elif share == 0.0:
        out["massless"] = bool(np.any(np.abs(b - 1.0) < 1e-9))
    else:
        out["massless"] = None
        for key, m in sorted(D.size.items()):
            got_ = []
            for u in (np.arange(FINE) + 0.5) / FINE:
                e, q, _, _ = rows(sample(fixed={(key, 0): u}))
                got_.append(abs(q[0] / e[0] - 1.0) < 1e-9)
            f = sum(got_) / FINE
            if 0 < f < 1:
                out["massless"] = round(float(f), 2)
                break
    return out


def run(ctx):
    res = Result(__doc__)
    for share in (None, 0.0, 1.0, 0.3, 0.75):
        for seeded in (True, False):
            def prep(e, share=share, seeded=seeded):
                k = {} if share is None else {"massless": const(share)}
                if seeded:
                    k["seed"] = e.num("seed", "int")
                return [e.num("n", "int"), e.num("emax")], k
            tag = "massless %s%s" % ("by default" if share is None else share,
                                     ", seeded" if seeded else "")
            sc = fcall("MomentumArray.from_spherical_uniform", prep, tag)
            o = sc_one(ctx.interp, sc, sc_steps(ctx))
            what = "size particles, uniform in energy and direction, massless as asked (%s)" % tag
            if not o.exact:
                res.unknown("%s (%s)" % (sc.name, why_not(o)))
                continue
            got = outcome(ctx.interp, o)
            s = share or 0.0

            def leaf(M, name, p):
                return {"n": 1 + M.index % 3, "seed": 7, "emax": (10.0, 250.0)[
                    M.index % 2]}.get(name)

            def answer(M, got=got, s=s):
                M2 = model.Model(M.seed, size=5, mood="plain",
                                 leaf=lambda m, name, p: leaf(M, name, p))
                return sorted(map(repr, study(got, M2, leaf(M, "emax", None), s).items()))

            def want(M, s=s):
                d = {"particles": leaf(M, "n", None), "mass": "real"}
                for k in ("energy", "polar cosine", "azimuth"):
                    d[k] = "uniform and independent"
                d["massless"] = {0.0: False, 1.0: True}.get(s, s)
                return sorted(map(repr, d.items()))
            compare(res, ctx, "sampling", sc.target, None, answer, want, what, n=3,
                    moods=("plain",))
    return res
