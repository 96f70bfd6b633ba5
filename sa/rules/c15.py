"""C15: event-shape objectives match their definitions and their gradients.

The function handed to scipy's minimiser is extracted as a value graph of its
free variables, together with the gradient it returns and the box it is
minimised over.  The objective is compared with its definition, the gradient
with the derivative of that definition, the box with the set of all axes (up
to sign), and the returned value and axis with the optimum's symbols.
"""
import math

from ..model import np
from ..terms import T, const, NONE, raw
from .. import terms as tm, model
from . import Result
from .common import fcall, expect, compare, sc_one, sc_steps, why_not


def axis(phi, theta):
    return np.array([math.sin(theta) * math.cos(phi), math.sin(theta) * math.sin(phi),
                     math.cos(theta)])


def thrust(p, phi, theta):
    p = p[:, :3]
    return -np.abs(p @ axis(phi, theta)).sum() / np.sqrt((p ** 2).sum(axis=1)).sum()


def spherocity(p, phi, theta):
    p = p[:, :3]
    c = np.cross(p, axis(phi, theta))
    return (4.0 / (math.pi * np.sqrt((p ** 2).sum(axis=1)).sum()) * np.sqrt(
        (c ** 2).sum(axis=1)).sum()) ** 2


def c_param(p):
    p = p[:, :3]
    n = np.sqrt((p ** 2).sum(axis=1))
    s = 0.0
    for i in range(len(p)):
        for j in range(len(p)):
            if n[i] * n[j] > 0:
                s += n[i] * n[j] - (p[i] @ p[j]) ** 2 / (n[i] * n[j])
    return 1.5 * s / n.sum() ** 2


def leaf(M, name, p):
    if name.startswith("%min_x"):
        g = np.random.default_rng([M.seed, len(name), int(name[6:])])
        return float(g.uniform(-1.5, 1.5))
    if p.get("mom") and M.index % 4 > 1:        # in other units
        return M.momentum(p["mom"], p["comp"], M.nspace("E")) * (1e-5, 1e5)[M.index % 4 - 2]


def momenta(M, o, I):
    return model.plain(M.val(I.term(o.inputs[0][1], o.before)))


def total(o, I):
    return lambda M: (momenta(M, o, I)[:, :3] ** 2).sum() > 0


def slope(f, p, x, h=1e-5):
    out = []
    for k in range(2):
        d = np.zeros(2)
        d[k] = h
        out.append((-f(p, *(x + 2 * d)) + 8 * f(p, *(x + d)) - 8 * f(p, *(x - d))
                    + f(p, *(x - 2 * d))) / (12 * h))
    return np.array(out)


def covered(box):
    """An axis that the box of (azimuth, inclination) misses, or None."""
    (a0, a1), (t0, t1) = [[-np.inf if x is None else float(x) for x in box[0]],
                          [-np.inf if x is None else float(x) for x in box[1]]]
    if box[0][1] is None:
        a1 = np.inf
    if box[1][1] is None:
        t1 = np.inf
    g = np.random.default_rng(3)
    e = 1e-9
    for _ in range(400):
        n = g.normal(size=3)
        n /= np.linalg.norm(n)
        ok = False
        for s in (1, -1):
            th, ph = math.acos(s * n[2]), math.atan2(s * n[1], s * n[0])
            for tt, pp in ((th, ph), (-th, ph + math.pi)):
                for k in (-1, 0, 1):
                    for j in (-2, -1, 0, 1, 2):
                        if t0 - e <= tt + 2 * math.pi * k <= t1 + e and \
                                a0 - e <= pp + 2 * math.pi * j <= a1 + e:
                            ok = True
        if not ok:
            return n
    return None


def run(ctx):
    res = Result(__doc__)
    I = ctx.interp
    for nm, f, sign in (("thrust", thrust, -1.0), ("spherocity", spherocity, 1.0)):
        for ax in (False, True, None):
            for seed in (True, False):
                def prep(e, ax=ax, seed=seed):
                    k = {} if ax is None else {"return_axis": const(ax)}
                    if seed:
                        k["rng_seed"] = e.num("seed", "int")
                    return [e.momenta()], k
                s = fcall("calculate." + nm, prep, "axis=%s,seed=%s" % (ax, seed))
                o = sc_one(I, s, sc_steps(ctx))
                if not o.exact:
                    res.unknown("%s (%s)" % (s.name, why_not(o)))
                    continue
                t = I.term(o.value, o.st)
                mins = [u for u in tm.subterms(t) if u.op == "minimize"]
                if len(mins) != 1 or len(mins[0].args[0].args) != 2:
                    res.unknown("%s (no single two-variable minimisation)" % s.name)
                    continue
                zs, ft, gt, x0, _, bt = mins[0].args
                res.count("objectives extracted")
                kw = dict(leaf=leaf, n=8, when=total(o, I))

                def z(M):
                    return np.array([M.val(v) for v in zs.args])
                compare(res, ctx, "objective", s.target, o, ft,
                        lambda M: f(momenta(M, o, I), *z(M)),
                        "%s: objective of the minimisation" % s.name, **kw)
                if gt is not NONE and gt.op != "fd":
                    compare(res, ctx, "gradient", s.target, o, gt,
                            lambda M: slope(f, momenta(M, o, I), z(M)),
                            "%s: gradient is the derivative of the objective by azimuth and "
                            "inclination" % s.name, tol=2e-6, **kw)
                base = mins[0]

                def opt(M):
                    v = sign * M.val(raw("minof", base))
                    if not ax:
                        return v
                    return (v, axis(*[M.val(raw("argminof", base, const(i))) for i in (0, 1)]))
                compare(res, ctx, "returned-optimum", s.target, o, t, opt,
                        "%s: returns the optimum%s" % (s.name, " and its axis" if ax else ""), **kw)
                if bt is not NONE:
                    M = model.Model(1)
                    try:
                        box = M.val(bt)
                        miss = covered([tuple(b) for b in box])
                    except (model.NoModel, model.Undef, TypeError, ValueError) as e:
                        res.unknown("%s: domain (%s)" % (s.name, e))
                        continue
                    if miss is None:
                        res.ok("%s: the domain contains every axis up to sign" % s.name)
                    else:
                        from .common import where
                        fl, ln, fn = where(ctx, s.target)
                        res.bad("domain", fl, ln, fn, "%s: no axis of the domain %s is parallel "
                                "to %s" % (s.name, box, np.round(miss, 3)))
    expect(res, ctx, "c-parameter", fcall("calculate.c_parameter", lambda e: ([e.momenta()], {})),
           lambda x: c_param(x.nth(0)), "3/2 of the normalised sum over ordered pairs", n=10,
           leaf=leaf)
    return res
