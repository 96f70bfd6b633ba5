"""C21: numeric kernels never divide by a value that can be zero.

Every scalar division in compiled code which the routines of the public API
reach is recorded with its divisor and the conditions of its path, as terms
over the arguments.  Events of particles at rest, along the beam or the axis,
identical particles, candidates without spread, isolated nodes and empty sets
are inserted into the terms: a divisor which vanishes while its path is taken
is a ZeroDivisionError.  Only events without any momentum are left out.
"""
from .. import api, model, terms as tm
from ..model import np
from ..terms import T, mk, raw, const, TRUE
from ..values import ClsV
from ..interp import SPACES, BEFORE
from . import Result
from .astutil import Names
from .common import sc_one, sc_steps, why_not, loc3, fcall, instance, compare
from .c24 import FIVES

JIT = ("numba.njit", "numba.jit", "numba.vectorize", "numba.guvectorize", "numba.cfunc")
KINDS = 11


def leaf(M, name, p):
    """Degenerate events, by the number of the model."""
    k = M.index % KINDS
    g = np.random.default_rng([M.seed, M.index])
    end = name.split(".")[-1]
    if name.startswith("%min_x"):
        return 0.0 if k in (0, 2, 3) else float(g.uniform(-1.5, 1.5))
    if end in ("px", "py", "pz", "e"):
        n = M.nspace("F" if name.startswith("q.") else "E")
        c = ("px", "py", "pz", "e").index(end)
        v = g.integers(1, 6, (max(n, 1), 4)).astype(float)
        v[:, 3] += 20.0
        if k == 0:
            v[0] = 0.0                         # a particle at rest
        elif k == 1:
            v[:] = v[0]                        # identical particles
        elif k == 2:                           # along the beam and the axis
            v[:, :2] = 0.0
            v[:, 3] = v[:, 2]
        elif k == 3:
            v[::2, :3] = 0.0                   # every other one at rest
        elif k == 4:
            v[-1, :2] = 0.0
            v[-1, 3] = abs(v[-1, 2])
        elif k == 5:                           # one transverse momentum
            v[:, :2] = FIVES[np.arange(len(v)) % len(FIVES)]
        elif k == 6:                           # back to back
            v[1::2] = v[0] * (-1, -1, -1, 1)
        elif k == 7:
            v[:] = v[0]
            v[0, :3] = 0.0
        elif k == 8:                           # at right angles
            v[:, :3] *= np.eye(3)[np.arange(len(v)) % 3]
        elif k == 9:                           # no energy
            v[:, 3] = 0.0
        return v[:n, c]
    if end in ("radius", "cut"):
        return (0.0, 1e-9, 0.5, 100.0)[M.index % 4]
    if tm.SYM.get(name, {}).get("kind") == "b1" and k in (0, 1, 2):
        n = M.nspace("E")
        return np.full(n, k == 1)
    return None


def scenarios():
    yield from api.scenarios()
    two = lambda e: ([e.momenta(), e.momenta("q", e.space("F"))], {})
    yield fcall("select.arg_closest", two, "any sizes")
    for w in (False, True):
        yield fcall("calculate.jaccard_distance", lambda e, w=w: ([
            e.mask("u"), e.mask("v")] + ([e.col("w", "f8", e.space("E"))] if w else []), {}),
            "weights" if w else "plain")


def taken(e):
    """The condition of the path of a division, or None."""
    c = TRUE
    for k, v in e.assume.items():
        if not isinstance(k, T):
            if bool(k) != bool(v):
                return None
            continue
        if k.op == "nonempty":
            if v:
                continue
            return None
        c = mk("and", c, k if v else mk("not", k))
    return c


def obligation(e):
    """'the divisor vanishes on the path for some binding', as a term."""
    y, binders = e.extra
    c = taken(e)
    if c is None:
        return None
    t = mk("and", c, mk("eq", y, const(0)))
    for _ in range(4):
        sub = {u: BEFORE[u] for u in tm.subterms(t) if u in BEFORE}
        if not sub:
            break
        t = tm.subst(t, sub)
    for b in reversed(binders):
        if any(u is b for u in tm.subterms(t)):
            t = tm.bind("bany", SPACES.get(b) or raw("nospace"), b, t)
    return t


def momentum(o, I):
    ins = [v for _, v in o.inputs if instance(o, v) is not None and instance(
        o, v).cls.name == "MomentumArray"]

    def when(M):
        for v in ins:
            p = np.asarray(model.plain(M.val(I.term(v, o.before))), dtype=float)
            if not p.size or not (p[:, :3] != 0).any():
                return False
        return True
    return when


def kernels(ctx):
    """Compiled functions of the sources."""
    import ast
    names = Names(ctx.pkg)
    out = {}
    for m in ctx.pkg.modules.values():
        for d in ast.walk(m.tree):
            if isinstance(d, ast.FunctionDef):
                for x in d.decorator_list:
                    f = names.full(m, x.func if isinstance(x, ast.Call) else x)
                    if f in JIT:
                        divs = [n for n in ast.walk(d) if isinstance(
                            n, (ast.BinOp, ast.AugAssign)) and isinstance(
                                n.op, (ast.Div, ast.FloorDiv, ast.Mod))]
                        out[d] = (m, f, divs)
    return out


def run(ctx):
    res = Result(__doc__)
    I = ctx.interp
    steps = sc_steps(ctx)
    seen, sites, open_, done = set(), set(), {}, set()
    for sc in scenarios():
        o = sc_one(I, sc, steps)
        divs = [e for e in o.events if e.kind == "division"]
        for e in divs:
            sites.add((e.loc.rel if hasattr(e.loc, "rel") else loc3(e.loc)[0], loc3(e.loc)[1]))
            if e.what == "site":
                continue
            at = loc3(e.loc)[:2]
            if not isinstance(e.extra, tuple):
                open_.setdefault(at, "%s: division at %s" % (sc.name, e.loc))
                continue
            t = obligation(e)
            if t is None or t is tm.FALSE or (t, e.loc) in seen:
                continue
            seen.add((t, e.loc))
            f, l, fn = loc3(e.loc)
            what = "%s: divisor at %s:%d" % (sc.name, fn, l)
            if not o.exact:
                open_.setdefault(at, "%s (%s)" % (what, why_not(o)))
                continue
            sizes = ({"E": 4, "F": 4}, {"E": 1, "F": 1}, {"E": 3, "F": 2}, {"E": 2, "F": 3})
            for z in sizes:
                sub = Result("")
                r = compare(sub, ctx, "division", sc.target or sc.name, None, t, tm.FALSE,
                            what + " is not zero for an event of %d particles" % z["E"],
                            at=(f, l, fn), leaf=leaf, n=2 * KINDS, moods=("plain",), sizes=z,
                            when=momentum(o, I))
                if r is None:
                    open_.setdefault(at, (sub.unknowns + [what])[0])
                    break
                done.add(at)
                if r is False:
                    res.bad("division", f, l, fn, sub.findings[0]["message"])
                    break
                res.ok("%s, %d particles" % (what, z["E"]))
    for at, why in sorted(open_.items()):
        if at not in done:
            res.unknown(why)
    for d, (m, f, divs) in kernels(ctx).items():
        res.count("kernels")
        for n in divs:
            res.count("divisions in kernels")
            if not any(s[0] == m.rel and n.lineno <= s[1] <= n.end_lineno for s in sites) and \
                    not f.endswith("vectorize"):
                res.unknown("%s:%d division not reached" % (m.rel, n.lineno))
    return res
