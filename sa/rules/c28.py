"""C28: status code tables agree across the package.

The hard-process masks, the Les Houches conversion and the range selection are
extracted as value graphs and compared, over all status codes of either sign,
with the declared table; the conversion is composed with the package's own
hard-process masks, so both tables are decided against each other.  Every
constant key with which the package indexes hard-process masks is resolved in
the table.
"""
from .. import api
from ..model import np, Raised
from ..terms import const, TRUE, NONE
from ..values import ExtO
from ..terms import raw
from . import Result
from .. import terms as tm
from .common import attr, mcall, seq, expect, deep, sc_one, sc_steps

TABLE = {"incoming": 21, "intermediate": 22, "outgoing": 23,
         "outgoing_nonperturbative_diffraction": 24}
LHE = {-1: "incoming", 1: "outgoing", 2: "intermediate", 3: "intermediate",
       -2: "intermediate", -9: None}
CODES = [21, -21, 22, -22, 23, -23, 24, -24, 20, -25, 25, 12, -12, 83, 0, 1, -1, 2, 122, -9, 3,
         -2, 210, 31, 44, -51, 62, 71, 91]
BOUNDS = ((22, 24), (-24, -22), (80, 90), (-23, 22), (21, 21), (0, 62), (24, 22),
          (-24, 0), (0, 0))


def leaf(M, name, p):
    if name == "status":
        n = M.nspace("E")
        return np.array(CODES[:n])
    if name == "st":
        g = np.random.default_rng([M.seed, 31])
        return g.choice(sorted(LHE), M.nspace("E"))
    if name in ("lo", "hi"):
        return BOUNDS[M.index % len(BOUNDS)][name == "hi"]


def group(v):
    """A hard-process mask group as its aggregation and its members."""
    g = deep(v)
    return g[1], sorted((k, np.asarray(m[1])) for k, m in g[2])


def table(s):
    s = np.abs(s)
    return ("or", sorted((k, s == c) for k, c in TABLE.items()))


def lhe(e):
    from ..terms import raw as r
    f = dict(
        pdg=e.arr(e.col("pdg", "int"), "i4"), pmu=e.arr(r("cols", *[
            e.col("p." + q) for q in ("px", "py", "pz", "e")]), "f8"),
        color=e.arr(r("cols", e.col("c.color", "int"), e.col("c.anticolor", "int")), "i4"),
        helicity=e.arr(e.col("hel", "int"), "i2"), status=e.arr(e.col("st", "int"), "i2"))
    ev = e.I.alloc(e.st, ExtO("event", raw("opaque", "event"), f))
    return [("event", ev), ("status", f["status"])]


def run(ctx):
    res = Result(__doc__)
    big = dict(leaf=leaf, sizes={"E": len(CODES)}, n=8)
    expect(res, ctx, "hard-mask", attr("StatusArray", "hard_mask", lambda e: e.status()),
           lambda x: table(x("self")), "categories are the status magnitudes 21 to 24, combined "
           "by or", norm=group, **big)
    expect(res, ctx, "hard-mask", seq("Graphicle.hard_mask", lambda e: [
        ("g", e.graphicle())], lambda e, g: e.I.getattr(g, "hard_mask", e.st)),
        lambda x: table(x("g", norm=lambda v: np.asarray(
            v.fields["particles"].fields["status"].fields["_data"]))),
        "same table for events", norm=group, **big)

    def conv(e, ev, s):
        I, st = e.I, e.st
        p = I.call(I.public("ParticleSet.from_lhe_event"), [ev], {}, st)
        return I.getattr(I.getattr(p, "status", st), "hard_mask", st)

    def want(x):
        s = x("status")
        return ("or", sorted((k, np.array([LHE[c] == k for c in s.tolist()], bool))
                             for k in TABLE))
    expect(res, ctx, "lhe-status", seq("ParticleSet.from_lhe_event", lhe, conv), want,
           "hard-process category of each Les Houches code", norm=group, leaf=leaf, n=16,
           sizes={"E": 13})
    for ss in (None, False, True):
        for mx in (None, "none", "max"):
            def prep(e, o, ss=ss, mx=mx):
                a = [e.num("lo", "int")]
                if mx:
                    a.append(e.num("hi", "int") if mx == "max" else NONE)
                return a, {} if ss is None else {"sign_sensitive": const(ss)}

            def rng(x, ss=ss, mx=mx):
                s = x("self")
                if not ss:
                    s = np.abs(s)
                out = s >= x("argument 1")
                if mx == "max":
                    out = out & (s <= x("argument 2"))
                return out
            expect(res, ctx, "in-range", mcall("StatusArray", "in_range", lambda e: e.status(),
                                               prep, "signed=%s,max=%s" % (ss, mx)), rng,
                   "inclusive at both ends", cls="MaskArray", leaf=leaf, n=14,
                   sizes={"E": len(CODES)})
    keys(res, ctx)
    return res


def keys(res, ctx):
    """Constant keys with which hard-process masks are indexed."""
    I = ctx.interp
    seen = set()
    for s in api.scenarios():
        if not s.name.startswith(("select.", "Graphicle.", "ParticleSet.", "StatusArray.")):
            continue
        o = sc_one(I, s, sc_steps(ctx))
        res.count("scenarios scanned for hard-process keys")
        hard = False
        for ev in o.events:
            if ev.kind != "missing-key" or ev.extra is None:
                continue
            k, have = ev.extra
            if not (isinstance(k, tm.T) and k.op == "const" and isinstance(k.args[0], str)):
                continue
            if len(set(have) & set(TABLE)) < 2:
                continue
            hard = True
            w = (ev.loc.file, ev.loc.line, k.args[0])
            if w not in seen:
                seen.add(w)
                res.bad("unknown-category", ev.loc.file, ev.loc.line, ev.loc.func,
                        "hard-process masks have no category %r (they have %s)" % (
                            k.args[0], ", ".join(map(repr, have))))
        if not hard:
            res.ok("%s: hard-process keys exist" % s.name)
