"""C16: particle data come from the matching column, in GeV.

Each property of PdgArray is extracted as a value graph down to the lookup in
the particle table; the column it names, the codes it is looked up for and the
unit factor applied on the way are compared with the declared table.  mask()
is compared with the declared selection over codes and targets of both signs.
"""
from ..model import np, Rec
from ..terms import const
from .. import terms as tm
from ..terms import raw
from . import Result
from .common import attr, mcall, seq, expect

COLUMNS = {
    "name": ("name", None), "latex": ("latex", None), "quarks": ("quarks", None),
    "charge": ("charge", 1.0), "mass": ("mass", 1e-3), "width": ("width", 1e-3),
    "isospin": ("i", 1.0), "g_parity": ("g", 1.0), "space_parity": ("p", 1.0),
    "charge_parity": ("c", 1.0),
}
CODES = [11, -11, 13, -13, 6, -6, 21, 22, 211, -211, 12, 5, -5]


MANY = list(range(-40, 10)) + [1000022, 3000111, -2000006]      # also of huge codes


def leaf(M, name, p):
    if name == "x":
        g = np.random.default_rng([M.seed, 71])
        return g.choice(CODES, M.nspace("E"))
    if name == "targets":
        return np.array(([11, -13], [-6, 21, 5], [13], [-11, -13, 22], [6, -6], [999], MANY)[M.index % 7])



def by_name(v):
    if not isinstance(v, Rec):
        return v
    return list(zip(v.names, v.vals))


def column(x, col, scale):
    """The column of the particle table for the codes of the input."""
    M = x.M
    ids = x("self")
    t = raw("prop", col, tm.sym("ids!", "int", 1))
    M.syms[tm.sym("ids!", "int", 1)] = np.asarray(ids)
    M.memo.clear()
    v = M.val(t)
    return v if scale is None else np.asarray(v, float) * scale


def run(ctx):
    res = Result(__doc__)
    for name, (col, scale) in COLUMNS.items():
        expect(res, ctx, "column", attr("PdgArray", name, lambda e: e.pdg("x")),
               lambda x, c=col, s=scale: column(x, c, s),
               "column %r%s" % (col, " times 0.001" if scale == 1e-3 else ""),
               leaf=leaf, tol=1e-9)
    for q in ("mass", "width"):
        cols = (q + "lower", q + "upper")
        want = lambda x, cols=cols: [(c, column(x, c, 1e-3)) for c in cols]  # noqa: E731
        expect(res, ctx, "bounds", attr("PdgArray", q + "_bounds", lambda e: e.pdg("x")), want,
               "lower and upper columns in GeV", norm=by_name, leaf=leaf, tol=1e-9)

        def twice(e, o, names):
            for n in names[:-1]:
                e.I.getattr(o, n, e.st)
            return e.I.getattr(o, names[-1], e.st)
        for names in ((q + "_bounds", q + "_bounds"), (q, q + "_bounds")):
            expect(res, ctx, "bounds", seq("PdgArray.%s" % " then ".join(names), lambda e: [
                ("self", e.pdg("x"))], lambda e, o, names=names: twice(e, o, names)), want,
                "scaled exactly once on a later read", norm=by_name, leaf=leaf, tol=1e-9)
        for names in ((q, q), (q + "_bounds", q)):
            expect(res, ctx, "bounds", seq("PdgArray.%s" % " then ".join(names), lambda e: [
                ("self", e.pdg("x"))], lambda e, o, names=names: twice(e, o, names)),
                lambda x, q=q: column(x, q, 1e-3),
                "scaled exactly once on a later read", leaf=leaf, tol=1e-9)
    for bl in (None, True, False):
        for ss in (None, True, False):
            for kind in ("list", "array", "one"):
                def prep(e, o, bl=bl, ss=ss, kind=kind):
                    if kind == "list":
                        t = e.I.new_list(e.st, [const(11), const(-13)])
                    elif kind == "one":
                        t = e.I.new_list(e.st, [const(-6)])
                    else:
                        t = e.arr(tm.sym("targets", "int", 1, space=raw("space", "K")), "i8")
                    k = {}
                    if bl is not None:
                        k["blacklist"] = const(bl)
                    if ss is not None:
                        k["sign_sensitive"] = const(ss)
                    return [t], k

                def want(x, bl=bl, ss=ss):
                    d, t = np.asarray(x("self")), np.asarray(x("argument 1"))
                    if not ss:
                        d, t = np.abs(d), np.abs(t)
                    hit = (d[:, None] == t[None, :]).any(axis=1)
                    return hit if bl is False else ~hit
                expect(res, ctx, "mask", mcall("PdgArray", "mask", lambda e: e.pdg("x"), prep,
                                               "blacklist=%s,signed=%s,%s" % (bl, ss, kind)),
                       want, "exactly the targets", cls="MaskArray", leaf=leaf,
                       moods=("plain",), sizes={"E": 11}, n=8)
    return res
