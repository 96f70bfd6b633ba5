"""C05: invalid arguments are always rejected with the documented error.

The outcome (normal return or class of the exception) of every guarded routine
is extracted as a function of its arguments and compared with the documented
domain, over the boundary points of the domain and of every comparison found
on the extracted paths.
"""
import itertools

from .. import api, model, terms as tm
from ..model import np, Raised
from ..terms import const, raw, NONE, TRUE, FALSE
from ..values import DT, Tup, Ext
from . import Result
from .c04 import jet_leaf, comp, tag_leaf
from .c09 import build as group, GROUPS
from .common import (fcall, seq, expect, sc_one, sc_steps)

REJECT = Raised("ValueError")
TINY = float(np.nextafter(0.0, -1.0))
NAN = float("nan")


class At:
    """The reference sees the numbers of a model by name, e("radius"), and the
    other inputs through x."""

    def __init__(self, x, vals):
        self.x, self.M, self.vals = x, x.M, vals

    def __call__(self, name):
        return self.vals[name]


def breaks(o):
    """Numbers which the conditions of the extracted paths compare with."""
    out, seen = set(), set()
    todo = [c for r in o.raised for c in r.assume] + list(o.st.assume if o.st else ())
    while todo:
        t = todo.pop()
        if isinstance(t, tuple):
            todo.extend(t)
            continue
        if not isinstance(t, tm.T) or t in seen:
            continue
        seen.add(t)
        if t.op == "const" and isinstance(t.args[0], (int, float)) and not isinstance(
                t.args[0], bool) and abs(t.args[0]) < 1e6:
            out.add(float(t.args[0]))
        todo.extend(t.args)
    return sorted(out)


def sweep(base, found):
    vals = list(base)
    for c in found:
        vals += [c, float(np.nextafter(c, -np.inf)), float(np.nextafter(c, np.inf)), c - 0.3,
                 c + 0.3]
    out = []
    for v in vals:
        if v not in out:
            out.append(v)
    return out


def gated(res, ctx, sc, params, bad, what, more=None, sizes=None, cap=200, undef=None):
    """params: name -> (base values, extend by the breakpoints?, kind)."""
    I = ctx.interp
    sc.maybe_empty = 0 in (sizes or {"E": 4}).values()
    o = sc_one(I, sc, sc_steps(ctx))
    found = breaks(o) if o.exact else []
    lists = {}
    for k, (base, ext, kind) in params.items():
        v = sweep(base, found) if ext else list(base)
        if kind == "int":
            v = sorted({int(np.floor(x)) for x in v} | {int(np.ceil(x)) for x in v})
        lists[k] = v
    names = sorted(lists)
    grid = list(itertools.product(*[lists[k] for k in names]))
    rng = np.random.default_rng(5)
    rng.shuffle(grid)
    if ctx.tier == "thorough":
        cap *= 8
    # one-at-a-time sweeps first: every value of every parameter next to the
    # first (valid) values of the others, then random combinations
    first = [tuple(v if j == i else lists[m][0] for j, m in enumerate(names))
             for i, k in enumerate(names) for v in lists[k]]
    grid = first + [tuple(g) for g in grid[:max(0, cap - len(first))]]

    def leaf(M, name, p):
        if name in lists:
            v = grid[M.index % len(grid)][names.index(name)]
            return int(v) if params[name][2] == "int" else float(v)
        return more(M, name, p) if more else None
    if True:
        n = len(grid) if grid != [()] else 3
        res.count("argument combinations", n)
        if ctx.tier == "thorough":
            n = -(-n // 4)
        def want(x):
            b = bad(At(x, dict(zip(names, grid[x.M.index % len(grid)]))))
            return REJECT if b else "accepted"
        return expect(res, ctx, "guard", sc, want, what, o=o, pick=lambda o: const(1),
                      norm=lambda v: "accepted", leaf=leaf, moods=("plain",), n=max(n, 2),
                      sizes=sizes or {"E": 4})


# ---------------------------------------------------------------- clusters
def run_jets(res, ctx):
    neg = [0.5, 0.0, 1.0, TINY, -1e-12, -0.1, -1.0, -50.0, 3.0]
    for r in range(4):
        for cuts in itertools.combinations(("pt_cut", "eta_cut", "top_k"), r):
            for kind in ("int", "f8") if "top_k" in cuts else ("int",):
                def prep(e, cuts=cuts, kind=kind):
                    return [e.momenta(), e.num("radius"), e.num("p_val")], {
                        c: e.num(c, kind if c == "top_k" else "f8") for c in cuts}
                ps = {"radius": (neg, True, "f8")}
                for c in cuts:
                    # (a cut which no jet passes must not hide the others)
                    ps[c] = ((1, 2, 0, -1, -2, 3), True, "int") if c == "top_k" and kind == "int" \
                        else ((0.5, 1.5, 2.5, 0.0, -0.5), True, "f8") if c == "top_k" else (
                            neg + [1e9] * 2 * (c == "pt_cut"), True, "f8")

                def bad(x, cuts=cuts, kind=kind):
                    if x("radius") < 0 or any(c != "top_k" and x(c) < 0 for c in cuts):
                        return True
                    if "top_k" in cuts:
                        return kind != "int" or x("top_k") < 1
                    return False
                gated(res, ctx, fcall("select.fastjet_clusters", prep, "+".join(
                    cuts) + (" float top_k" if kind == "f8" else "")), ps, bad,
                    "negative radius, pt_cut, eta_cut and improper top_k are rejected, everything "
                    "else is accepted", more=jet_leaf, sizes={"E": 6})


# ------------------------------------------------------------------- rest
def run_unit(res, ctx):
    e_ = (0.5, 0.0, 1.0, TINY, float(np.nextafter(1.0, 2.0)), -0.5, 1.5, -3.0, 7.0, 0.25, NAN)
    for seed in (False, True):
        def prep(e, seed=seed):
            k = {"massless": e.num("massless")}
            if seed:
                k["seed"] = e.num("seed", "int")
            return [e.num("n", "int"), e.num("emax")], k

        def more(M, name, p):
            return {"n": 3, "seed": 5}.get(name)
        gated(res, ctx, fcall("MomentumArray.from_spherical_uniform", prep,
                              "seeded" if seed else ""), {
                                  "massless": (e_, True, "f8"),
                                  "emax": ((10.0, 0.5, 1e3), True, "f8")},
              lambda x: not 0 <= x("massless") <= 1,
              "massless outside [0, 1] is rejected, inside accepted", more=more)
    z_ = (0.25, 0.5, float(np.nextafter(0.5, 1)), 0.0, 1e-9, TINY, -0.25, 0.75, 1.0, 2.0, NAN)
    for axis in ("none", "pair", "angle"):
        for n in (1, 2, 4):
            def prep(e, axis=axis):
                a = {"none": lambda: NONE,
                     "pair": lambda: Tup([e.num("theta"), e.num("phi")]),
                     "angle": lambda: e.I.call(e.I.public("transform.SphericalAngle"), [
                         e.num("theta"), e.num("phi")], {}, e.st)}[axis]()
                return [e.momenta(), e.num("z"), e.num("angle"), a], {}
            gated(res, ctx, fcall("transform.split_hardest", prep, "axis %s, %d particles" % (
                axis, n)), {"z": (z_, True, "f8"), "angle": ((0.3, 0.0, -1.0, 4.0), True, "f8")},
                lambda x, axis=axis, n=n: not 0 < x("z") <= 0.5 or (axis == "none" and n < 2),
                "z outside (0, 0.5] and too few particles without axis are rejected",
                sizes={"E": n})
    for n in (1, 2, 3):
        for z in (True, False):
            gated(res, ctx, fcall("transform.split_momentum", lambda e: (
                [e.momenta(), e.num("z"), e.num("angle"), Tup([
                    e.num("theta"), e.num("phi")])], {}), "%d particles" % n),
                {"z": ((0.25, 0.5, 0.9), False, "f8"),
                 "angle": ((0.3, 0.0), True, "f8")}, lambda x, n=n: n > 1,
                "several particles are rejected, one is accepted", sizes={"E": n})


def matrix(e):
    return e.arr(tm.sym("m", "f8", 2, space=raw("space", "E"), space1=raw("space", "E")), "f8")


def run_matrix(res, ctx):
    for mode in ("max", "min", "mean", "Max", "", None, 1):
        for w in (TRUE, FALSE, const(1), const(0), NONE, const("x"), const(1.0)):
            for loop in (TRUE, FALSE):
                def prep(e, mode=mode, w=w, loop=loop):
                    return [matrix(e), e.num("cut")], {"mode": const(mode), "weighted": w,
                                                       "self_loop": loop}
                bad = mode not in ("max", "min") or w not in (TRUE, FALSE)
                gated(res, ctx, fcall("matrix.cut_adj", prep, "mode=%r weighted=%s loop=%s" % (
                    mode, w.args[0], loop.args[0])), {}, lambda x, bad=bad: bad,
                    "unknown mode and weighted other than a boolean are rejected")
    for dt, ok in (("f8", True), ("f4", True), ("f2", True), (None, True), ("i4", False),
                   ("i8", False), ("u1", False), ("<?", False), ("c16", False)):
        for w in (True, False):
            for row in (True, False):
                for loop in (True, False):
                    def prep(e, dt=dt, w=w, row=row, loop=loop):
                        k = {"weighted": const(w), "row": const(row), "self_loop": const(loop)}
                        if dt is not None:
                            k["dtype"] = const(dt)
                        return [matrix(e), const(2)], k
                    bad = w and not ok
                    gated(res, ctx, fcall("matrix.knn_adj", prep, "dtype=%s weighted=%s row=%s "
                                          "loop=%s" % (dt, w, row, loop)), {},
                          lambda x, bad=bad: bad,
                          "weighted output is refused for dtypes which are not floating")


def run_calc(res, ctx):
    def two(e):
        return [e.num("w0"), e.num("w1")]
    for tag, w, bad in (("list", lambda e: e.I.new_list(e.st, two(e)), True),
                        ("tuple", lambda e: Tup(two(e)), True),
                        ("float", lambda e: e.num("w0"), True),
                        ("int", lambda e: const(2), True),
                        ("string", lambda e: const("w"), True),
                        ("array", lambda e: e.arr(tm.sym("w", "f8", 2, space=raw("space", "E"),
                                                         space1=const(1)), "f8"), False),
                        ("none", lambda e: NONE, False)):
        for arr in (False, True):
            def prep(e, w=w, arr=arr):
                p = e.momenta()
                if arr:
                    p = e.I.getattr(p, "data", e.st)
                return [p], {"weight": w(e)}
            gated(res, ctx, fcall("calculate.combined_mass", prep, "%s weight%s" % (
                tag, " of array" if arr else "")), {}, lambda x, bad=bad: bad,
                "weights which are not arrays are rejected")
    for ss in (None, True, False):
        for first in (False, True):
            def prep(e, ss=ss, first=first):
                k = {} if ss is None else {"sign_sensitive": const(ss)}
                if first:
                    k["first_vertex"] = TRUE
                return [e.graphicle()], k
            I = ctx.interp
            ps = I.public("select.find_vertex")
            names = [a.arg for a in ps.node.args.args + ps.node.args.kwonlyargs]
            if first and "first_vertex" not in names or ss is not None and \
                    "sign_sensitive" not in names:
                continue
            gated(res, ctx, fcall("select.find_vertex", prep, "sign_sensitive=%s first=%s" % (
                ss, first)), {}, lambda x: True, "searching for nothing is rejected")
    for tag, p in (("momenta", None), ("array", lambda e: e.I.getattr(
            e.momenta(), "data", e.st)), ("list", lambda e: e.I.new_list(e.st, [e.momenta()])),
            ("ParticleSet", lambda e: e.particle_set()), ("ColorArray", lambda e: e.color()),
            ("none", lambda e: NONE)):
        for m in (False, True):
            for c in (False, True):
                def prep(e, p=p, m=m, c=c):
                    k = {}
                    if m:
                        k["mask"] = e.mask()
                    if c:
                        k["centre"] = Tup([e.num("eta"), e.num("phi")])
                    return [(p or (lambda e: e.momenta()))(e), e.num("radius")], k
                gated(res, ctx, fcall("select.centroid_prune", prep, "%s%s%s" % (
                    tag, " mask" * m, " centre" * c)), {}, lambda x, p=p: p is not None,
                    "anything but a MomentumArray is rejected",
                    more=lambda M, n, _: np.ones(M.nspace("E"), bool) if n == "mask" else None)


# -------------------------------------------------------------------- tag
def run_tag(res, ctx):
    for outg, inter, both, clus, empty in itertools.product(
            (True, False), (True, False), (None, 0, 1, 2, 3), (True, False), (True, False)):
        # both lists, empty ones included
        nb = both or 0
        both = both is not None
        if outg and not both and not empty or (inter and not both and not empty):
            continue        # the accepted combinations belong to C04

        def prep(e, outg=outg, inter=inter, both=both, clus=clus, empty=empty, nb=nb):
            sp = e.space("F") if clus else e.space()
            k = {"outgoing": TRUE if outg else FALSE, "intermediate": TRUE if inter else FALSE}
            if clus:
                k["clustered_pmu"] = e.momenta("q", sp)
            if both:
                for j, n in enumerate(("blacklist", "whitelist")):
                    k[n] = e.I.new_list(e.st, [] if nb >> j & 1 else [e.num(n, "int")])
            ms = e.I.new_list(e.st, []) if empty else api.mask_seq(e, sp)
            return [e.particle_set(), ms], k
        gated(res, ctx, fcall("select.monte_carlo_tag", prep, "outgoing=%s intermediate=%s%s%s%s" % (
            outg, inter, " both lists" * both + " %d" % nb * bool(nb), " clustered" * clus, " no clusters" * empty)), {},
            lambda x: True, "no clusters, no hard stage and contradictory lists are rejected",
            more=lambda M, n, p: np.zeros(M.nspace("E"), int) if n == "status" and
            M.index % 2 else tag_leaf(M, n, p), sizes={"E": 5, "F": 6, "M": 4})
    for clus in (False, True):
        for nm in (1, 2, 5):
            def prep(e, clus=clus):
                k = {"clustered_pmu": e.momenta("q", e.space("F"))} if clus else {}
                return [e.particle_set(), api.mask_seq(e, e.space("G"))], k

            def bad(x, clus=clus, nm=nm):
                rows = np.isin(np.abs(comp(x.x, "status")), [23])
                if not rows.any():
                    raise model.Undef("no partons")
                nf = x.M.nspace("F") if clus else comp(x.x, "final").astype(bool).sum()
                return nm < rows.sum() or nf != x.M.nspace("G")
            for g in (3, 4):
                gated(res, ctx, fcall("select.monte_carlo_tag", prep, "%d masks of length %d%s" % (
                    nm, g, ", clustered" if clus else "")), {"go": (range(30), False, "int")}, bad,
                    "too few clusters and masks of another length are rejected",
                    more=tag_leaf, sizes={"E": 4, "F": 4, "G": g, "M": nm})


# -------------------------------------------------------------- from_name
def run_names(res, ctx):
    def strs(*xs):
        return lambda e: e.I.new_list(e.st, [const(x) for x in xs])
    cases = [("int", lambda e: const(5)), ("float", lambda e: const(2.0)), ("none", lambda e: NONE),
             ("bool", lambda e: TRUE), ("any int", lambda e: e.num("n", "int")),
             ("list of ints", strs(11, 13)), ("int after names", strs("u", "d", 2)),
             ("int before names", strs(2, "u")), ("None among names", strs("u", None)),
             ("float among names", strs("u", 1.5)),
             ("tuple of ints", lambda e: Tup([const(1), const(2)])),
             ("tuple with bytes", lambda e: Tup([const("u"), const(b"d")]))]
    for tag, b in cases:
        gated(res, ctx, fcall("PdgArray.from_name", lambda e, b=b: ([b(e)], {}), tag), {},
              lambda x: True, "names which are not strings are rejected")


# ------------------------------------------------------------------ masks
def run_masks(res, ctx):
    operands = [("list", lambda e: e.I.new_list(e.st, [TRUE, FALSE, TRUE, TRUE])),
                ("tuple", lambda e: Tup([TRUE, FALSE, TRUE, TRUE])),
                ("int", lambda e: e.num("n", "int")), ("bool", lambda e: TRUE),
                ("float", lambda e: e.num("x")), ("string", lambda e: const("mask")),
                ("none", lambda e: NONE), ("dict", lambda e: e.I.np.new_dict(e.st)
                                           if hasattr(e.I.np, "new_dict") else const("d")),
                ("PdgArray", lambda e: e.pdg())]
    selves = [("MaskArray", lambda e: e.mask("s"))] + [
        ("MaskGroup", lambda e, g=g: group(e, GROUPS[g])) for g in GROUPS if "and" in g or "or" in g][:3]
    for cls, b in selves:
        for opn in ("and_", "or_", "eq", "ne"):
            meth = "__%s__" % opn.strip("_")
            for tag, w in operands:
                gated(res, ctx, seq("%s %s %s" % (cls, opn, tag), lambda e, b=b, w=w: [
                    ("self", b(e)), ("other", w(e))], lambda e, s, w, opn=opn: e.I.call(
                        Ext("operator." + opn), [s, w], {}, e.st), target=cls + "." + meth), {},
                    lambda x: True, "operands which are not masks are rejected")
        for opn in ("eq", "ne"):
            for n in (1, 3, 4, 5, 0):
                for tag, w in (("MaskArray", lambda e: e.mask("t", e.space("F"))),
                               ("array", lambda e: e.arr(e.col("t", "b1", e.space("F")), "b1"))):
                    gated(res, ctx, seq("%s(4) %s %s(%d)" % (cls, opn, tag, n), lambda e, b=b, w=w: [
                        ("self", b(e)), ("other", w(e))], lambda e, s, w, opn=opn: e.I.call(
                            Ext("operator." + opn), [s, w], {}, e.st),
                        target=cls + ".__%s__" % opn), {}, lambda x, n=n: n != 4,
                        "masks of different shape are not comparable, of equal shape are",
                        sizes={"E": 4, "F": n})
    for keys in (("a",), ("a", "b")):
        for agg in (None, "and", "or", "none"):
            gated(res, ctx, seq("MaskGroup.data[%d %s]" % (len(keys), agg), lambda e, k=keys, a=agg: [
                ("self", e.mask_group("g", k, agg=a))], lambda e, s: e.I.getattr(
                    s, "data", e.st), target="MaskGroup.data"), {}, lambda x, a=agg: a == "none",
                "a group without aggregation refuses to aggregate, the others do not")
            gated(res, ctx, seq("asarray(MaskGroup)[%d %s]" % (len(keys), agg),
                                lambda e, k=keys, a=agg: [("self", e.mask_group("g", k, agg=a))],
                                lambda e, s: e.I.call(Ext("numpy.asarray"), [s], {}, e.st),
                                target="MaskGroup.__array__"), {}, lambda x, a=agg: a == "none",
                  "a group without aggregation refuses to aggregate, the others do not")


# ---------------------------------------------------------------- columns
COLS = {"MomentumArray": (4, "f8"), "ColorArray": (2, "i4"), "AdjacencyList": (2, "i4"),
        "PdgArray": (1, "i4"), "MaskArray": (1, "b1"), "StatusArray": (1, "i2"),
        "HelicityArray": (1, "i2")}


def run_columns(res, ctx):
    for cls, (want, dt) in COLS.items():
        for k in range(1, 7):
            for n in (0, 2, 4):
                if n and k == 1 and want > 1:
                    continue        # a column is one particle
                def setup(e, k=k, dt=dt):
                    return [("values", e.arr(raw("cols", *[
                        e.col("c%d" % i, "f8" if dt == "f8" else "b1" if dt == "b1" else "int")
                        for i in range(k)]), dt))]
                gated(res, ctx, seq("%s of %d x %d" % (cls, n, k), setup, lambda e, v, cls=cls: e.make(
                    cls, v), target=cls), {}, lambda x, k=k, n=n, want=want: n and k != want,
                    "only data with the right number of columns is accepted", sizes={"E": n})
        if want > 1:
            for n in (1, 2, 3, 4, 5, 0):
                gated(res, ctx, seq("%s of %d" % (cls, n), lambda e, dt=dt: [("values", e.arr(
                    e.col("c", "f8" if dt == "f8" else "int"), dt))], lambda e, v, cls=cls: e.make(
                        cls, v), target=cls), {}, lambda x, n=n, want=want: n and n != want,
                    "flat data is one particle", sizes={"E": n})


def run(ctx):
    res = Result(__doc__)
    for f in (run_jets, run_unit, run_matrix, run_calc, run_tag, run_names, run_masks,
              run_columns):
        ctx.interp.real_conv = f is run_columns
        try:
            f(res, ctx)
        finally:
            ctx.interp.real_conv = False
    return res
