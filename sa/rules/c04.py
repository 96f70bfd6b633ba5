"""C04: selections keep every record of a particle together.

Indexing of the composites, hard_descendants, fastjet_clusters and
monte_carlo_tag are extracted as value graphs and compared with the declared
pairing of rows, names, masks and momenta in finite events, where the jet
clustering of FastJet is an invented partition of the particles which depends
on everything handed to it.
"""
from .. import model
from ..model import np, Raised
from ..terms import const, NONE, TRUE, FALSE
from . import Result, ref
from .common import fcall, seq, expect, deep
from .. import api
from . import c19, c23, c24
from .c11 import parts, PARTS
from .c19 import table

ALGO = {-1.0: "antikt", 0.0: "cambridge", 1.0: "kt"}


# ---------------------------------------------------------------- FastJet
def jet_leaf(M, name, p):
    i = M.index
    if name == "p_val":
        return (-1.0, 0.0, 1.0, 0.5, -2.0, 1.5, 2.0)[i % 7]
    if name == "radius":
        return (0.4, 1.0, 0.0)[i % 3]
    if name == "pt_cut":
        return (0.0, 1.5, 3.0, 4.5)[i % 4]
    if name == "eta_cut":
        return (1.5, 0.8, 2.5, 0.0)[(i // 2) % 4]
    if name == "top_k":
        return (1, 2, 3, 10)[(i // 3) % 4]


def clusters(x, names):
    p = x.nth(0)
    v = dict(zip(names, (x.nth(k) for k in range(1, len(names) + 1))))
    pv = float(v["p_val"])
    jd = [model.Opq(("glob", "<fastjet.%s_algorithm>" % ALGO.get(pv, "genkt"))), v["radius"]]
    if pv not in ALGO:
        jd.append(pv)
    ps, js = model.invent_jets(x.M, p, jd, float(v.get("pt_cut", 0.0)))
    order = np.argsort(-np.hypot(ps[:, 0], ps[:, 1]), kind="stable")
    out = []
    for k in order:
        if "eta_cut" in v and not abs(ref.eta(ps[k][None])[0]) < v["eta_cut"]:
            continue
        m = np.zeros(len(p), bool)
        m[js[k]] = True
        out.append(("MaskArray", m))
    return out[:v["top_k"]] if "top_k" in v else out


def run_jets(res, ctx):
    for cuts in ((), ("pt_cut",), ("eta_cut",), ("top_k",), ("pt_cut", "eta_cut"),
                 ("pt_cut", "top_k"), ("eta_cut", "top_k"), ("pt_cut", "eta_cut", "top_k")):
        names = ("radius", "p_val") + cuts

        def prep(e, cuts=cuts):
            return [e.momenta(), e.num("radius"), e.num("p_val")], {
                c: e.num(c, "int" if c == "top_k" else "f8") for c in cuts}
        expect(res, ctx, "jets", fcall("select.fastjet_clusters", prep, "+".join(cuts)),
               lambda x, names=names: clusters(x, names), "constituents of the jets which pass "
               "the cuts, in descending pT, truncated last", norm=deep, leaf=jet_leaf,
               moods=("plain",), n=24, sizes={"E": 9})


# ------------------------------------------------------------- composites
def whole(v):
    """Contents of a composite: every populated component with its rows."""
    out = {}
    for k, x in v.fields.items():
        if isinstance(x, model.Inst):
            if x.cls in ("ParticleSet", "Graphicle"):
                out[k.lstrip("_")] = whole(x)
            else:
                out[k.lstrip("_")] = index_result(x)
    return (v.cls, sorted(out.items()))


def index_result(v):
    return c19.result(v)


def taken(v, k):
    """Declared contents of composite[k]."""
    out = {}
    for n, x in v.fields.items():
        if isinstance(x, model.Inst):
            out[n.lstrip("_")] = taken(x, k) if x.cls in ("ParticleSet", "Graphicle") \
                else c19.picked(x, k) if len(table(x)) else c19.result(x)
    return (v.cls, sorted(out.items()))


def run_getitem(res, ctx):
    combos = [PARTS + ("adj",), ("pdg",), ("final", "adj"), ("pmu", "final", "color"), ("adj",),
              ("helicity", "status", "adj"), ("color",)]
    for cls in ("ParticleSet", "Graphicle"):
        for keep in combos:
            if cls == "ParticleSet":
                if keep == ("adj",):
                    continue
                keep = tuple(k for k in keep if k != "adj")
            for kn, kb in c19.keys():
                expect(res, ctx, "composite-indexing", seq(
                    "%s(%s)[%s]" % (cls, "+".join(keep) if len(keep) < 6 else "all", kn),
                    lambda e, keep=keep, cls=cls, kb=kb: [
                        ("self", parts(e, keep, cls)), ("key", kb(e))],
                    lambda e, o, k: e.I.getitem(o, k, e.st), target=cls + ".__getitem__"),
                    lambda x: taken(x("self", norm=None), x("key", norm=None)),
                    "the same rows of every populated component", norm=whole, leaf=c19.leaf,
                    moods=("plain",), n=8)
        res.count("composites indexed")
    for keep in (PARTS + ("adj",), ("pdg", "adj")):
        expect(res, ctx, "composite-indexing", seq(
            "Graphicle unweighted(%s)[boolarr]" % "+".join(keep[:2]),
            lambda e, keep=keep: [("self", e.make("Graphicle", parts(e, tuple(
                k for k in keep if k != "adj")), e.adj("adj", weights=False))),
                ("key", e.arr(e.col("bk", "b1"), "b1"))],
            lambda e, o, k: e.I.getitem(o, k, e.st), target="Graphicle.__getitem__"),
            lambda x: taken(x("self", norm=None), x("key", norm=None)),
            "the same rows of every populated component", norm=whole, leaf=c19.leaf,
            moods=("plain",), n=8)


# ------------------------------------------------------- partons and masks
STATUSES = np.array([1, 4, -21, 21, 22, -22, 23, -23, 24, -24, 33, 62, 91])
PIDS = np.array([6, -6, 24, -24, 5, -5, 6, 21])


def event_leaf(M, name, p):
    if name in ("adj.src", "adj.dst", "edges.src", "edges.dst"):
        return c23.graph(M)[name.endswith("dst")]
    n = M.nspace("E")
    g = np.random.default_rng([M.seed, sum(map(ord, name)), 5])
    if name == "status":
        s = g.choice(STATUSES, n)
        s[g.integers(n)] = 23
        return s
    if name == "pdg":
        return g.choice(PIDS[:2 + M.index % 7], n)
    if name.startswith("target"):
        return int(g.choice(PIDS))


def names_of(pids):
    base = ["name<%d>" % i for i in pids]
    seen, out = {}, []
    for b in base:
        k = seen[b] = seen.get(b, -1) + 1
        out.append("%s:%d" % (b, k) if base.count(b) > 1 else b)
    return out


def hard_rows(status, portions=(22, 23, 24)):
    """Rows of the hard process other than the incoming beams."""
    return np.flatnonzero(np.isin(np.abs(status), portions))


def comp(x, name, k=0):
    """Column of a component of the event passed as argument k."""
    v = x.M.val(x.I.term(x.o.inputs[k][1], x.o.before))
    f = v.fields
    if name in ("src", "dst"):
        return table(f["adj"])[:, int(name == "dst")]
    if "particles" in f:
        f = f["particles"].fields
    return table(f[name])


def run_hard(res, ctx):
    cases = [("", 0, {})]
    for n in (1, 2):
        for ss in (False, True):
            for strict in (False, True):
                cases.append(("%d targets%s%s" % (n, " signed" * ss, " strict" * strict), n,
                              dict(sign_sensitive=ss, strict=strict)))
    for tag, n, kw in cases:
        def prep(e, n=n, kw=kw):
            k = {a: TRUE if b else FALSE for a, b in kw.items()}
            if n:
                k["target"] = e.I.new_list(e.st, [e.num("target%d" % i, "int") for i in range(n)])
            return [e.graphicle()], k

        def want(x, n=n, kw=kw):
            rows = hard_rows(comp(x, "status"))
            pdg = comp(x, "pdg")
            if n:
                t = set(int(v) for v in x.nth(1 + len(kw)))
                p = pdg[rows]
                if not kw["sign_sensitive"]:
                    t, p = set(map(abs, t)), np.abs(p)
                hit = np.isin(p, sorted(t))
                if not hit.any() or kw["strict"] and t - set(p.tolist()):
                    return Raised("ValueError")
                rows = rows[hit]
            s, d = comp(x, "src"), comp(x, "dst")
            out = []
            for name, r in zip(names_of(pdg[rows]), rows):
                m = c23.reach(s, d, int(d[r]))
                m[r] = True
                out.append((name, ("MaskArray", m)))
            return ("MaskGroup", "or", out)
        expect(res, ctx, "hard-descendants", fcall("select.hard_descendants", prep, tag), want,
               "each name with the descendants of that parton and itself", norm=deep,
               leaf=event_leaf, moods=("plain",), n=40, sizes={"E": 9})


def run_tag(res, ctx):
    """monte_carlo_tag."""
    cases = []
    for hard in ((True, False), (True, True), (False, True)):
        for clustered in (False, True):
            cases.append((hard, clustered, None, False))
    for lst in ("blacklist", "whitelist"):
        for ss in (False, True):
            cases.append(((True, True), True, lst, ss))
    for (outg, inter), clustered, lst, ss in cases:
        tag = "%s%s%s%s" % ("outgoing" * outg, " intermediate" * inter, " clustered" * clustered,
                            " %s signed=%s" % (lst, ss) if lst else "")

        def prep(e, outg=outg, inter=inter, clustered=clustered, lst=lst, ss=ss):
            sp = e.space("F") if clustered else e.space()
            k = {}
            if clustered:
                k["clustered_pmu"] = e.momenta("q", sp)
            k["intermediate"] = TRUE if inter else FALSE
            k["outgoing"] = TRUE if outg else FALSE
            if lst:
                k["sign_sensitive"] = TRUE if ss else FALSE
                k[lst] = e.I.new_list(e.st, [e.num("target%d" % i, "int") for i in range(2)])
            return [e.particle_set(), api.mask_seq(e, sp)], k

        def want(x, outg=outg, inter=inter, clustered=clustered, lst=lst, ss=ss):
            names = [n for n, _ in x.o.inputs]
            masks = [np.asarray(m) for m in x.nth(1)]
            pmu = comp(x, "pmu")
            rows = np.flatnonzero(np.isin(np.abs(comp(x, "status")), [23] * outg + [22] * inter))
            pdg = comp(x, "pdg")
            none = False
            if lst:
                t = np.array(x.nth(len(names) - 1))
                p = pdg[rows]
                if not ss:
                    t, p = np.abs(t), np.abs(p)
                rows = rows[np.isin(p, t, invert=lst == "blacklist")]
                none = not len(rows)
            elif not len(rows):
                raise model.Undef("no partons")
            q = x.nth(2) if clustered else pmu[comp(x, "final").astype(bool)]
            wrong = len(masks) < len(rows) or len(q) != len(masks[0])
            if none and wrong:
                raise model.Undef("two errors")
            if none or wrong:
                return Raised("IndexError" if none else "ValueError")
            jets = np.array([q[m].sum(axis=0) for m in masks])
            return ("MaskGroup", "or", [
                (n, ("MaskArray", masks[j])) for n, j in zip(
                    names_of(pdg[rows]), c24.best(pmu[rows], jets))])
        for m in (3, 6):
            expect(res, ctx, "tagging", fcall("select.monte_carlo_tag", prep, "%s, %d clusters" % (
                tag, m)), want, "each parton's name with the cluster assigned to that parton",
                norm=deep, leaf=tag_leaf, moods=("plain",), n=30, sizes={"E": 6, "F": 7 - (m > 3), "M": m})


def tag_leaf(M, name, p):
    if name == "final":
        g = np.random.default_rng([M.seed, M.index])
        return np.ones(M.nspace("E"), bool) if M.index % 4 else g.integers(
            0, 2, M.nspace("E")).astype(bool)
    if name == "status":
        g = np.random.default_rng([M.seed, M.index, 3])
        s = g.choice(np.array([23, -23, 22, 24, 21, 91]), M.nspace("E"))
        s[g.integers(len(s))] = 23
        return s
    return event_leaf(M, name, p)


def run(ctx):
    res = Result(__doc__)
    run_tag(res, ctx)
    run_jets(res, ctx)
    run_hard(res, ctx)
    run_getitem(res, ctx)
    return res
