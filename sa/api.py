"""The public surface of the package with abstract arguments for each callable.

``scenarios()`` yields Scenario(name, func, prepare): prepare(env) gives
(callable value, args, kwargs, named inputs).  Every combination listed is
analysed for all inputs at once; nothing is executed.
"""
from . import terms as tm
from .terms import const, NONE, TRUE, FALSE, raw
from .values import Ext, Ref

ARRAYS = ("MaskArray", "PdgArray", "MomentumArray", "ColorArray",
          "HelicityArray", "StatusArray", "AdjacencyList")
CLASSES = ARRAYS + ("MaskGroup", "ParticleSet", "Graphicle")


class Scenario:
    def __init__(self, name, prep, kind="func", target=None, group=""):
        self.name, self.prep, self.kind = name, prep, kind
        self.target, self.group = target, group

    def __repr__(self):
        return "<%s>" % self.name


def build(e, cls, name="x", sp=None, **kw):
    b = {"MaskArray": e.mask, "PdgArray": e.pdg, "MomentumArray": e.momenta,
         "ColorArray": e.color, "HelicityArray": e.helicity,
         "StatusArray": e.status, "AdjacencyList": e.adj,
         "MaskGroup": e.mask_group, "ParticleSet": e.particle_set,
         "Graphicle": e.graphicle}[cls]
    return b(name, sp=sp, **kw)


def nested_group(e, name="mg", agg=None, sp=None, top=()):
    """{a: mask, b: {c: mask, latent: mask, d: {f: mask, latent: mask}}, top: mask}"""
    I, st = e.I, e.st

    def grp(items, n):
        from .values import DictO
        d = I.alloc(st, DictO([], kind="OrderedDict"))
        for k, v in items:
            x = grp(v, n + "." + k) if isinstance(v, list) else \
                e.mask(n + "." + k, sp)
            I.np.dict_set(I, st, d, const(k), x)
        kw = {} if agg is None else {"agg_op": const(agg)}
        return e.make("MaskGroup", d, **kw)
    return grp([("a", None), ("b", [("c", None), ("latent", None),
                                    ("d", [("f", None), ("latent", None)])])] + [
                                    (k, None) for k in top], name)


def mask_list(e, n=3, sp=None, name="cl"):
    return e.I.new_list(e.st, [e.mask("%s%d" % (name, i), sp) for i in range(n)])


def mask_seq(e, sp=None, msp=None, name="clm"):
    """A list of arbitrarily many masks, one per element of space M."""
    from .values import Seg, ListO
    sp = e.space() if sp is None else sp
    msp = raw("space", "M") if msp is None else msp
    e.st.assume[raw("nonempty", msp)] = True
    b = tm.fresh_binder()
    m = tm.sym(name, "b1", 2, space=msp, space1=sp)
    row = tm.mk("at", m, b)
    tm._SPACE[row] = sp
    e.I.active_binders.append(b)
    try:
        v = e.make("MaskArray", e.arr(row, "b1"))
    finally:
        e.I.active_binders.pop()
    return e.I.alloc(e.st, ListO([Seg(v, None, b, msp)]))


def keys_for(e, sp):
    """Every kind of index key over rows of ``sp``."""
    from .values import Slice
    return [
        ("int", e.num("k", "int")),
        ("slice", Slice(e.num("lo", "int"), e.num("hi", "int"), NONE)),
        ("boolarr", e.arr(e.col("bk", "b1", sp), "b1")),
        ("idxarr", e.arr(tm.sym("ik", "int", 1, space=raw("space", "K")), "i8")),
        ("MaskArray", e.mask("mk", sp)),
        ("MaskGroup", e.mask_group("mgk", sp=sp)),
    ]


def scenarios():
    out = []

    def S(name, prep, **kw):
        out.append(Scenario(name, prep, **kw))

    def F(name, prep, tag=""):
        """prep(e) -> (args, kwargs)"""
        def go(e, name=name):
            a, k = prep(e)
            return e.I.public(name), a, k
        S(name + (("[%s]" % tag) if tag else ""), go, target=name)

    def M(cls, meth, prep=None, tag="", obj=None):
        def go(e):
            o = (obj or (lambda e: build(e, cls)))(e)
            a, k = prep(e, o) if prep else ([], {})
            f = e.I.getattr(o, meth, e.st)
            return f, a, k, [("self", o)]
        S("%s.%s" % (cls, meth) + (("[%s]" % tag) if tag else ""), go,
          kind="method", target="%s.%s" % (cls, meth))

    def A(cls, attr, tag="", obj=None):
        def go(e):
            o = (obj or (lambda e: build(e, cls)))(e)
            return ("attr", o, attr), [], {}, [("self", o)]
        S("%s.%s" % (cls, attr) + (("[%s]" % tag) if tag else ""), go,
          kind="attr", target="%s.%s" % (cls, attr))

    def B(opn, cls, other, tag):
        def go(e):
            o = build(e, cls)
            x = other(e)
            return ("binop", opn), [o, x], {}
        S("%s %s %s" % (cls, opn, tag), go, kind="binop")

    Es = lambda e: e.space()                      # noqa: E731
    # ------------------------------------------------------------ calculate
    for f in ("weighted_centroid", "resultant_coords"):
        for p in (True, False):
            F("calculate." + f, lambda e, p=p: ([e.momenta()], {"pseudo": const(p)}),
              "pseudo=%s" % p)
    F("calculate.combined_mass", lambda e: ([e.momenta()], {}), "MomentumArray")
    F("calculate.combined_mass", lambda e: (
        [e.I.getattr(e.momenta(), "data", e.st)], {}), "array")
    F("calculate.combined_mass", lambda e: (
        [e.momenta(), e.arr(e.col("w"), "f8")], {}), "weights")
    F("calculate.combined_mass", lambda e: (
        [e.momenta(), e.arr(tm.sym("w", "f8", 2, space=e.space()), "f8")], {}), "matrix of weights")
    F("calculate.aggregate_momenta", lambda e: ([e.momenta(), mask_list(e)], {}))
    for p in (True, False):
        F("calculate.cluster_coeff_distbn", lambda e, p=p: (
            [e.momenta(), e.num("radius")], {"pseudo": const(p), "threads": const(2)}),
          "pseudo=%s" % p)
    for f in ("thrust", "spherocity"):
        for ax in (True, False):
            F("calculate." + f, lambda e, ax=ax: (
                [e.momenta()], {"return_axis": const(ax), "rng_seed": e.num("seed", "int")}),
              "axis=%s" % ax)
    F("calculate.c_parameter", lambda e: ([e.momenta()], {}))
    for tag, b in (("masks", lambda e, n: e.mask(n)),
                   ("arrays", lambda e, n: e.arr(e.col(n, "b1"), "b1")),
                   ("groups", lambda e, n: e.mask_group(n))):
        F("calculate.jaccard_distance", lambda e, b=b: ([b(e, "m1"), b(e, "m2")], {}), tag)
        F("calculate.jaccard_distance", lambda e, b=b: (
            [b(e, "m1"), b(e, "m2"), e.arr(e.col("w"), "f8")], {}), tag + ",weights")
    # --------------------------------------------------------------- matrix
    mat = lambda e: e.arr(tm.sym("A", "f8", 2, space=raw("space", "N")), "f8")  # noqa: E731
    for mode in ("max", "min"):
        for sl in (True, False):
            for w in (True, False):
                F("matrix.cut_adj", lambda e, mode=mode, sl=sl, w=w: (
                    [mat(e), e.num("cut")], dict(mode=const(mode), self_loop=const(sl),
                                                 weighted=const(w))),
                  "%s,loop=%s,weighted=%s" % (mode, sl, w))
    for sl in (True, False):
        for w in (True, False):
            for row in (True, False):
                F("matrix.knn_adj", lambda e, sl=sl, w=w, row=row: (
                    [mat(e), e.num("k", "int")], dict(
                        self_loop=const(sl), weighted=const(w), row=const(row))),
                  "loop=%s,weighted=%s,row=%s" % (sl, w, row))
        F("matrix.fc_adj", lambda e, sl=sl: ([e.num("n", "int")], dict(self_loop=const(sl))),
          "loop=%s" % sl)
    F("matrix.delta_R_aff", lambda e: ([e.momenta()], {}))
    F("matrix.parton_hadron_distance", lambda e: (
        [e.momenta("p"), e.momenta("q", e.space("F"))], {"pt_exp": e.num("pt_exp")}))
    # ------------------------------------------------------------ transform
    F("transform.soft_hard_axis", lambda e: ([e.momenta()], {}))
    ang = lambda e: e.I.call(e.I.public("transform.SphericalAngle"), [  # noqa: E731
        e.num("theta"), e.num("phi")], {}, e.st)
    F("transform.rotation_matrix", lambda e: ([e.num("angle"), ang(e)], {}))
    one = lambda e: e.momenta("p", raw("range", const(0), const(1), const(1)))  # noqa: E731
    F("transform.split_momentum", lambda e: (
        [one(e), e.num("z"), e.num("angle"), ang(e)], {}))
    F("transform.split_hardest", lambda e: (
        [e.momenta(), e.num("z"), e.num("angle"), ang(e)], {}), "axis")
    F("transform.split_hardest", lambda e: (
        [e.momenta(), e.num("z"), e.num("angle")], {}), "no axis")
    # --------------------------------------------------------------- select
    F("select.fastjet_clusters", lambda e: (
        [e.momenta(), e.num("radius"), e.num("p_val")], {}), "plain")
    F("select.fastjet_clusters", lambda e: (
        [e.momenta(), e.num("radius"), e.num("p_val")],
        dict(pt_cut=e.num("pt_cut"), eta_cut=e.num("eta_cut"), top_k=e.num("top_k", "int"))),
      "cuts")
    F("select.find_vertex", lambda e: (
        [e.graphicle()], dict(pdgs_in=e.I.alloc(e.st, _set(e, (const(21),))),
                              pdgs_out=e.I.alloc(e.st, _set(e, (const(6), const(-6)))))))
    F("select.vertex_descendants", lambda e: ([e.adj(), e.num("vertex", "int")], {}))
    F("select.edge_descendants", lambda e: (
        [e.adj(), e.I.call(e.I.public("VertexPair"), [e.num("src", "int"), e.num("dst", "int")],
                           {}, e.st)], {}))
    F("select.hadron_vertices", lambda e: ([e.adj(), e.status()], {}))
    F("select.hard_descendants", lambda e: ([e.graphicle()], {}), "all")
    F("select.hard_descendants", lambda e: (
        [e.graphicle()], dict(target=e.I.new_list(e.st, [const(6), const(24)]))), "target")
    F("select.hard_descendants", lambda e: (
        [e.graphicle()], dict(target=e.I.new_list(e.st, [const(6), const(-6)]),
                              sign_sensitive=TRUE, strict=FALSE)), "target,signed")
    F("select.hierarchy", lambda e: ([e.graphicle()], {}), "plain")
    F("select.hierarchy", lambda e: ([e.graphicle(), e.mask_group("desc", agg="or")], {}), "desc")
    F("select.partition_descendants", lambda e: (
        [e.graphicle(), nested_group(e, "hier", "or")], {}))
    F("select.leaf_masks", lambda e: ([nested_group(e, "hier", "or")], {}))
    F("select.leaf_masks", lambda e: ([nested_group(e, "hier", "or", top=("latent",))], {}),
      "latent")
    F("select.partition_descendants", lambda e: (
        [e.graphicle(), nested_group(e, "hier", "or", top=("latent",))], {}), "latent")
    F("select.any_overlap", lambda e: ([e.mask_group("mg", ("a", "b", "c"))], {}))
    F("select.any_overlap", lambda e: ([nested_group(e, "mg", "or")], {}), "nested")
    ctr = lambda e: e.I.new_tuple(e.st, [e.num("eta0"), e.num("phi0")]) if hasattr(  # noqa: E731
        e.I, "new_tuple") else _tup([e.num("eta0"), e.num("phi0")])
    F("select.centroid_prune", lambda e: ([e.momenta(), e.num("radius")], {}), "plain")
    F("select.centroid_prune", lambda e: (
        [e.momenta(), e.num("radius")], dict(mask=e.mask())), "mask")
    F("select.centroid_prune", lambda e: (
        [e.momenta(), e.num("radius")], dict(centre=ctr(e))), "centre")
    F("select.centroid_prune", lambda e: (
        [e.momenta(), e.num("radius")], dict(mask=e.mask(), centre=ctr(e))), "mask,centre")
    for inv in (False, True):
        F("select.color_singlets", lambda e, inv=inv: (
            [e.mask_group("leaves", ("a", "b", "c")), e.status(), e.color()],
            dict(invert=const(inv))), "invert=%s" % inv)
    F("select.clusters", lambda e: ([e.graphicle(), e.num("radius")], {}))
    F("select.arg_closest", lambda e: (
        [e.momenta("p"), e.momenta("q", e.space("F"))], {"num_threads": const(2)}))
    F("select.monte_carlo_tag", lambda e: ([e.particle_set(), mask_seq(e)], {}), "plain")
    F("select.monte_carlo_tag", lambda e: (
        [e.particle_set(), mask_seq(e, e.space("F"))],
        dict(clustered_pmu=e.momenta("q", e.space("F")), intermediate=TRUE)), "clustered")
    for w in ("blacklist", "whitelist"):
        for ss in (True, False):
            F("select.monte_carlo_tag", lambda e, w=w, ss=ss: (
                [e.particle_set(), mask_seq(e)],
                {w: e.I.new_list(e.st, [const(6), const(24)]), "sign_sensitive": const(ss)}),
              "%s,signed=%s" % (w, ss))
    # ----------------------------------------------------------------- data
    props = {
        "MaskArray": ("data",),
        "PdgArray": ("data", "name", "latex", "charge", "mass", "mass_bounds", "quarks", "width",
                     "width_bounds", "isospin", "g_parity", "space_parity", "charge_parity"),
        "MomentumArray": ("data", "x", "y", "z", "energy", "pt", "eta", "rapidity", "phi",
                          "theta", "mass", "mass_t"),
        "ColorArray": ("data", "color", "anticolor"),
        "HelicityArray": ("data",),
        "StatusArray": ("data", "hard_mask"),
        "AdjacencyList": ("data", "edges", "nodes", "roots", "leaves", "matrix"),
        "MaskGroup": ("data", "agg_op"),
        "ParticleSet": ("pdg", "pmu", "color", "helicity", "status", "final"),
        "Graphicle": ("pdg", "pmu", "color", "helicity", "status", "hard_mask", "final", "edges",
                      "nodes"),
    }
    for c, names in props.items():
        for n in names:
            A(c, n)
    A("AdjacencyList", "matrix", "unweighted", obj=lambda e: e.adj("x", weights=False))
    for agg in ("and", "or"):
        A("MaskGroup", "data", "nested," + agg, obj=lambda e, agg=agg: nested_group(e, "mg", agg))
    for c in CLASSES:
        M(c, "copy")
        M(c, "serialize")
        M(c, "__len__")
        M(c, "__bool__")
        if c not in ("ParticleSet", "Graphicle"):
            M(c, "__iter__")
        if c != "MaskGroup":
            for kn in ("int", "slice", "boolarr", "idxarr", "MaskArray", "MaskGroup"):
                if kn == "int" and c in ("MaskArray", "PdgArray", "HelicityArray", "StatusArray"):
                    pass
                M(c, "__getitem__", lambda e, o, kn=kn: (
                    [dict(keys_for(e, Es(e)))[kn]], {}), kn)
    M("MaskGroup", "copy", tag="nested", obj=lambda e: nested_group(e, "mg", "or"))
    M("MaskGroup", "serialize", tag="nested", obj=lambda e: nested_group(e, "mg", "or"))
    for kn in ("slice", "boolarr", "idxarr", "MaskArray", "MaskGroup"):
        M("MaskGroup", "__getitem__", lambda e, o, kn=kn: ([dict(keys_for(e, Es(e)))[kn]], {}), kn,
          obj=lambda e: nested_group(e, "mg", "or"))
    M("MaskGroup", "__getitem__", lambda e, o: ([const("a")], {}), "key")
    M("MaskGroup", "__getitem__", lambda e, o: (
        [e.I.new_list(e.st, [const("b"), const("a")])], {}), "keys",
      obj=lambda e: e.mask_group("mg", ("a", "b", "c"), agg="or"))
    for c in ("MaskArray", "MaskGroup"):
        M(c, "__invert__")
        for op_ in ("and", "or", "eq", "ne"):
            for tag, oth in (("MaskArray", lambda e: e.mask("other")),
                             ("MaskGroup", lambda e: e.mask_group("other", agg="or")),
                             ("ndarray", lambda e: e.arr(e.col("other", "b1"), "b1"))):
                M(c, "__%s__" % op_, lambda e, o, oth=oth: ([oth(e)], {}), tag)
    for m in ("bitwise_or", "bitwise_and"):
        M("MaskGroup", m)
        M("MaskGroup", m, tag="nested", obj=lambda e: nested_group(e, "mg", "or"))
    M("MaskGroup", "to_dict")
    M("MaskGroup", "keys")
    M("MaskGroup", "__repr__")
    for inp in (True, False):
        M("MaskGroup", "recursive_drop", lambda e, o, inp=inp: ([], {"inplace": const(inp)}),
          "inplace=%s" % inp, obj=lambda e: nested_group(e, "mg", "or"))
    for how in ("rise", "agg", "leaves"):
        M("MaskGroup", "flatten", lambda e, o, how=how: ([const(how)], {}), how,
          obj=lambda e: nested_group(e, "mg", "or"))
        M("MaskGroup", "flatten", lambda e, o, how=how: ([const(how)], {}), how + ",latent",
          obj=lambda e: nested_group(e, "mg", "or", top=("latent",)))
    for ck in (True, False):
        M("MaskGroup", "equal_to", lambda e, o, ck=ck: (
            [nested_group(e, "other", "or")], {"check_order": const(ck)}), "order=%s" % ck,
          obj=lambda e: nested_group(e, "mg", "or"))
    for c in ("PdgArray", "MomentumArray", "ColorArray", "HelicityArray", "StatusArray",
              "AdjacencyList"):
        for o_ in ("__eq__", "__ne__"):
            M(c, o_, lambda e, o, c=c: ([build(e, c, "other")], {}))
    for c in ("ParticleSet", "Graphicle"):
        M(c, "__eq__", lambda e, o, c=c: ([build(e, c, "other")], {}))
    for bl in (True, False):
        for ss in (True, False):
            M("PdgArray", "mask", lambda e, o, bl=bl, ss=ss: (
                [e.I.new_list(e.st, [const(11), const(-13)])],
                dict(blacklist=const(bl), sign_sensitive=const(ss))), "%s,%s" % (bl, ss))
            M("PdgArray", "mask", lambda e, o, bl=bl, ss=ss: (
                [e.arr(e.col("codes", "int", e.space("F")), "i4")],
                dict(blacklist=const(bl), sign_sensitive=const(ss))), "array,%s,%s" % (bl, ss))
    for ss in (True, False):
        M("StatusArray", "in_range", lambda e, o, ss=ss: (
            [e.num("lo", "int")], dict(sign_sensitive=const(ss))), "nomax,signed=%s" % ss)
        M("StatusArray", "in_range", lambda e, o, ss=ss: (
            [e.num("lo", "int"), e.num("hi", "int")], dict(sign_sensitive=const(ss))),
          "max,signed=%s" % ss)
    shifts = (("scalar", lambda e: e.num("s")), ("array", lambda e: e.arr(e.col("s1"), "f8")))
    for tag, b in shifts:
        M("MomentumArray", "shift_rapidity", lambda e, o, b=b: ([b(e)], {}), tag)
        M("MomentumArray", "shift_phi", lambda e, o, b=b: ([b(e)], {}), tag)
        M("MomentumArray", "shift_eta", lambda e, o, b=b: ([b(e)], {"experimental": TRUE}),
          "experimental," + tag)
    M("MomentumArray", "shift_eta", lambda e, o: ([e.num("s")], {}), "iterative")
    for p in (True, False):
        M("MomentumArray", "delta_R", lambda e, o, p=p: (
            [e.momenta("q", e.space("F"))], dict(pseudo=const(p), threads=const(2))),
          "other,pseudo=%s" % p)
        M("MomentumArray", "delta_R", lambda e, o, p=p: (
            [o], dict(pseudo=const(p), threads=const(2))), "self,pseudo=%s" % p)
    for m in (0.0, 0.5, 1.0):
        F("MomentumArray.from_spherical_uniform", lambda e, m=m: (
            [const(4), e.num("emax")], dict(massless=const(m), seed=e.num("seed", "int"))),
          "massless=%s" % m)
    F("PdgArray.from_name", lambda e: ([e.I.new_list(e.st, [const("t"), const("b")])], {}))
    for w in (True, False):
        for sl in (True, False):
            F("AdjacencyList.from_matrix", lambda e, w=w, sl=sl: (
                [mat(e)], dict(weighted=const(w), self_loop=const(sl))),
              "weighted=%s,loop=%s" % (w, sl))
    M("AdjacencyList", "to_sparse")
    M("AdjacencyList", "to_sparse", lambda e, o: ([e.arr(e.col("d"), "f8")], {}), "data")
    names = ("pdg", "pmu", "color", "helicity", "status", "final")

    def raw_parts(e):
        return dict(
            pdg=e.arr(e.col("pdg", "int"), "i4"), pmu=e.arr(raw("cols", *[
                e.col("p." + q) for q in ("px", "py", "pz", "e")]), "f8"),
            color=e.arr(raw("cols", e.col("c.color", "int"), e.col("c.anticolor", "int")), "i4"),
            helicity=e.arr(e.col("hel", "int"), "i2"), status=e.arr(e.col("st", "int"), "i2"),
            final=e.arr(e.col("fin", "b1"), "b1"))
    F("ParticleSet.from_numpy", lambda e: ([], raw_parts(e)))
    F("Graphicle.from_numpy", lambda e: ([], dict(
        raw_parts(e), edges=e.edges(), weights=e.arr(e.col("w"), "f8"))))

    def event(e, extra=()):
        from .values import ExtO
        f = raw_parts(e)
        for k in extra:
            f[k] = {"edges": lambda: e.edges()}[k]()
        return e.I.alloc(e.st, ExtO("event", raw("opaque", "event"), f))
    F("ParticleSet.from_lhe_event", lambda e: ([event(e)], {}))
    F("Graphicle.from_event", lambda e: ([event(e, ("edges",))], {}))
    for c in ("ParticleSet", "Graphicle"):
        M(c, "__repr__")
        M(c, "__str__")
    # numpy on data structures
    for c in ("MaskArray", "PdgArray", "MomentumArray", "ColorArray", "HelicityArray",
              "StatusArray", "AdjacencyList"):
        F_ = lambda fn, prep, tag, c=c: S("%s(%s)[%s]" % (fn, c, tag), (  # noqa: E731
            lambda e, fn=fn, prep=prep: (Ext("numpy." + fn),) + prep(e)), target=fn)
        F_("add", lambda e, c=c: ([build(e, c, "x"), build(e, c, "y")], {}), "two")
        F_("abs", lambda e, c=c: ([build(e, c, "x")], {}), "one")
        F_("sum", lambda e, c=c: ([build(e, c, "x")], {"axis": const(0)}), "axis0")
        F_("sum", lambda e, c=c: ([build(e, c, "x")], {}), "all")
        F_("equal", lambda e, c=c: ([build(e, c, "x"), const(0)], {}), "bool")
        F_("divmod", lambda e, c=c: ([build(e, c, "x"), const(3)], {}), "tuple")
    return out


def _set(e, items):
    from .values import ListO, Seg
    return ListO([Seg(i) for i in items], kind="set")


def _tup(items):
    from .values import Tup
    return Tup(items)


def run(e, sc):
    """Analyse one scenario in environment e; returns the abstract value."""
    r = sc.prep(e)
    f, a, k = r[:3]
    named = list(r[3]) if len(r) > 3 else []
    named += [("argument %d" % (i + 1), x) for i, x in enumerate(a)]
    named += [("argument " + n, x) for n, x in k.items()]
    e.inputs = named
    return f, a, k


def invoke(e, f, a, k):
    """Performs the operation of a scenario; None if it never returns."""
    from .interp import AbsDead
    from .values import Ext
    I = e.I
    if not isinstance(f, tuple):
        return e.call(f, *a, **k)
    how = f[0]
    if how == "attr":
        return e.attr(f[1], f[2])
    I.raises.append([])
    try:
        if how == "do":
            v = f[1](e)
        elif how == "setattr":
            v = I.setattr(f[1], f[2], a[0], e.st)
        elif how == "umeth":
            v = I.call(I.getattr(Ext("numpy." + f[1]), f[2], e.st), list(a), k, e.st)
        elif how == "binop" and f[1] in ("Eq", "NotEq", "Lt", "LtE", "Gt", "GtE", "Is", "In"):
            v = I.np.compare(I, e.st, f[1], *a)
        else:
            v = I.np.binop(I, e.st, f[1], *a)
        return I.norm(e.st, v)
    except AbsDead:
        return None
    finally:
        e.raised = I.raises.pop()


def mutators():
    """Documented mutators; ``allowed`` names the declared target."""
    from .values import Ext, Slice
    out = []

    def M(name, go, allowed="self"):
        s = Scenario(name, go, kind="mutator", target=name)
        s.allowed = allowed
        out.append(s)

    for c in ARRAYS + ("MaskGroup", "ParticleSet", "Graphicle"):
        if c == "MaskArray":
            for kn in ("int", "slice", "boolarr", "idxarr", "MaskArray"):
                def go(e, kn=kn):
                    o = e.mask("x")
                    k = dict(keys_for(e, e.space()))[kn]
                    f = e.I.getattr(o, "__setitem__", e.st)
                    return f, [k, TRUE], {}, [("self", o)]
                M("MaskArray.__setitem__[%s]" % kn, go)
        if c == "MaskGroup":
            def go(e):
                o = nested_group(e, "x", "or")
                f = e.I.getattr(o, "__setitem__", e.st)
                return f, [const("new"), e.mask("v")], {}, [("self", o)]
            M("MaskGroup.__setitem__", go)

            def go(e):
                o = nested_group(e, "x", "or")
                f = e.I.getattr(o, "__delitem__", e.st)
                return f, [const("b")], {}, [("self", o)]
            M("MaskGroup.__delitem__", go)

            def go(e):
                o = nested_group(e, "x", "or")
                return ("setattr", o, "agg_op"), [const("and")], {}, [("self", o)]
            M("MaskGroup.agg_op = ", go)

            def go(e):
                o = nested_group(e, "x", "or")
                f = e.I.getattr(o, "recursive_drop", e.st)
                return f, [const("latent")], {"inplace": TRUE}, [("self", o)]
            M("MaskGroup.recursive_drop[inplace]", go)
        if c in ARRAYS and c != "AdjacencyList":
            def go(e, c=c):
                o = build(e, c, "x")
                v = e.I.getattr(build(e, c, "y"), "_data", e.st)
                return ("setattr", o, "data"), [v], {}, [("self", o)]
            M("%s.data = " % c, go)
        if c in ARRAYS and c != "ColorArray":
            def go(e, c=c):
                o, x = build(e, c, "x"), build(e, c, "y")
                return Ext("numpy.add"), [o, x], {"out": _tup([o])}, [("self", o)]
            M("numpy.add(out=%s)" % c, go)

            def go(e, c=c):
                o = build(e, c, "x")
                k = e.arr(tm.sym("ik", "int", 1, space=raw("space", "K")), "i8")
                return ("umeth", "add", "at"), [o, k, const(1)], {}, [("self", o)]
            M("numpy.add.at(%s)" % c, go)
        if c in ("ParticleSet", "Graphicle"):
            comp = "pmu" if c == "ParticleSet" else "particles"

            def go(e, c=c, comp=comp):
                o = build(e, c, "x")
                v = e.momenta("y") if comp == "pmu" else e.particle_set("y")
                return ("setattr", o, comp), [v], {}, [("self", o)]
            M("%s.%s = " % (c, comp), go)
    return out
