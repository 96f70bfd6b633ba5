"""C02: copies are complete and share no memory.

For every data structure, in every combination of populated components and
nesting listed, the abstract result of copy() must be a new instance of the
same class whose every component has the same content term, and no buffer,
container or instance reachable from it may be reachable from the original.
The results of the shift and split routines are checked for shared memory.
"""
from .. import api, scan, terms as tm
from ..terms import const, raw
from ..values import Ref, Arr, InstO, Buf, ListO, DictO
from . import Result
from .common import where, why_not, compare, instance


def variants():
    """(tag, class, builder)"""
    out = []
    for c in api.CLASSES:
        out.append(("", c, lambda e, c=c: api.build(e, c)))
    out.append(("no weights", "AdjacencyList", lambda e: e.adj("x", weights=False)))
    for agg in ("and", "or", "none", None):
        out.append(("nested,%s" % agg, "MaskGroup",
                    lambda e, agg=agg: api.nested_group(e, "x", agg)))
        out.append(("flat,%s" % agg, "MaskGroup",
                    lambda e, agg=agg: e.mask_group("x", ("a", "b", "c"), agg=agg)))

    def mixed(e):
        from ..values import DictO
        I, st = e.I, e.st
        d = I.alloc(st, DictO([], kind="OrderedDict"))
        for k, v in (("p", e.mask_group("in1", ("a", "b"), agg="and")),
                     ("q", e.mask_group("in2", ("a", "b"), agg="or")), ("r", e.mask("in3"))):
            I.np.dict_set(I, st, d, const(k), v)
        return e.make("MaskGroup", d, agg_op=const("or"))
    out.append(("mixed aggregation", "MaskGroup", mixed))
    parts = dict(pdg=lambda e: e.pdg(), pmu=lambda e: e.momenta(), color=lambda e: e.color(),
                 helicity=lambda e: e.helicity(), status=lambda e: e.status(),
                 final=lambda e: e.mask("final"))
    subsets = [(k,) for k in parts] + [("pdg", "pmu"), ("pmu", "final"),
                                       ("color", "helicity", "status")]
    for sub in subsets:
        out.append(("only " + "+".join(sub), "ParticleSet", lambda e, sub=sub: e.make(
            "ParticleSet", **{k: parts[k](e) for k in sub})))
        out.append(("only " + "+".join(sub), "Graphicle", lambda e, sub=sub: e.make(
            "Graphicle", e.make("ParticleSet", **{k: parts[k](e) for k in sub}), e.adj())))
    out.append(("particles only", "Graphicle", lambda e: e.make("Graphicle", e.particle_set())))
    out.append(("adjacency only", "Graphicle", lambda e: e.make("Graphicle", adj=e.adj())))
    return out


SKIP = ("dtype", "_HANDLED_TYPES")


def shared(I, st, new, old):
    """Mutable objects reachable from both values."""
    a, b = I.reach(st, new), I.reach(st, old)
    out = []
    for i in sorted(a & b):
        o = st.heap.get(i)
        if isinstance(o, Buf):
            out.append("an array buffer")
        elif isinstance(o, (ListO, DictO)) and o.kind not in ("tuple", "frozenset"):
            out.append("a %s" % o.kind)
        elif isinstance(o, InstO):
            out.append("an instance of %s" % o.cls.name)
    return out


def field_names(h):
    return [k for k in h.fields if k not in SKIP and "__" not in k]


def descend(I, o, res, ctx, target, tag, new, old, path):
    """Compare instance contents component by component."""
    hn, ho = o.st.heap.get(new.id) if isinstance(new, Ref) else None, \
        o.st.heap.get(old.id) if isinstance(old, Ref) else None
    if isinstance(ho, InstO):
        if not isinstance(hn, InstO) or hn.cls is not ho.cls:
            f, l, fn = where(ctx, target)
            res.bad("copy-class", f, l, fn, "copy of %s%s is not a %s" % (
                tag, path, ho.cls.name))
            return
        for k in field_names(ho):
            if k not in hn.fields:
                f, l, fn = where(ctx, target)
                res.bad("copy-incomplete", f, l, fn, "component %s%s is missing from the copy (%s)"
                        % (path, k, tag))
                continue
            a, b = hn.fields[k], ho.fields[k]
            if isinstance(b, Ref) and isinstance(o.st.heap.get(b.id), InstO) and isinstance(a, Ref):
                descend(I, o, res, ctx, target, tag, a, b, path + k.lstrip("_") + ".")
            else:
                compare(res, ctx, "copy-content", target, o, I.term(a, o.st), I.term(b, o.before),
                        "[%s] component %s%s of the copy" % (tag, path, k.lstrip("_")))


def run(ctx):
    res = Result(__doc__)
    I = ctx.interp
    for tag, c, b in variants():
        def go(e, b=b):
            o = b(e)
            return I.getattr(o, "copy", e.st), [], {}, [("self", o)]
        name = "%s.copy" % c
        o = scan.one(I, api.Scenario("%s[%s]" % (name, tag), go, target=name))
        res.count("copies analysed")
        if o.dead or not o.exact:
            res.unknown("%s[%s] (%s)" % (name, tag, why_not(o)))
            continue
        src = o.inputs[0][1]
        if o.value == src:
            f, l, fn = where(ctx, name)
            res.bad("copy-shares", f, l, fn, "copy() of %s [%s] returns the object itself" % (c, tag))
            continue
        sh = shared(I, o.st, o.value, src)
        if sh:
            f, l, fn = where(ctx, name)
            res.bad("copy-shares", f, l, fn, "copy of %s [%s] shares %s with the original" % (
                c, tag, ", ".join(sorted(set(sh)))))
        else:
            res.ok("%s[%s]: no shared memory" % (name, tag))
        descend(I, o, res, ctx, name, tag, o.value, src, "")
    names = ("MomentumArray.shift_rapidity", "MomentumArray.shift_eta", "MomentumArray.shift_phi",
             "transform.split_momentum", "transform.split_hardest")
    for sc in api.scenarios():
        if sc.target not in names:
            continue
        o = scan.one(I, sc)
        res.count("transform results analysed")
        if o.dead:
            continue
        if not o.exact:
            res.unknown("%s (%s)" % (sc.name, why_not(o)))
            continue
        sh = []
        for n, v in o.inputs:
            if isinstance(v, Ref):
                sh += shared(I, o.st, o.value, v)
        if sh:
            f, l, fn = where(ctx, sc.target)
            res.bad("result-shares", f, l, fn, "result of %s shares %s with its input" % (
                sc.name, ", ".join(sorted(set(sh)))))
        else:
            res.ok("%s: result shares nothing with the input" % sc.name)
    return res
