"""Helpers shared by the rules built on the abstract interpreter."""
from .. import terms as tm, model, scan as sc, limits
from ..entry import Env
from ..loader import AnalysisBroken, qualname
from ..values import Ref, Fn, ClsV, InstO, Arr, Phi, Tup, Buf, ListO, DictO, Unk, BoundM, ExtO
from ..model import np
from ..interp import PropV, ClsMeth, StatMeth


def where(ctx, target):
    """(file, line, function) of the definition of a public name."""
    I = ctx.interp
    parts = target.split("[")[0].split(" ")[0].split(".")
    try:
        if parts[0] and parts[0][0].isupper():
            ci = I.get_class(parts[0])
            a = ci.lookup(parts[1]) if len(parts) > 1 else None
            if isinstance(a, PropV):
                a = a.fget
            if isinstance(a, (ClsMeth, StatMeth)):
                a = a.fn
            if isinstance(a, Fn):
                return (a.mod.rel, a.node.lineno, qualname(a.node))
            return (ci.mod.rel, ci.node.lineno, ci.name + ("." + parts[1] if len(parts) > 1 else ""))
        v = I.public(".".join(parts))
        if isinstance(v, BoundM):
            v = v.fn
        if isinstance(v, (ClsMeth, StatMeth)):
            v = v.fn
        if isinstance(v, Fn):
            return (v.mod.rel, v.node.lineno, qualname(v.node))
        if isinstance(v, ClsV):
            return (v.info.mod.rel, v.info.node.lineno, v.info.name)
    except AnalysisBroken:
        pass
    return ("graphicle", 0, target)


def loc3(l):
    return (l.file, l.line, l.func)


def short(v, n=160):
    s = repr(v).replace("\n", " ")
    return s if len(s) <= n else s[:n] + "..."


def explain(v):
    g, w, M = v.detail
    return "extracted value %s, expected %s (model %s, seed %d)" % (
        short(g), short(w), M.mood, M.seed)


def why_not(o):
    if o.broken:
        return o.broken
    if o.unknowns:
        return "%s at %s" % (o.unknowns[0][0], o.unknowns[0][1])
    if o.dead:
        return "no normal exit"
    return "?"


def compare(res, ctx, rule, target, o, got, want, what, at=None, **kw):
    """One obligation: the extracted term equals the reference term."""
    name = "%s: %s" % (target, what)
    if o is not None and not o.exact:
        res.unknown("%s (%s)" % (name, why_not(o)))
        return None
    kw.setdefault("seed", ctx.seed)
    if ctx.tier == "thorough":
        kw["n"] = 4 * kw.get("n", 6)
    try:
        with limits.limited():
            v = model.compare(got, want, **kw)
    except limits.TimeUp:
        res.unknown("%s (time)" % name)
        return None
    if v.kind == "equal":
        res.ok(name)
        return True
    if v.kind == "undecided":
        res.unknown("%s (%s)" % (name, v.detail))
        return None
    f, l, fn = at or where(ctx, target)
    res.bad(rule, f, l, fn, "%s: %s" % (what, explain(v)))
    return False


def instance(o, v=None):
    v = o.value if v is None else v
    if isinstance(v, Ref):
        h = o.st.heap.get(v.id)
        if isinstance(h, InstO):
            return h
    return None


def classes(o, v):
    """Names of the classes the alternatives of a value may have."""
    if isinstance(v, Phi):
        return classes(o, v.a) | classes(o, v.b)
    if isinstance(v, Ref):
        h = o.st.heap.get(v.id)
        if isinstance(h, InstO):
            return {h.cls.name}
        if isinstance(h, (Arr, ListO, DictO)):
            return {{Arr: "ndarray", ListO: "list", DictO: "dict"}[type(h)]}
    if isinstance(v, Tup):
        return {"tuple"}
    if isinstance(v, tm.T) and (v.op == "const" or tm.kind(v) is not None):
        return {"scalar" if tm.rank(v) == 0 else "ndarray"}
    return {None}


def definite_reach(I, st, *vals):
    """Ids reachable from values (heap objects and buffers)."""
    return I.reach(st, *vals)


def outcome(I, o, pick=None, norm=model.plain):
    """The result of a scenario as a function of the model: a value or Raised."""
    term = None
    if not o.dead:
        v = o.value
        if pick is not None:
            v = pick(o)
        term = v if isinstance(v, tm.T) else I.term(v, o.st)

    def go(M):
        for r in o.raised:
            if r.suppressed:
                continue
            ok = True
            for c, x in r.assume.items():
                v = M.val(c) if isinstance(c, tm.T) and c.op != "nonempty" else (
                    M.count(c.args[0]) > 0 if isinstance(c, tm.T) else c)
                if isinstance(v, model.np.ndarray):
                    raise model.NoModel("array condition")
                if bool(v) != bool(x):
                    ok = False
                    break
            if ok:
                return model.Raised(r.exc, r.loc)
        if term is None:
            raise model.NoModel("neither a value nor an exception")
        v = M.val(term)
        if norm is None:
            return v
        try:
            return norm(v)
        except (IndexError, KeyError, TypeError, ValueError, AttributeError) as e:
            raise model.NoModel("normalising: %s" % e)
    go.term = term
    return go


class X:
    """Concrete values of the inputs of a scenario in a model."""

    def __init__(self, I, o, M):
        self.I, self.o, self.M = I, o, M

    def __call__(self, name, norm=model.plain):
        for n, v in self.o.inputs:
            if n == name or n == "argument %s" % name:
                x = self.M.val(v if isinstance(v, tm.T) else self.I.term(v, self.o.before))
                return norm(x) if norm else x
        raise KeyError(name)

    def nth(self, i):
        n, v = self.o.inputs[i]
        return model.plain(self.M.val(v if isinstance(v, tm.T) else self.I.term(v, self.o.before)))


def expect(res, ctx, rule, sc, ref, what, **kw):
    try:
        with limits.limited():
            return _expect(res, ctx, rule, sc, ref, what, **kw)
    except limits.TimeUp:
        res.unknown("%s: %s (time)" % (sc.name, what))
    return None


def _expect(res, ctx, rule, sc, ref, what, pick=None, norm=model.plain, o=None, cls=None,
            at=None, **kw):
    """One obligation: in every model the extracted result of the scenario is
    ref(x), where x gives the values of its inputs.  ref may return Raised."""
    I = ctx.interp
    if o is None:
        steps = sc_steps(ctx)
        o = sc_one(I, sc, steps)
    name = "%s: %s" % (sc.name, what)
    res.count("scenarios compared with the declared result")
    if not o.exact:
        res.unknown("%s (%s)" % (name, why_not(o)))
        return None
    target = sc.target or sc.name
    if cls is not None and not o.dead:
        got = classes(o, pick(o) if pick else o.value) - {cls}
        if None in got:
            res.unknown("%s (class of the result)" % name)
            return None
        if got:
            f, l, fn = at or where(ctx, target)
            res.bad(rule + "-class", f, l, fn, "%s: result is %s instead of %s" % (
                name, " or ".join(sorted(got)), cls))
            return False
    try:
        got = outcome(I, o, pick, norm)
    except (KeyError, TypeError, AttributeError) as e:
        res.unknown("%s (no term: %s)" % (name, e))
        return None
    return compare(res, ctx, rule, target, None, got, lambda M: ref(X(I, o, M)),
                   "%s: %s" % (sc.name, what), at=at, **kw)


def sc_steps(ctx):
    return sc.STEPS if ctx.tier == "quick" else 4 * sc.STEPS


def sc_one(I, s, steps):
    return sc.one(I, s, steps=steps)


def scen(name, prep, target=None):
    from .. import api
    return api.Scenario(name, prep, target=target)


def fcall(name, prep, tag=""):
    """Scenario calling a public function: prep(e) -> (args, kwargs)."""
    from .. import api

    def go(e):
        a, k = prep(e)
        return e.I.public(name), a, k
    return api.Scenario(name + ("[%s]" % tag if tag else ""), go, target=name)


def mcall(cls, meth, obj, prep=None, tag=""):
    from .. import api

    def go(e):
        o = obj(e)
        a, k = prep(e, o) if prep else ([], {})
        return e.I.getattr(o, meth, e.st), a, k, [("self", o)]
    return api.Scenario("%s.%s%s" % (cls, meth, "[%s]" % tag if tag else ""), go,
                        target="%s.%s" % (cls, meth))


def seq(name, setup, go, target=None):
    """Scenario running several operations: setup(e) gives the named inputs
    (a list of pairs), go(e, *inputs) performs the operations through e.I."""
    from .. import api

    def prep(e):
        ins = setup(e)
        return ("do", lambda e: go(e, *[v for _, v in ins])), [], {}, ins
    return api.Scenario(name, prep, target=target or name)


def deep(v):
    """Contents of a value with the classes of the package kept apart."""
    if isinstance(v, model.Inst):
        f = v.fields
        if v.cls == "MaskGroup":
            agg = f.get("_agg_op")
            if isinstance(agg, model.Opq):
                raise model.NoModel("aggregation")
            return ("MaskGroup", str(agg).lower(), [(k, deep(x)) for k, x in f[
                "_mask_arrays"].items()])
        if v.cls == "AdjacencyList":
            return ("AdjacencyList", np.asarray(f["_data"]), np.asarray(f["weights"]))
        if "_data" in f:
            return (v.cls, np.asarray(f["_data"]))
        return (v.cls,) + tuple((k.lstrip("_"), deep(x)) for k, x in sorted(f.items()) if isinstance(
            x, model.Inst))
    if isinstance(v, dict):
        return {k: deep(x) for k, x in v.items()}
    if isinstance(v, (tuple, list)):
        return type(v)(deep(x) for x in v)
    return v


def attr(cls, name, obj, tag=""):
    from .. import api

    def go(e):
        o = obj(e)
        return ("attr", o, name), [], {}, [("self", o)]
    return api.Scenario("%s.%s%s" % (cls, name, "[%s]" % tag if tag else ""), go,
                        target="%s.%s" % (cls, name))
