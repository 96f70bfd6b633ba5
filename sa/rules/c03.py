"""C03: memoised quantities are dropped or recomputed when the data change.

(a) read - mutate - read sequences on momenta and adjacency lists are
extracted as value graphs and the second read is compared, in finite models,
with the same property of a freshly constructed object holding the same data.
(b) every public entry is analysed with all memoised quantities of its
arguments already filled; each memoised value held afterwards by an argument
or by the result is compared with the value computed from its current data.
"""
from .. import api, scan, terms as tm, model
from ..loader import AnalysisBroken
from ..terms import const, raw
from ..values import Ref, Tup, Ext, InstO, Phi
from ..interp import PropV, AbsDead
from . import Result
from .common import seq, expect, compare, outcome, where, sc_one, sc_steps, why_not

KIN = ("pt", "eta", "rapidity", "phi", "theta", "mass", "mass_t")
CON = ("roots", "leaves", "matrix", "nodes", "edges")


def read(e, o, names):
    return [e.I.getattr(o, n, e.st) for n in names]


def con(e, o):
    """Connectivity quantities of an adjacency list."""
    I, st = e.I, e.st
    out = [I.getattr(o, "roots", st), I.getattr(o, "leaves", st), I.getattr(o, "matrix", st),
           I.getattr(o, "nodes", st)]
    s = I.call(I.getattr(o, "to_sparse", st), [], {}, st)
    for a in ("row", "col", "data"):
        out.append(I.getattr(s, a, st))
    return out


def ufunc(e, name, args, kw=None):
    return e.I.call(Ext("numpy." + name), list(args), dict(kw or {}), e.st)


def momenta_like(e, cls, name):
    k = "f8" if cls == "MomentumArray" else "int"
    w = ("px", "py", "pz", "e") if cls == "MomentumArray" else ("src", "dst")
    return e.arr(raw("cols", *[e.col("%s.%s" % (name, q), k) for q in w]),
                 "f8" if k == "f8" else "i4")


def structured(e, cls, name):
    """The structured view of another object of the class."""
    o = e.momenta(name) if cls == "MomentumArray" else e.adj(name, weights=False)
    return e.I.getattr(o, "data", e.st)


def mutations(cls):
    def assign(how):
        def go(e, x, y):
            e.I.setattr(x, "data", how(e, y), e.st)
            return x
        return go

    def raw_of(e, y):
        return y

    yield "data = array", lambda e: momenta_like(e, cls, "y"), assign(raw_of)
    yield "data = structured", lambda e: structured(e, cls, "y"), assign(raw_of)

    def iop(op, c):
        def go(e, x, y):
            return e.I.call(e.I.getattr(x, op, e.st), [const(c) if c is not None else y], {},
                            e.st)
        return go
    obj = lambda e: momenta_like(e, cls, "y")        # noqa: E731
    same = lambda e: (e.momenta("y") if cls == "MomentumArray" else e.adj(   # noqa: E731
        "y", weights=False))
    yield "x += array", obj, iop("__iadd__", None)
    yield "x += same class", same, iop("__iadd__", None)
    yield "x -= number", obj, iop("__isub__", 2)
    yield "x *= number", obj, iop("__imul__", 2)

    def out(f, tup, n):
        def go(e, x, y):
            o = Tup([x]) if tup else x
            a = {"self": [x], "1": [x, y], "2": [y, x], "other": [y, y]}[n]
            if n == "self":
                a = [x]
            ufunc(e, f, a, {"out": o})
            return x
        return go
    yield "np.negative(x, out=x)", obj, out("negative", False, "self")
    yield "np.add(x, y, out=x)", obj, out("add", False, "1")
    yield "np.subtract(y, x, out=(x,))", same, out("subtract", True, "2")
    yield "np.add(y, y, out=x), arrays", obj, out("add", False, "other")
    yield "np.add(y, y, out=(x,)), same class", same, out("add", True, "other")

    def at(e, x, y):
        k = e.arr(tm.sym("k", "int", 1, space=raw("space", "K")), "i8")
        e.I.call(Ext("numpy.add.at"), [x, k, const(3)], {}, e.st)
        return x
    yield "np.add.at(x, k, 3)", obj, at

    def iattr(e, x, y):
        d = e.I.getattr(y, "data", e.st)
        e.I.setattr(x, "data", d, e.st)
        e.I.call(e.I.getattr(x, "__imul__", e.st), [const(3)], {}, e.st)
        return x
    yield "data = y.data; x *= 3", same, iattr
    if cls == "MomentumArray":
        def modf(e, x, y):
            ufunc(e, "modf", [y], {"out": Tup([x, e.arr(e.I.term(
                momenta_like(e, cls, "z"), e.st), "f8")])})
            return x
        yield "np.modf(y, out=(x, z))", obj, modf

        def modf2(e, x, y):
            ufunc(e, "modf", [y], {"out": Tup([e.arr(e.I.term(
                momenta_like(e, cls, "z"), e.st), "f8"), x])})
            return x
        yield "np.modf(y, out=(z, x))", obj, modf2


def leaf_for(cls):
    def leaf(M, name, p):
        g = np.random.default_rng([M.seed, M.index, sum(map(ord, name))])
        if name == "k":
            return g.integers(0, M.nspace("E"), M.nspace("K"))
        if cls == "AdjacencyList" and p.get("kind") == "int" and name[:2] in ("x.", "y."):
            return g.integers(0, 5, M.nspace("E"))
        return None
    return leaf


np = model.np




def fresh(e, x, cls):
    I, st = e.I, e.st
    d = I.call(Ext("numpy.array"), [I.getattr(x, "data", st)], {}, st)
    if cls == "AdjacencyList":
        w = I.getattr(x, "weights", st)
        return e.make(cls, d, I.call(Ext("numpy.array"), [w], {}, st))
    return e.make(cls, d)


def part_a(res, ctx):
    I = ctx.interp
    for cls in ("MomentumArray", "AdjacencyList"):
        get = (lambda e, o: read(e, o, KIN)) if cls == "MomentumArray" else con
        names = KIN if cls == "MomentumArray" else (
            "roots", "leaves", "matrix", "nodes", "sparse rows", "sparse columns",
            "sparse weights")
        firsts = [("", None)] + [(" " + n, n) for n in (
            KIN if cls == "MomentumArray" else ("roots", "leaves", "matrix"))]
        for (tag, other, mut), (ft, first) in [
                (m, f) for m in mutations(cls) for f in firsts
                if f[1] is None or m[0] in ("data = array", "x += array", "np.add.at(x, k, 3)")]:
            def go(e, x, y, get=get, mut=mut, cls=cls, first=first):
                if first is None:
                    get(e, x)
                else:
                    e.I.getattr(x, first, e.st)
                r = mut(e, x, y)
                out = []
                for o in ([x] if r is x or r == x else [x, r]):
                    out.append(Tup([Tup(get(e, o)), Tup(get(e, fresh(e, o, cls)))]))
                if len(out) == 1:
                    out = out * 2
                return Tup(out)

            sc = seq("%s read%s, %s, read" % (cls, ft, tag), lambda e, cls=cls, other=other: [
                ("x", e.momenta("x") if cls == "MomentumArray" else e.adj("x")),
                ("y", other(e))], go, target=cls + ".data")
            o = sc_one(I, sc, sc_steps(ctx))
            if o.dead and o.exact:          # an operation the class does not offer
                res.count("refused operations")
                continue
            for j, held in enumerate(("the object", "the result")):
                for i, n in enumerate(names):
                    def pick(o, s, i=i, j=j):
                        return o.value.items[j].items[s].items[i]
                    expect(res, ctx, "stale", sc,
                           lambda X, pick=pick: model.plain(X.M.val(I.term(pick(X.o, 1),
                                                                          X.o.st))),
                           "%s of %s is that of its current data" % (n, held),
                           pick=lambda o, pick=pick: pick(o, 0), o=o, leaf=leaf_for(cls), n=4,
                           moods=("plain", "special") if cls == "MomentumArray" else ("plain",))


# ------------------------------------------------------------- every entry
def insts(I, st, *vals):
    out = []
    for i in sorted(I.reach(st, *vals)):
        h = st.heap.get(i)
        if isinstance(h, InstO) and cached_names(h.cls):
            out.append(i)
    return out


def cached_names(ci):
    out, seen = [], set()
    for c in ci.mro():
        for n, a in c.attrs.items():
            if n not in seen and isinstance(a, PropV) and a.cached:
                out.append(n)
            seen.add(n)
    return out


def fill(e, *vals):
    """Reads every memoised property of the instances reachable from vals."""
    I, st = e.I, e.st
    n = 0
    for i in insts(I, st, *vals):
        for name in cached_names(st.heap[i].cls):
            I.raises.append([])
            try:
                I.getattr(Ref(i), name, st)
                n += 1
            except AbsDead:
                pass
            finally:
                I.raises.pop()
    return n


def part_b(res, ctx):
    I = ctx.interp
    for sc in api.scenarios() + api.mutators():
        box = {}

        def prep(e, sc=sc, box=box):
            r = sc.prep(e)
            f, a, k = r[:3]
            named = r[3] if len(r) > 3 else []
            box["n"] = fill(e, *list(a) + list(k.values()) + [v for _, v in named])
            return r
        s2 = api.Scenario(sc.name, prep, target=sc.target)
        s2.maybe_empty = getattr(sc, "maybe_empty", False)
        o = sc_one(I, s2, sc_steps(ctx))
        if o.dead and o.st is None or o.env is None:
            continue
        st = o.st if o.st is not None else None
        if st is None:
            if box.get("n"):
                res.unknown("%s (%s)" % (sc.name, why_not(o)))
            continue
        vals = [v for _, v in o.inputs] + ([o.value] if not o.dead else [])
        ids = insts(I, st, *vals)
        if not ids:
            continue
        if not any(st.heap[i].cache for i in ids):
            continue
        res.count("entries analysed with filled memos")
        bad = 0
        pend = []
        for i in ids:
            h = st.heap[i]
            for name in sorted(h.cache):
                res.count("memoised values compared with the current data")
                pend.append((i, name, h.cache[name][0]))
        if not o.exact:
            res.unknown("%s (%s)" % (sc.name, why_not(o)))
            continue
        for i, name, val in pend:
            e = o.env
            I.raises.append([])
            keep = st.heap[i]
            try:
                n = keep.replace()
                n.cache = {}
                st.heap[i] = n
                new = I.getattr(Ref(i), name, st)
                got, want = I.term(val, st), I.term(new, st)
            except AbsDead:
                continue
            except (KeyError, TypeError, AttributeError) as ex:
                res.unknown("%s: %s (%s)" % (sc.name, name, ex))
                bad = 1
                continue
            finally:
                I.raises.pop()
                st.heap[i] = keep
            if got is want or got == want:
                continue
            r = compare(res, ctx, "stale", sc.target or sc.name, None, got, want,
                        "%s: memoised %s.%s held afterwards" % (sc.name, keep.cls.name, name),
                        n=4)
            if r is not True:
                bad = 1
        if not bad:
            res.ok(sc.name)


def run(ctx):
    res = Result(__doc__)
    part_a(res, ctx)
    part_b(res, ctx)
    return res
