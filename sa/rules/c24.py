"""C24: assignments are exclusive and of least total cost.

arg_closest is extracted down to the cost matrix which it gives to the
assignment solver (kernel loops summarised as fills of the index square) and
the solver is replaced by its definition, the assignment of least total cost.
The assignment is compared with that of the declared costs in every model.
"""
from ..model import np, Model, Undef
from . import Result, ref
from .common import fcall, expect

FIVES = np.array([[3., 4.], [4., 3.], [-3., 4.], [5., 0.], [0., 5.], [-4., 3.], [3., -4.], [-5., 0.]])


def cost(p, q):
    """Cost of assigning row i of p to row j of q."""
    dr = ref.delta_r(p, q, False)
    vr = dr.var(axis=1)
    vp = ref.pt(q).var()
    dp = ref.pt(p)[:, None] - ref.pt(q)[None, :]
    with np.errstate(all="ignore"):
        a = np.where(vr[:, None] > 0, np.exp(-dr ** 2 / (2 * vr[:, None])), 1.0)
        b = np.exp(-dp ** 2 / (2 * vp)) if vp > 0 else np.ones_like(dp)
    return 2.0 - a - b


class _Solver:
    """The declared assignment, with the solver of the models."""

    ev = staticmethod(lambda t, env: t)

    def __call__(self, p, q):
        c = cost(p, q)
        if not np.isfinite(c).all():
            raise Undef("infinite separation")
        return [int(j) for j in Model.assignment(self, [c], {})[1]]


best = _Solver()


def leaf(M, name, p):
    """Every third model has candidates of one transverse momentum."""
    if M.index % 3 == 2 and name in ("q.px", "q.py"):
        g = np.random.default_rng([M.seed, M.index]).permutation(len(FIVES))
        return FIVES[g[:M.nspace("F")], int(name == "q.py")]


def run(ctx):
    res = Result(__doc__)
    for n, m in ((1, 1), (1, 5), (2, 2), (3, 3), (2, 5), (3, 6), (4, 5)):
        for kw in ({}, {"num_threads": 3}):
            if kw and m != 5:
                continue

            def prep(e, kw=kw):
                from ..terms import const
                return [e.momenta(), e.momenta("q", e.space("F"))], {
                    k: const(v) for k, v in kw.items()}
            expect(res, ctx, "assignment", fcall("select.arg_closest", prep, "%d to %d%s" % (
                n, m, " threads" if kw else "")),
                lambda x: best(x.nth(0), x.nth(1)), "candidate of each focus element, of least "
                "total cost", n=15, moods=("plain", "spacelike"), sizes={"E": n, "F": m},
                leaf=leaf, norm=lambda v: [int(i) for i in v])
    for n in (2, 4):
        def same(e):
            p = e.momenta()
            return [p, p], {}
        expect(res, ctx, "assignment", fcall("select.arg_closest", same, "itself %d" % n),
               lambda x: best(x.nth(0), x.nth(0)), "candidate of each focus element, of least "
               "total cost", n=8, moods=("plain",), sizes={"E": n},
               norm=lambda v: [int(i) for i in v])
    from .c04 import run_tag
    run_tag(res, ctx)
    return res
