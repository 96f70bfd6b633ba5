"""Abstract execution of every public scenario (``sa.api``), once per run."""
from . import terms as tm, api, limits
from .terms import raw
from .entry import Env
from .loader import AnalysisBroken
from .values import Ref


class Out:
    """Result of one scenario."""

    def __init__(self, sc):
        self.sc, self.name = sc, sc.name
        self.value = self.st = self.env = None
        self.events, self.unknowns, self.raised = [], [], []
        self.dead, self.broken = False, None
        self.inputs = []

    @property
    def exact(self):
        return not self.unknowns and not self.broken


STEPS = 60000


def one(I, sc, label=True, steps=STEPS, extra=None):
    o = Out(sc)
    try:
        with limits.limited():
            _one(I, sc, o, label, steps)
    except limits.TimeUp:
        o.broken = "time"
    o.steps = I.steps
    o.events = list(I.events)
    o.unknowns = [(r, l) for r, l in I.unknowns]
    return o


def _one(I, sc, o, label, steps):
    I.unknowns.clear()
    I.events.clear()
    I.raises[:] = [[]]
    I.stack[:] = []
    I.steps = 0
    keep = I.max_steps
    I.max_steps = steps
    try:
        e = Env(I)
        if not getattr(sc, "maybe_empty", False):
            e.nonempty(e.space())
            e.nonempty(e.space("F"))
        o.env = e
        f, a, k = api.run(e, sc)
        I.unknowns.clear()
        I.events.clear()
        o.inputs = e.inputs
        if label:
            for n, v in e.inputs:
                I.label(v, e.st, n)
        o.before = e.st.copy()
        e.raised = []
        v = api.invoke(e, f, a, k)
        o.st, o.value = e.st, v
        o.dead = v is None
        o.raised = list(e.raised)
    except AnalysisBroken as ex:
        if "budget" not in str(ex):
            raise
        o.broken = str(ex)
    except RecursionError:
        o.broken = "recursion"
    except (KeyError, TypeError, AttributeError, IndexError, ValueError,
            AssertionError) as ex:
        o.broken = "internal: %s %s" % (type(ex).__name__, ex)
    finally:
        I.max_steps = keep
        I.raises[:] = [[]]
        I.stack[:] = []
        I.kernel_stack[:] = []
        I.jit[:] = []
        I.active_binders[:] = []
        I.suppress = 0


def scan(ctx, select=None, **kw):
    """All scenarios (optionally filtered by name predicate)."""
    I = ctx.interp
    out = []
    for sc in api.scenarios():
        if select is None or select(sc):
            out.append(one(I, sc, **kw))
    return out
