"""C01: write effects of every public entry on caller-visible memory.

Each public function, method, property, operator and numpy entry is analysed
once per combination of argument kinds.  All memory reachable from the
arguments (arrays with every view of them, lists, dicts, nested mask groups,
attributes, memoised arrays) carries a label; a write, in-place operation or
attribute assignment reaching a labelled object is a violation unless the
entry is a documented mutator and the object belongs to its declared target.
"""
from .. import api, scan
from . import Result
from .common import where, why_not

KINDS = ("write", "setattr")


def run(ctx):
    res = Result(__doc__)
    I = ctx.interp
    for sc in api.scenarios() + api.mutators():
        o = scan.one(I, sc, steps=scan.STEPS if ctx.tier == "quick" else 4 * scan.STEPS)
        allowed = getattr(sc, "allowed", None)
        if sc.name == "MaskGroup.recursive_drop[inplace=True]":
            allowed = "self"
        bad = 0
        nw = 0
        for ev in o.events:
            if ev.kind not in KINDS or not ev.labels:
                continue
            nw += 1
            if allowed and any(l == allowed or l.startswith((allowed + ".", allowed + "["))
                               for l in ev.labels):
                continue
            if all(l.startswith("global:") for l in ev.labels):
                continue
            bad += 1
            res.bad("input-modified", ev.loc.file, ev.loc.line, ev.loc.func,
                    "%s writes to %s (%s) which the caller of %s still sees" % (
                        "assignment" if ev.kind == "setattr" else "operation",
                        ", ".join(sorted(ev.labels)), ev.what, sc.name))
        res.count("entry scenarios")
        res.count("writes to labelled memory examined", nw)
        unk = [ev for ev in o.events if ev.kind == "unknown-write"]
        if bad:
            continue
        if o.exact and not unk:
            res.ok(sc.name)
        else:
            res.unknown("%s (%s)" % (sc.name, why_not(o) if not o.exact else
                                     "unresolved write at %s" % unk[0].loc))
    return res
