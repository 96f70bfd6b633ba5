#!/usr/bin/python3
"""check.py <property> [--tier quick|thorough]

Decides one property of the package in /repo (SA_REPO overrides the root) by
static analysis of its current source; writes evidence/<id>.json.
Exit 0: held; 1: VIOLATION line(s); 3: the analysis could not be carried out.
"""
import argparse
import importlib
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)

from sa.loader import AnalysisBroken, Package   # noqa: E402
from sa.rules import Ctx                        # noqa: E402
from sa import limits                           # noqa: E402


def known():
    """Known findings: lines 'open: property=<id> key=<key> <text>'."""
    out = []
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for ln in open(path):
            ln = ln.strip()
            if ln.startswith("open:"):
                parts = ln[5:].split(None, 2)
                out.append((parts[0].split("=", 1)[1], parts[1].split("=", 1)[1],
                            parts[2] if len(parts) > 2 else ""))
    return out


def key_of(f):
    return "%s|%s|%s" % (f["rule"], f["file"], f["function"])


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    prop = a.property.upper()
    t0 = time.time()
    ev = os.path.join(HERE, "evidence")
    os.makedirs(ev, exist_ok=True)
    path = os.path.join(ev, prop + ".json")
    if os.path.exists(path):
        os.remove(path)
    if a.tier == "thorough":
        limits.thorough()
    try:
        mod = importlib.import_module("sa.rules." + prop.lower())
        pkg = Package()
        ctx = Ctx(pkg, a.tier, seed)
        res = mod.run(ctx)
    except AnalysisBroken as e:
        print("ANALYSIS-BROKEN property=%s %s" % (prop, e))
        return 3
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-BROKEN property=%s internal error" % prop)
        return 3
    kn = [(k.replace("_", " "), t) for p, k, t in known() if p == prop]
    viol, sup = [], []
    for f in res.findings:
        k = key_of(f)
        hit = next((t for kk, t in kn if kk == k), None)
        (sup if hit is not None else viol).append((f, hit))
    nsrc = len(pkg.modules)
    nfun = sum(1 for _ in pkg.functions())
    data = dict(
        property=prop, tier=a.tier, seed=seed, level="other",
        coverage=dict(
            explanation=(res.rule or "").strip(),
            obligations=res.obligations, discharged=res.discharged,
            undecided=len(res.unknowns),
            modules=nsrc, functions=nfun, analysed=res.analysed,
            undecided_constructs=res.unknowns[:200],
            notes=res.notes,
            known_findings=[f for f, _ in sup],
            samples=res.samples[:200]),
        wall_s=round(time.time() - t0, 2),
        violations=[dict(f) for f, _ in viol])
    with open(path, "w") as fh:
        json.dump(data, fh, indent=1, default=str)
    for f, t in sup:
        print("KNOWN-FINDING: property=%s %s" % (prop, t))
    print("%s: %d obligations, %d discharged, %d undecided, %d violations, %.1f s" % (
        prop, res.obligations, res.discharged, len(res.unknowns), len(viol),
        time.time() - t0))
    if viol:
        for f, _ in viol:
            print("%s:%s: in %s: [%s] %s" % (f["file"], f["line"], f["function"],
                                             f["rule"], f["message"]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    return 0


if __name__ == "__main__":
    code = main()
    sys.stdout.flush()
    os._exit(code)
