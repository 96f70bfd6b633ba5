"""mkseed.py SPEC.py : makes and validates /verif/seeded/<id>/ (development tool, no check uses it).

SPEC.py defines ID, PROP, NEEDS, BREAKS, EDITS = [(file, old, new)], DEMO (python source).
"""
import json, os, re, runpy, subprocess, sys, tempfile
R = "/repo"

def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)

def main(spec, test=True):
    s = runpy.run_path(spec)
    d = "/verif/seeded/" + s["ID"]
    os.makedirs(d, exist_ok=True)
    assert not sh("git", "-C", R, "status", "--short").stdout, "repo dirty"
    ok = True
    try:
        for f, old, new in s["EDITS"]:
            p = os.path.join(R, f)
            t = open(p).read()
            assert t.count(old) == 1, (f, old, t.count(old))
            open(p, "w").write(t.replace(old, new))
        diff = sh("git", "-C", R, "diff").stdout
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.py", "w").write(s["DEMO"].lstrip())
        open(d + "/demo.sh", "w").write(
            "#!/bin/bash\nset -e\nD=$(cd \"$(dirname \"$0\")\" && pwd)\n"
            "export PYTHONDONTWRITEBYTECODE=1 NUMBA_CACHE_DIR=$(mktemp -d)\n"
            "trap 'rm -rf \"$NUMBA_CACHE_DIR\"' EXIT\n"
            "PYTHONPATH=$PWD /opt/venv/bin/python \"$D/demo.py\"\n")
        json.dump(dict(property=s["PROP"], needs=s["NEEDS"], what_it_breaks=s["BREAKS"]),
                  open(d + "/meta.json", "w"), indent=1)
        r = sh("bash", d + "/demo.sh", cwd=R)
        print("demo with bug: rc", r.returncode, (r.stderr or r.stdout)[-300:])
        ok &= r.returncode != 0
        if test:
            r = sh("bash", "/opt/vp/test.sh", "/tmp/sw/out.json", cwd=R)
            print(r.stdout.strip().splitlines()[-1])
            ok &= "12 passed" in r.stdout
        c = sh("/usr/bin/python3", "/verif/check.py", s["PROP"], cwd="/verif")
        print("check rc", c.returncode, c.stdout[-600:])
    finally:
        sh("git", "-C", R, "checkout", "--", ".")
    r = sh("bash", d + "/demo.sh", cwd=R)
    print("demo clean: rc", r.returncode, r.stderr[-300:])
    ok &= r.returncode == 0
    print("SEED", s["ID"], "VALID" if ok else "INVALID", "CAUGHT" if c.returncode == 1 else "MISSED")

for sp in sys.argv[1:]:
    main(sp)
