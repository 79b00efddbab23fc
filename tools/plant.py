"""Plants a change: tools/plant.py SPEC.py.

SPEC.py defines ID, PROP, FILE, EDITS [(old, new), ...], NEEDS, BREAKS, DEMO (a
python program).  Writes seeded/ID, then, with the change applied to /repo,
runs the demonstration and the property's check, undoes the change and runs the
demonstration again.  TESTS, if set, is run by pytest in a scratch copy.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"


def sh(*cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          text=True, **kw)


def plant(spec):
    ns = {}
    exec(open(spec).read(), ns)
    edits = ns["EDITS"]
    if not isinstance(edits, dict):
        edits = {ns["FILE"]: edits}
    assert sh("git", "-C", "/repo", "status", "--short").stdout == ""
    out = os.path.join(HERE, "seeded", ns["ID"])
    os.makedirs(out, exist_ok=True)
    try:
        for f, es in edits.items():
            p = os.path.join("/repo", f)
            s = open(p).read()
            for old, new in es:
                assert s.count(old) == 1, (f, s.count(old), old)
                s = s.replace(old, new)
            open(p, "w").write(s)
        diff = sh("git", "-C", "/repo", "diff").stdout
        open(os.path.join(out, "patch.diff"), "w").write(diff)
        json.dump(dict(property=ns["PROP"], needs=ns["NEEDS"],
                       what_it_breaks=ns["BREAKS"]),
                  open(os.path.join(out, "meta.json"), "w"), indent=1)
        open(os.path.join(out, "demo.py"), "w").write(ns["DEMO"].lstrip("\n"))
        open(os.path.join(out, "demo.sh"), "w").write(
            '#!/bin/bash\n# cwd: /repo\nd=$(dirname "$0")\n'
            'c=$(mktemp -d)\ntrap \'rm -rf "$c"\' EXIT\n'
            'NUMBA_CACHE_DIR="$c" PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo '
            '/opt/venv/bin/python "$d/demo.py"\n')
        d1 = sh("bash", os.path.join(out, "demo.sh"), cwd="/repo")
        c1 = sh(PY, "run.py", ns["PROP"], cwd=HERE)
        tests = ""
        if ns.get("TESTS"):
            w = tempfile.mkdtemp(prefix="plant", dir="/tmp")
            try:
                sh("cp", "-a", "/repo/.", w)
                base = json.load(open("/opt/vp/BASELINE.json"))
                r = sh(PY, "-m", "pytest", "-q", "-n", "6", "-p",
                       "no:cacheprovider", "--tb=line", *ns["TESTS"].split(),
                       cwd=w, env=dict(os.environ, NUMBA_CACHE_DIR=w + "/nb",
                                       PYTHONDONTWRITEBYTECODE="1"))
                stable = set(base["stable"])
                failed = [l.split()[1] for l in r.stdout.split("\n")
                          if l.startswith(("FAILED", "ERROR"))]
                hit = [f for f in failed if f.replace("/", ".").replace(
                    ".py::", "::") in stable]
                tests = "%s; stable failures: %s; others: %s" % (
                    r.stdout.strip().split("\n")[-1], hit, failed[:4])
            finally:
                shutil.rmtree(w)
    finally:
        sh("git", "-C", "/repo", "checkout", "--", ".")
    d0 = sh("bash", os.path.join(out, "demo.sh"), cwd="/repo")
    v = [l for l in c1.stdout.split("\n") if l.startswith("VIOLATION")]
    print("%s: demo clean %d patched %d; check rc %d %s" % (
        ns["ID"], d0.returncode, d1.returncode, c1.returncode, v[:1]))
    if d0.returncode:
        print(d0.stdout[-600:])
    if not d1.returncode:
        print(d1.stdout[-300:])
    else:
        print("   demo:", d1.stdout.strip().split("\n")[-1][:200])
    if not v:
        print(c1.stdout[-600:])
    if tests:
        print("   tests:", tests[-700:])


for s in sys.argv[1:]:
    plant(s)
