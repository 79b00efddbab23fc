"""Applies every planted change (or those named) to /repo in turn, runs its
demonstration and its property's check, undoes it, and prints what was caught.
"""
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"


def sh(*cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          text=True, **kw)


def main(ids):
    for i in ids:
        d = os.path.join(HERE, "seeded", i)
        prop = json.load(open(os.path.join(d, "meta.json")))["property"]
        assert sh("git", "-C", "/repo", "status", "--short").stdout == ""
        d0 = sh("bash", os.path.join(d, "demo.sh"), cwd="/repo").returncode
        try:
            r = sh("git", "-C", "/repo", "apply",
                   os.path.join(d, "patch.diff"))
            if r.returncode:
                print(i, "does not apply", r.stdout[:200])
                continue
            d1 = sh("bash", os.path.join(d, "demo.sh"), cwd="/repo").returncode
            c = sh(PY, "run.py", prop, cwd=HERE)
        finally:
            sh("git", "-C", "/repo", "checkout", "--", ".")
        v = "VIOLATION property=%s " % prop in c.stdout
        print(i, "demo", d0, d1, "check", c.returncode,
              "CAUGHT" if v and c.returncode == 1 else "MISSED", flush=True)


if __name__ == "__main__":
    main(sys.argv[1:] or sorted(os.listdir(os.path.join(HERE, "seeded"))))
