"""Writes checks/subs.json (names of the sub-checks) from the check modules."""
import glob
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
out = {}
for p in sorted(glob.glob(os.path.join(HERE, "checks", "c[0-9]*.py"))):
    m = importlib.import_module("checks." + os.path.basename(p)[:-3])
    names = [s.name for s in m.SUBS]
    assert len(set(names)) == len(names)
    out[m.PROPERTY] = names
with open(os.path.join(HERE, "checks", "subs.json"), "w") as f:
    json.dump(out, f, indent=1, sort_keys=True)
    f.write("\n")
print({k: len(v) for k, v in out.items()})
