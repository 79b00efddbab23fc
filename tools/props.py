"""The property list: writes properties.jsonl and MANIFEST.json."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []
NOT_APPLICABLE = []


def P(id, title, statement, over, text, why, files, mechanism, technique,
      level_note, observe_at=None):
    a = dict(files=files,
             mechanism=[dict(name=n, where=w) for n, w in mechanism],
             hook_needed=None)
    if observe_at:
        a["observe_at"] = observe_at
    assert len(title) <= 80, (id, len(title))
    PROPS.append(dict(
        prop=dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text),
                  why_tests_cant=why, anchors=a),
        check=dict(property=id,
                   quick_cmd="/opt/venv/bin/python run.py %s" % id,
                   thorough_cmd="/opt/venv/bin/python run.py %s "
                                "--tier thorough" % id,
                   evidence_file="evidence/%s.json" % id,
                   technique=technique, level="exploration",
                   level_note=level_note)))


sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
exec(open(os.path.join(HERE, "tools", "proplist.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in PROPS:
        f.write(json.dumps(p["prop"]) + "\n")
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(dict(
        version=1, setup_cmd="/opt/venv/bin/python run.py --selftest",
        checks=[p["check"] for p in PROPS], not_applicable=NOT_APPLICABLE,
        notes="No hooks: every check drives the public API of /repo's working "
              "tree. Each run uses a fresh numba cache in its own scratch "
              "directory, so stale compiled code is never what is judged."),
        f, indent=1)
    f.write("\n")
subs = json.load(open(os.path.join(HERE, "checks", "subs.json")))
assert set(subs) == {p["prop"]["id"] for p in PROPS}, \
    set(subs) ^ {p["prop"]["id"] for p in PROPS}
print(len(PROPS), "properties")
