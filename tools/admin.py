"""Regenerates properties.jsonl and MANIFEST.json from tools/props.py and the check modules."""
import importlib
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [ROOT, os.path.join(ROOT, "tools"), "/repo"]
from props import P  # noqa: E402

try:
    from props import NA
except ImportError:
    NA = []

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        anchors = dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]],
                       observe_at=p["observe"], hook_needed=None)
        if p["state"]:
            anchors["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in p["state"]]
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
                                quantifier=dict(over=p["over"], text=p["qtext"]),
                                why_tests_cant=p["why"], anchors=anchors)) + "\n")

checks = []
na = {n["property"] for n in NA}
for p in P:
    if p["id"] in na:
        continue
    m = importlib.import_module("checks." + p["id"].lower())
    assert m.ID == p["id"] and m.TITLE == p["title"], p["id"]
    cmd = f"/opt/venv/bin/python run.py {p['id']} --tier "
    checks.append(dict(property=p["id"], quick_cmd=cmd + "quick", thorough_cmd=cmd + "thorough",
                       technique="model checking: " + m.TECHNIQUE, level=m.LEVEL, level_note=p["level_note"]))
json.dump(dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=NA),
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
