#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table in tools/table.py."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from table import PROPS  # noqa: E402

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["title"]
        rec = dict(id=p["id"], title=p["title"], statement=p["statement"],
                   quantifier=dict(over=p["over"], text=p["quant"]), why_tests_cant=p["why"],
                   anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]]))
        f.write(json.dumps(rec) + "\n")

checks = []
for p in PROPS:
    if not os.path.exists(os.path.join(ROOT, "mc", "props", p["id"].lower() + ".py")):
        raise SystemExit("no check for " + p["id"])
    checks.append(dict(property=p["id"], quick_cmd="./check.sh %s quick" % p["id"],
                       thorough_cmd="./check.sh %s thorough" % p["id"],
                       technique=p.get("technique", "explicit-state bounded model checking: exhaustive enumeration "
                                       "of the stated input/configuration space on the real code, each "
                                       "execution compared with a reference model"),
                       level="model_checking", level_note=p["note"]))
man = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=[],
           notes="No hooks in /repo. Replay a violation with: "
                 "/opt/venv/bin/python -m mc.run --replay evidence/replay-<id>.json")
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
print(len(PROPS), "properties")
