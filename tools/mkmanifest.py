#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py and the table below."""
import json, os, sys
sys.dont_write_bytecode = True
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, ROOT)
from props import PROPS
sys.path.insert(0, os.path.join(ROOT, "tools"))
from technique import T as TECH
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
m = dict(version=1, setup_cmd="python3 tools/selfcheck.py",
  checks=[dict(property=i, quick_cmd=f"python3 check.py {i} --tier quick", thorough_cmd=f"python3 check.py {i} --tier thorough",
               technique=TECH[i][0], level=PROPS[i].get("level", "exploration"), level_note=TECH[i][1]) for i in ids if i in PROPS],
  not_applicable=[dict(property=i, reason="check not built yet") for i in ids if i not in PROPS],
  notes="No hooks: the checks build /repo's library from its own CMakeLists with different compiler flags and use only its public and installed headers. "
        "Every check is python3 check.py <id>; violations are replayed with python3 check.py --replay <file>.")
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1); print(len(m["checks"]), "checks")
