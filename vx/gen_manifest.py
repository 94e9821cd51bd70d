"""Writes /verif/MANIFEST.json from the table below."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vx.props import PROPS
NOTES = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "levels.json")))
checks = []
for pid in sorted(PROPS):
    n = NOTES[pid]
    checks.append({"property": pid, "quick_cmd": "./check %s --tier quick" % pid, "thorough_cmd": "./check %s --tier thorough" % pid,
                   "technique": n["technique"], "level": PROPS[pid].get("level", "proof"), "level_note": n["note"]})
na = []
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for l in open(os.path.join(here, "properties.jsonl")):
    p = json.loads(l)
    if p["id"] not in PROPS:
        na.append({"property": p["id"], "reason": NOTES.get(p["id"], {}).get("na", "no contract built yet")})
m = {"version": 1, "setup_cmd": "./setup", "hooks": {"guard": "none", "enable": "no hooks: contracts are attached to text extracted from /repo on every run, and searches compile a mirrored copy", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "Contracts live in vx/units; functions are cut out of /repo/src on every run. Every check also runs a counterexample search against the real code."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
except ImportError:
    pass
print(len(checks), "checks", len(na), "not applicable")
