"""Write MANIFEST.json from properties.jsonl and the checks present."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
NOTE = {}
TECH = {}
exec(open(os.path.join(V, "tools", "notes.py")).read())
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)
    pid = p["id"]
    if os.path.exists(os.path.join(V, "mc", "checks", pid.lower() + ".py")):
        checks.append({
            "property": pid,
            "quick_cmd": "./run.sh %s --tier quick" % pid,
            "thorough_cmd": "./run.sh %s --tier thorough" % pid,
            "technique": TECH[pid],
            "level": "model_checking",
            "level_note": NOTE[pid],
        })
    else:
        na.append({"property": pid, "reason": NA.get(pid, "check not built yet")})
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
  "notes": "Every check executes the real code of /repo's working tree (pure Python, nothing to build); no hooks are compiled into /repo. known_findings.json lists recorded and repaired defects."},
  open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not applicable")
