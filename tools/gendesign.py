#!/usr/bin/env python3
"""Assemble DESIGN.md from design_head.md, design_text.py, the checks' bounds, known_findings.json and the planted-bug results."""
import json, os, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from design_text import TEXT, LIMITS
V = os.path.dirname(HERE)
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
code = "import sys,json,importlib;sys.path.insert(0,%r);sys.path.insert(0,'/repo')\nprint('@@'+json.dumps({p:getattr(importlib.import_module('mc.checks.'+p.lower()),'BOUNDS') for p in %r}))" % (V, [p for p in TEXT if os.path.exists(V + "/mc/checks/%s.py" % p.lower())])
raw = subprocess.check_output(["bash", "-c", ". /opt/vp/env.sh; PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -W ignore -c \"$0\" 2>/dev/null", code]).decode()
bounds = json.loads(raw.split("@@", 1)[1])
known = json.load(open(V + "/known_findings.json"))["findings"]
try:
    results = json.load(open(HERE + "/seed_results.json"))
except FileNotFoundError:
    results = {}
out = [open(HERE + "/design_head.md").read().rstrip(), "", "## Properties", ""]
for p in props:
    if p["id"] not in bounds:
        continue
    how, why = TEXT[p["id"]]
    b = bounds[p["id"]]
    out += ["### %s %s" % (p["id"], p["title"]), "",
            "*Decided by* `mc/checks/%s.py`: %s" % (p["id"].lower(), how),
            "*Beyond the tests:* %s" % why,
            "*Bounds, quick:* %s." % b["quick"].rstrip("."), "*Thorough:* %s." % b["thorough"].rstrip("."), ""]
out += [LIMITS.strip(), "", "## Genuine defects found and repaired (`fix:` commits in /repo; also in known_findings.json)", "", "| property | commit | what failed |", "|---|---|---|"]
for k in known:
    if k["status"] == "fixed":
        out.append("| %s | %s | %s |" % (k["property"], k["commit"], k["what"].replace("|", "\\|")))
out += ["", "Known findings left unrepaired: " + (", ".join(k["what"] for k in known if k["status"] == "known") or "none") + ".", "",
        "## Planted bugs (`seeded/`) and which checks catch them", "", "| planted bug | property | needs | its check |", "|---|---|---|---|"]
for s in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(V + "/seeded/%s/meta.json" % s))
    out.append("| %s | %s | %s | %s |" % (s, m["property"], m["needs"].replace("|", "\\|"), results.get(s, "?")))
out += ["", "(`tools/seed_check.sh` re-plays them: stable tests, demonstration on both trees, the property's check.)", ""]
open(V + "/DESIGN.md", "w").write("\n".join(out))
