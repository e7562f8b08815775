#!/usr/bin/env python3
"""Generate /verif/seeded/<id>/ from tools/seedspecs.py, in a scratch clone of /repo."""
import json, os, subprocess, sys, shutil, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seedspecs import SEEDS

DEMO_SH = """#!/bin/bash
# Run with cwd /repo: exits 0 when the property holds on this example, non-zero otherwise.
. /opt/vp/env.sh
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"
exec /opt/venv/bin/python -W ignore "$here/demo.py"
"""

def main(only):
    wt = tempfile.mkdtemp(prefix="mkseeds-")
    os.rmdir(wt)
    subprocess.check_call(["git", "clone", "-q", "/repo", wt])
    try:
        for s in SEEDS:
            if only and s["id"] not in only:
                continue
            for path, old, new in s["edits"]:
                p = os.path.join(wt, path)
                src = open(p, encoding="utf-8").read()
                n = src.count(old)
                if n != 1:
                    print("NOT FOUND", s["id"], path, n)
                open(p, "w", encoding="utf-8").write(src.replace(old, new))
            diff = subprocess.check_output(["git", "-C", wt, "diff"])
            subprocess.check_call(["git", "-C", wt, "checkout", "-q", "--", "."])
            d = os.path.join("/verif/seeded", s["id"])
            os.makedirs(d, exist_ok=True)
            open(d + "/patch.diff", "wb").write(diff)
            open(d + "/demo.sh", "w").write(DEMO_SH)
            os.chmod(d + "/demo.sh", 0o755)
            open(d + "/demo.py", "w").write(s["demo"].lstrip("\n"))
            json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                      open(d + "/meta.json", "w"), indent=1)
    finally:
        shutil.rmtree(wt)

main(set(sys.argv[1:]))
