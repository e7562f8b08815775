#!/usr/bin/env python3
"""Print planted bugs that change no line of the original repository (only lines added by this project's fix commits)."""
import os, subprocess
BASE = "923d68b"
D = "/verif/seeded"
for s in sorted(os.listdir(D)):
    path, orig, ok = None, set(), False
    for l in open("%s/%s/patch.diff" % (D, s)):
        if l.startswith("--- a/"):
            path = l[6:].strip()
            orig = set(x.strip() for x in subprocess.check_output(["git", "-C", "/repo", "show", "%s:%s" % (BASE, path)]).decode().splitlines())
        elif l.startswith("-") and not l.startswith("---"):
            if l[1:].strip() and l[1:].strip() in orig:
                ok = True
        
    if not ok:
        print(s)
