#!/usr/bin/env python3
"""tools/origlines.py: lists planted bugs whose patches may touch no line of the original repository."""
import os, re, subprocess, sys
BASE = "eb3cb50"
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def blame(path):
    out = subprocess.run(["git", "-C", "/repo", "blame", "-s", "-l", "HEAD", "--", path], stdout=subprocess.PIPE, text=True).stdout
    base = subprocess.run(["git", "-C", "/repo", "rev-list", BASE], stdout=subprocess.PIPE, text=True).stdout.split()
    short = [b[:39] for b in base]
    return [l.split()[0].lstrip("^")[:39] in short for l in out.splitlines()]
cache = {}
for bug in sorted(os.listdir(VERIF + "/seeded")):
    path, orig, removed, near = None, 0, 0, []
    old = 0
    lines = open(VERIF + "/seeded/%s/patch.diff" % bug, errors="replace").read().splitlines()
    for i, l in enumerate(lines):
        if l.startswith("--- "):
            path = l[6:]
            if path not in cache: cache[path] = blame(path)
        elif l.startswith("@@"):
            old = int(re.match(r"@@ -(\d+)", l).group(1))
        elif l.startswith("+++") or path is None or l.startswith(("diff", "index")):
            pass
        elif l.startswith("-"):
            removed += 1
            orig += cache[path][old - 1]
            old += 1
        elif l.startswith("+"):
            near.append((cache[path][old - 2], cache[path][min(old, len(cache[path])) - 1]))
        else:
            old += 1
    print(bug, "removes %d, %d original;" % (removed, orig), "additions near original %d of %d" % (sum(a and b for a, b in near), len(near)),
          "" if orig or (not removed and any(a and b for a, b in near)) else " DOUBTFUL")
